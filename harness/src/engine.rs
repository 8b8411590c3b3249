//! Runs one property: fixed cases, then generated cases on all cores, then shrinking.
use crate::src::{mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case fails: always a statement about the library, never about the harness.
#[derive(Clone, Debug)]
pub struct Fail(pub String);
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)+) => { if !$c { return Err($crate::engine::Fail(format!($($f)+))); } };
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_LIB: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let lib = IN_LIB.try_with(|x| *x.borrow()).unwrap_or(false);
        if lib {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or(i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{m}{at}")));
        } else {
            old(i)
        }
    }));
}

/// Runs library code; Err carries the panic message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| *x.borrow_mut() = false);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Runs library code that must return normally.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch(f).map_err(|m| Fail(format!("{what} panicked: {m}")))
}

/// What a check reports about its case.
#[derive(Default)]
pub struct Info {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// evaluations beyond the one case (enumerations inside a case)
    pub extra: u64,
    /// amounts, summed over the run
    pub counts: Vec<(&'static str, u64)>,
}

impl Info {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        self.counts.push((l, n));
    }
    /// label that makes the case non-trivial
    pub fn hit(&mut self, l: &'static str) {
        self.labels.push(l);
        self.nontrivial = true;
    }
    pub fn hit_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.hit(l);
        }
    }
}

pub trait Prop: Sync {
    type Case: Debug + Clone + Send + Sync;
    const ID: &'static str;
    /// what is generated and which cases count as non-trivial
    const RULE: &'static str;
    /// (quick, thorough) number of generated cases per build
    const CASES: (u64, u64);
    fn gen(s: &mut Src) -> Self::Case;
    fn fixed(_t: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn check(c: &Self::Case, i: &mut Info) -> Res;
}

#[derive(Default)]
pub struct Stats {
    evals: u64,
    pub labels: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub struct Violation {
    pub msg: String,
    pub case: String,
    pub origin: String,
    pub choices: Option<Vec<u8>>,
    pub shrunk_by: u64,
}

pub struct Outcome {
    pub json: String,
    pub violation: Option<Violation>,
}

pub fn one<P: Prop>(c: &P::Case, st: &mut Stats, sample: bool) -> Res {
    let mut i = Info::default();
    let r = P::check(c, &mut i);
    st.evals += 1 + i.extra;
    for l in i.labels {
        *st.labels.entry(l).or_default() += 1;
    }
    for (l, n) in i.counts {
        *st.labels.entry(l).or_default() += n;
    }
    if i.nontrivial {
        let d = format!("{c:?}");
        if st.distinct.insert(hash_str(&d)) && sample && st.samples.len() < 2 {
            st.samples.push(clip(&d));
        }
    }
    r
}

fn clip(s: &str) -> String {
    if s.len() <= 700 {
        return s.to_string();
    }
    let mut e = 650;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} characters)", &s[..e], s.len())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn case_seed(id: &str, stage: &str, seed: u64, i: u64) -> u64 {
    mix(mix(hash_fnv(id.as_bytes()) ^ hash_fnv(stage.as_bytes()).rotate_left(32) ^ mix(seed)) ^ i)
}

fn hash_fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub stage: String,
    pub cases: Option<u64>,
    pub threads: usize,
    pub fixed: bool,
    pub scale: f64,
    /// file that holds the index each thread works on, readable after a crash
    pub journal: Option<String>,
    /// file with the choices to make one case from, in place of its index
    pub choices: Option<String>,
    /// file that receives the hashes of the distinct non-trivial cases
    pub hashes: Option<String>,
    /// receives the violation when a call does not return
    pub on_hang: fn(&Opts, Violation) -> !,
    pub args: Vec<String>,
}

/// Seconds one case may take before its call is said not to return. The longest case takes a
/// few seconds in quick runs.
pub const HANG: (u64, u64) = (420, 3600);

#[cfg(unix)]
extern "C" {
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

#[cfg(not(unix))]
pub fn shared(_: &Option<String>, n: usize) -> *mut u8 {
    vec![0u64; n.div_ceil(8)].leak().as_mut_ptr() as *mut u8
}

/// Zeroed memory, a shared mapping of the file if a path is given.
#[cfg(unix)]
pub fn shared(path: &Option<String>, n: usize) -> *mut u8 {
    use std::os::fd::IntoRawFd;
    // PROT_READ | PROT_WRITE; MAP_SHARED or MAP_PRIVATE | MAP_ANONYMOUS
    let q = match path {
        Some(p) => {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).expect("journal");
            f.set_len(n as u64).expect("journal");
            unsafe { mmap(std::ptr::null_mut(), n, 3, 1, f.into_raw_fd(), 0) }
        }
        None => unsafe { mmap(std::ptr::null_mut(), n, 3, 0x22, -1, 0) },
    };
    assert!(q as isize != -1, "journal");
    q
}

fn journal(path: &Option<String>, n: usize) -> &'static [AtomicU64] {
    unsafe { std::slice::from_raw_parts(shared(path, 8 * n) as *const AtomicU64, n) }
}

/// The case at an index of a run, with the choices it was made from.
pub fn case_at<P: Prop>(o: &Opts, index: u64) -> (P::Case, String, Option<Vec<u8>>) {
    if let Some(f) = &o.choices {
        let b = std::fs::read(f).expect("choices");
        return (P::gen(&mut Src::replay(&b)), format!("stage {} seed {}", o.stage, o.seed), Some(b));
    }
    let fixed = if o.fixed { P::fixed(o.tier) } else { vec![] };
    if let Some(c) = fixed.get(index as usize) {
        return (c.clone(), format!("fixed:{index}"), None);
    }
    let j = index - fixed.len() as u64;
    let mut s = Src::random(case_seed(P::ID, &o.stage, o.seed, j));
    let c = P::gen(&mut s);
    (c, format!("stage {} seed {} index {j}", o.stage, o.seed), Some(s.buf))
}

/// Runs one case only; None if the property holds.
pub fn run_index<P: Prop>(o: &Opts, index: u64) -> Option<Violation> {
    let (c, origin, choices) = case_at::<P>(o, index);
    let r = one::<P>(&c, &mut Stats::default(), false);
    r.err().map(|f| Violation { msg: f.0, case: format!("{c:?}"), origin, choices, shrunk_by: 0 })
}

/// A violation that stands for the case itself.
pub fn blame<P: Prop>(o: &Opts, index: u64, msg: &str) -> Violation {
    let (c, origin, choices) = case_at::<P>(o, index);
    Violation { msg: msg.into(), case: format!("{c:?}"), origin, choices, shrunk_by: 0 }
}

/// The same for a case that brings the process down, made smaller by trying each candidate in a
/// process of its own.
pub fn blame_crash<P: Prop>(o: &Opts, index: u64, msg: &str) -> Violation {
    let v = blame::<P>(o, index, msg);
    let Some(buf) = &v.choices else { return v };
    let s = shrink_by::<P>(buf.clone(), &case_at::<P>(o, index).0, |b| dies::<P>(b).map(|(c, used)| (c, msg.to_string(), used)));
    // what takes more than one thread stays as it was found
    if s.msg != msg { v } else { Violation { origin: v.origin, ..s } }
}

#[cfg(not(unix))]
fn dies<P: Prop>(_: &[u8]) -> Option<(P::Case, Vec<u8>)> {
    None
}

#[cfg(unix)]
fn dies<P: Prop>(b: &[u8]) -> Option<(P::Case, Vec<u8>)> {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(status: i32) -> !;
        fn alarm(seconds: u32) -> u32;
    }
    let mut s = Src::replay(b);
    let c = P::gen(&mut s);
    let mut status = 0;
    // this thread is the only one
    unsafe {
        let pid = fork();
        if pid == 0 {
            alarm(60);
            let _ = one::<P>(&c, &mut Stats::default(), false);
            _exit(0);
        }
        assert!(pid > 0 && waitpid(pid, &mut status, 0) == pid, "fork");
    }
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    [4, 6, 7, 8, 11].contains(&(status & 0x7f)).then(|| (c, used(b, s.pos)))
}

/// The choices that were made; trailing zeros are implied.
fn used(b: &[u8], pos: usize) -> Vec<u8> {
    let mut u = b.to_vec();
    u.resize(pos, 0);
    while u.last() == Some(&0) {
        u.pop();
    }
    u
}

pub fn run<P: Prop>(o: &Opts) -> Outcome {
    let start = std::time::Instant::now();
    let fixed = if o.fixed { P::fixed(o.tier) } else { vec![] };
    let (q, t) = P::CASES;
    let base = if o.tier == Tier::Quick { q } else { t };
    let n = o.cases.unwrap_or((base as f64 * o.scale) as u64);
    let total = fixed.len() as u64 + n;
    let next = AtomicU64::new(0);
    // first failing index, so that the reported violation does not depend on scheduling
    let bad = AtomicU64::new(u64::MAX);
    let all = Mutex::new(Stats::default());
    let done = AtomicUsize::new(0);
    let beat: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    let cur = journal(&o.journal, o.threads);
    let step = (total / (o.threads as u64 * 64)).clamp(1, 64);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for k in 0..o.threads {
            let (fixed, next, bad, all, done, beat, cur) = (&fixed, &next, &bad, &all, &done, &beat, &cur);
            hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                let _d = Done(done);
                let mut st = Stats::default();
                'outer: loop {
                    // fixed cases one at a time (they may be long), generated ones in batches
                    let mut a = next.load(Ordering::Relaxed);
                    let b = loop {
                        let b = if a < fixed.len() as u64 { a + 1 } else { a + step };
                        match next.compare_exchange_weak(a, b, Ordering::Relaxed, Ordering::Relaxed) {
                            Ok(_) => break b,
                            Err(x) => a = x,
                        }
                    };
                    for i in a..b.min(total) {
                        if i > bad.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        cur[k].store(i + 1, Ordering::Relaxed);
                        beat[k].store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
                        let r = if i < fixed.len() as u64 {
                            one::<P>(&fixed[i as usize], &mut st, i % 97 == 3)
                        } else {
                            let j = i - fixed.len() as u64;
                            let c = P::gen(&mut Src::random(case_seed(P::ID, &o.stage, o.seed, j)));
                            one::<P>(&c, &mut st, j % 31 == 7)
                        };
                        if r.is_err() {
                            bad.fetch_min(i, Ordering::Relaxed);
                        }
                    }
                    if a >= total {
                        break;
                    }
                }
                beat[k].store(0, Ordering::Relaxed);
                cur[k].store(0, Ordering::Relaxed);
                all.lock().unwrap().merge(st);
            }).expect("spawn"));
        }
        // watchdog
        while done.load(Ordering::Relaxed) < o.threads {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let now = start.elapsed().as_secs() + 1;
            let hang = if o.tier == Tier::Quick { HANG.0 } else { HANG.1 };
            for (b, c) in beat.iter().zip(cur) {
                let b = b.load(Ordering::Relaxed);
                if b != 0 && now > b + hang {
                    let v = blame::<P>(o, c.load(Ordering::Relaxed).saturating_sub(1), &format!("a call has not returned for {hang} s"));
                    (o.on_hang)(o, v);
                }
            }
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness panic in {}", P::ID);
                std::process::exit(2);
            }
        }
    });
    let st = all.into_inner().unwrap();
    let b = bad.into_inner();
    let violation = (b != u64::MAX).then(|| {
        let mut scratch = Stats::default();
        if b < fixed.len() as u64 {
            let c = &fixed[b as usize];
            let r = one::<P>(c, &mut scratch, false);
            Violation {
                msg: r.err().map_or("not reproduced on repetition".into(), |f| f.0),
                case: format!("{c:?}"),
                origin: format!("fixed:{b}"),
                choices: None,
                shrunk_by: 0,
            }
        } else {
            let j = b - fixed.len() as u64;
            let mut s = Src::random(case_seed(P::ID, &o.stage, o.seed, j));
            let c = P::gen(&mut s);
            let mut v = shrink::<P>(s.buf, &c);
            v.origin = format!("stage {} seed {} index {j}", o.stage, o.seed);
            v
        }
    });
    Outcome { json: report::<P>(o, st, fixed.len(), n, start), violation }
}

/// What a run covered.
pub fn report<P: Prop>(o: &Opts, mut st: Stats, fixed: usize, n: u64, start: std::time::Instant) -> String {
    st.samples.sort();
    let k = st.samples.len().div_ceil(4).max(1);
    let samples: Vec<String> = st.samples.iter().step_by(k).map(|s| jstr(s)).collect();
    if let Some(f) = &o.hashes {
        let b: Vec<u8> = st.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(f, b).expect("hashes");
    }
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
    format!(
        "{{\"property\":\"{}\",\"stage\":{},\"fixed\":{},\"generated\":{n},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"labels\":{{{}}},\"samples\":[{}],\"wall_s\":{:.2}}}",
        P::ID,
        jstr(&o.stage),
        fixed,
        st.evals,
        st.distinct.len(),
        jstr(P::RULE),
        labels.join(","),
        samples.join(","),
        start.elapsed().as_secs_f64()
    )
}

struct Done<'a>(&'a AtomicUsize);
impl Drop for Done<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

fn attempt<P: Prop>(b: &[u8]) -> Option<(P::Case, String, Vec<u8>)> {
    let mut s = Src::replay(b);
    let c = P::gen(&mut s);
    let mut st = Stats::default();
    let f = one::<P>(&c, &mut st, false).err()?;
    Some((c, f.0, used(b, s.pos)))
}

/// Greedy shrinking of the choice bytes: shorter first, then smaller.
pub fn shrink<P: Prop>(buf: Vec<u8>, c: &P::Case) -> Violation {
    shrink_by::<P>(buf, c, attempt::<P>)
}

fn shrink_by<P: Prop>(buf: Vec<u8>, c: &P::Case, attempt: impl Fn(&[u8]) -> Option<(P::Case, String, Vec<u8>)>) -> Violation {
    let Some((mut case, mut msg, mut best)) = attempt(&buf) else {
        return Violation {
            msg: "failed once but not on repetition from the same choices".into(),
            case: format!("{c:?}"),
            origin: String::new(),
            choices: Some(buf),
            shrunk_by: 0,
        };
    };
    let t0 = std::time::Instant::now();
    let budget = std::time::Duration::from_secs(30);
    let mut tries = 0u64;
    let mut steps = 0u64;
    'again: loop {
        let mut progress = false;
        let mut cand: Vec<Vec<u8>> = vec![];
        let n = best.len();
        // delete spans
        let mut w = n;
        while w >= 1 {
            let mut i = 0;
            while i + w <= n && cand.len() < 4000 {
                let mut b = best.clone();
                b.drain(i..i + w);
                cand.push(b);
                i += w;
            }
            w /= 2;
        }
        // zero spans
        let mut w = n;
        while w >= 1 {
            let mut i = 0;
            while i + w <= n && cand.len() < 8000 {
                if best[i..i + w].iter().any(|x| *x != 0) {
                    let mut b = best.clone();
                    b[i..i + w].fill(0);
                    cand.push(b);
                }
                i += w;
            }
            w /= 2;
        }
        // smaller bytes
        for i in 0..n.min(400) {
            for v in [best[i] / 2, best[i].wrapping_sub(1), 1] {
                if v < best[i] {
                    let mut b = best.clone();
                    b[i] = v;
                    cand.push(b);
                }
            }
        }
        for b in cand {
            if t0.elapsed() > budget || tries > 20_000 {
                break 'again;
            }
            tries += 1;
            if let Some((c, m, used)) = attempt(&b) {
                let smaller = used.len() < best.len() || (used.len() == best.len() && used < best);
                if smaller {
                    (case, msg, best) = (c, m, used);
                    steps += 1;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            break;
        }
    }
    Violation { msg, case: format!("{case:?}"), origin: String::new(), choices: Some(best), shrunk_by: steps }
}

/// Re-runs a recorded case.
pub fn replay<P: Prop>(origin: &str, choices: Option<&[u8]>, tier: Tier) -> Result<String, (String, String)> {
    let c = match choices {
        Some(b) => P::gen(&mut Src::replay(b)),
        None => {
            let i: usize = origin.strip_prefix("fixed:").and_then(|x| x.parse().ok()).expect("origin");
            P::fixed(tier)[i].clone()
        }
    };
    let mut st = Stats::default();
    match one::<P>(&c, &mut st, false) {
        Ok(()) => Ok(format!("{c:?}")),
        Err(f) => Err((format!("{c:?}"), f.0)),
    }
}
