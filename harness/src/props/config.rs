//! C19: the same calls in other builds of the library. A case is a case of one of the other
//! properties; its calls run here and in peers, which are this program around the library built in
//! another configuration, and the transcripts that the facade records must be equal.
//! C23: the same with peers that are built for another machine.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::src::{set_cap, Src};
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, OnceLock};

pub struct C19;
pub struct C23;
/// C25: the same cases in a build with a sanitizer, which ends the process at the first bad access.
pub struct C25;

pub trait AnyCase: Debug + Send + Sync {
    fn run(&self) -> Log;
    /// Whether the case held, whatever it is about.
    fn holds(&self) -> bool;
}

/// (name of the call, hash of what it did)
pub type Log = Vec<(String, u64)>;

#[cfg(feature = "record")]
fn take() -> Log {
    facade::record::take().into_iter().map(|(n, h)| (n.to_string(), h)).collect()
}
#[cfg(not(feature = "record"))]
fn take() -> Log {
    panic!("this property needs the recording build")
}

struct Held<P: Prop>(P::Case);
impl<P: Prop> Debug for Held<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<P: Prop> AnyCase for Held<P> {
    fn run(&self) -> Log {
        take();
        // whether the inner property holds is not asked here
        let _ = P::check(&self.0, &mut Info::default());
        take()
    }
    fn holds(&self) -> bool {
        P::check(&self.0, &mut Info::default()).is_ok()
    }
}

#[derive(Clone)]
pub struct C19Case {
    which: usize,
    /// choices of the inner case, or the index of a fixed one
    inner: Result<Vec<u8>, u32>,
    long: bool,
    /// which peers are compared
    peers: [u8; 2],
    other_machine: bool,
    case: Arc<dyn AnyCase>,
}

impl Debug for C19Case {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} {:?} in {:?}", NAMES[self.which], self.case, self.peers.map(|p| peer_names().get(p as usize).cloned().unwrap_or_default()))
    }
}

/// Fixed cases that take long or are not about one call sequence.
fn heavy<C: Debug>(c: &C) -> bool {
    let d = format!("{c:?}");
    let name: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    if ["Limit", "Wide", "ZeroAad", "Far", "Threads", "Shared", "Reuse", "Jumps"].contains(&name.as_str()) {
        return true;
    }
    largest(&d) > 140_000
}

/// The largest number that looks like a length.
fn largest(d: &str) -> u64 {
    d.split(|c: char| !c.is_alphanumeric()).filter_map(|x| x.parse().ok()).max().unwrap_or(0)
}

fn fixed<P: Prop>() -> Vec<P::Case> {
    P::fixed(Tier::Quick).into_iter().filter(|c| !heavy(c)).collect()
}

struct Inner {
    gen: fn(&mut Src) -> Arc<dyn AnyCase>,
    fixed: fn() -> &'static [Arc<dyn AnyCase>],
}

macro_rules! inner {
    ($($p:ident $t:ty),*) => {
        const NAMES: &[&str] = &[$(stringify!($p)),*];
        const INNER: &[Inner] = &[$(Inner {
            gen: |s| {
                let mut c = <$t as Prop>::gen(s);
                // thread schedules are not part of this property
                for _ in 0..20 {
                    if !["Threads", "Shared", "Limit", "Wide", "Reuse", "Jumps"].iter().any(|x| format!("{c:?}").starts_with(x)) {
                        break;
                    }
                    c = <$t as Prop>::gen(s);
                }
                Arc::new(Held::<$t>(c))
            },
            fixed: || {
                static F: OnceLock<Vec<Arc<dyn AnyCase>>> = OnceLock::new();
                F.get_or_init(|| fixed::<$t>().into_iter().map(|c| Arc::new(Held::<$t>(c)) as Arc<dyn AnyCase>).collect())
            },
        }),*];
    };
}
inner! {
    C18 panics::C18, C01 hash::C01, C02 hash::C02, C03 hash::C03, C04 hash::C04, C05 hash::C05, C06 aead::C06, C07 aead::C07,
    C08 aead::C08, C09 aead::C09, C10 aead::C10, C11 stream::C11, C12 stream::C12, C13 dh::C13, C14 dh::C14, C15 ed::C15,
    C16 ed::C16, C17 ed::C17, C21 iso::C21
}

fn build(which: usize, inner: &Result<Vec<u8>, u32>, long: bool) -> Arc<dyn AnyCase> {
    match inner {
        Ok(b) => {
            set_cap(if long { usize::MAX } else { 1500 });
            let c = (INNER[which].gen)(&mut Src::replay(b));
            set_cap(usize::MAX);
            c
        }
        Err(i) => {
            let f = (INNER[which].fixed)();
            f[*i as usize].clone()
        }
    }
}

fn peer_paths() -> &'static [String] {
    static P: OnceLock<Vec<String>> = OnceLock::new();
    P.get_or_init(|| std::env::var("C19_PEERS").unwrap_or_default().split_whitespace().map(|x| x.to_string()).collect())
}
/// `name=path` items
fn peer_names() -> Vec<String> {
    peer_paths().iter().map(|p| p.split('=').next().unwrap_or("").to_string()).collect()
}

struct Peer {
    _child: Child,
    i: ChildStdin,
    o: ChildStdout,
}

thread_local! {
    static PEERS: RefCell<Vec<Option<Peer>>> = const { RefCell::new(vec![]) };
}

/// The hash of the case as the peer sees it, and its calls.
fn ask(k: usize, msg: &[u8]) -> Result<(u64, Log), String> {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        p.resize_with(peer_paths().len(), || None);
        let peer = p[k].get_or_insert_with(|| {
            let path = peer_paths()[k].split('=').nth(1).expect("peer path").to_string();
            let mut c = Command::new(path).arg("peer").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("peer");
            Peer { i: c.stdin.take().unwrap(), o: c.stdout.take().unwrap(), _child: c }
        });
        let mut go = || -> std::io::Result<(u64, Log)> {
            peer.i.write_all(&(msg.len() as u32).to_le_bytes())?;
            peer.i.write_all(msg)?;
            peer.i.flush()?;
            let mut b = [0; 4];
            peer.o.read_exact(&mut b)?;
            let mut log = vec![];
            let mut seen = [0; 8];
            peer.o.read_exact(&mut seen)?;
            let mut all = vec![0; u32::from_le_bytes(b) as usize];
            peer.o.read_exact(&mut all)?;
            let mut at = 0;
            while at < all.len() {
                let n = all[at] as usize;
                let name = String::from_utf8_lossy(&all[at + 1..at + 1 + n]).into_owned();
                log.push((name, u64::from_le_bytes(all[at + 1 + n..at + 9 + n].try_into().unwrap())));
                at += 9 + n;
            }
            Ok((u64::from_le_bytes(seen), log))
        };
        let r = go();
        if r.is_err() {
            p[k] = None;
        }
        r.map_err(|e| e.to_string())
    })
}

#[cfg(unix)]
extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn text_hash(c: &Arc<dyn AnyCase>) -> u64 {
    format!("{c:?}").bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// What a peer answers: the size of the log, the hash of the case, the log.
pub fn answer(msg: &[u8]) -> Vec<u8> {
    let inner = if msg[1] == 1 { Err(u32::from_le_bytes(msg[3..7].try_into().unwrap())) } else { Ok(msg[3..].to_vec()) };
    let case = build(msg[0] as usize, &inner, msg[2] == 1);
    let log = case.run();
    let mut r = vec![0; 4];
    r.extend(text_hash(&case).to_le_bytes());
    for (n, h) in log {
        r.push(n.len() as u8);
        r.extend(n.as_bytes());
        r.extend(h.to_le_bytes());
    }
    let n = r.len() as u32 - 12;
    r[..4].copy_from_slice(&n.to_le_bytes());
    r
}

/// The other end of `ask`.
pub fn peer() {
    // PR_SET_PDEATHSIG, SIGKILL: a peer that hangs must not outlive the run
    #[cfg(unix)]
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut b = [0; 4];
    while i.read_exact(&mut b).is_ok() {
        let mut msg = vec![0; u32::from_le_bytes(b) as usize];
        i.read_exact(&mut msg).expect("message");
        o.write_all(&answer(&msg)).expect("answer");
        o.flush().expect("answer");
    }
}

impl Prop for C19 {
    type Case = C19Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "Generated: the call sequences of the generators of all other properties and their fixed cases up to about a megabyte, each run in this build (no std, optimised, unchecked) and in two peer builds out of std/no std x opt-level 0/3 x overflow checks and debug assertions on/off, plus opt-level s and 1. Every public call is recorded (returned data, buffer contents after the call, whether it panicked), and the records must be equal call by call. Non-trivial: at least one recorded call beyond object creation; distinct by inner case and peers.";
    const CASES: (u64, u64) = (45_000, 3_000_000);

    fn fixed(_t: Tier) -> Vec<C19Case> {
        let n = peer_paths().len().max(1);
        let names = peer_names();
        let slow: Vec<bool> = names.iter().map(|x| x.starts_with("o0")).collect();
        let mut v = vec![];
        for (which, i) in INNER.iter().enumerate() {
            for (k, case) in (i.fixed)().iter().enumerate() {
                // one peer that differs in std and in checks, and the others in turn
                let big = largest(&format!("{case:?}")) > 20_000;
                let mut other = (k * 5 + which) % n;
                while big && slow.get(other) == Some(&true) {
                    other = (other + 1) % n;
                }
                let first = names.iter().position(|x| x == "o3-std-checked").unwrap_or(0);
                v.push(C19Case { which, inner: Err(k as u32), long: false, peers: [first as u8, other as u8], other_machine: false, case: case.clone() });
            }
        }
        v
    }

    fn gen(s: &mut Src) -> C19Case {
        let which = s.weighted(&[6, 3, 3, 3, 2, 3, 3, 3, 4, 3, 3, 2, 3, 3, 2, 3, 2, 4, 3]);
        let n = peer_paths().len().max(1);
        let peers = [s.below(n) as u8, s.below(n) as u8];
        let long = s.one_in(60);
        // the inner generator draws from the same choices, which are then known
        let from = s.pos;
        set_cap(if long { usize::MAX } else { 1500 });
        let case = (INNER[which].gen)(s);
        set_cap(usize::MAX);
        let mut b: Vec<u8> = s.buf.get(from..s.pos.min(s.buf.len())).unwrap_or(&[]).to_vec();
        b.resize(s.pos - from, 0);
        C19Case { which, inner: Ok(b), long, peers, other_machine: false, case }
    }

    fn check(c: &C19Case, i: &mut Info) -> Res {
        i.label(NAMES[c.which]);
        let mine = c.case.run();
        i.hit_if(mine.iter().any(|(n, _)| n != "new" && n != "sizes" && n != "in"), "calls compared");
        i.extra = mine.len() as u64 / 2;
        let mut msg = vec![c.which as u8, c.inner.is_err() as u8, c.long as u8];
        match &c.inner {
            Ok(b) => msg.extend(b),
            Err(i) => msg.extend(i.to_le_bytes()),
        }
        assert!(!peer_paths().is_empty(), "no peers");
        for p in if c.peers[0] == c.peers[1] { &c.peers[..1] } else { &c.peers[..] } {
            let p = *p;
            let name = &peer_names()[p as usize];
            i.label(Box::leak(name.clone().into_boxed_str()));
            let (case, theirs) = ask(p as usize, &msg).map_err(|e| Fail(format!("the build {name} does not survive the calls ({e})")))?;
            if case != text_hash(&c.case) {
                // lengths beyond the word size, or a fixed case that exists only here
                i.label("another case there");
                continue;
            }
            let mut same = true;
            for (k, (a, b)) in mine.iter().zip(&theirs).enumerate() {
                // a machine of another word size may make another case out of the choices
                if a != b && (a.0 == "in" || a.0 != b.0) && c.other_machine {
                    i.label("other calls there");
                    same = false;
                    break;
                }
                ensure!(a == b, "call {} ({}) gives another result in the build {name}", k / 2, a.0);
            }
            ensure!(!same || c.other_machine || mine.len() == theirs.len(), "{} calls here, {} in the build {name}", mine.len(), theirs.len());
        }
        Ok(())
    }
}

impl Prop for C23 {
    type Case = C19Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "Generated: the call sequences of the generators of all other properties and their fixed cases up to about a megabyte, each run here (64 bits, standard library) and in a peer compiled for 32-bit WebAssembly without std. Every public call is recorded (returned data, buffer contents after the call, whether it panicked), and the records must be equal call by call. Non-trivial: at least one recorded call beyond object creation; distinct by inner case.";
    const CASES: (u64, u64) = (150_000, 4_000_000);

    fn fixed(_t: Tier) -> Vec<C19Case> {
        let mut v = vec![];
        for (which, i) in INNER.iter().enumerate() {
            for (k, case) in (i.fixed)().iter().enumerate() {
                v.push(C19Case { which, inner: Err(k as u32), long: false, peers: [0, 0], other_machine: true, case: case.clone() });
            }
        }
        v
    }
    fn gen(s: &mut Src) -> C19Case {
        C19Case { other_machine: true, ..C19::gen(s) }
    }
    fn check(c: &C19Case, i: &mut Info) -> Res {
        C19::check(c, i)
    }
}

impl Prop for C25 {
    type Case = C19Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "Generated: the call sequences of the generators of all other properties and their fixed cases up to about a megabyte, with the library, the harness and the standard library compiled with a sanitizer, which ends the process where memory is misused. Every case is non-trivial; distinct by inner case.";
    const CASES: (u64, u64) = (60_000, 3_000_000);

    fn fixed(_t: Tier) -> Vec<C19Case> {
        let mut v = vec![];
        for (which, i) in INNER.iter().enumerate() {
            for (k, case) in (i.fixed)().iter().enumerate() {
                v.push(C19Case { which, inner: Err(k as u32), long: false, peers: [0, 0], other_machine: false, case: case.clone() });
            }
        }
        v
    }
    fn gen(s: &mut Src) -> C19Case {
        C19::gen(s)
    }
    fn check(c: &C19Case, i: &mut Info) -> Res {
        i.label(NAMES[c.which]);
        if !c.case.holds() {
            // for another property to say
            i.label("fails otherwise");
        }
        i.nontrivial = true;
        Ok(())
    }
}
