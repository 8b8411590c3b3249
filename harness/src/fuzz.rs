//! Coverage-guided search (feature `cov`): choice streams that reach new edges, new counts or
//! closer comparisons in the library are kept and mutated. Threads work in rounds and share what
//! they found in a fixed order, so a run is determined by its seed.
use crate::cov;
use crate::engine::*;
use crate::src::{len_choices, mix, Rng, Src};
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

const ROUNDS: u64 = 12;
/// choices kept of a running case, for the replay of one that does not return
const KEEP: usize = 1 << 16;

#[derive(Clone)]
struct Entry {
    buf: Vec<u8>,
    lens: Vec<(usize, usize)>,
    pairs: Vec<(u64, u64, u8)>,
    cost: u64,
}

#[derive(Clone)]
struct Pool {
    seen: Vec<u8>,
    entries: Vec<Entry>,
    consts: BTreeSet<u64>,
}

impl Pool {
    fn fresh(&mut self, f: &[u32]) -> usize {
        let mut n = 0;
        for &x in f {
            let (i, m) = (x as usize / 8, 1u8 << (x % 8));
            if self.seen[i] & m == 0 {
                self.seen[i] |= m;
                n += 1;
            }
        }
        n
    }
}

fn at(r: &mut Rng, n: usize) -> usize {
    (mix(r.next()) % n.max(1) as u64) as usize
}

fn insert_value(r: &mut Rng, b: &mut Vec<u8>, v: u64, width: usize) {
    let mut w = v.to_le_bytes()[..width].to_vec();
    if at(r, 2) == 1 {
        w.reverse();
    }
    if b.len() < width {
        return;
    }
    let i = at(r, b.len() - width + 1);
    b[i..i + width].copy_from_slice(&w);
}

fn mutate(r: &mut Rng, pool: &Pool, consts: &[u64]) -> Vec<u8> {
    // the cheaper of two, the newer ones more often
    let n = pool.entries.len();
    let pick = |r: &mut Rng| if at(r, 3) == 0 { n - 1 - at(r, n.min(64)) } else { at(r, n) };
    let (a, c) = (pick(r), pick(r));
    let e = &pool.entries[if pool.entries[a].cost <= pool.entries[c].cost { a } else { c }];
    let mut b = e.buf.clone();
    let mut lens = e.lens.clone();
    for _ in 0..1 + at(r, 4) {
        if b.is_empty() {
            break;
        }
        match at(r, 12) {
            0 => {
                let i = at(r, b.len());
                b[i] ^= 1 << at(r, 8);
            }
            1 => {
                let i = at(r, b.len());
                b[i] = mix(r.next()) as u8;
            }
            2 => {
                let i = at(r, b.len());
                b[i] = b[i].wrapping_add(if at(r, 2) == 0 { 1 } else { 255 });
            }
            3 => {
                let i = at(r, b.len());
                let k = at(r, 16.min(b.len() - i)) + 1;
                let k = k.min(b.len() - i);
                b.drain(i..i + k);
                lens.clear();
            }
            4 => {
                let i = at(r, b.len());
                let mut v = vec![0; 1 + at(r, 16)];
                r.fill(&mut v);
                b.splice(i..i, v);
                lens.clear();
            }
            5 => {
                let i = at(r, b.len());
                let k = (at(r, 32) + 1).min(b.len() - i);
                let fill = [0, 0xff, 0x80, 1][at(r, 4)];
                b[i..i + k].fill(fill);
            }
            6 => {
                // the tail of another entry
                let o = &pool.entries[at(r, n)].buf;
                let i = at(r, b.len());
                b.truncate(i);
                if i < o.len() {
                    b.extend(&o[i..]);
                }
                lens.clear();
            }
            7 => {
                // copy within
                let (i, j) = (at(r, b.len()), at(r, b.len()));
                let k = (at(r, 32) + 1).min(b.len() - i.max(j));
                b.copy_within(i..i + k, j);
            }
            8 | 9 => {
                // a length taken from the code's constants, from another place, or at random
                if lens.is_empty() {
                    continue;
                }
                let k = at(r, lens.len());
                let (i, j) = lens[k];
                if j > b.len() || i > j {
                    continue;
                }
                let v = match at(r, 4) {
                    0 => mix(r.next()) >> (47 + at(r, 17)),
                    1 if !e.pairs.is_empty() => e.pairs[at(r, e.pairs.len())].1 & 0x1_ffff,
                    _ if consts.is_empty() => 0,
                    _ => {
                        let v = consts[at(r, consts.len())];
                        (if v < 1 << 18 { v } else { v & 0xffff }).wrapping_add(at(r, 3) as u64).wrapping_sub(1)
                    }
                };
                b.splice(i..j, len_choices(v as u32));
                lens.clear();
            }
            10 => {
                // one operand of a comparison replaced with the other
                if e.pairs.is_empty() {
                    continue;
                }
                let (x, y, w) = e.pairs[at(r, e.pairs.len())];
                let (x, y) = if at(r, 2) == 0 { (x, y) } else { (y, x) };
                let w = (w as usize).clamp(1, 8);
                let mut put = false;
                for rev in [false, true] {
                    let mut p = x.to_le_bytes()[..w].to_vec();
                    let mut q = y.to_le_bytes()[..w].to_vec();
                    if rev {
                        p.reverse();
                        q.reverse();
                    }
                    if let Some(i) = b.windows(w).position(|z| z == p) {
                        b[i..i + w].copy_from_slice(&q);
                        put = true;
                        break;
                    }
                }
                if !put {
                    insert_value(r, &mut b, y, w);
                }
            }
            _ => {
                if consts.is_empty() {
                    continue;
                }
                let v = consts[at(r, consts.len())];
                let w = [1, 2, 4, 8][at(r, 4)];
                insert_value(r, &mut b, v, w);
            }
        }
    }
    b
}

/// What a thread works on: since when, and the choices, in memory that outlives the process if a
/// journal is asked for.
struct Slot {
    beat: AtomicU64,
    at: usize,
}

impl Slot {
    fn put(&self, b: &[u8]) {
        let n = b.len().min(KEEP);
        unsafe {
            let p = self.at as *mut u8;
            (p as *mut u32).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(4), n);
        }
    }
    fn get(&self) -> Vec<u8> {
        unsafe {
            let p = self.at as *const u8;
            let n = (p as *const u32).read_volatile() as usize;
            std::slice::from_raw_parts(p.add(4), n.min(KEEP)).to_vec()
        }
    }
}

pub fn run_fuzz<P: Prop>(o: &Opts) -> Outcome {
    let start = std::time::Instant::now();
    let (q, t) = P::CASES;
    let base = if o.tier == Tier::Quick { q } else { t };
    let n = o.cases.unwrap_or((base as f64 * o.scale) as u64);
    let per = n.div_ceil(o.threads as u64 * ROUNDS).max(1);
    let mut pool = Pool { seen: vec![0; cov::FEATURES / 8], entries: vec![], consts: BTreeSet::new() };
    let mut all = Stats::default();
    let mut found: Option<(P::Case, Vec<u8>)> = None;
    let mut execs = 0;
    let map = shared(&o.journal, o.threads * (KEEP + 4)) as usize;
    let slots: Vec<Slot> = (0..o.threads).map(|k| Slot { beat: AtomicU64::new(0), at: map + k * (KEEP + 4) }).collect();
    let over = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let (slots, over) = (&slots, &over);
        sc.spawn(move || {
            while !over.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let now = start.elapsed().as_secs() + 1;
                let hang = if o.tier == Tier::Quick { HANG.0 } else { HANG.1 };
                for s in slots {
                    let b = s.beat.load(Ordering::Relaxed);
                    if b != 0 && now > b + hang {
                        let choices = s.get();
                        let case = format!("{:?}", P::gen(&mut Src::replay(&choices)));
                        let msg = format!("a call has not returned for {hang} s");
                        (o.on_hang)(o, Violation { msg, case, origin: format!("stage {} seed {}", o.stage, o.seed), choices: Some(choices), shrunk_by: 0 });
                    }
                }
            }
        });
        for round in 0..ROUNDS {
            let consts: Vec<u64> = pool.consts.iter().copied().collect();
            let results: Vec<_> = std::thread::scope(|rs| {
                let mut hs = vec![];
                for k in 0..o.threads {
                    let (base, consts) = (&pool, &consts);
                    hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(rs, move || {
                        let mut mine = base.clone();
                        let known = mine.entries.len();
                        let mut st = Stats::default();
                        let mut r = Rng::new(case_seed(P::ID, &o.stage, o.seed, round << 32 | k as u64));
                        let mut bad = None;
                        for _ in 0..per {
                            let buf = if mine.entries.len() < 16 || at(&mut r, 5) == 0 { vec![] } else { mutate(&mut r, &mine, consts) };
                            let mut s = Src::extend(buf, r.next());
                            let c = P::gen(&mut s);
                            s.buf.truncate(s.pos);
                            slots[k].put(&s.buf);
                            slots[k].beat.store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
                            let (res, seen) = cov::observe(|| one::<P>(&c, &mut st, true));
                            if res.is_err() {
                                bad = Some((c, s.buf));
                                break;
                            }
                            if mine.fresh(&seen.features) > 0 {
                                let mut pairs = seen.pairs;
                                let set: HashSet<_> = pairs.drain(..).collect();
                                pairs.extend(set);
                                pairs.sort_unstable();
                                mine.consts.extend(seen.consts.into_iter().filter(|v| *v > 1));
                                // a spread of them
                                let step = pairs.len().div_ceil(64).max(1);
                                let pairs = pairs.into_iter().step_by(step).collect();
                                mine.entries.push(Entry { buf: s.buf, lens: s.lens, pairs, cost: seen.cost });
                            }
                        }
                        slots[k].beat.store(0, Ordering::Relaxed);
                        (mine.entries.split_off(known), mine.seen, mine.consts, st, bad)
                    }).expect("spawn"));
                }
                hs.into_iter().map(|h| h.join()).collect()
            });
            for r in results {
                let Ok((entries, seen, consts, st, bad)) = r else {
                    eprintln!("harness panic in {}", P::ID);
                    std::process::exit(2);
                };
                execs += per;
                // kept if it has something the threads before did not find
                let news = pool.seen.iter().zip(&seen).any(|(a, b)| b & !a != 0);
                if news {
                    pool.entries.extend(entries);
                    for (a, b) in pool.seen.iter_mut().zip(&seen) {
                        *a |= b;
                    }
                }
                pool.consts.extend(consts);
                all.merge(st);
                if found.is_none() {
                    found = bad;
                }
            }
            if found.is_some() {
                break;
            }
        }
        over.store(true, Ordering::Relaxed);
    });
    let features: u32 = pool.seen.iter().map(|x| x.count_ones()).sum();
    let edges: usize = pool.seen[..cov::edges() as usize + 1].iter().filter(|x| **x != 0).count();
    all.labels.clear();
    for (k, v) in [("fuzzing: executions", execs), ("fuzzing: kept inputs", pool.entries.len() as u64), ("fuzzing: features", features as u64), ("fuzzing: edges reached", edges as u64), ("fuzzing: edges", cov::edges() as u64), ("fuzzing: constants", pool.consts.len() as u64)] {
        all.labels.insert(k, v);
    }
    let violation = found.map(|(c, buf)| {
        let mut v = shrink::<P>(buf, &c);
        v.origin = format!("stage {} seed {}", o.stage, o.seed);
        v
    });
    Outcome { json: report::<P>(o, all, 0, execs, start), violation }
}
