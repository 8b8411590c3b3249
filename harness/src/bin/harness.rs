//! harness run <ID> --tier T --seed N --stage NAME --out FILE [--cases N] [--scale F] [--no-fixed]
//! harness replay <FILE>
use harness::engine::*;
use harness::props;
use harness::src::{hex, unhex};

macro_rules! dispatch {
    ($id:expr, $p:ident => $e:expr) => {
        match $id {
            "C01" => { type $p = props::hash::C01; $e }
            "C02" => { type $p = props::hash::C02; $e }
            "C03" => { type $p = props::hash::C03; $e }
            "C04" => { type $p = props::hash::C04; $e }
            "C05" => { type $p = props::hash::C05; $e }
            "C06" => { type $p = props::aead::C06; $e }
            "C07" => { type $p = props::aead::C07; $e }
            "C08" => { type $p = props::aead::C08; $e }
            "C09" => { type $p = props::aead::C09; $e }
            "C10" => { type $p = props::aead::C10; $e }
            "C11" => { type $p = props::stream::C11; $e }
            "C12" => { type $p = props::stream::C12; $e }
            "C13" => { type $p = props::dh::C13; $e }
            "C14" => { type $p = props::dh::C14; $e }
            "C15" => { type $p = props::ed::C15; $e }
            "C16" => { type $p = props::ed::C16; $e }
            "C17" => { type $p = props::ed::C17; $e }
            "C18" => { type $p = props::panics::C18; $e }
            "C19" => { type $p = props::config::C19; $e }
            #[cfg(feature = "trace")]
            "C20" => { type $p = props::ct::C20; $e }
            "C21" => { type $p = props::iso::C21; $e }
            #[cfg(feature = "generic")]
            "C22" => { type $p = props::generic::C22; $e }
            "C23" => { type $p = props::config::C23; $e }
            #[cfg(feature = "work")]
            "C24" => { type $p = props::cost::C24; $e }
            "C25" => { type $p = props::config::C25; $e }
            x => { eprintln!("unknown property {x}"); std::process::exit(2) }
        }
    };
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn write_replay(o: &Opts, v: &Violation) {
    let file = arg(&o.args, "--replay").expect("--replay");
    let text = format!(
        "property: {}\ntier: {:?}\norigin: {}\nchoices: {}\nshrink steps: {}\nfailure: {}\ncase: {}\n",
        o.args[2],
        o.tier,
        v.origin,
        v.choices.as_ref().map_or("-".into(), |c| format!("x{}", hex(c))),
        v.shrunk_by,
        v.msg.replace('\n', " "),
        v.case
    );
    std::fs::write(&file, text).expect("write");
    println!("failure: {}", v.msg);
}

fn hung(o: &Opts, v: Violation) -> ! {
    write_replay(o, &v);
    std::process::exit(1)
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| arg(&a, k);
    let opts = || Opts {
        tier: if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        stage: get("--stage").unwrap_or("main".into()),
        cases: get("--cases").and_then(|x| x.parse().ok()),
        threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
        fixed: !a.iter().any(|x| x == "--no-fixed"),
        scale: get("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0),
        journal: get("--journal"),
        choices: get("--choices"),
        hashes: get("--hashes"),
        on_hang: hung,
        args: a.clone(),
    };
    match a.get(1).map(|x| x.as_str()) {
        Some("run") => {
            let o = opts();
            let out = get("--out").expect("--out");
            #[cfg(not(feature = "cov"))]
            let r = dispatch!(a[2].as_str(), P => run::<P>(&o));
            #[cfg(feature = "cov")]
            let r = dispatch!(a[2].as_str(), P => harness::fuzz::run_fuzz::<P>(&o));
            std::fs::write(&out, &r.json).expect("write");
            if let Some(v) = r.violation {
                write_replay(&o, &v);
                std::process::exit(1);
            }
        }
        // one case by its index in a run
        Some("one") => {
            let o = opts();
            let i = get("--index").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(v) = dispatch!(a[2].as_str(), P => run_index::<P>(&o, i)) {
                write_replay(&o, &v);
                std::process::exit(1);
            }
        }
        // write the replay file of a case that brings the process down
        Some("blame") => {
            let o = opts();
            let i = get("--index").and_then(|x| x.parse().ok()).unwrap_or(0);
            let v = dispatch!(a[2].as_str(), P => blame_crash::<P>(&o, i, &get("--msg").expect("--msg")));
            write_replay(&o, &v);
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).expect("field");
            let id = field("property:");
            let tier = if field("tier:") == "Thorough" { Tier::Thorough } else { Tier::Quick };
            let ch = field("choices:");
            let ch = ch.strip_prefix('x').map(|h| unhex(h).expect("choices"));
            let o = field("origin:");
            match dispatch!(id.as_str(), P => replay::<P>(&o, ch.as_deref(), tier)) {
                Ok(c) => println!("holds for {c}"),
                Err((c, m)) => {
                    println!("case: {c}\nfailure: {m}");
                    std::process::exit(1);
                }
            }
        }
        // number of distinct hashes in several files
        Some("union") => {
            let mut v: Vec<u64> = vec![];
            for f in &a[2..] {
                v.extend(std::fs::read(f).expect("hashes").chunks(8).map(|c| u64::from_le_bytes(c.try_into().expect("eight bytes"))));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        // a process that a sanitizer must bring down
        Some("oops") => harness::selftest::oops(&a[2]),
        Some("selftest") => match harness::selftest::run(include_str!("../../../refs/vectors/openssl.txt")) {
            Ok(n) => println!("{n} vectors agree"),
            Err(e) => {
                eprintln!("reference implementation disagrees with OpenSSL: {e}");
                std::process::exit(2)
            }
        },
        // operations with the answers of this machine: a range of a run, a given one, or those that
        // are smaller than it
        Some("ops") => {
            let n = |i: usize| a[i].parse::<u64>().expect("number");
            (n(3)..n(4)).map(|k| harness::ops::gen(n(2), k)).for_each(|l| println!("{l} = {}", harness::ops::run(&l)));
        }
        Some("op") => println!("{} = {}", a[2], harness::ops::run(&a[2])),
        Some("ops-smaller") => harness::ops::smaller(&a[2]).iter().for_each(|l| println!("{l} = {}", harness::ops::run(l))),
        Some("peer") => props::config::peer(),
        Some("limit-child") => props::panics::limit_child(&a[2..]),
        _ => std::process::exit(2),
    }
}
