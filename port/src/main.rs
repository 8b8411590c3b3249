//! port <seconds> <file> [aloud]: runs the lines of the file as long as there is time (see
//! harness::ops), prints how many, and those that answer otherwise; with "aloud", also each line
//! before it runs.
//! port oops <kind>: a memory error.
use std::time::{Duration, Instant};

fn main() {
    let t = Instant::now();
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "oops" {
        return harness::selftest::oops(&a[2]);
    }
    let limit = Duration::from_secs(a[1].parse().expect("seconds"));
    harness::engine::install_hook();
    let text = std::fs::read_to_string(&a[2]).expect("file");
    let (n, bad) = harness::ops::compare(&text, |line| {
        let more = t.elapsed() < limit;
        if more && a.len() > 3 {
            println!("on {line}");
        }
        more
    });
    println!("machine {}", harness::ops::machine());
    println!("ran {n}");
    for (line, got) in bad {
        println!("differs {line}\ngot {got}");
    }
}
