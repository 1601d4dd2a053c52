//! verif_replay list
//! verif_replay run <harness> <file: one hex value per line>   exit 1: property broken, 77: values not admissible, 0: holds
//! verif_replay random <seed> <runs> <prefix>...               random native runs of the harnesses
use std::panic::{catch_unwind, AssertUnwindSafe};
use verif_harness::{nd, MustNotReach};

enum Outcome { Holds, Inadmissible, Broken(String) }

fn run(f: fn(), refuses: bool) -> Outcome {
    nd::TRACE.with(|t| t.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Outcome::Holds,
        Err(p) => {
            if p.is::<nd::AssumeFailed>() { return Outcome::Inadmissible; }
            if let Some(m) = p.downcast_ref::<MustNotReach>() { return Outcome::Broken(m.0.to_string()); }
            if refuses { return Outcome::Holds; }
            let m = p.downcast_ref::<String>().cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Outcome::Broken(m)
        }
    }
}
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all = verif_harness::all();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "list" => for (n, _) in all { println!("{}", n); },
        "run" => {
            let (n, f) = all.into_iter().find(|x| x.0 == a[2]).expect("no such harness");
            let txt = std::fs::read_to_string(&a[3]).unwrap();
            let vals = txt.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && !l.starts_with('#'))
                .map(|l| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect();
            nd::SRC.with(|s| *s.borrow_mut() = nd::Source::Values(vals, 0));
            match run(f, n.contains("refuses")) {
                Outcome::Holds => println!("HOLDS {}", n),
                Outcome::Inadmissible => { println!("INADMISSIBLE {}", n); std::process::exit(77) }
                Outcome::Broken(m) => { println!("BROKEN {}: {}", n, m); std::process::exit(1) }
            }
        }
        "random" => {
            let seed: u64 = a[2].parse().unwrap();
            let runs: u64 = a[3].parse().unwrap();
            for (n, f) in all.into_iter().filter(|x| a[4..].iter().any(|p| x.0.starts_with(p.as_str()))) {
                let (mut ok, mut skipped) = (0, 0);
                for k in 0..runs {
                    let s = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(k.wrapping_mul(0xD1342543DE82EF95)) | 1;
                    nd::SRC.with(|x| *x.borrow_mut() = nd::Source::Random(s));
                    match run(f, n.contains("refuses")) {
                        Outcome::Holds => ok += 1,
                        Outcome::Inadmissible => skipped += 1,
                        Outcome::Broken(m) => {
                            let t = nd::TRACE.with(|t| t.borrow().iter().map(|v| hex(v)).collect::<Vec<_>>().join(" "));
                            println!("BROKEN {} values {} : {}", n, t, m.replace('\n', " "));
                            break;
                        }
                    }
                }
                println!("RANDOM {} ok={} skipped={}", n, ok, skipped);
            }
        }
        _ => panic!("usage"),
    }
}
