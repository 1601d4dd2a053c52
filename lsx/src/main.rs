//! lsx [--deadline s] [--steps n] [--jobs n] --out result.json --harness name... -- module.ll...
mod exec;
mod expr;
mod ir;
mod z3;
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
fn load(files: &[(String, String)]) -> ir::Program {
    let mut p = ir::Program::default();
    for (k, (n, t)) in files.iter().enumerate() {
        if let Err(e) = ir::parse(&mut p, t, k) { eprintln!("lsx: {}: {}", n, e); std::process::exit(3) }
    }
    p
}
fn main() {
    let mut a = std::env::args().skip(1);
    let (mut deadline, mut steps, mut jobs, mut out, mut hs, mut list) = (600.0f64, 60_000_000u64, 8usize, String::new(), vec![], false);
    let mut files = vec![];
    let mut lib = "/usr/lib/x86_64-linux-gnu/libz3.so.4".to_string();
    while let Some(x) = a.next() {
        match x.as_str() {
            "--deadline" => deadline = a.next().unwrap().parse().unwrap(),
            "--steps" => steps = a.next().unwrap().parse().unwrap(),
            "--jobs" => jobs = a.next().unwrap().parse().unwrap(),
            "--out" => out = a.next().unwrap(),
            "--harness" => hs.push(a.next().unwrap()),
            "--list" => list = true,
            "--z3" => lib = a.next().unwrap(),
            "--" => {}
            f => files.push((f.to_string(), std::fs::read_to_string(f).expect("module"))),
        }
    }
    let t0 = Instant::now();
    let shared = Arc::new(exec::Shared {
        queue: Mutex::new((vec![], 0)), cv: Condvar::new(), hungry: AtomicUsize::new(0),
        results: hs.iter().map(|_| Mutex::new(Default::default())).collect(),
        stop: hs.iter().map(|_| AtomicBool::new(false)).collect(),
        names: hs.clone(), start: t0, deadline: t0 + Duration::from_secs_f64(deadline), step_limit: steps,
    });
    let scratch = std::env::temp_dir();
    let lib = Arc::new(lib);
    z3::load(&lib, &scratch, jobs).expect("libz3");
    let m = exec::Machine::new(load(&files), shared.clone());
    if list { for n in m.pretty_names() { println!("{}", n) } return }
    let mut roots = vec![];
    for (k, h) in hs.iter().enumerate() {
        let Some(r) = m.find(h) else { eprintln!("lsx: no function {}", h); std::process::exit(3) };
        roots.push(r);
        let mut res = shared.results[k].lock().unwrap();
        for c in m.static_covers(r) { res.covers.insert(c, false); }
    }
    drop(m);
    {
        let mut q = shared.queue.lock().unwrap();
        for k in (0..hs.len()).rev() { q.0.push(exec::Job { harness: k, prefix: vec![] }) }
    }
    let files = Arc::new(files);
    let roots = Arc::new(roots);
    let ts: Vec<_> = (0..jobs).map(|k| {
        let (f, s, r, lib, dir) = (files.clone(), shared.clone(), roots.clone(), lib.clone(), scratch.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || { z3::load(&lib, &dir, k).expect("libz3"); exec::Machine::new(load(&f), s).work(&r) }).unwrap()
    }).collect();
    let mut died = false;
    for t in ts { died |= t.join().is_err() }
    let mut o = String::from("[\n");
    for (k, h) in hs.iter().enumerate() {
        let r = shared.results[k].lock().unwrap();
        let status = if r.violation.is_some() { "violation" } else if died { "error" } else if r.error.is_some() { "error" } else if r.timeout { "timeout" } else { "held" };
        if k > 0 { o.push_str(",\n") }
        o.push_str(&format!("{{\"harness\": {}, \"status\": \"{}\", \"paths\": {}, \"pruned\": {}, \"branches\": {}, \"steps\": {}, \"max_steps\": {}, \"max_vars\": {}, \"jobs\": {}, \"queries\": {}, \"unsat\": {}, \"solver_s\": {:.3}, \"finished_s\": {:.2}, \"error\": {}",
            esc(h), status, r.paths, r.pruned, r.branches, r.steps, r.max_steps, r.max_vars, r.jobs, r.queries, r.unsat, r.solver_ns as f64 / 1e9, r.finished_s, esc(r.error.as_deref().unwrap_or(if died { "a worker died" } else { "" }))));
        let cs: Vec<_> = r.covers.iter().map(|(m, b)| format!("{}: {}", esc(m), b)).collect();
        let ks: Vec<_> = r.checks.iter().map(|(m, n)| format!("{}: {}", esc(m), n)).collect();
        let fs: Vec<_> = r.functions.iter().map(|f| esc(f)).collect();
        o.push_str(&format!(", \"covers\": {{{}}}, \"checks\": {{{}}}, \"functions\": [{}]", cs.join(", "), ks.join(", "), fs.join(", ")));
        if let Some((m, v, hang)) = &r.violation {
            o.push_str(&format!(", \"violation\": {{\"what\": {}, \"hang\": {}, \"values\": [{}]}}", esc(m), hang, v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")));
        }
        o.push('}');
    }
    o.push_str("\n]\n");
    if out.is_empty() { print!("{}", o) } else { std::fs::write(out, o).unwrap() }
}
