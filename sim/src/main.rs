//! Deterministic simulation of clarith's symbol streams. See /verif/DESIGN.md.

mod alloc;
mod big;
mod demo;
mod driver;
mod exec;
mod model;
mod prng;
mod props;
mod room;
mod scen;
mod shrink;
mod sysio;
mod threads;

use std::time::{Duration, Instant};

/// The seed of run number `index` of a property.
pub fn run_seed(prop: &str, seed: u64, index: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |h, b| prng::mix(h ^ b as u64));
    prng::mix(prng::mix(seed ^ 0xc1a5) ^ p).wrapping_add(prng::mix(index))
}

pub fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "wrapping"
    }
}

fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<sysio::Marker>() {
            return sysio::mark();
        }
        // failures of library calls are observations, not output
        if !alloc::in_lib() {
            let _s = alloc::Scope::harness();
            eprintln!("clsim: {}", i);
        }
    }));
    let code = match a.get(1).cloned() {
        Some("check") => driver::check(&a[2..]),
        Some("worker") => {
            let v: Vec<String> = args[2..].to_vec();
            with_stack(move || driver::worker(&v))
        }
        Some("shrink") => {
            let v: Vec<String> = args[2..].to_vec();
            with_stack(move || shrink_to_file(&v))
        }
        Some("replay") => {
            let v: Vec<String> = args[2..].to_vec();
            with_stack(move || replay(&v))
        }
        Some("gen") => {
            let v: Vec<String> = args[2..].to_vec();
            with_stack(move || {
                let s = run_seed(&v[0], v[1].parse().unwrap(), v[2].parse().unwrap());
                print!("{}", scen::to_text(&props::generate(&v[0], s)));
                0
            })
        }
        // on the process's first thread
        Some("only") => {
            let mut text = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut text);
            if let Some(sc) = scen::from_text(&text) {
                println!("{:016x}", props::only(&sc));
            }
            0
        }
        Some("voids") => {
            let v: Vec<String> = args[2..].to_vec();
            with_stack(move || voids(&v))
        }
        Some("demo") => demo::check(&a[2..]),
        Some("demo-replay") => demo::replay(&a[2..]),
        _ => {
            eprintln!("usage: clsim check|worker|shrink|replay|gen|demo ...");
            2
        }
    };
    std::process::exit(code);
}

/// voids PROP SEED COUNT CLASS: traces of runs that stopped for another property
fn voids(v: &[String]) -> i32 {
    let (prop, seed, count) = (v[0].as_str(), v[1].parse().unwrap(), v[2].parse::<u64>().unwrap());
    for i in 0..count {
        let sc = props::generate(prop, run_seed(prop, seed, i));
        if let Some(o) = props::judge(&sc, false).other {
            if format!("{:?}", o.class) == v[3] {
                println!("run {}\n{}{}", i, scen::to_text(&sc), props::judge(&sc, true).trace.join("\n"));
                return 0;
            }
        }
    }
    0
}

/// shrink PROP SEED INDEX FILE SECONDS
fn shrink_to_file(v: &[String]) -> i32 {
    let (prop, seed, index) = (v[0].as_str(), v[1].parse().unwrap(), v[2].parse().unwrap());
    let sc = props::generate(prop, run_seed(prop, seed, index));
    let secs: u64 = v[4].parse().unwrap();
    let first = match props::judge(&sc, false).violation {
        Some(x) => x,
        None => return 0,
    };
    let t = Instant::now();
    let small = shrink::shrink(&sc, Duration::from_secs(secs), &|c| shrink::still(c, first.class));
    let verdict = props::judge(&small, true);
    let what = verdict.violation.map(|x| x.what).unwrap_or_default();
    let mut text = format!(
        "# replay of a violation of {}; re-run with: bash /verif/run.sh replay <this file>\n# VERIF_SEED={} run={} profile={}\n# class {:?}\n# {}\n# size {} reduced to {} in {:.1}s\n",
        prop, seed, index, profile(), first.class, what, sc.size(), small.size(), t.elapsed().as_secs_f64()
    );
    text.push_str(&format!("profile {}\nseam {}\nhash {:016x}\n", profile(), exec::SEAM as u8, verdict.hash));
    text.push_str(&scen::to_text(&small));
    for l in verdict.trace.iter().take(400) {
        for m in l.lines() {
            text.push_str(&format!("# {}\n", m));
        }
    }
    std::fs::write(&v[3], text).unwrap();
    println!("{}", what);
    1
}

/// Runs that violate their property only after others in the same process.
fn history(file: &str, line: &str) -> i32 {
    let w: Vec<&str> = line.split_whitespace().collect();
    let n = |i: usize| -> u64 { w[i].parse().unwrap() };
    let (prop, seed, stride, last) = (w[0], n(1), n(3), n(4));
    let mut i = n(2);
    while i <= last {
        let sc = props::generate(prop, run_seed(prop, seed, i));
        if let Some(x) = props::judge(&sc, false).violation {
            println!("run {}: {:?}: {}", i, x.class, x.what);
            println!("VIOLATION property={} replay={}", prop, file);
            return 1;
        }
        i += stride;
    }
    println!("held");
    0
}

fn replay(v: &[String]) -> i32 {
    let text = match std::fs::read_to_string(&v[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", v[0], e);
            return 2;
        }
    };
    if let Some(h) = text.lines().find_map(|l| l.strip_prefix("history ")) {
        return history(&v[0], h);
    }
    let sc = match scen::from_text(&text) {
        Some(s) => s,
        None => {
            eprintln!("{}: not a scenario", v[0]);
            return 2;
        }
    };
    let r = props::judge(&sc, true);
    for l in &r.trace {
        println!("{}", l);
    }
    println!("hash {:016x}", r.hash);
    match r.violation {
        Some(x) => {
            println!("{:?}: {}", x.class, x.what);
            println!("VIOLATION property={} replay={}", sc.prop, v[0]);
            1
        }
        None => {
            if let Some(o) = r.other {
                println!("(outside this property: {:?}: {})", o.class, o.what);
            }
            println!("held");
            0
        }
    }
}
