//! Runs a property's simulations in worker processes of both build profiles,
//! watches them, and writes the evidence.

use crate::{exec, props, run_seed, scen};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// A library call that takes this long (in ms) has stopped making progress, provided that it was
/// given the processor for part of it,
const HANG: u64 = 20_000;
const HANG_CPU: u64 = 10_000;
/// or that it takes this long.
const HANG_IDLE: u64 = 60_000;
const BATCH: u64 = 256;
const FAULTS: [&str; 9] = [
    "operand_failures",
    "handovers",
    "reentries",
    "thread_switches",
    "abandonments",
    "operand_ends",
    "range_or_domain_failures",
    "pulls_after_failure",
    "io_faults_answered",
];

static CURRENT: AtomicU64 = AtomicU64::new(0);

/// worker PROP SEED FIRST STRIDE END VERBOSE
pub fn worker(v: &[String]) -> i32 {
    let prop = v[0].clone();
    let n = |i: usize| -> u64 { v[i].parse().unwrap() };
    let (seed, first, stride, end, verbose) = (n(1), n(2), n(3), n(4), n(5) == 1);
    std::thread::spawn(move || {
        let (mut call, mut since, mut cpu) = (0, Instant::now(), 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = exec::CALLS.load(Ordering::SeqCst);
            if c != call || exec::INSIDE.load(Ordering::SeqCst) == 0 {
                (call, since, cpu) = (c, Instant::now(), crate::sysio::cpu_ms());
                continue;
            }
            let wall = since.elapsed().as_millis() as u64;
            if wall < HANG || crate::sysio::cpu_ms() - cpu < HANG_CPU && wall < HANG_IDLE {
                continue;
            }
            // stdout may be locked by nobody else: the run itself never prints
            println!("X {}", CURRENT.load(Ordering::SeqCst));
            let _ = std::io::stdout().flush();
            std::process::exit(3);
        }
    });
    let out = std::io::stdout();
    let mut stats = exec::Stats::default();
    let mut hashes = String::new();
    let (mut runs, mut trivial, mut void) = (0u64, 0u64, 0u64);
    let mut voids: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = first;
    let flush = |runs: &mut u64, trivial: &mut u64, void: &mut u64, hashes: &mut String, voids: &mut BTreeMap<String, u64>, stats: &mut exec::Stats, at: u64| {
        let mut o = out.lock();
        let f: Vec<String> = stats.fields().iter().map(|(k, n)| format!("{}={}", k, n)).collect();
        let w: Vec<String> = voids.iter().map(|(k, n)| format!("{}={}", k, n)).collect();
        let _ = writeln!(o, "H {}", hashes);
        let _ = writeln!(o, "S {}", f.join(" "));
        let _ = writeln!(o, "W {}", w.join(" "));
        let _ = writeln!(o, "K {} {} {} {}", runs, trivial, void, at);
        let _ = o.flush();
        *runs = 0;
        *trivial = 0;
        *void = 0;
        hashes.clear();
        voids.clear();
        *stats = exec::Stats::default();
    };
    while i < end {
        CURRENT.store(i, Ordering::SeqCst);
        if verbose {
            println!("I {}", i);
            let _ = std::io::stdout().flush();
        }
        let sc = props::generate(&prop, run_seed(&prop, seed, i));
        let r = props::judge(&sc, false);
        runs += 1;
        props::add(&mut stats, &r.stats);
        if let Some(o) = &r.other {
            void += 1;
            *voids.entry(format!("{:?}", o.class)).or_insert(0) += 1;
        }
        if r.nontrivial {
            let _ = write!(hashes, "{:016x}", r.hash);
        } else {
            trivial += 1;
        }
        if let Some(x) = r.violation {
            flush(&mut runs, &mut trivial, &mut void, &mut hashes, &mut voids, &mut stats, i);
            println!("V {} {:?} {}", i, x.class, x.what);
            let _ = std::io::stdout().flush();
            return 1;
        }
        if runs >= BATCH {
            flush(&mut runs, &mut trivial, &mut void, &mut hashes, &mut voids, &mut stats, i);
        }
        i += stride;
    }
    flush(&mut runs, &mut trivial, &mut void, &mut hashes, &mut voids, &mut stats, end);
    0
}

pub fn opt<'a>(a: &[&'a str], k: &str) -> Option<&'a str> {
    a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1).cloned())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Tally {
    runs: u64,
    trivial: u64,
    void: u64,
    hashes: HashSet<u64>,
    order: u64, // order-independent digest of all hashes, for determinism checks
    stats: BTreeMap<String, u64>,
    voids: BTreeMap<String, u64>,
}

enum Msg {
    Line(usize, String),
    Done(usize, bool),
}

struct Slot {
    bin: String,
    profile: String,
    first: u64,
    stride: u64,
    at: u64,
    cur: u64,
    verbose: bool,
    hang: Option<u64>,
    done: bool,
}

fn spawn(slot: &Slot, id: usize, prop: &str, seed: u64, end: u64, tx: mpsc::Sender<Msg>) -> std::process::Child {
    let mut c = Command::new(&slot.bin)
        .args([
            "worker",
            prop,
            &seed.to_string(),
            &slot.first.to_string(),
            &slot.stride.to_string(),
            &end.to_string(),
            if slot.verbose { "1" } else { "0" },
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("cannot start worker");
    let out = c.stdout.take().unwrap();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    let _ = tx.send(Msg::Line(id, l));
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Done(id, true));
    });
    c
}

pub struct Found {
    pub index: u64,
    pub profile: String,
    pub bin: String,
    pub what: String,
    pub crash: bool,
    /// the runs the same process made before: first and stride
    pub before: (u64, u64),
}

/// The scenario of a run, drawn in a process of its own.
fn scenario_text(bin: &str, prop: &str, seed: u64, index: u64) -> Option<String> {
    let o = Command::new(bin).args(["gen", prop, &seed.to_string(), &index.to_string()]).output().ok()?;
    if !o.status.success() {
        return None;
    }
    String::from_utf8(o.stdout).ok()
}

/// Replays a file in a process of its own; None if it does not come to an end in time.
fn fresh(bin: &str, file: &str, secs: u64) -> Option<i32> {
    let c = Command::new(bin).args(["replay", file]).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    let mut c = match c {
        Ok(c) => c,
        Err(_) => return Some(2),
    };
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        match c.try_wait() {
            Ok(Some(st)) => return Some(st.code().unwrap_or(128)),
            Ok(None) if Instant::now() > end => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(1)),
            Err(_) => return Some(2),
        }
    }
}

/// Does this scenario kill or hang a process?
fn kills(bin: &str, file: &str, sc: &scen::Scen) -> bool {
    std::fs::write(file, scen::to_text(sc)).is_ok() && fresh(bin, file, 3).map(|n| n > 2).unwrap_or(true)
}

/// Does this scenario violate its property in a process of its own?
fn violates(bin: &str, file: &str, sc: &scen::Scen) -> bool {
    std::fs::write(file, scen::to_text(sc)).is_ok() && fresh(bin, file, 20) == Some(1)
}

/// Writes a replay file for a violation that the reduced scenario does not show on its own.
fn stubborn(f: &Found, file: &str, prop: &str, seed: u64) {
    let text = match scenario_text(&f.bin, prop, seed, f.index) {
        Some(t) => t,
        None => return,
    };
    let head = format!("# violation of {}: {}\n# VERIF_SEED={} run={}\nprofile {}\n", prop, f.what, seed, f.index, f.profile);
    if let Some(sc) = scen::from_text(&text) {
        let tmp = format!("{}.try", file);
        let alone = violates(&f.bin, &tmp, &sc);
        if alone {
            let small = crate::shrink::shrink(&sc, Duration::from_secs(60), &|c| violates(&f.bin, &tmp, c));
            let _ = std::fs::write(file, format!("{}{}", head, scen::to_text(&small)));
        }
        let _ = std::fs::remove_file(&tmp);
        if alone {
            return;
        }
    }
    // it takes the runs made before it in the same process
    let (first, stride) = f.before;
    let n = (f.index - first) / stride;
    let mut back = 1;
    loop {
        let from = first + stride * (n - back.min(n));
        let _ = std::fs::write(file, format!("{}# needs the runs made before it in the same process\nhistory {} {} {} {} {}\nprop {}\n", head, prop, seed, from, stride, f.index, prop));
        if back >= n || fresh(&f.bin, file, 100) == Some(1) {
            return;
        }
        back *= 4;
    }
}

pub fn check(a: &[&str]) -> i32 {
    let prop = opt(a, "--prop").unwrap().to_string();
    let seed: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = opt(a, "--runs").unwrap().parse().unwrap();
    let secs: u64 = opt(a, "--seconds").unwrap().parse().unwrap();
    let tier = opt(a, "--tier").unwrap_or("quick").to_string();
    let workers: usize = opt(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let evidence = opt(a, "--evidence").unwrap().to_string();
    let replays = opt(a, "--replays").unwrap().to_string();
    let bins: Vec<(String, String)> = opt(a, "--bins")
        .unwrap()
        .split(',')
        .map(|s| {
            let (p, b) = s.split_once('=').unwrap();
            (p.to_string(), b.to_string())
        })
        .collect();
    let t0 = Instant::now();
    // Run numbers are split over profiles: each profile explores all of 0..runs.
    let per = (workers / bins.len()).max(1);
    let mut slots: Vec<Slot> = vec![];
    for (p, b) in &bins {
        for k in 0..per {
            slots.push(Slot {
                bin: b.clone(),
                profile: p.clone(),
                first: k as u64,
                stride: per as u64,
                at: 0,
                cur: 0,
                verbose: false,
                hang: None,
                done: false,
            });
        }
    }
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<_> = slots.iter().enumerate().map(|(i, s)| spawn(s, i, &prop, seed, runs, tx.clone())).collect();
    let mut t = Tally::default();
    let mut found: Option<Found> = None;
    let mut cut = false;
    let mut open = slots.len();
    let mut grace: Option<Instant> = None;
    while open > 0 {
        let mut left = Duration::from_secs(secs).checked_sub(t0.elapsed());
        if let Some(g) = grace {
            left = g.checked_duration_since(Instant::now());
        }
        let msg = match left {
            None => None,
            Some(d) => rx.recv_timeout(d).ok(),
        };
        let msg = match msg {
            Some(m) => m,
            None => {
                // out of time: what was explored stands
                cut = found.is_none();
                break;
            }
        };
        match msg {
            Msg::Line(i, l) => {
                let (k, rest) = l.split_at(1.min(l.len()));
                let rest = rest.trim();
                match k {
                    "H" => {
                        for c in rest.as_bytes().chunks(16) {
                            let h = u64::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap_or(0);
                            t.hashes.insert(h);
                            t.order = t.order.wrapping_add(crate::prng::mix(h));
                        }
                    }
                    "S" | "W" => {
                        let m = if k == "S" { &mut t.stats } else { &mut t.voids };
                        for kv in rest.split_whitespace() {
                            if let Some((x, y)) = kv.split_once('=') {
                                *m.entry(x.to_string()).or_insert(0) += y.parse::<u64>().unwrap_or(0);
                            }
                        }
                    }
                    "K" => {
                        let w: Vec<u64> = rest.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                        t.runs += w[0];
                        t.trivial += w[1];
                        t.void += w[2];
                        slots[i].at = w[3];
                        if w[3] >= runs {
                            slots[i].done = true;
                        }
                    }
                    "I" => slots[i].cur = rest.parse().unwrap_or(0),
                    "X" => slots[i].hang = rest.parse().ok(),
                    "V" => {
                        let (n, what) = rest.split_once(' ').unwrap();
                        slots[i].done = true;
                        let index: u64 = n.parse().unwrap();
                        slots[i].at = runs;
                        let first = found.as_ref().map(|f| index < f.index || index == f.index && slots[i].profile < f.profile).unwrap_or(true);
                        if first {
                            grace.get_or_insert(Instant::now() + Duration::from_secs(20));
                            found = Some(Found {
                                index,
                                profile: slots[i].profile.clone(),
                                bin: slots[i].bin.clone(),
                                what: what.to_string(),
                                crash: false,
                                before: (slots[i].first, slots[i].stride),
                            });
                        }
                    }
                    _ => {}
                }
                // the violation with the lowest run number is reported
                if let Some(f) = &found {
                    if slots.iter().all(|s| s.done || s.at > f.index) {
                        break;
                    }
                }
            }
            Msg::Done(i, _) => {
                let st = kids[i].wait();
                if slots[i].done || found.as_ref().map(|f| slots[i].at > f.index).unwrap_or(false) {
                    open -= 1;
                    continue;
                }
                // died or hung
                let bad = match slots[i].hang.take() {
                    Some(n) => Some((n, "does not come to an end".to_string())),
                    None if slots[i].verbose => Some((slots[i].cur, format!("kills the process ({:?})", st.ok().map(|s| s.to_string())))),
                    None => None,
                };
                match bad {
                    None => slots[i].verbose = true, // find out which run it is
                    Some((n, what)) => {
                        let first = found.as_ref().map(|f| n < f.index || n == f.index && slots[i].profile < f.profile).unwrap_or(true);
                        if first {
                            grace.get_or_insert(Instant::now() + Duration::from_secs(30));
                            found = Some(Found {
                                index: n,
                                profile: slots[i].profile.clone(),
                                bin: slots[i].bin.clone(),
                                what,
                                crash: true,
                                before: (slots[i].first, slots[i].stride),
                            });
                        }
                        slots[i].done = true;
                        open -= 1;
                        let f = found.as_ref().unwrap();
                        if slots.iter().all(|s| s.done || s.at > f.index) {
                            break;
                        }
                        continue;
                    }
                }
                // carry on from the last report
                let from = if slots[i].at == 0 { slots[i].first } else { slots[i].at + slots[i].stride };
                slots[i].first = from;
                kids[i] = spawn(&slots[i], i, &prop, seed, runs, tx.clone());
            }
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    let explored = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some(f) = &found {
        let file = format!("{}/{}-{}-{}.replay", replays, prop, seed, f.index);
        let _ = std::fs::create_dir_all(&replays);
        if f.crash {
            let text = scenario_text(&f.bin, &prop, seed, f.index).unwrap_or_default();
            let tmp = format!("{}.try", file);
            let (mut note, mut text) = ("not reduced", text);
            if let Some(sc) = scen::from_text(&text) {
                if kills(&f.bin, &tmp, &sc) {
                    let limit = Duration::from_secs(if tier == "quick" { 60 } else { 300 });
                    text = scen::to_text(&crate::shrink::shrink(&sc, limit, &|c| kills(&f.bin, &tmp, c)));
                    note = "reduced";
                }
            }
            let _ = std::fs::remove_file(&tmp);
            let _ = std::fs::write(
                &file,
                format!("# violation of {}: this run {} ({})\n# VERIF_SEED={} run={}\nprofile {}\n{}", prop, f.what, note, seed, f.index, f.profile, text),
            );
        } else {
            let limit = if tier == "quick" { "30" } else { "120" };
            let mut c = Command::new(&f.bin)
                .args(["shrink", &prop, &seed.to_string(), &f.index.to_string(), &file, limit])
                .stdout(Stdio::piped())
                .spawn()
                .unwrap();
            let end = Instant::now() + Duration::from_secs(200);
            loop {
                match c.try_wait() {
                    Ok(Some(_)) => break,
                    _ if Instant::now() > end => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    _ => std::thread::sleep(Duration::from_millis(50)),
                }
            }
            if !std::path::Path::new(&file).exists() {
                let text = scenario_text(&f.bin, &prop, seed, f.index).unwrap_or_default();
                let _ = std::fs::write(&file, format!("# violation of {}\nprofile {}\n{}", prop, f.profile, text));
            }
            // the replay has to stand on its own
            if fresh(&f.bin, &file, 60) != Some(1) {
                stubborn(f, &file, &prop, seed);
            }
        }
        println!("run {} ({} build): {}", f.index, f.profile, f.what);
        println!("VIOLATION property={} replay={}", prop, file);
        code = 1;
    }
    // sample cases of this very run
    let mut samples = vec![];
    for i in 0..3u64 {
        if let Some(t) = scenario_text(&bins[0].1, &prop, seed, i) {
            samples.push(jstr(&t));
        }
    }
    let g = |k: &str| t.stats.get(k).cloned().unwrap_or(0);
    let faults: Vec<String> = FAULTS.iter().map(|k| format!("{}: {}", jstr(k), g(k))).collect();
    let voids: Vec<String> = t.voids.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
    let listed = ["calls", "operand_pulls", "symbols_emitted"];
    let stats: Vec<String> = t
        .stats
        .iter()
        .filter(|(k, _)| !listed.contains(&k.as_str()) && !FAULTS.contains(&k.as_str()))
        .map(|(k, n)| format!("{}: {}", jstr(k), n))
        .collect();
    let mut real = "clarith built from /repo in both profiles (overflow checks on / off): every operation, comparison and strategy handover is the library's own code";
    if !exec::SEAM {
        real = "clarith built from /repo through its public interface only (the seam did not build): edge faults and endless operands are NOT covered by this run";
    }
    let json = format!(
        "{{\n \"property\": {p},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {ev},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"runs_per_hour\": {rph},\n  \"build_profiles\": {profiles},\n  \"simulated_steps\": {{\"library_calls\": {calls}, \"edge_pulls\": {pulls}, \"symbols\": {syms}}},\n  \"faults_fired\": {{{faults}}},\n  \"measurements\": {{{stats}}},\n  \"runs_without_verdict_because_of_another_property\": {{{voids}}},\n  \"trivial_runs\": {triv},\n  \"digest\": \"{dig:016x}\",\n  \"cut_short_by_time\": {cut},\n  \"real_components\": {real},\n  \"stub_components\": \"operand producers at the leaves, edge taps, thread scheduler, process write/open/clock calls while a fault mode is on\"\n }},\n \"assumptions\": [\"64-bit machine integers\", \"the reference model (exact big-integer enclosures) is right\"],\n \"wall_s\": {wall:.1},\n \"violations\": {viol}\n}}\n",
        p = jstr(&prop),
        tier = jstr(&tier),
        seed = seed,
        ev = t.runs,
        dn = t.hashes.len(),
        rule = jstr(rule(&prop)),
        samples = samples.join(", "),
        rph = (t.runs as f64 * 3600.0 / explored.max(0.1)) as u64,
        profiles = jstr(&bins.iter().map(|(p, _)| p.clone()).collect::<Vec<_>>().join(", ")),
        calls = g("calls"),
        pulls = g("operand_pulls"),
        syms = g("symbols_emitted"),
        faults = faults.join(", "),
        stats = stats.join(", "),
        voids = voids.join(", "),
        triv = t.trivial,
        dig = t.order,
        cut = cut,
        real = jstr(real),
        wall = t0.elapsed().as_secs_f64(),
        viol = found.is_some() as u32,
    );
    if let Some(d) = std::path::Path::new(&evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(&evidence, json).is_err() {
        eprintln!("cannot write {}", evidence);
        return 2;
    }
    println!(
        "{}: {} runs ({} distinct nontrivial, {} trivial, {} void {:?}), {:.1}s, digest {:016x}",
        prop, t.runs, t.hashes.len(), t.trivial, t.void, t.voids, explored, t.order
    );
    code
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" => "one run = one seeded network, pull schedule and edge disturbance; non-trivial: at least one operand symbol was pulled and at least one symbol judged (or an undefined result refused); distinct: the hash over the sequence of edge pulls, faults and consumer observations",
        "C03" => "one run = two seeded live numbers (often near twins) and one comparison; non-trivial: a comparison was made; distinct: hash over the sequence of edge pulls, faults and observations",
        "C04" => "one run = a live number consumed, in part pulled, and consumed again; non-trivial: at least one consume read a symbol; distinct: hash over edge pulls, faults and observations",
        "C05" => "as C01/C02 with coefficients and operands near the machine integer range; non-trivial: symbols were judged or an undefined result refused; distinct: hash over edge pulls and observations",
        "C06" => "one run = a network with producers failing at seeded pulls (or range exhaustion) that is pulled on afterwards; non-trivial: at least one pull was made after a failure of the same number; distinct: hash over edge pulls, faults and observations",
        "C07" => "one run = 2 to 4 computations interleaved by a seeded schedule (one thread, re-entrant, or real threads with a simulated scheduler) against each of them alone; non-trivial: symbols were emitted and there was something to interleave; distinct: hash over edge pulls, faults, observations and schedule",
        "C08" => "one run = a network with the simulator on every edge; non-trivial: a demanded symbol was checked for necessity, or an operand ended; distinct: hash over edge pulls, faults and observations",
        "C09" => "one run = a network under a healthy and a faulty process boundary; non-trivial: library calls that pulled symbols were made; distinct: hash over edge pulls, observations and fault mode",
        "C10" => "one run = a number pulled beyond its end; non-trivial: a pull after the end was made; distinct: hash over edge pulls, faults and observations",
        "C11" => "one run = a network of small magnitudes with the simulator on every edge; non-trivial: symbols were emitted; distinct: hash over edge pulls and observations",
        "C13" => "one run = a network abandoned, failed or streamed with library memory accounted; non-trivial: symbols were emitted; distinct: hash over edge pulls, faults and observations",
        "C14" => "one run = a network and a variant of it whose operands are produced differently; non-trivial: more than one observation agreed; distinct: hash over both executions",
        _ => "",
    }
}
