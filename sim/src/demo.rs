//! C12: the demonstration program under a standard output that writes short,
//! is interrupted, or breaks. The program is the real one, built from /repo;
//! the C library's write calls are answered by shim/shim.c according to a plan.

use crate::driver::{jstr, opt};
use crate::model::{Expr, Head, Next, Oracle, Primer, Special};
use crate::prng::{mix, Rng};
use crate::{big::Big, run_seed};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const ERRNOS: [i32; 6] = [32, 28, 5, 11, 27, 122]; // EPIPE ENOSPC EIO EAGAIN EFBIG EDQUOT
const HANG: Duration = Duration::from_secs(20);

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Normal,
    Short(u32),
    Interrupt,
    Nothing,
    Error(i32),
    Dead(i32),
}

#[derive(Clone, Debug, PartialEq)]
struct Plan {
    ops: Vec<Op>,
    err: bool,
    /// the program's surroundings; 0 for the plainest
    around: u32,
}

const ARGS: [&[&str]; 8] = [&[], &["--help"], &["-q"], &["3", "7"], &["-n", "5", "7/3"], &["", "--"], &["--version", "x"], &["0"]];
const ENVS: [&[(&str, &str)]; 4] = [
    &[],
    &[("TERM", "dumb"), ("NO_COLOR", "1"), ("COLUMNS", "20"), ("LINES", "5")],
    &[("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("HOME", "/nonexistent"), ("TZ", "Asia/Kathmandu")],
    &[("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("DEBUG", "1"), ("VERBOSE", "1"), ("CI", "true"), ("TERM", "xterm-256color")],
];
const AROUND: [&str; 9] = ["args", "args", "args", "env", "env", "asked_env", "input", "file", "terminal_and_clock"];

impl Plan {
    fn text(&self) -> String {
        let v: Vec<String> = self
            .ops
            .iter()
            .map(|o| match o {
                Op::Normal => "n".into(),
                Op::Short(k) => format!("s{}", k),
                Op::Interrupt => "i".into(),
                Op::Nothing => "z".into(),
                Op::Error(e) => format!("e{}", e),
                Op::Dead(e) => format!("p{}", e),
            })
            .collect();
        v.join(",")
    }
    fn parse(s: &str, err: bool, around: u32) -> Plan {
        let n = |s: &str| s.parse().unwrap_or(0);
        let ops = s
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| match x.split_at(1) {
                ("s", k) => Op::Short(n(k) as u32),
                ("i", _) => Op::Interrupt,
                ("z", _) => Op::Nothing,
                ("e", e) => Op::Error(n(e)),
                ("p", e) => Op::Dead(n(e)),
                _ => Op::Normal,
            })
            .collect();
        Plan { ops, err, around }
    }
}

/// What the program is to print, from the reference model.
fn expected() -> Vec<u8> {
    let mut o = String::new();
    for n in 0..17i128 {
        o += &format!("{: >2}.0: {}\n", n, encoding(n, 1));
        o += &format!("{: >2}.5: {}\n", n, encoding(n * 2 + 1, 2));
    }
    let m = isize::MAX as i128;
    o += &format!("{}: {}\n", m, encoding(m, 1));
    o += &format!("1/{}: {}\n", m, encoding(1, m));
    o += &format!("-2: {}\n", encoding(-2, 1));
    o.into_bytes()
}

fn encoding(p: i128, q: i128) -> String {
    let mut o = Oracle::new(Rc::new(Expr::Ratio(Big::from(p), Big::from(q))));
    let mut s = String::new();
    match o.head() {
        Head::Special(Special::Zero) => return "Z".into(),
        Head::Special(Special::PosOne) => return "P".into(),
        Head::Special(Special::NegOne) => return "N".into(),
        Head::Other(p) => {
            match p {
                Primer::None => {}
                Primer::Turn => s.push('T'),
                Primer::Reflect => s.push('R'),
                Primer::Ground => s.push('G'),
            }
            o.take_head(p);
        }
        _ => unreachable!(),
    }
    loop {
        match o.next() {
            Next::Sym(u) => {
                s.push(if u { 'U' } else { 'A' });
                o.take(u);
            }
            _ => {
                s.push('H');
                return s;
            }
        }
    }
}

struct Run {
    out: Vec<u8>,
    status: Option<i32>,
    hung: bool,
    log: String,
}

fn execute(bin: &str, shim: &str, scratch: &str, plan: &Plan) -> std::io::Result<Run> {
    let log = format!("{}/log", scratch);
    let _ = std::fs::remove_file(&log);
    let bit = |i: u32| plan.around >> i & 1 == 1;
    let flag = |b: bool| if b { "1" } else { "0" };
    let file = format!("{}/out", scratch);
    let input = format!("{}/in", scratch);
    let mut c = Command::new(bin);
    c.env_clear()
        .args(ARGS[plan.around as usize % 8])
        .envs(ENVS[(plan.around >> 3) as usize % 4].iter().cloned())
        .env("LD_PRELOAD", shim)
        .env("CLSIM_PLAN", plan.text())
        .env("CLSIM_ERR", flag(plan.err))
        .env("CLSIM_ENV", flag(bit(5)))
        .env("CLSIM_ODD", flag(bit(8)))
        .env("CLSIM_LOG", &log)
        .current_dir(scratch)
        .stderr(Stdio::null());
    if bit(6) {
        std::fs::write(&input, "1\n7/3\nq\n")?;
        c.stdin(std::fs::File::open(&input)?);
    } else {
        c.stdin(Stdio::null());
    }
    if bit(7) {
        c.stdout(std::fs::File::create(&file)?);
    } else {
        c.stdout(Stdio::piped());
    }
    let mut c = c.spawn()?;
    let pipe = c.stdout.take();
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        if let Some(mut p) = pipe {
            let _ = p.by_ref().take(1 << 20).read_to_end(&mut v);
        }
        v
    });
    let t = Instant::now();
    let mut hung = false;
    let st = loop {
        if let Some(s) = c.try_wait()? {
            break s;
        }
        if t.elapsed() > HANG {
            hung = true;
            let _ = c.kill();
            break c.wait()?;
        }
        std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 20 { 100 } else { 5000 }));
    };
    let mut out = reader.join().unwrap_or_default();
    if bit(7) {
        out = std::fs::read(&file)?;
    }
    let log = std::fs::read_to_string(&log).unwrap_or_default();
    Ok(Run { out, status: st.code(), hung, log })
}

#[derive(Default)]
struct Counts {
    writes: u64,
    kinds: BTreeMap<&'static str, u64>,
    hard: bool,
    soft: bool,
}

fn counts(log: &str) -> Counts {
    let mut c = Counts::default();
    for l in log.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() != 4 {
            continue;
        }
        c.writes += 1;
        // a write of no bytes at all loses nothing
        if w[1] == "0" && w[3] == "0" {
            continue;
        }
        let k = match w[2].as_bytes()[0] {
            b's' if w[1] != w[3] => "short_writes",
            b'i' => "interruptions",
            b'z' => "writes_of_nothing",
            b'e' => "single_errors",
            b'p' => "permanent_errors",
            b'd' => "writes_after_permanent_error",
            _ => continue,
        };
        *c.kinds.entry(k).or_insert(0) += 1;
        match k {
            "short_writes" | "interruptions" => c.soft = true,
            _ => c.hard = true,
        }
    }
    c
}

/// Err: the machinery did not work; Ok(Some): what is wrong.
fn judge(r: &Run, want: &[u8]) -> Result<Option<String>, String> {
    let c = counts(&r.log);
    if c.writes == 0 && !r.out.is_empty() {
        return Err("the program's writes are not seen".into());
    }
    if r.hung {
        return Ok(Some("the program does not come to an end".into()));
    }
    if c.hard {
        if r.status == Some(0) {
            return Ok(Some("its output could not be written, yet the program reports success".into()));
        }
        if !want.starts_with(&r.out) {
            return Ok(Some(format!("what was written before the failure is not a prefix of the right output: {}", first_difference(&r.out, want))));
        }
        return Ok(None);
    }
    if r.status != Some(0) {
        return Ok(Some(format!("all output could be written, yet the program ended with {:?}", r.status)));
    }
    if r.out != want {
        return Ok(Some(format!("wrong output: {}", first_difference(&r.out, want))));
    }
    Ok(None)
}

fn first_difference(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let s = want[..i].iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
    let line = |v: &[u8]| {
        let v = &v[s.min(v.len())..];
        let e = v.iter().position(|b| *b == b'\n').unwrap_or(v.len()).min(120);
        String::from_utf8_lossy(&v[..e]).into_owned()
    };
    format!("byte {}: got {:?}, right is {:?}", i, line(got), line(want))
}

const KINDS: u64 = ERRNOS.len() as u64 * 2 + 1;

/// How many plans enumerate the failures.
fn enumerated(writes: u64) -> u64 {
    (writes + 1) * KINDS
}

/// The first plans enumerate a failure at every write; the rest are drawn.
fn plan(seed: u64, index: u64, writes: u64) -> Plan {
    if index < enumerated(writes) {
        let (at, k) = (index / KINDS, (index % KINDS) as usize);
        let err = k % 2 == 1;
        if at == writes {
            return Plan { ops: vec![], err, around: 0 };
        }
        let mut ops = vec![Op::Normal; at as usize];
        ops.push(match k {
            k if k < ERRNOS.len() => Op::Dead(ERRNOS[k]),
            k if k < ERRNOS.len() * 2 => Op::Error(ERRNOS[k - ERRNOS.len()]),
            _ => Op::Nothing,
        });
        return Plan { ops, err, around: 0 };
    }
    let mut r = Rng::new(run_seed("C12", seed, index));
    let bytewise = r.chance(1, 5);
    let n = 1 + r.below(if bytewise { 400 } else { 80 });
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(match (bytewise, r.below(8)) {
            (true, 0) => Op::Interrupt,
            (true, _) => Op::Short(1 + r.below(3) as u32),
            (false, 0 | 1) => Op::Normal,
            (false, 2 | 3) => Op::Interrupt,
            (false, _) => Op::Short(1 + r.below(24) as u32),
        });
    }
    if r.chance(1, 2) {
        let at = r.below(n) as usize;
        ops[at] = match r.below(8) {
            0 => Op::Nothing,
            1..=3 => Op::Error(*r.pick(&ERRNOS)),
            _ => Op::Dead(*r.pick(&ERRNOS)),
        };
        ops.truncate(at + 1 + r.below(6) as usize);
    }
    if r.chance(1, 8) {
        ops.clear();
    }
    let around = if r.chance(1, 2) { r.below(1 << AROUND.len()) as u32 } else { 0 };
    Plan { ops, err: r.chance(1, 4), around }
}

fn shrink(p: &Plan, limit: Duration, bad: &dyn Fn(&Plan) -> bool) -> Plan {
    let end = Instant::now() + limit;
    let mut best = p.clone();
    loop {
        let mut cands = vec![];
        let n = best.ops.len();
        let mut k = n;
        while k > 0 {
            for at in (0..n).step_by(k) {
                let mut c = best.clone();
                c.ops.drain(at..(at + k).min(n));
                cands.push(c);
            }
            k /= 2;
        }
        for i in 0..n {
            if best.ops[i] != Op::Normal {
                let mut c = best.clone();
                c.ops[i] = Op::Normal;
                cands.push(c);
            }
        }
        if best.err {
            cands.push(Plan { err: false, ..best.clone() });
        }
        for i in 0..AROUND.len() {
            if best.around >> i & 1 == 1 {
                cands.push(Plan { around: best.around & !(1 << i), ..best.clone() });
            }
        }
        let mut better = false;
        for c in cands {
            if Instant::now() > end {
                return best;
            }
            if bad(&c) {
                best = c;
                better = true;
                break;
            }
        }
        if !better {
            return best;
        }
    }
}

#[derive(Default)]
struct Tally {
    runs: u64,
    writes: u64,
    bytes: u64,
    kinds: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
    digest: u64,
    trivial: u64,
    failed: u64,
    around: BTreeMap<&'static str, u64>,
}

pub fn check(a: &[&str]) -> i32 {
    let tier = opt(a, "--tier").unwrap_or("quick").to_string();
    let seed: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = opt(a, "--runs").unwrap().parse().unwrap();
    let secs: u64 = opt(a, "--seconds").unwrap().parse().unwrap();
    let workers: u64 = opt(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8).max(1);
    let shim = opt(a, "--shim").unwrap();
    let scratch = opt(a, "--scratch").unwrap();
    let bins: Vec<(&str, &str)> = opt(a, "--bins").unwrap().split(',').filter_map(|s| s.split_once('=')).collect();
    let want = &expected();
    let t0 = Instant::now();

    // how many writes does an undisturbed run make?
    let _ = std::fs::create_dir_all(scratch);
    let writes = match execute(bins[0].1, shim, scratch, &Plan { ops: vec![], err: false, around: 0 }) {
        Ok(r) => counts(&r.log).writes.min(400),
        Err(e) => {
            eprintln!("cannot run {}: {}", bins[0].1, e);
            return 2;
        }
    };
    let profiles = bins.len() as u64;
    let total = runs * profiles;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let problem: Mutex<Option<String>> = Mutex::new(None);
    let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let tally = Mutex::new(Tally::default());
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, stop, problem, found, tally, bins) = (&next, &stop, &problem, &found, &tally, &bins);
            let dir = format!("{}/w{}", scratch, w);
            s.spawn(move || {
                let _ = std::fs::create_dir_all(&dir);
                loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    // numbers are handed out in order: all before the first violation get run
                    if n >= total || stop.load(Ordering::SeqCst) || t0.elapsed().as_secs() > secs {
                        break;
                    }
                    let p = plan(seed, n / profiles, writes);
                    let (r, verdict) = match execute(bins[(n % profiles) as usize].1, shim, &dir, &p) {
                        Ok(r) => {
                            let v = judge(&r, want);
                            (r, v)
                        }
                        Err(e) => {
                            *problem.lock().unwrap() = Some(e.to_string());
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    };
                    let c = counts(&r.log);
                    let h = r.log.bytes().chain([p.err as u8, p.around as u8, (p.around >> 8) as u8]).fold(n % profiles, |h, b| mix(h ^ b as u64));
                    {
                        let mut t = tally.lock().unwrap();
                        t.runs += 1;
                        t.writes += c.writes;
                        t.bytes += r.out.len() as u64;
                        for (k, v) in &c.kinds {
                            *t.kinds.entry(k).or_insert(0) += v;
                        }
                        if p.err {
                            *t.kinds.entry("runs_with_broken_standard_error").or_insert(0) += 1;
                        }
                        for (i, k) in AROUND.iter().enumerate() {
                            let first = i == 0 || AROUND[i - 1] != *k;
                            let set = (i..AROUND.len()).filter(|j| AROUND[*j] == *k).any(|j| p.around >> j & 1 == 1);
                            if first && set {
                                *t.around.entry(k).or_insert(0) += 1;
                            }
                        }
                        t.failed += (c.hard && r.status != Some(0)) as u64;
                        if c.hard || c.soft || p.around != 0 {
                            t.hashes.insert(h);
                            t.digest = t.digest.wrapping_add(mix(h));
                        } else {
                            t.trivial += 1;
                        }
                    }
                    match verdict {
                        Err(e) => {
                            *problem.lock().unwrap() = Some(e);
                            stop.store(true, Ordering::SeqCst);
                        }
                        Ok(Some(what)) => {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|(m, _)| n < *m).unwrap_or(true) {
                                *f = Some((n, what));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                        Ok(None) => {}
                    }
                }
                let _ = std::fs::remove_dir_all(&dir);
            });
        }
    });
    let explored = t0.elapsed().as_secs_f64();
    let t = tally.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let mut code = 0;
    if let Some((n, what)) = &found {
        let index = n / profiles;
        let b = bins[(n % profiles) as usize];
        let small = shrink(&plan(seed, index, writes), Duration::from_secs(30), &|p| {
            matches!(execute(b.1, shim, scratch, p).map(|r| judge(&r, want)), Ok(Ok(Some(_))))
        });
        let dir = opt(a, "--replays").unwrap();
        let _ = std::fs::create_dir_all(dir);
        let file = format!("{}/C12-{}-{}.replay", dir, seed, index);
        let text = format!(
            "# replay of a violation of C12; re-run with: bash /verif/run.sh replay <this file>\n# VERIF_SEED={} run={}\n# {}\nprop C12\nprofile {}\nstderr {}\naround {}\nplan {}\n",
            seed,
            index,
            what,
            b.0,
            small.err as u8,
            small.around,
            small.text()
        );
        let _ = std::fs::write(&file, text);
        println!("run {} ({} build): {}", index, b.0, what);
        println!("VIOLATION property=C12 replay={}", file);
        code = 1;
    } else if let Some(e) = problem.into_inner().unwrap() {
        eprintln!("C12: {}", e);
        code = 2;
    }
    let _ = std::fs::remove_dir_all(scratch);
    let first = enumerated(writes);
    let samples: Vec<String> = [3, first, first + 1]
        .iter()
        .filter(|i| **i < runs)
        .map(|i| {
            let p = plan(seed, *i, writes);
            jstr(&format!("standard error broken: {}; surroundings {:09b}; writes to standard output: {}", p.err, p.around, p.text()))
        })
        .collect();
    let kinds: Vec<String> = t.kinds.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let rule = format!(
        "one run = one execution of the program under one plan of answers to its writes; the first {} plans enumerate every kind of failure at every write of an undisturbed run, later ones are drawn from the seed; non-trivial: at least one write was cut short, interrupted or failed, or the surroundings (arguments, environment, input, kind of output, clock) are not the plainest; distinct: hash over the sequence of (bytes asked, answer), the state of standard error, the surroundings and the build profile",
        first
    );
    let json = format!(
        "{{\n \"property\": \"C12\",\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {},\n  \"writes_of_an_undisturbed_run\": {},\n  \"simulated_steps\": {{\"writes\": {}, \"bytes\": {}}},\n  \"faults_fired\": {{{}}},\n  \"runs_in_other_surroundings\": {{{}}},\n  \"runs_that_failed_as_they_should\": {},\n  \"trivial_runs\": {},\n  \"build_profiles\": \"checked, wrapping\",\n  \"digest\": \"{:016x}\",\n  \"real_components\": \"the program and library built from /repo, the Rust runtime, the kernel's pipe\",\n  \"stub_components\": \"the C library's write and writev on standard output and standard error; getenv, isatty and clock_gettime in part of the runs\"\n }},\n \"assumptions\": [\"the program writes through the C library\", \"the reference model's encoding of ratios is right\"],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        jstr(&tier),
        seed,
        t.runs,
        t.hashes.len(),
        jstr(&rule),
        samples.join(", "),
        (t.runs as f64 * 3600.0 / explored.max(0.1)) as u64,
        writes,
        t.writes,
        t.bytes,
        kinds.join(", "),
        t.around.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "),
        t.failed,
        t.trivial,
        t.digest,
        t0.elapsed().as_secs_f64(),
        found.is_some() as u32,
    );
    let evidence = opt(a, "--evidence").unwrap();
    if let Some(d) = std::path::Path::new(evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(evidence, json).is_err() {
        eprintln!("cannot write {}", evidence);
        return 2;
    }
    println!("C12: {} runs ({} distinct nontrivial, {} trivial), {:.1}s, digest {:016x}", t.runs, t.hashes.len(), t.trivial, explored, t.digest);
    code
}

/// demo-replay FILE BIN SHIM SCRATCH
pub fn replay(a: &[&str]) -> i32 {
    let text = match std::fs::read_to_string(a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", a[0], e);
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
    let p = Plan::parse(&get("plan"), get("stderr") == "1", get("around").parse().unwrap_or(0));
    let _ = std::fs::create_dir_all(a[3]);
    let r = execute(a[1], a[2], a[3], &p);
    let _ = std::fs::remove_dir_all(a[3]);
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    print!("{}", r.log);
    println!("exit status {:?}, {} bytes written", r.status, r.out.len());
    match judge(&r, &expected()) {
        Err(e) => {
            eprintln!("{}", e);
            2
        }
        Ok(Some(w)) => {
            println!("{}", w);
            println!("VIOLATION property=C12 replay={}", a[0]);
            1
        }
        Ok(None) => {
            println!("held");
            0
        }
    }
}
