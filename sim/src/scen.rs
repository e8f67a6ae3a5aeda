//! A scenario: everything that happens in one simulated run, as plain data.
//! Generated from a seed, shrunk, written to and read from replay files.

use crate::model::{Primer, Special, Sym};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// a simulated producer: finite if per is empty, else eventually periodic
    Src { primer: Primer, pre: Vec<Sym>, per: Vec<Sym> },
    Special(Special),
    Ratio(i64, i64),
    RatioU(bool, u64, u64),
    Homo(usize, [i64; 4]),
    Comb(usize, usize, [i64; 8]),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the producer fails at this pull (it can be asked again)
    Fail,
    /// the producer is replaced this many times before it answers
    Handover(u8),
    /// an unrelated computation runs on the same thread while the pull is in flight
    Reenter(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: Kind,
    /// the simulator sits on the edge between this node and its consumer
    pub tap: bool,
    /// (number of the pull attempt on that edge, fault)
    pub faults: Vec<(u32, Fault)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Build(usize),
    Pull(usize),
    Drop(usize),
    Compare(usize, usize),
    Consume(usize),
    /// use what is left of a live number as the operand of a new operation
    Homo(usize, Primer, [i64; 4]),
    Comb(usize, usize, Primer, Primer, [i64; 8]),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scen {
    pub prop: String,
    pub nodes: Vec<Node>,
    /// (task, step); all steps belong to task 0 unless the run is threaded
    pub steps: Vec<(u8, Step)>,
    /// threaded runs: which task runs after each scheduling point
    pub sched: Vec<u8>,
    /// process boundary: 0 healthy, else a fault mode
    pub io: u8,
}

impl Scen {
    pub fn new(prop: &str) -> Scen {
        Scen { prop: prop.into(), nodes: vec![], steps: vec![], sched: vec![], io: 0 }
    }
    pub fn add(&mut self, kind: Kind) -> usize {
        self.nodes.push(Node { kind, tap: false, faults: vec![] });
        self.nodes.len() - 1
    }
    pub fn size(&self) -> usize {
        let mut n = self.steps.len() * 4 + self.sched.len();
        for d in &self.nodes {
            n += 10 + d.faults.len() * 3 + d.tap as usize;
            n += match &d.kind {
                Kind::Src { primer, pre, per } => pre.len() + per.len() * 2 + (*primer != Primer::None) as usize,
                Kind::Ratio(a, b) => bits(*a) + bits(*b),
                Kind::RatioU(_, a, b) => 2 + (64 - a.leading_zeros() as usize) + (64 - b.leading_zeros() as usize),
                Kind::Homo(_, c) => c.iter().map(|v| bits(*v)).sum(),
                Kind::Comb(_, _, c) => c.iter().map(|v| bits(*v)).sum(),
                Kind::Special(_) => 0,
            };
        }
        for (_, s) in &self.steps {
            n += match s {
                Step::Homo(_, _, c) => c.iter().map(|v| bits(*v)).sum(),
                Step::Comb(_, _, _, _, c) => c.iter().map(|v| bits(*v)).sum(),
                _ => 0,
            };
        }
        n + (self.io != 0) as usize
    }
}

fn bits(v: i64) -> usize {
    (64 - v.unsigned_abs().leading_zeros() as usize) * 2 + (v < 0) as usize
}

fn syms(v: &[Sym]) -> String {
    v.iter().map(|s| if *s { 'U' } else { 'A' }).collect()
}

fn pname(p: Primer) -> &'static str {
    match p {
        Primer::None => "-",
        Primer::Turn => "T",
        Primer::Reflect => "R",
        Primer::Ground => "G",
    }
}

fn nums(v: &[i64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

pub fn to_text(s: &Scen) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "prop {}", s.prop);
    let _ = writeln!(o, "io {}", s.io);
    for (i, n) in s.nodes.iter().enumerate() {
        let k = match &n.kind {
            Kind::Src { primer, pre, per } => format!("src {} .{} .{}", pname(*primer), syms(pre), syms(per)),
            Kind::Special(Special::NegOne) => "special -1".into(),
            Kind::Special(Special::Zero) => "special 0".into(),
            Kind::Special(Special::PosOne) => "special 1".into(),
            Kind::Ratio(a, b) => format!("ratio {} {}", a, b),
            Kind::RatioU(p, a, b) => format!("ratiou {} {} {}", *p as u8, a, b),
            Kind::Homo(x, c) => format!("homo {} {}", x, nums(c)),
            Kind::Comb(x, y, c) => format!("comb {} {} {}", x, y, nums(c)),
        };
        let f: Vec<String> = n
            .faults
            .iter()
            .map(|(i, f)| match f {
                Fault::Fail => format!("{}:fail", i),
                Fault::Handover(k) => format!("{}:hand:{}", i, k),
                Fault::Reenter(k) => format!("{}:reenter:{}", i, k),
            })
            .collect();
        let _ = writeln!(o, "node {} {} | tap {} faults {}", i, k, n.tap as u8, f.join(" "));
    }
    let mut i = 0;
    while i < s.steps.len() {
        let (task, st) = &s.steps[i];
        // a run of the same pull
        let mut times = 1;
        while matches!(st, Step::Pull(_)) && s.steps.get(i + times) == Some(&s.steps[i]) {
            times += 1;
        }
        i += times;
        let k = match st {
            Step::Build(n) => format!("build {}", n),
            Step::Pull(n) if times > 1 => format!("pull {} x{}", n, times),
            Step::Pull(n) => format!("pull {}", n),
            Step::Drop(n) => format!("drop {}", n),
            Step::Compare(a, b) => format!("compare {} {}", a, b),
            Step::Consume(n) => format!("consume {}", n),
            Step::Homo(n, p, c) => format!("homo {} {} {}", n, pname(*p), nums(c)),
            Step::Comb(a, b, p, q, c) => format!("comb {} {} {} {} {}", a, b, pname(*p), pname(*q), nums(c)),
        };
        let _ = writeln!(o, "step {} {}", task, k);
    }
    if !s.sched.is_empty() {
        let _ = writeln!(o, "sched {}", s.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    o
}

fn pprimer(s: &str) -> Option<Primer> {
    Some(match s {
        "-" => Primer::None,
        "T" => Primer::Turn,
        "R" => Primer::Reflect,
        "G" => Primer::Ground,
        _ => return None,
    })
}

fn psyms(s: &str) -> Option<Vec<Sym>> {
    s.strip_prefix('.')?
        .chars()
        .map(|c| match c {
            'A' => Some(false),
            'U' => Some(true),
            _ => None,
        })
        .collect()
}

fn arr<const N: usize>(w: &[&str]) -> Option<[i64; N]> {
    let v: Option<Vec<i64>> = w.iter().map(|x| x.parse().ok()).collect();
    v?.try_into().ok()
}

pub fn from_text(t: &str) -> Option<Scen> {
    let mut s = Scen::new("");
    for line in t.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        match w[0] {
            "prop" => s.prop = w[1].into(),
            "io" => s.io = w[1].parse().ok()?,
            "node" => {
                let bar = w.iter().position(|x| *x == "|")?;
                let (k, r) = (&w[2..bar], &w[bar + 1..]);
                let kind = match k[0] {
                    "src" => Kind::Src { primer: pprimer(k[1])?, pre: psyms(k[2])?, per: psyms(k[3])? },
                    "special" => Kind::Special(match k[1] {
                        "-1" => Special::NegOne,
                        "0" => Special::Zero,
                        _ => Special::PosOne,
                    }),
                    "ratio" => Kind::Ratio(k[1].parse().ok()?, k[2].parse().ok()?),
                    "ratiou" => Kind::RatioU(k[1] == "1", k[2].parse().ok()?, k[3].parse().ok()?),
                    "homo" => Kind::Homo(k[1].parse().ok()?, arr(&k[2..])?),
                    "comb" => Kind::Comb(k[1].parse().ok()?, k[2].parse().ok()?, arr(&k[3..])?),
                    _ => return None,
                };
                let tap = r[1] == "1";
                let mut faults = vec![];
                for f in &r[3..] {
                    let p: Vec<&str> = f.split(':').collect();
                    let i = p[0].parse().ok()?;
                    faults.push((
                        i,
                        match p[1] {
                            "fail" => Fault::Fail,
                            "hand" => Fault::Handover(p[2].parse().ok()?),
                            "reenter" => Fault::Reenter(p[2].parse().ok()?),
                            _ => return None,
                        },
                    ));
                }
                s.nodes.push(Node { kind, tap, faults });
            }
            "step" => {
                let task = w[1].parse().ok()?;
                let k = &w[2..];
                let n = |i: usize| -> Option<usize> { k.get(i)?.parse().ok() };
                let st = match k[0] {
                    "build" => Step::Build(n(1)?),
                    "pull" => Step::Pull(n(1)?),
                    "drop" => Step::Drop(n(1)?),
                    "compare" => Step::Compare(n(1)?, n(2)?),
                    "consume" => Step::Consume(n(1)?),
                    "homo" => Step::Homo(n(1)?, pprimer(k[2])?, arr(&k[3..])?),
                    "comb" => Step::Comb(n(1)?, n(2)?, pprimer(k[3])?, pprimer(k[4])?, arr(&k[5..])?),
                    _ => return None,
                };
                let times = match (k[0], k.get(2)) {
                    ("pull", Some(x)) => x.strip_prefix('x')?.parse().ok()?,
                    _ => 1,
                };
                for _ in 0..times {
                    s.steps.push((task, st.clone()));
                }
            }
            "sched" => s.sched = w[1..].iter().map(|x| x.parse().unwrap_or(0)).collect(),
            _ => {}
        }
    }
    Some(s)
}
