//! Reduces a violating scenario while the same kind of violation persists.

use crate::exec::Class;
use crate::props;
use crate::scen::{Kind, Scen, Step};
use std::time::{Duration, Instant};

/// Does the same kind of violation persist?
pub fn still(sc: &Scen, class: Class) -> bool {
    match props::judge(sc, false).violation {
        Some(v) => v.class == class,
        None => false,
    }
}

fn smaller(v: i64) -> Vec<i64> {
    let mut o = vec![];
    if v != 0 {
        o.push(0);
        if v.unsigned_abs() > 1 {
            o.push(v.signum());
            o.push(v / 2);
            o.push(v - v.signum());
        }
        if v < 0 && v != i64::MIN {
            o.push(-v);
        }
    }
    o
}

fn candidates(sc: &Scen) -> Vec<Scen> {
    let mut out = vec![];
    // fewer steps: halves first, then single steps
    let n = sc.steps.len();
    let mut chunk = n / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < n {
            let mut c = sc.clone();
            c.steps.drain(i..(i + chunk).min(n));
            out.push(c);
            i += chunk;
        }
        chunk /= 2;
        if n > 500 && n > 64 * chunk {
            break; // each candidate is long
        }
    }
    let m = sc.sched.len();
    if m > 0 && sc.prop == "C07" {
        let mut c = sc.clone();
        c.sched.truncate(m / 2);
        if !c.sched.is_empty() {
            out.push(c);
        }
        for i in 0..m.min(40) {
            let mut c = sc.clone();
            c.sched.remove(m - 1 - i);
            if !c.sched.is_empty() {
                out.push(c);
            }
        }
    }
    for i in 0..sc.nodes.len() {
        if !sc.nodes[i].faults.is_empty() {
            let mut c = sc.clone();
            c.nodes[i].faults.clear();
            out.push(c);
            for j in 0..sc.nodes[i].faults.len() {
                let mut c = sc.clone();
                c.nodes[i].faults.remove(j);
                out.push(c);
            }
        }
        if sc.nodes[i].tap {
            let mut c = sc.clone();
            c.nodes[i].tap = false;
            out.push(c);
        }
        match &sc.nodes[i].kind {
            Kind::Src { pre, per, primer } => {
                let mut halves = vec![];
                if pre.len() > 16 {
                    let h = pre.len() / 2;
                    halves = vec![pre[h..].to_vec(), pre[..h].to_vec(), pre[..pre.len() - pre.len() / 8].to_vec()];
                }
                for p in halves {
                    let mut c = sc.clone();
                    c.nodes[i].kind = Kind::Src { pre: p, per: per.clone(), primer: *primer };
                    out.push(c);
                }
                for k in 0..pre.len().min(700) {
                    let mut p = pre.clone();
                    p.remove(k);
                    let mut c = sc.clone();
                    c.nodes[i].kind = Kind::Src { pre: p, per: per.clone(), primer: *primer };
                    out.push(c);
                }
                if !per.is_empty() {
                    let mut c = sc.clone();
                    c.nodes[i].kind = Kind::Src { pre: pre.clone(), per: vec![], primer: *primer };
                    out.push(c);
                    for k in 0..per.len() {
                        let mut p = per.clone();
                        p.remove(k);
                        if p.iter().any(|s| *s) {
                            let mut c = sc.clone();
                            c.nodes[i].kind = Kind::Src { pre: pre.clone(), per: p, primer: *primer };
                            out.push(c);
                        }
                    }
                }
                if *primer != crate::model::Primer::None {
                    let mut c = sc.clone();
                    c.nodes[i].kind = Kind::Src { pre: pre.clone(), per: per.clone(), primer: crate::model::Primer::None };
                    out.push(c);
                }
            }
            Kind::Ratio(a, b) => {
                for v in smaller(*a) {
                    let mut c = sc.clone();
                    c.nodes[i].kind = Kind::Ratio(v, *b);
                    out.push(c);
                }
                for v in smaller(*b) {
                    let mut c = sc.clone();
                    c.nodes[i].kind = Kind::Ratio(*a, v);
                    out.push(c);
                }
            }
            Kind::RatioU(p, a, b) => {
                for (x, y) in [(*a / 2, *b), (*a, *b / 2), (a.saturating_sub(1), *b), (*a, b.saturating_sub(1))] {
                    let mut c = sc.clone();
                    c.nodes[i].kind = Kind::RatioU(*p, x, y);
                    out.push(c);
                }
            }
            Kind::Homo(x, k) => {
                // replace by its operand
                let mut c = sc.clone();
                c.nodes[i].kind = sc.nodes[*x].kind.clone();
                out.push(c);
                for j in 0..4 {
                    for v in smaller(k[j]) {
                        let mut kk = *k;
                        kk[j] = v;
                        let mut c = sc.clone();
                        c.nodes[i].kind = Kind::Homo(*x, kk);
                        out.push(c);
                    }
                }
            }
            Kind::Comb(x, y, k) => {
                for o in [*x, *y] {
                    let mut c = sc.clone();
                    c.nodes[i].kind = sc.nodes[o].kind.clone();
                    out.push(c);
                }
                for j in 0..8 {
                    for v in smaller(k[j]) {
                        let mut kk = *k;
                        kk[j] = v;
                        let mut c = sc.clone();
                        c.nodes[i].kind = Kind::Comb(*x, *y, kk);
                        out.push(c);
                    }
                }
            }
            Kind::Special(_) => {}
        }
    }
    for (i, (t, s)) in sc.steps.iter().enumerate() {
        if let Step::Homo(n, p, k) = s {
            for j in 0..4 {
                for v in smaller(k[j]) {
                    let mut kk = *k;
                    kk[j] = v;
                    let mut c = sc.clone();
                    c.steps[i] = (*t, Step::Homo(*n, *p, kk));
                    out.push(c);
                }
            }
        }
        if let Step::Comb(a, b, p, q, k) = s {
            for j in 0..8 {
                for v in smaller(k[j]) {
                    let mut kk = *k;
                    kk[j] = v;
                    let mut c = sc.clone();
                    c.steps[i] = (*t, Step::Comb(*a, *b, *p, *q, kk));
                    out.push(c);
                }
            }
        }
    }
    out
}

/// Drops nodes nothing refers to.
fn compact(sc: &Scen) -> Scen {
    let n = sc.nodes.len();
    let mut used = vec![false; n];
    fn mark(sc: &Scen, i: usize, used: &mut Vec<bool>) {
        if used[i] {
            return;
        }
        used[i] = true;
        match &sc.nodes[i].kind {
            Kind::Homo(x, _) => mark(sc, *x, used),
            Kind::Comb(x, y, _) => {
                mark(sc, *x, used);
                mark(sc, *y, used);
            }
            _ => {}
        }
    }
    for (_, s) in &sc.steps {
        match s {
            Step::Build(a) | Step::Pull(a) | Step::Drop(a) | Step::Consume(a) | Step::Homo(a, _, _) => mark(sc, *a, &mut used),
            Step::Compare(a, b) | Step::Comb(a, b, _, _, _) => {
                mark(sc, *a, &mut used);
                mark(sc, *b, &mut used);
            }
        }
    }
    let mut map = vec![0usize; n];
    let mut c = sc.clone();
    c.nodes.clear();
    for i in 0..n {
        if used[i] {
            map[i] = c.nodes.len();
            c.nodes.push(sc.nodes[i].clone());
        }
    }
    for nd in &mut c.nodes {
        match &mut nd.kind {
            Kind::Homo(x, _) => *x = map[*x],
            Kind::Comb(x, y, _) => {
                *x = map[*x];
                *y = map[*y];
            }
            _ => {}
        }
    }
    for (_, s) in &mut c.steps {
        match s {
            Step::Build(a) | Step::Pull(a) | Step::Drop(a) | Step::Consume(a) | Step::Homo(a, _, _) => *a = map[*a],
            Step::Compare(a, b) | Step::Comb(a, b, _, _, _) => {
                *a = map[*a];
                *b = map[*b];
            }
        }
    }
    c
}

pub fn shrink(sc: &Scen, limit: Duration, still: &dyn Fn(&Scen) -> bool) -> Scen {
    let end = Instant::now() + limit;
    let mut best = sc.clone();
    loop {
        let mut better = false;
        for c in candidates(&best) {
            if Instant::now() > end {
                return finish(best, still);
            }
            if c.size() < best.size() && still(&c) {
                best = c;
                better = true;
                break;
            }
        }
        if !better {
            return finish(best, still);
        }
    }
}

fn finish(sc: Scen, still: &dyn Fn(&Scen) -> bool) -> Scen {
    let c = compact(&sc);
    if still(&c) {
        c
    } else {
        sc
    }
}
