//! Per property: how scenarios are drawn from a seed and which observations
//! decide the property.

use crate::exec::{self, denote, Class, Ev, FailKind, Opts, Outcome, Stats, Violation, SEAM};
use crate::model::{Enc, Primer, Special, Sym};
use crate::prng::{mix, Rng};
use crate::scen::{Fault, Kind, Scen, Step};
use crate::sysio;
use crate::threads;
use std::cell::RefCell;
use std::collections::HashMap;

pub const ALL: [&str; 13] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Size {
    Tiny,
    Small,
    Mid,
    Big,
    Huge,
    Extreme,
    /// such that the range runs out in mid-stream
    Near,
}

fn coef(r: &mut Rng, s: Size) -> i64 {
    if r.chance(1, 5) {
        return *r.pick(&[0, 0, 0, 1, 1, -1, 2, -2]);
    }
    if matches!(s, Size::Huge | Size::Near) && r.chance(1, 3) {
        return r.range(-9, 9);
    }
    if matches!(s, Size::Big | Size::Huge | Size::Near) && r.chance(1, 6) {
        // on and beside a power of two
        let b = r.below(if s == Size::Big { 31 } else { 62 }) as u32;
        let v = (1i64 << b) + r.range(-1, 1);
        return if r.chance(1, 2) { v } else { -v };
    }
    match s {
        Size::Tiny => r.range(-3, 3),
        Size::Small => r.range(-20, 20),
        Size::Mid => r.range(-5000, 5000),
        Size::Big => {
            let b = r.below(31) as u32;
            r.range(-(1 << b), 1 << b)
        }
        Size::Huge => {
            let b = r.below(63) as u32;
            r.range(-(1i64 << b), (1i64 << b) - 1)
        }
        Size::Near => {
            let b = 20 + r.below(42) as u32;
            r.range(-(1i64 << b), (1i64 << b) - 1)
        }
        Size::Extreme => {
            if r.chance(1, 3) {
                return r.range(-9, 9);
            }
            let v = *r.pick(&[
                i64::MIN,
                i64::MIN,
                i64::MIN + 1,
                i64::MAX,
                i64::MAX - 1,
                i64::MIN / 2,
                i64::MAX / 2,
                i64::MAX / 2 + 1,
                i64::MAX / 4,
                1 << 32,
                (1 << 31) - 1,
                3037000499,
                3037000500,
            ]);
            if r.chance(1, 2) {
                v
            } else {
                v.wrapping_neg()
            }
        }
    }
}

/// Below the first bound, at times below the second.
fn mostly(r: &mut Rng, usual: u64, one_in: u64, most: u64) -> u64 {
    let n = if r.chance(1, one_in) { most } else { usual };
    r.below(n)
}

fn primer(r: &mut Rng) -> Primer {
    *r.pick(&[Primer::None, Primer::Turn, Primer::Reflect, Primer::Ground])
}

fn string(r: &mut Rng, n: usize) -> Vec<Sym> {
    let bias = 1 + r.below(7);
    (0..n).map(|_| r.below(8) < bias).collect()
}

fn source(r: &mut Rng, inf: u64, long: bool) -> Kind {
    let primer = primer(r);
    if r.chance(inf, 100) {
        let n = r.below(7) as usize;
        let mut pre = string(r, n);
        if r.chance(1, 12) {
            // one symbol over and over
            let n = 10 + r.below(70) as usize;
            let v = r.chance(1, 3);
            pre.extend(vec![v; n]);
        }
        let n = 1 + mostly(r, 6, 8, 40) as usize;
        let mut per = string(r, n);
        if !per.iter().any(|s| *s) {
            let i = r.below(per.len() as u64) as usize;
            per[i] = true;
        }
        return Kind::Src { primer, pre, per };
    }
    let n = match r.below(10) {
        0..=2 => r.below(4),
        3..=7 => r.below(13),
        _ => r.below(if long { 70 } else { 30 }),
    };
    let pre = if r.chance(1, if long { 8 } else { 40 }) {
        vec![r.chance(1, 4); n as usize]
    } else {
        string(r, n as usize)
    };
    Kind::Src { primer, pre, per: vec![] }
}

fn leaf(r: &mut Rng, sc: &mut Scen, s: Size, inf: u64) -> usize {
    let long = matches!(s, Size::Huge | Size::Extreme | Size::Near);
    let k = match r.below(20) {
        0..=12 => source(r, inf, long),
        13..=15 => {
            let (a, mut b) = (coef(r, s), coef(r, s));
            if b == 0 && !r.chance(1, 6) {
                b = 1 + r.below(6) as i64;
            }
            Kind::Ratio(a, b)
        }
        16 => {
            let (a, mut b) = (coef(r, s) as u64, coef(r, s) as u64);
            if !matches!(s, Size::Huge | Size::Extreme) {
                b &= 0xffff;
            }
            if b == 0 && !r.chance(1, 6) {
                b = 1 + r.below(6);
            }
            Kind::RatioU(r.chance(1, 2), if matches!(s, Size::Huge | Size::Extreme) { a } else { a & 0xffff }, b)
        }
        _ => Kind::Special(*r.pick(&[Special::NegOne, Special::Zero, Special::PosOne])),
    };
    sc.add(k)
}

/// Exact small value of a node, if it has one.
fn small_value(sc: &Scen, n: usize) -> Option<(i64, i64)> {
    let e = denote(sc, n);
    if !e.finite() {
        return None;
    }
    if let Enc::Point(v) = e.enc(8) {
        let (p, q) = (v.p.to_i128()?, v.q.to_i128()?);
        if p.abs() < 1 << 40 && q < 1 << 40 {
            return Some((p as i64, q as i64));
        }
    }
    None
}

fn cl(v: i128) -> i64 {
    v.clamp(i64::MIN as i128, i64::MAX as i128) as i64
}

/// Coefficients that make the result sit exactly on a boundary of the encoding
/// (or on a pole) at the operand's exact value.
fn resonant4(r: &mut Rng, p: i64, q: i64, s: Size) -> [i64; 4] {
    let (dx, d) = (coef(r, s) as i128, coef(r, s) as i128);
    let k = *r.pick(&[1i128, 1, -1, 2, 3, -5]);
    let (p, q) = (p as i128 * k, q as i128 * k);
    match r.below(7) {
        // value c = 0, 1, -1
        0..=3 => {
            let c = *r.pick(&[0i128, 1, -1, 2]);
            [cl(c * dx + q), cl(c * d - p), cl(dx), cl(d)]
        }
        // value 1/2
        4 => [cl(dx + q), cl(d - p), cl(2 * dx), cl(2 * d)],
        // pole
        5 => [cl(dx), cl(d), cl(q), cl(-p)],
        // 0/0
        _ => {
            let m = coef(r, Size::Tiny) as i128;
            [cl(m * q), cl(-m * p), cl(q), cl(-p)]
        }
    }
}

fn resonant8(r: &mut Rng, p: i64, q: i64, s: Size) -> [i64; 8] {
    let mut den = [0i128; 4];
    for v in den.iter_mut() {
        *v = coef(r, s) as i128;
    }
    let (al, be) = (coef(r, Size::Tiny) as i128, coef(r, Size::Tiny) as i128);
    let (p, q) = (p as i128, q as i128);
    // (q x - p)(al y + be)
    let z = [q * al, q * be, -p * al, -p * be];
    let c = *r.pick(&[0i128, 1, -1, 2]);
    let half = r.chance(1, 5);
    let mut o = [0i64; 8];
    for i in 0..4 {
        let (n, d) = if half { (den[i] + z[i], 2 * den[i]) } else { (c * den[i] + z[i], den[i]) };
        o[i] = cl(n);
        o[i + 4] = cl(d);
    }
    if r.chance(1, 8) {
        // pole or 0/0
        for i in 0..4 {
            o[i + 4] = cl(z[i]);
        }
    }
    o
}

/// Coefficients of one sign and similar magnitude above, likewise below, whose
/// products just fit, or just do not.
fn balanced<const N: usize>(r: &mut Rng) -> [i64; N] {
    let total = 52 + r.below(12);
    let above = 1 + r.below(total.min(62) - 1);
    let below = (total - above).clamp(1, 62);
    let mut c = [0i64; N];
    for (half, bits) in [(0, above), (N / 2, below)] {
        let sign = if r.chance(1, 2) { 1 } else { -1 };
        let sparse = r.chance(1, 3);
        for i in half..half + N / 2 {
            c[i] = sign
                * match r.below(8) {
                    0..=2 if sparse && i + 1 < half + N / 2 => 0,
                    0 => r.range(-3, 3),
                    1 => 1 << (bits - 1),
                    _ => r.range((1 << bits) / 4, 1 << bits),
                };
        }
    }
    c
}

/// Coefficients whose columns (a numerator over its denominator) are alike in value and far apart
/// in magnitude, so that large ones take part although products across columns still fit.
fn columns<const N: usize>(r: &mut Rng, corners: bool) -> [i64; N] {
    let half = N / 2;
    let near = if r.chance(1, 2) { Some((r.range(1, 1000) as i128, r.range(1, 1000) as i128)) } else { None };
    let great = 32 + r.below(28);
    // under 50 the operation must succeed, above it may fail
    let rest = (44 + r.below(17)).saturating_sub(great);
    let which = if r.chance(1, 2) { half as u64 - 1 } else { r.below(half as u64) } as usize;
    let lean = r.range(-3, 3);
    let above = if r.chance(1, 2) { 1 } else { -1 };
    let below = if r.chance(3, 4) { above } else { -above };
    let mut c = [0i64; N];
    for i in 0..half {
        let bits = if i == which { great } else { r.below(rest.min(30) + 1) };
        if i != which && r.chance(1, 6) {
            continue;
        }
        let n = r.range(1 << bits, (2 << bits) - 1);
        let d = match r.below(4) {
            0 => n + r.range(-2, 2),
            1 => n / 2 + r.range(-1, 1),
            _ => r.range(1 << bits, (2 << bits) - 1),
        };
        let (n, d) = match near {
            None if lean > 0 => (n, d >> lean),
            None => (n >> -lean, d),
            Some((p, q)) if p > q => (n, (n as i128 * q / p) as i64 + r.range(-1, 1)),
            Some((p, q)) => ((d as i128 * p / q) as i64 + r.range(-1, 1), d),
        };
        c[i] = above * n;
        c[half + i] = below * d;
    }
    if corners {
        // so far the values at the corners of the domain: now the coefficients having these,
        // often such that reading an Amplify halves them
        let even = if r.chance(1, 2) { r.below(16) } else { 0 };
        let like = (which + 1) % half;
        for h in [0, half] {
            c[h + which] = c[h + like] + (((c[h + which] - c[h + like]) >> even) << even);
            if half == 2 {
                c[h] -= c[h + 1];
            } else {
                let (xy, x, y, o) = (c[h], c[h + 1], c[h + 2], c[h + 3]);
                c[h] = xy - x - y + o;
                c[h + 1] = x - o;
                c[h + 2] = y - o;
            }
        }
    }
    c
}

fn either<const N: usize>(r: &mut Rng) -> [i64; N] {
    let corners = r.chance(1, 2);
    columns(r, corners)
}

/// One operation with coefficients far apart in magnitude over operands of few symbols.
fn wide(r: &mut Rng, sc: &mut Scen, comb: bool) -> usize {
    let mut short = |r: &mut Rng, sc: &mut Scen| {
        let primer = if r.chance(2, 3) { Primer::None } else { primer(r) };
        let n = r.below(4) as usize;
        let pre = string(r, n);
        let per = if r.chance(1, 4) { vec![r.chance(1, 2), true] } else { vec![] };
        sc.add(Kind::Src { primer, pre, per })
    };
    let corners = r.chance(3, 4);
    let x = short(r, sc);
    if comb {
        let y = short(r, sc);
        let c = columns(r, corners);
        sc.add(Kind::Comb(x, y, c))
    } else {
        let c = columns(r, corners);
        sc.add(Kind::Homo(x, c))
    }
}

/// Coefficients by their small values at the corners of the domain: decided there and then, or
/// nearly, with many coincidences among the coefficients.
fn tame<const N: usize>(r: &mut Rng) -> [i64; N] {
    let half = N / 2;
    let most = *r.pick(&[4, 8, 20]);
    let same = r.chance(1, 3);
    let mut c = [0i64; N];
    for i in 0..half {
        let d = if same && i > 0 { c[half] } else { r.range(2, most) };
        c[half + i] = d;
        c[i] = match r.below(4) {
            0 => r.range(1, d),
            1 => r.range((d + 1) / 2, d),
            _ => r.range(1, (d / 2).max(1)),
        };
    }
    if r.chance(1, 3) {
        for i in 0..half {
            c.swap(i, half + i);
        }
    }
    if r.chance(1, 3) {
        c[..half].iter_mut().for_each(|v| *v = -*v);
    }
    for h in [0, half] {
        if half == 2 {
            c[h] -= c[h + 1];
        } else {
            let (xy, x, y, o) = (c[h], c[h + 1], c[h + 2], c[h + 3]);
            c[h] = xy - x - y + o;
            c[h + 1] = x - o;
            c[h + 2] = y - o;
        }
    }
    c
}

fn coefs4(r: &mut Rng, sc: &Scen, x: usize, s: Size) -> [i64; 4] {
    if s == Size::Near && r.chance(1, 2) {
        return if r.chance(1, 2) { either(r) } else { balanced(r) };
    }
    if s == Size::Big && r.chance(1, 4) {
        return either(r);
    }
    if matches!(s, Size::Tiny | Size::Small) && r.chance(1, 6) {
        return tame(r);
    }
    if r.chance(1, 4) {
        if let Some((p, q)) = small_value(sc, x) {
            return resonant4(r, p, q, s);
        }
    }
    let mut c = [0i64; 4];
    for v in c.iter_mut() {
        *v = coef(r, s);
    }
    if c[0] == 0 && c[2] == 0 && !r.chance(1, 10) {
        c[0] = 1;
    }
    if c[2] == 0 && c[3] == 0 && !r.chance(1, 10) {
        c[3] = 1;
    }
    c
}

fn coefs8(r: &mut Rng, sc: &Scen, x: usize, s: Size) -> [i64; 8] {
    if s == Size::Near && r.chance(1, 2) {
        return if r.chance(1, 2) { either(r) } else { balanced(r) };
    }
    if s == Size::Big && r.chance(1, 4) {
        return either(r);
    }
    if matches!(s, Size::Tiny | Size::Small) && r.chance(1, 6) {
        return tame(r);
    }
    match r.below(8) {
        0 => {
            if let Some((p, q)) = small_value(sc, x) {
                return resonant8(r, p, q, s);
            }
        }
        1 => return *r.pick(&[[1, 0, 0, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 0, 1, 0]]),
        2 => return *r.pick(&[[0, 1, 1, 0, 0, 0, 0, 1], [0, 1, -1, 0, 0, 0, 0, 1]]),
        _ => {}
    }
    let mut c = [0i64; 8];
    let sparse = r.chance(1, 3);
    for v in c.iter_mut() {
        *v = if sparse && r.chance(1, 2) { 0 } else { coef(r, s) };
    }
    if c[4..].iter().all(|v| *v == 0) && !r.chance(1, 20) {
        c[7] = 1;
    }
    if c[..4].iter().all(|v| *v == 0) && !r.chance(1, 20) {
        c[1] = 1;
    }
    c
}

/// A tree of operations; returns its root.
fn tree(r: &mut Rng, sc: &mut Scen, s: Size, depth: u32, comb: u64, inf: u64) -> usize {
    if depth == 0 {
        return leaf(r, sc, s, inf);
    }
    if r.chance(1, 400) {
        return deep(r, sc, comb, inf);
    }
    if r.chance(comb, 100) {
        let x = if r.chance(1, 2) { leaf(r, sc, s, inf) } else { tree(r, sc, s, depth - 1, comb, inf) };
        let y = if r.chance(2, 3) { leaf(r, sc, s, inf) } else { tree(r, sc, s, depth - 1, comb, inf) };
        let c = coefs8(r, sc, x, s);
        sc.add(Kind::Comb(x, y, c))
    } else {
        let d = if r.chance(2, 3) { depth - 1 } else { 0 };
        let x = tree(r, sc, s, d, comb, inf);
        let c = coefs4(r, sc, x, s);
        sc.add(Kind::Homo(x, c))
    }
}

const UNDOABLE: [[i64; 4]; 5] = [[1, 1, 0, 1], [0, 1, 1, 1], [2, 1, 1, 0], [1, 2, 0, 3], [-1, 1, 1, 2]];

/// One operation upon another, many times.
fn deep(r: &mut Rng, sc: &mut Scen, comb: u64, inf: u64) -> usize {
    let mut n = leaf(r, sc, Size::Tiny, inf);
    for _ in 0..3 + mostly(r, 8, 4, 40) {
        let k = *r.pick(&[1i64, -1, 2]);
        match r.below(4) {
            0 if comb > 0 => {
                let y = leaf(r, sc, Size::Tiny, 0);
                let c = *r.pick(&[[0, k, 0, 0, 0, 0, 0, k], [0, k, k, 0, 0, 0, 0, k]]);
                n = sc.add(Kind::Comb(n, y, c));
            }
            0 | 1 => n = sc.add(Kind::Homo(n, [k, 0, 0, k])),
            2 => n = sc.add(Kind::Homo(n, *r.pick(&UNDOABLE))),
            _ => {
                let m = *r.pick(&UNDOABLE);
                n = sc.add(Kind::Homo(n, m));
                n = sc.add(Kind::Homo(n, [m[3], -m[1], -m[2], m[0]]));
            }
        }
    }
    n
}

fn moderate(r: &mut Rng) -> Size {
    if r.chance(1, 10) {
        return *r.pick(&[Size::Near, Size::Near, Size::Huge]);
    }
    *r.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Small, Size::Mid, Size::Big])
}

fn tap_all(sc: &mut Scen) {
    for n in &mut sc.nodes {
        n.tap = true;
    }
}

/// Benign edge faults: taps and handovers.
fn disturb(r: &mut Rng, sc: &mut Scen, reenter: bool) {
    if r.chance(1, 4) {
        return;
    }
    let late = r.chance(1, 6);
    for n in &mut sc.nodes {
        n.tap = r.chance(1, 2);
        let k = r.below(4);
        for _ in 0..k {
            let at = r.below(if late { 200 } else { 20 }) as u32;
            let f = if reenter && r.chance(1, 2) {
                Fault::Reenter(r.below(1 << 20) as u32)
            } else {
                Fault::Handover(1 + mostly(r, 4, 30, 200) as u8)
            };
            n.faults.push((at, f));
        }
    }
}

fn fail_faults(r: &mut Rng, sc: &mut Scen) {
    for n in &mut sc.nodes {
        n.tap = n.tap || r.chance(1, 2);
        let k = 1 + r.below(2);
        for _ in 0..k {
            if r.chance(2, 3) {
                let m = *r.pick(&[3u64, 8, 25]);
                let at = r.below(m) as u32;
                n.faults.push((at, Fault::Fail));
            }
        }
    }
}

fn pulls(sc: &mut Scen, task: u8, n: usize, k: u64) {
    for _ in 0..k {
        sc.steps.push((task, Step::Pull(n)));
    }
}

/// Build, pull, and sometimes put what is left through another operation.
fn live_use(r: &mut Rng, sc: &mut Scen, root: usize, s: Size, comb: bool, most: u64) {
    sc.steps.push((0, Step::Build(root)));
    let most = if r.chance(1, 30) { most * 10 } else { most };
    let k = r.below(most);
    pulls(sc, 0, root, k);
    let times = if r.chance(3, 4) { 0 } else { 1 + mostly(r, 1, 4, 5) };
    for _ in 0..times {
        let p = primer(r);
        if comb && r.chance(1, 2) {
            let other = leaf(r, sc, s, 40);
            sc.steps.push((0, Step::Build(other)));
            let k = r.below(5);
            pulls(sc, 0, other, k);
            let c = coefs8(r, sc, other, s);
            let q = primer(r);
            sc.steps.push((0, Step::Comb(root, other, p, q, c)));
        } else {
            let c = coefs4(r, sc, root, s);
            sc.steps.push((0, Step::Homo(root, p, c)));
        }
        let k = r.below(most);
        pulls(sc, 0, root, k);
    }
}

/// A number so small that nothing is decided about it for a long time.
fn minute(sc: &mut Scen, k: usize) -> usize {
    let mut pre = vec![false; k];
    pre.push(true);
    sc.add(Kind::Src { primer: Primer::None, pre, per: vec![] })
}

/// Further than any small counter reaches: a source whose symbols come out again unchanged.
fn marathon(r: &mut Rng, sc: &mut Scen, comb: bool) {
    let k = source(r, 100, false);
    let mut n = sc.add(k);
    for _ in 0..1 + r.below(2) {
        if comb {
            let y = if r.chance(1, 2) { leaf(r, sc, Size::Tiny, 0) } else { minute(sc, 150_000) };
            let k = *r.pick(&[1i64, -1, 2]);
            n = sc.add(Kind::Comb(n, y, [0, k, 0, 0, 0, 0, 0, k]));
        } else if r.chance(1, 2) {
            let k = *r.pick(&[1i64, -1, 2]);
            n = sc.add(Kind::Homo(n, [k, 0, 0, k]));
        } else {
            let m = *r.pick(&UNDOABLE);
            n = sc.add(Kind::Homo(n, m));
            n = sc.add(Kind::Homo(n, [m[3], -m[1], -m[2], m[0]]));
        }
    }
    sc.steps.push((0, Step::Build(n)));
    // past any counter of sixteen bits, at times of twenty
    let k = if r.chance(1, 10) { 1_100_000 } else { 70_000 };
    pulls(sc, 0, n, k);
}

fn degrade(sc: &mut Scen) {
    if SEAM {
        return;
    }
    for n in &mut sc.nodes {
        n.tap = false;
        n.faults.clear();
        if let Kind::Src { pre, per, .. } = &mut n.kind {
            pre.extend(per.iter().cloned());
            pre.truncate(40);
            per.clear();
        }
    }
}

pub fn generate(prop: &str, seed: u64) -> Scen {
    let mut r = Rng::new(seed);
    let mut sc = Scen::new(prop);
    let r = &mut r;
    match prop {
        "C01" | "C02" | "C11" if SEAM && r.chance(1, 10_000) => marathon(r, &mut sc, prop == "C02"),
        "C05" | "C06" | "C09" if SEAM && r.chance(1, 20_000) => {
            let comb = r.chance(1, 2);
            marathon(r, &mut sc, comb);
            if prop == "C06" {
                tap_all(&mut sc);
                let i = r.below(sc.nodes.len() as u64) as usize;
                sc.nodes[i].faults.push((r.below(70_000) as u32, Fault::Fail));
            } else if prop == "C09" {
                sc.io = r.below(7) as u8;
            }
        }
        "C08" if SEAM && r.chance(1, 20_000) => {
            marathon(r, &mut sc, false);
            sc.steps.truncate(700);
            tap_all(&mut sc);
        }
        "C01" => {
            let s = moderate(r);
            let d = 1 + mostly(r, 3, 6, 6) as u32;
            let inf = *r.pick(&[0, 40, 100]);
            let root = if r.chance(1, 10) { wide(r, &mut sc, false) } else { tree(r, &mut sc, s, d, 0, inf) };
            live_use(r, &mut sc, root, s, false, 60);
            disturb(r, &mut sc, false);
        }
        "C02" => {
            let s = moderate(r);
            let d = 1 + mostly(r, 2, 6, 4) as u32;
            let inf = *r.pick(&[0, 30, 100]);
            let root = if r.chance(1, 10) { wide(r, &mut sc, true) } else { tree(r, &mut sc, s, d, 75, inf) };
            live_use(r, &mut sc, root, s, true, 50);
            disturb(r, &mut sc, false);
        }
        "C03" => gen_compare(r, &mut sc),
        "C04" => gen_consume(r, &mut sc),
        "C05" => {
            let s = *r.pick(&[Size::Big, Size::Big, Size::Huge, Size::Near, Size::Near, Size::Near, Size::Near, Size::Extreme]);
            let d = 1 + r.below(2) as u32;
            let comb = *r.pick(&[0, 50, 100]);
            let inf = *r.pick(&[0, 50]);
            let root = if r.chance(1, 10) { wide(r, &mut sc, comb > 0) } else { tree(r, &mut sc, s, d, comb, inf) };
            match r.below(6) {
                0 => {
                    sc.steps.push((0, Step::Build(root)));
                    sc.steps.push((0, Step::Consume(root)));
                    pulls(&mut sc, 0, root, 20);
                }
                1 => {
                    let other = tree(r, &mut sc, s, 1, comb, inf);
                    sc.steps.push((0, Step::Build(root)));
                    sc.steps.push((0, Step::Build(other)));
                    sc.steps.push((0, Step::Compare(root, other)));
                }
                _ => live_use(r, &mut sc, root, s, true, 90),
            }
            if r.chance(1, 2) {
                tap_all(&mut sc);
            }
        }
        "C06" => gen_failures(r, &mut sc),
        "C07" => gen_isolation(r, &mut sc),
        "C08" => {
            let s = *r.pick(&[Size::Tiny, Size::Tiny, Size::Tiny, Size::Small, Size::Small, Size::Mid, Size::Big, Size::Near]);
            if r.chance(1, 5) {
                let a = tree(r, &mut sc, s, 1, 20, 50);
                let b = tree(r, &mut sc, s, 1, 20, 50);
                sc.steps.push((0, Step::Build(a)));
                sc.steps.push((0, Step::Build(b)));
                let k = r.below(4);
                pulls(&mut sc, 0, a, k);
                sc.steps.push((0, Step::Compare(a, b)));
            } else {
                let d = 1 + mostly(r, 2, 6, 4) as u32;
                let comb = *r.pick(&[0, 0, 60]);
                let inf = *r.pick(&[0, 60, 100]);
                let root = tree(r, &mut sc, s, d, comb, inf);
                sc.steps.push((0, Step::Build(root)));
                let k = mostly(r, 50, 15, 300);
                pulls(&mut sc, 0, root, k);
                if r.chance(1, 3) {
                    sc.steps.push((0, Step::Drop(root)));
                }
            }
            tap_all(&mut sc);
            for n in &mut sc.nodes {
                if r.chance(1, 4) {
                    n.faults.push((r.below(12) as u32, Fault::Handover(1 + r.below(3) as u8)));
                }
            }
        }
        "C09" => {
            let s = *r.pick(&[Size::Tiny, Size::Small, Size::Mid, Size::Huge]);
            let comb = *r.pick(&[0, 60]);
            let root = tree(r, &mut sc, s, 2, comb, 50);
            match r.below(5) {
                0 => {
                    let other = tree(r, &mut sc, s, 1, comb, 50);
                    sc.steps.push((0, Step::Build(root)));
                    sc.steps.push((0, Step::Build(other)));
                    sc.steps.push((0, Step::Compare(root, other)));
                }
                1 => {
                    sc.steps.push((0, Step::Build(root)));
                    sc.steps.push((0, Step::Consume(root)));
                    pulls(&mut sc, 0, root, 10);
                }
                _ => live_use(r, &mut sc, root, s, comb > 0, 40),
            }
            sc.io = 1 + r.below(6) as u8;
        }
        "C10" => {
            let s = *r.pick(&[Size::Tiny, Size::Tiny, Size::Tiny, Size::Small, Size::Small, Size::Mid, Size::Big, Size::Near]);
            let comb = *r.pick(&[0, 0, 60]);
            let d = r.below(3) as u32;
            let root = tree(r, &mut sc, s, d, comb, 4);
            live_use(r, &mut sc, root, s, comb > 0, 12);
            let k = match r.below(20_000) {
                0 => 70_000,
                1..=2000 => 300,
                _ => 30 + r.below(40),
            };
            pulls(&mut sc, 0, root, k);
            disturb(r, &mut sc, false);
        }
        "C11" => {
            let s = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Mid, Size::Big, Size::Near]);
            let comb = *r.pick(&[0, 50, 100]);
            let inf = *r.pick(&[0, 50, 100]);
            let d = 1 + r.below(3) as u32;
            let root = if r.chance(1, 10) { wide(r, &mut sc, comb > 0) } else { tree(r, &mut sc, s, d, comb, inf) };
            sc.steps.push((0, Step::Build(root)));
            let k = 1 + r.below(40);
            pulls(&mut sc, 0, root, k);
            match r.below(6) {
                0 => sc.steps.push((0, Step::Consume(root))),
                1 => {
                    let other = tree(r, &mut sc, s, 1, comb, inf);
                    sc.steps.push((0, Step::Build(other)));
                    sc.steps.push((0, Step::Compare(root, other)));
                }
                _ => {}
            }
            tap_all(&mut sc);
        }
        "C13" => gen_memory(r, &mut sc),
        "C14" => {
            let s = *r.pick(&[Size::Tiny, Size::Small, Size::Mid, Size::Big, Size::Near]);
            let comb = *r.pick(&[0, 60]);
            let inf = *r.pick(&[0, 30]);
            let d = 1 + r.below(2) as u32;
            let root = tree(r, &mut sc, s, d, comb, inf);
            sc.steps.push((0, Step::Build(root)));
            if r.chance(1, 5) {
                let other = tree(r, &mut sc, s, 1, comb, inf);
                sc.steps.push((0, Step::Build(other)));
                sc.steps.push((0, Step::Compare(root, other)));
            } else {
                let k = 1 + mostly(r, 50, 15, 300);
                pulls(&mut sc, 0, root, k);
            }
            if SEAM && r.chance(1, 10_000) {
                sc = Scen::new(prop);
                marathon(r, &mut sc, comb > 0);
            }
            // the variant is drawn from this
            sc.sched = vec![r.below(256) as u8, r.below(256) as u8];
        }
        _ => {}
    }
    degrade(&mut sc);
    sc
}

/// A second copy of a node and all it depends on.
fn copy(sc: &mut Scen, n: usize) -> usize {
    let k = match sc.nodes[n].kind.clone() {
        Kind::Homo(x, c) => Kind::Homo(copy(sc, x), c),
        Kind::Comb(x, y, c) => {
            let x = copy(sc, x);
            Kind::Comb(x, copy(sc, y), c)
        }
        k => k,
    };
    sc.add(k)
}

fn gen_compare(r: &mut Rng, sc: &mut Scen) {
    if SEAM && r.chance(1, 20_000) {
        // late in their lives
        let comb = r.chance(1, 2);
        marathon(r, sc, comb);
        if let Some((_, Step::Pull(n))) = sc.steps.last().cloned() {
            let b = leaf(r, sc, Size::Tiny, 30);
            sc.steps.push((0, Step::Build(b)));
            sc.steps.push((0, if r.chance(1, 2) { Step::Compare(n, b) } else { Step::Compare(b, n) }));
            sc.nodes[n].tap = true;
            sc.nodes[b].tap = true;
        }
        return;
    }
    if SEAM && r.chance(1, 20_000) {
        // they differ, if at all, beyond any small counter
        // or than the stack, were it used for each of them
        let far = if r.chance(1, 3) { 1_000_000 } else { 66_000 };
        let (a, b) = (source(r, 100, false), far + r.below(4000) as usize);
        if let Kind::Src { primer, pre, per } = &a {
            let mut all: Vec<Sym> = (0..b).map(|i| crate::model::sym_at(pre, per, i).unwrap()).collect();
            if r.chance(1, 2) {
                let last = all.last_mut().unwrap();
                *last = !*last;
            }
            let other = Kind::Src { primer: *primer, pre: all, per: vec![] };
            let pair = if r.chance(1, 2) { [a, other] } else { [other, a] };
            for k in pair {
                let n = sc.add(k);
                sc.nodes[n].tap = true;
                sc.steps.push((0, Step::Build(n)));
            }
            sc.steps.push((0, Step::Compare(0, 1)));
        }
        return;
    }
    let s = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Small, Size::Mid, Size::Mid, Size::Big, Size::Near]);
    let inf = *r.pick(&[0, 50, 100]);
    let a = if r.chance(1, 2) { leaf(r, sc, s, inf) } else { tree(r, sc, s, 1, 25, inf) };
    let long = r.chance(1, 10);
    let b = match r.below(6) {
        // the same value, produced in another way
        5 if denote(sc, a).finite() => {
            let n = copy(sc, a);
            let k = *r.pick(&[1i64, -1, 2, 5]);
            if r.chance(2, 3) {
                sc.add(Kind::Homo(n, [k, 0, 0, k]))
            } else {
                let y = leaf(r, sc, Size::Tiny, 0);
                sc.add(Kind::Comb(n, y, [0, k, 0, 0, 0, 0, 0, k]))
            }
        }
        // a near twin of a: same prefix, different continuation
        0..=2 => match sc.nodes[a].kind.clone() {
            Kind::Src { primer, pre, per } => {
                let mut all: Vec<Sym> = pre.clone();
                let most = if long { 600 / (1 + per.len() as u64) } else { 8 };
                for _ in 0..r.below(most) {
                    all.extend(per.iter().cloned());
                }
                if !all.is_empty() && r.chance(2, 3) {
                    let m = all.len() as u64;
                    let i = (m - 1 - r.below(m.min(6))) as usize;
                    if r.chance(1, 2) {
                        all[i] = !all[i];
                    } else {
                        all.truncate(i);
                    }
                }
                let per = if r.chance(1, 3) {
                    let mut p = string(r, 3);
                    p[0] = true;
                    p
                } else {
                    vec![]
                };
                let primer = if r.chance(1, 8) { self::primer(r) } else { primer };
                sc.add(Kind::Src { primer, pre: all, per })
            }
            _ => match small_value(sc, a) {
                Some((p, q)) => {
                    let e = r.range(-1, 1);
                    let k = r.range(1, 1000);
                    sc.add(Kind::Ratio(p.saturating_mul(k).saturating_add(e), q.saturating_mul(k)))
                }
                None => leaf(r, sc, s, inf),
            },
        },
        3 => leaf(r, sc, s, inf),
        _ => tree(r, sc, s, 1, 25, inf),
    };
    let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
    sc.steps.push((0, Step::Build(a)));
    sc.steps.push((0, Step::Build(b)));
    if r.chance(1, 4) {
        let most = if r.chance(1, 40) { 400 } else { 6 };
        let k = r.below(most);
        pulls(sc, 0, a, k);
        let k = r.below(most);
        pulls(sc, 0, b, k);
    }
    sc.steps.push((0, Step::Compare(a, b)));
    disturb(r, sc, false);
    for n in [a, b] {
        sc.nodes[n].tap = true;
    }
}

fn gen_consume(r: &mut Rng, sc: &mut Scen) {
    if SEAM && r.chance(1, 20_000) {
        // late in its life
        let comb = r.chance(1, 2);
        marathon(r, sc, comb);
        if let Some((_, Step::Pull(n))) = sc.steps.last().cloned() {
            for _ in 0..3 {
                sc.steps.push((0, Step::Consume(n)));
                pulls(sc, 0, n, 30);
            }
        }
        return;
    }
    let s = moderate(r);
    let inf = *r.pick(&[0, 50, 100]);
    let n = match r.below(3) {
        0 => {
            // long enough to fill the coefficients
            let k = 20 + r.below(160) as usize;
            let pre = string(r, k);
            let per = if r.chance(1, 2) { vec![true, false] } else { vec![] };
            let primer = primer(r);
            sc.add(Kind::Src { primer, pre, per })
        }
        1 => {
            let s = if r.chance(1, 3) { Size::Huge } else { s };
            leaf(r, sc, s, inf)
        }
        _ => {
            let comb = *r.pick(&[0, 40]);
            tree(r, sc, s, 1, comb, inf)
        }
    };
    sc.steps.push((0, Step::Build(n)));
    if r.chance(1, 3) {
        let k = mostly(r, 12, 30, 400);
        pulls(sc, 0, n, k);
    }
    sc.steps.push((0, Step::Consume(n)));
    for _ in 0..mostly(r, 3, 20, 25) {
        let k = r.below(30);
        pulls(sc, 0, n, k);
        sc.steps.push((0, Step::Consume(n)));
    }
    let k = r.below(30);
    pulls(sc, 0, n, k);
    disturb(r, sc, false);
}

/// Failures that hit while symbols are being extracted, and pulls that go on regardless.
fn gen_failures(r: &mut Rng, sc: &mut Scen) {
    let near = r.chance(1, 3);
    let s = if near { Size::Near } else { *r.pick(&[Size::Tiny, Size::Small, Size::Mid, Size::Big]) };
    let d = 1 + r.below(2) as u32;
    let comb = *r.pick(&[0, 60, 100]);
    let inf = *r.pick(&[0, 30, 100]);
    let root = tree(r, sc, s, d, comb, inf);
    sc.steps.push((0, Step::Build(root)));
    let k = 5 + mostly(r, 60, 20, 600);
    pulls(sc, 0, root, k);
    // whatever is left is put to use, even if it has failed
    if r.chance(1, 3) {
        let p = primer(r);
        match r.below(4) {
            0 => sc.steps.push((0, Step::Consume(root))),
            1 => {
                let other = leaf(r, sc, s, inf);
                sc.steps.push((0, Step::Build(other)));
                let (a, b) = if r.chance(1, 2) { (root, other) } else { (other, root) };
                sc.steps.push((0, Step::Compare(a, b)));
            }
            2 => {
                let c = coefs4(r, sc, root, Size::Small);
                sc.steps.push((0, Step::Homo(root, p, c)));
            }
            _ => {
                let other = leaf(r, sc, s, inf);
                sc.steps.push((0, Step::Build(other)));
                let c = coefs8(r, sc, other, Size::Small);
                let q = primer(r);
                sc.steps.push((0, if r.chance(1, 2) { Step::Comb(root, other, p, q, c) } else { Step::Comb(other, root, q, p, c) }));
                pulls(sc, 0, other, 20);
            }
        }
        pulls(sc, 0, root, 20);
    }
    if near && r.chance(1, 2) || !SEAM {
        return; // the range runs out by itself
    }
    for n in &mut sc.nodes {
        n.tap = n.tap || r.chance(1, 2);
    }
    if r.chance(1, 3) {
        fail_faults(r, sc);
        return;
    }
    // learn when each edge is pulled once the number exists, and fail there
    let quiet = |sc: &Scen| exec::run(sc, Opts { judge: false, ..Opts::default() }).attempts;
    let mut only = sc.clone();
    only.steps.truncate(1);
    let (from, to) = (quiet(&only), quiet(sc));
    let late: Vec<usize> = (0..sc.nodes.len()).filter(|i| to[*i] > from[*i]).collect();
    if late.is_empty() {
        fail_faults(r, sc);
        return;
    }
    for _ in 0..1 + r.below(3) {
        let i = *r.pick(&late);
        let n = (to[i] - from[i]) as u64;
        let at = if r.chance(1, 3) { n - 1 - r.below(n.min(3)) } else { r.below(n) };
        for k in 0..1 + r.below(2) as u32 {
            sc.nodes[i].faults.push((from[i] + at as u32 + k, Fault::Fail));
        }
    }
}

fn gen_isolation(r: &mut Rng, sc: &mut Scen) {
    let tasks = 2 + r.below(3) as u8;
    let mut queues: Vec<Vec<Step>> = vec![];
    for _ in 0..tasks {
        let s = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Mid, Size::Big, Size::Near]);
        let comb = *r.pick(&[0, 60]);
        let inf = *r.pick(&[0, 60]);
        let d = 1 + r.below(2) as u32;
        let root = tree(r, sc, s, d, comb, inf);
        let mut q = vec![Step::Build(root)];
        let k = 1 + r.below(30);
        for _ in 0..k {
            q.push(Step::Pull(root));
        }
        match r.below(6) {
            0 => q.push(Step::Consume(root)),
            1 => q.push(Step::Drop(root)),
            2 => {
                let other = leaf(r, sc, s, inf);
                q.push(Step::Build(other));
                q.push(Step::Compare(root, other));
            }
            3 => {
                let c = coefs4(r, sc, root, s);
                q.push(Step::Homo(root, Primer::None, c));
                for _ in 0..5 {
                    q.push(Step::Pull(root));
                }
            }
            _ => {}
        }
        queues.push(q);
        // another one does nearly the same
        if queues.len() == 1 && r.chance(1, 3) {
            let q = near_twin(r, sc, &queues[0]);
            queues.push(q);
        }
    }
    if r.chance(1, 80) {
        // together they are more than each of them
        let n = 1 << r.below(10);
        let kind = r.below(4);
        queues.push(crowd(r, sc, n, kind));
        queues.push(crowd(r, sc, n, kind));
    }
    let calm = r.chance(1, 2) && SEAM;
    for n in &mut sc.nodes {
        n.tap = r.chance(1, 2);
        if r.chance(1, 4) {
            n.faults.push((r.below(15) as u32, Fault::Handover(1 + r.below(3) as u8)));
        }
        if r.chance(1, 10) {
            n.faults.push((r.below(15) as u32, Fault::Fail));
        }
        if !calm && r.chance(1, 6) {
            n.faults.push((r.below(15) as u32, Fault::Reenter(r.below(1 << 20) as u32)));
        }
    }
    let mut at = vec![0usize; queues.len()];
    loop {
        let open: Vec<usize> = (0..queues.len()).filter(|i| at[*i] < queues[*i].len()).collect();
        if open.is_empty() {
            break;
        }
        let i = *r.pick(&open);
        let burst = 1 + r.below(4) as usize;
        for _ in 0..burst {
            if at[i] < queues[i].len() {
                sc.steps.push((i as u8, queues[i][at[i]].clone()));
                at[i] += 1;
            }
        }
    }
    if r.chance(2, 5) {
        let n = 50 + r.below(300);
        sc.sched = (0..n).map(|_| r.below(8) as u8).collect();
    }
    if SEAM && r.chance(1, 5_000) {
        let (mut long, comb) = (Scen::new("C07"), r.chance(1, 2));
        marathon(r, &mut long, comb);
        let n = sc.nodes.len();
        let q = shifted(sc, &long.nodes, n, &long.steps.iter().map(|(_, s)| s.clone()).collect::<Vec<_>>());
        let t = queues.len() as u8;
        let mut at = 0;
        let mut steps = vec![];
        for s in q {
            steps.push((t, s));
            if at < sc.steps.len() && r.chance(1, 500) {
                steps.push(sc.steps[at].clone());
                at += 1;
            }
        }
        steps.extend_from_slice(&sc.steps[at..]);
        sc.steps = steps;
        sc.sched.clear();
    }
    // compare with how it comes out in a process that did nothing before
    if r.chance(1, 100) {
        sc.io = 1 + r.below(queues.len() as u64) as u8;
    }
}

/// Adds numbers and tells the steps on them.
fn shifted(sc: &mut Scen, nodes: &[crate::scen::Node], n: usize, q: &[Step]) -> Vec<Step> {
    for d in nodes {
        let mut d = d.clone();
        match &mut d.kind {
            Kind::Homo(x, _) => *x += n,
            Kind::Comb(x, y, _) => {
                *x += n;
                *y += n;
            }
            _ => {}
        }
        sc.nodes.push(d);
    }
    q.iter()
        .map(|s| match s {
            Step::Build(a) => Step::Build(a + n),
            Step::Pull(a) => Step::Pull(a + n),
            Step::Drop(a) => Step::Drop(a + n),
            Step::Consume(a) => Step::Consume(a + n),
            Step::Compare(a, b) => Step::Compare(a + n, b + n),
            Step::Homo(a, p, c) => Step::Homo(a + n, *p, *c),
            Step::Comb(a, b, p, q, c) => Step::Comb(a + n, b + n, *p, *q, *c),
        })
        .collect()
}

/// The steps of a computation on a copy of its numbers (all that there are so far),
/// with a small difference in one of them.
fn near_twin(r: &mut Rng, sc: &mut Scen, q: &[Step]) -> Vec<Step> {
    let n = sc.nodes.len();
    let nodes = sc.nodes.clone();
    let q = shifted(sc, &nodes, n, q);
    let i = n + r.below(n as u64) as usize;
    let by = *r.pick(&[-1i64, 1, 1, 2, 1 << 8, 1 << 16, -(1 << 16), 1 << 32]);
    let flip = r.chance(1, 2);
    match &mut sc.nodes[i].kind {
        Kind::Ratio(a, _) => *a = a.saturating_add(by),
        Kind::RatioU(_, a, _) => *a = a.saturating_add(1),
        Kind::Homo(_, c) => {
            let j = r.below(4) as usize;
            c[j] = if flip { c[j].wrapping_neg() } else { c[j].saturating_add(by) };
        }
        Kind::Comb(_, _, c) => {
            let j = r.below(8) as usize;
            c[j] = if flip { c[j].wrapping_neg() } else { c[j].saturating_add(by) };
        }
        Kind::Src { pre, .. } if !pre.is_empty() => {
            let j = r.below(pre.len() as u64) as usize;
            pre[j] = !pre[j];
        }
        _ => {}
    }
    q
}

/// Many numbers alive at the same time.
fn crowd(r: &mut Rng, sc: &mut Scen, n: u64, kind: u64) -> Vec<Step> {
    let mut q = vec![];
    let mut live = vec![];
    for _ in 0..n {
        let endless = SEAM && r.chance(1, 2);
        let x = sc.add(if endless {
            Kind::Src { primer: Primer::None, pre: vec![], per: vec![r.chance(1, 2), true] }
        } else {
            Kind::Ratio(r.range(1, 50), r.range(51, 99))
        });
        let root = match if kind < 3 { kind } else { r.below(3) } {
            0 => x,
            1 => sc.add(Kind::Homo(x, [r.range(1, 3), r.range(0, 3), 0, r.range(1, 3)])),
            _ => {
                let y = sc.add(Kind::Ratio(1, r.range(3, 90)));
                sc.add(Kind::Comb(x, y, [0, 1, 1, 0, 0, 0, 0, 1]))
            }
        };
        q.push(Step::Build(root));
        live.push(root);
        if r.chance(1, 8) {
            q.push(Step::Pull(*r.pick(&live)));
        }
    }
    q
}

fn gen_memory(r: &mut Rng, sc: &mut Scen) {
    if r.chance(1, 12) {
        // a long stream
        let mut n = {
            let k = source(r, 100, false);
            sc.add(k)
        };
        let comb = r.chance(1, 4);
        let k = if r.chance(1, 200) { 70_000 } else { 1500 + r.below(3000) };
        for _ in 0..1 + r.below(2) {
            if comb {
                let y = minute(sc, 3 * k as usize);
                n = sc.add(Kind::Comb(n, y, [0, 1, 0, 0, 0, 0, 0, 1]));
                continue;
            }
            let mut c = [0i64; 4];
            for v in c.iter_mut() {
                *v = coef(r, Size::Tiny);
            }
            if c[0] * c[3] == c[1] * c[2] {
                c = [1, 1, 0, 2];
            }
            n = sc.add(Kind::Homo(n, c));
        }
        sc.steps.push((0, Step::Build(n)));
        pulls(sc, 0, n, k);
        return;
    }
    let s = *r.pick(&[Size::Tiny, Size::Small, Size::Mid, Size::Big, Size::Huge]);
    let comb = *r.pick(&[0, 60, 100]);
    let inf = *r.pick(&[0, 60]);
    let d = 1 + r.below(2) as u32;
    let root = tree(r, sc, s, d, comb, inf);
    live_use(r, sc, root, s, comb > 0, 40);
    match r.below(4) {
        0 => {
            let other = leaf(r, sc, s, 0);
            sc.steps.push((0, Step::Build(other)));
            sc.steps.push((0, Step::Compare(root, other)));
        }
        1 => sc.steps.push((0, Step::Consume(root))),
        _ => {}
    }
    if r.chance(1, 2) {
        let i = r.below(sc.steps.len() as u64) as usize;
        sc.steps.insert(i, (0, Step::Drop(root)));
    }
    disturb(r, sc, false);
    if r.chance(1, 2) {
        fail_faults(r, sc);
    }
}

pub struct Verdict {
    pub violation: Option<Violation>,
    pub other: Option<Violation>,
    pub stats: Stats,
    pub hash: u64,
    pub nontrivial: bool,
    pub trace: Vec<String>,
}

fn classes(prop: &str) -> &'static [Class] {
    match prop {
        "C01" | "C02" => &[Class::Value, Class::Undefined, Class::Avail, Class::Progress],
        "C03" => &[Class::Order, Class::Demand, Class::Avail, Class::Progress],
        "C04" => &[Class::Consume, Class::Avail, Class::Progress],
        "C05" => &[Class::Value, Class::Undefined, Class::Order, Class::Consume, Class::AfterFail, Class::Progress],
        "C06" => &[Class::AfterFail, Class::Value, Class::Undefined, Class::Order, Class::Consume, Class::Progress],
        "C07" => &[Class::Isolation],
        "C08" => &[Class::Demand, Class::AfterEnd],
        "C09" => &[Class::Io],
        "C10" => &[Class::Final],
        "C11" => &[Class::Avail, Class::Progress],
        "C13" => &[Class::Leak],
        "C14" => &[Class::Provenance],
        _ => &[],
    }
}

thread_local! {
    static KNOWN: RefCell<HashMap<u32, u64>> = RefCell::new(HashMap::new());
}

fn side_scenario(seed: u32) -> Scen {
    let mut r = Rng::new(mix(seed as u64 ^ 0x5eed));
    let r = &mut r;
    let mut sc = Scen::new("side");
    let comb = *r.pick(&[0, 60]);
    let root = tree(r, &mut sc, Size::Small, 1, comb, 30);
    sc.steps.push((0, Step::Build(root)));
    pulls(&mut sc, 0, root, 8);
    let other = leaf(r, &mut sc, Size::Small, 0);
    sc.steps.push((0, Step::Build(other)));
    sc.steps.push((0, Step::Compare(other, root)));
    degrade(&mut sc);
    sc
}

fn side_hash(seed: u32) -> u64 {
    exec::run(&side_scenario(seed), Opts { judge: false, ..Opts::default() }).hash
}

/// Runs the unrelated computation of a re-entry; tells if it came out differently
/// from how it comes out on its own.
pub fn reenter(seed: u32) -> Option<String> {
    let want = KNOWN.with(|k| k.borrow().get(&seed).cloned());
    let got = side_hash(seed);
    match want {
        Some(w) if w != got => Some(format!("unrelated computation {} came out differently while a pull was in flight", seed)),
        _ => None,
    }
}

pub fn known_reentries() -> HashMap<u32, u64> {
    KNOWN.with(|k| k.borrow().clone())
}

pub fn set_known_reentries(m: HashMap<u32, u64>) {
    KNOWN.with(|k| *k.borrow_mut() = m);
}

fn learn_reentries(sc: &Scen) {
    let mut m = HashMap::new();
    for n in &sc.nodes {
        for (_, f) in &n.faults {
            if let Fault::Reenter(s) = f {
                m.insert(*s, side_hash(*s));
            }
        }
    }
    set_known_reentries(m);
}

pub fn judge(sc: &Scen, trace: bool) -> Verdict {
    match sc.prop.as_str() {
        "C07" => judge_isolation(sc, trace),
        "C09" => judge_io(sc, trace),
        "C14" => judge_provenance(sc, trace),
        _ => judge_plain(sc, trace),
    }
}

fn pick(prop: &str, o: &Outcome) -> (Option<Violation>, Option<Violation>) {
    let cs = classes(prop);
    let mine = o.violations.iter().find(|v| cs.contains(&v.class)).cloned();
    let other = if mine.is_none() { o.violations.first().cloned() } else { None };
    (mine, other)
}

fn judge_plain(sc: &Scen, trace: bool) -> Verdict {
    let prop = sc.prop.as_str();
    let opts = || Opts { trace, demand: prop == "C08", order_demand: prop == "C08" || prop == "C03", ..Opts::default() };
    let o = exec::run(sc, opts());
    let (mut mine, mut other) = pick(prop, &o);
    if prop == "C03" {
        // demand counts only for comparisons here
        let counts = |v: &Violation| match v.class {
            Class::Demand | Class::Avail | Class::Progress => matches!(sc.steps.get(v.step), Some((_, Step::Compare(..)))),
            c => classes(prop).contains(&c),
        };
        mine = o.violations.iter().find(|v| counts(v)).cloned();
    }
    if prop == "C06" && mine.is_some() {
        // without the failures the number has to be right, else they are not to blame
        let mut twin = sc.clone();
        for n in &mut twin.nodes {
            n.faults.retain(|(_, f)| *f != Fault::Fail);
        }
        let t = exec::run(&twin, Opts::default());
        let wrong = t.violations.iter().any(|v| v.class != Class::AfterFail && classes(prop).contains(&v.class));
        let after = mine.as_ref().map(|v| v.class) == Some(Class::AfterFail);
        if wrong || o.stats.fails == 0 && !after {
            other = mine.take();
        }
    }
    if prop == "C13" && mine.is_some() {
        // one-time initialisation inside the library is not a leak
        let t = exec::run(sc, opts());
        mine = pick(prop, &t).0;
    }
    let st = &o.stats;
    let nontrivial = match prop {
        "C01" | "C02" | "C05" => st.symbols + st.undefined > 0 && (st.pulls > 0 || !SEAM),
        "C03" => st.compares > 0,
        "C04" => st.consumes > 0 && (st.pulls > 0 || !SEAM),
        "C06" => st.after_fail_pulls > 0,
        "C08" => st.demand_checks > 0 || st.eofs > 0,
        "C10" => finals(&o) > 0,
        "C11" => st.symbols > 0,
        "C13" => st.symbols > 0,
        _ => true,
    };
    Verdict { violation: mine, other, stats: o.stats, hash: o.hash, nontrivial, trace: o.trace }
}

/// Pulls that were made after an end.
fn finals(o: &Outcome) -> usize {
    let mut ended: Vec<usize> = vec![];
    let mut n = 0;
    for (_, e) in &o.events {
        if let Ev::Got(i, s) = e {
            if ended.contains(i) {
                n += 1;
            } else if s.is_none() {
                ended.push(*i);
            }
        }
    }
    n
}

fn isolation(step: usize, what: String) -> Option<Violation> {
    Some(Violation { class: Class::Isolation, step, what })
}

fn digest(v: &[Ev]) -> u64 {
    format!("{:?}", v).bytes().fold(7, |h, b| mix(h ^ b as u64))
}

/// What one computation of a scenario observes when it is the first in its process.
pub fn only(sc: &Scen) -> u64 {
    let o = exec::run(sc, Opts { judge: false, task: Some(sc.io - 1), ..Opts::default() });
    digest(&o.events.into_iter().map(|(_, e)| e).collect::<Vec<_>>())
}

fn elsewhere(sc: &Scen) -> Option<u64> {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().ok()?;
    let mut c = Command::new(exe).arg("only").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    c.stdin.take()?.write_all(crate::scen::to_text(sc).as_bytes()).ok()?;
    let mut s = String::new();
    c.stdout.take()?.read_to_string(&mut s).ok()?;
    c.wait().ok()?;
    u64::from_str_radix(s.trim(), 16).ok()
}

fn judge_isolation(sc: &Scen, trace: bool) -> Verdict {
    learn_reentries(sc);
    let ids = threads::tasks(sc);
    // on their own, without any disturbance by others
    let mut quiet = sc.clone();
    for n in &mut quiet.nodes {
        n.faults.retain(|(_, f)| !matches!(f, Fault::Reenter(_)));
    }
    let solo: Vec<Vec<Ev>> = ids
        .iter()
        .map(|t| {
            let o = exec::run(&quiet, Opts { judge: false, task: Some(*t), ..Opts::default() });
            o.events.into_iter().map(|(_, e)| e).collect()
        })
        .collect();
    let mut stats = Stats::default();
    let mut hash = 0;
    let mut violation = None;
    let mut lines = vec![];
    let together: Vec<Vec<Ev>> = if sc.sched.is_empty() {
        let o = exec::run(sc, Opts { judge: false, trace, ..Opts::default() });
        if let Some(v) = o.violations.iter().find(|v| v.class == Class::Isolation) {
            violation = Some(v.clone());
        }
        stats = o.stats.clone();
        hash = o.hash;
        lines = o.trace.clone();
        ids.iter().map(|t| o.events.iter().filter(|(u, _)| u == t).map(|(_, e)| e.clone()).collect()).collect()
    } else {
        let (reports, switches) = threads::run(sc);
        let mut all = vec![];
        for (i, r) in reports.into_iter().enumerate() {
            if let Some(w) = &r.isolation {
                violation = isolation(0, w.clone());
            }
            add(&mut stats, &r.stats);
            hash = mix(hash ^ r.hash.rotate_left(i as u32));
            if trace {
                lines.push(format!("thread {}: {:?}", i, r.events));
            }
            all.push(r.events);
        }
        stats.switches = switches;
        hash = mix(hash ^ sc.sched.iter().fold(0u64, |h, s| mix(h ^ *s as u64)));
        all
    };
    if violation.is_none() {
        for (i, (a, b)) in solo.iter().zip(together.iter()).enumerate() {
            // an abandoned run (violation of another kind) shows only a prefix
            let n = a.len().min(b.len());
            if a[..n] != b[..n] || a.len() != b.len() {
                let k = (0..n).find(|k| a[*k] != b[*k]).unwrap_or(n);
                violation = isolation(
                    0,
                    format!(
                        "computation {} observes {:?} as its event {} when others run in between, but {:?} when alone",
                        ids[i],
                        b.get(k),
                        k,
                        a.get(k)
                    ),
                );
                break;
            }
        }
    }
    if violation.is_none() && sc.io > 0 {
        if let Some(t) = ids.iter().position(|t| *t == sc.io - 1) {
            if let Some(h) = elsewhere(&quiet) {
                if h != digest(&solo[t]) {
                    violation = isolation(0, format!("computation {} comes out differently in a process that made no other before", ids[t]));
                }
            }
        }
    }
    let nontrivial = stats.symbols > 0 && (ids.len() > 1 || stats.reentries > 0);
    Verdict { violation, other: None, stats, hash, nontrivial, trace: lines }
}

pub fn add(a: &mut Stats, b: &Stats) {
    a.calls += b.calls;
    a.pulls += b.pulls;
    a.symbols += b.symbols;
    a.fails += b.fails;
    a.handovers += b.handovers;
    a.reentries += b.reentries;
    a.switches += b.switches;
    a.drops += b.drops;
    a.eofs += b.eofs;
    a.lib_failures += b.lib_failures;
    a.after_fail_pulls += b.after_fail_pulls;
    a.unjudged += b.unjudged;
    a.demand_checks += b.demand_checks;
    a.compares += b.compares;
    a.consumes += b.consumes;
    a.io_faults += b.io_faults;
    a.undefined += b.undefined;
}

fn judge_io(sc: &Scen, trace: bool) -> Verdict {
    use sysio::Mode;
    let plain = |mode: Mode, skew: i64, trace: bool| {
        let before = sysio::counts();
        sysio::set(mode, skew);
        let o = exec::run(sc, Opts { judge: false, trace, ..Opts::default() });
        sysio::set(Mode::Sink, 0);
        sysio::flush_as_library();
        sysio::set(Mode::Off, 0);
        let after = sysio::counts();
        (o, before, after)
    };
    let (a, start, _) = plain(Mode::Sink, 0, false);
    let (mode, skew) = match sc.io {
        1 => (Mode::Broken, 0),
        2 => (Mode::Full, 0),
        3 => (Mode::Closed, 0),
        4 => (Mode::Ragged, 0),
        5 => (Mode::Sink, -86400),
        6 => (Mode::Full, 1 << 31),
        _ => (Mode::Sink, 0),
    };
    let (b, before, after) = plain(mode, skew, trace);
    let mut stats = b.stats.clone();
    stats.io_faults = after.fired - before.fired;
    let before = start;
    let mut violation = None;
    let mut say = |what: String| {
        if violation.is_none() {
            violation = Some(Violation { class: Class::Io, step: 0, what });
        }
    };
    if a.events != b.events {
        let n = a.events.iter().zip(b.events.iter()).position(|(x, y)| x != y);
        say(format!("with {:?} standard streams and clock skew {}, observations differ from a healthy run (event {:?})", mode, skew, n));
    }
    if after.writes != before.writes {
        say(format!("the library made {} write calls ({} bytes)", after.writes - before.writes, after.bytes - before.bytes));
    }
    if after.opens != before.opens {
        say("the library opened a file".into());
    }
    if after.clocks != before.clocks {
        say("the library read the clock".into());
    }
    if after.envs != before.envs {
        say("the library read the environment".into());
    }
    if after.others != before.others {
        say(format!("the library called {}", sysio::last()));
    }
    if !sysio::hook_in_place() {
        say("the library replaced the program's panic hook".into());
    }
    let nontrivial = stats.calls > 0 && (stats.pulls > 0 || !SEAM);
    let hash = mix(b.hash ^ sc.io as u64);
    Verdict { violation, other: None, stats, hash, nontrivial, trace: b.trace }
}

/// The same numbers, produced in another way. Returns whether failures have to agree too.
fn variant(sc: &Scen) -> (Scen, bool) {
    let mut v = sc.clone();
    let seed = sc.sched.iter().fold(7u64, |h, s| mix(h ^ *s as u64));
    let mut r = Rng::new(seed);
    let r = &mut r;
    v.sched.clear();
    if SEAM && r.chance(1, 2) {
        for n in &mut v.nodes {
            n.tap = r.chance(2, 3);
            let most = if r.chance(1, 10) { 250 } else { 6 };
            for i in 0..40 {
                if r.chance(1, 4) {
                    n.faults.push((i, Fault::Handover(1 + r.below(most) as u8)));
                }
            }
        }
        return (v, true);
    }
    for i in 0..sc.nodes.len() {
        if r.chance(1, 3) {
            continue;
        }
        let old = sc.nodes[i].clone();
        let exact = small_value(sc, i);
        let turn = r.below(7);
        match (turn, &old.kind) {
            // operands the other way round
            (4, Kind::Comb(x, y, c)) => {
                v.nodes[i].kind = Kind::Comb(*y, *x, [c[0], c[2], c[1], c[3], c[4], c[6], c[5], c[7]]);
                continue;
            }
            // the same transformation in other coefficients
            (5, Kind::Comb(x, y, c)) => {
                let k = *r.pick(&[-1i64, 2, 3, -10]);
                if c.iter().all(|e| e.checked_mul(k).is_some()) {
                    v.nodes[i].kind = Kind::Comb(*x, *y, c.map(|e| e * k));
                }
                continue;
            }
            (5, Kind::Homo(x, c)) => {
                let k = *r.pick(&[-1i64, 2, 3, -10, 1 << 16]);
                if c.iter().all(|e| e.checked_mul(k).is_some()) {
                    v.nodes[i].kind = Kind::Homo(*x, c.map(|e| e * k));
                }
                continue;
            }
            // there and back
            (6, _) => {
                let mut m = [0i64; 4];
                for e in m.iter_mut() {
                    *e = r.range(-4, 4);
                }
                if m[0] * m[3] == m[1] * m[2] {
                    m = [1, 2, 0, 3];
                }
                v.nodes.push(old);
                let j = v.nodes.len() - 1;
                let there = v.add(Kind::Homo(j, m));
                v.nodes[i].kind = Kind::Homo(there, [m[3], -m[1], -m[2], m[0]]);
                v.nodes[i].faults.clear();
                continue;
            }
            _ => {}
        }
        match (turn % 4, exact) {
            (0, Some((p, q))) => v.nodes[i].kind = Kind::Ratio(p, q),
            (1, Some((p, q))) => {
                // not in lowest terms, up to the range
                let max = i64::MAX / p.abs().max(q);
                let scale = |r: &mut Rng, max: u64| match r.below(4) {
                    0 => 1 + r.below(30.min(max)),
                    1 => 1 << r.below(64 - max.leading_zeros() as u64),
                    2 => max - r.below(max.min(3)),
                    _ => {
                        let b = r.below(64 - max.leading_zeros() as u64);
                        1 + r.below(1 << b)
                    }
                };
                v.nodes[i].kind = if r.chance(1, 3) {
                    let k = scale(r, u64::MAX / p.unsigned_abs().max(q as u64));
                    Kind::RatioU(p >= 0, p.unsigned_abs() * k, q as u64 * k)
                } else {
                    let k = scale(r, max as u64) as i64;
                    Kind::Ratio(p * k, q * k)
                }
            }
            (2, Some((p, q))) => {
                // x = 1/(1/x) or -(-x) through two operations
                let base = v.add(if p != 0 && r.chance(1, 2) { Kind::Ratio(q, p) } else { Kind::Ratio(-p, q) });
                let turned = matches!(v.nodes[base].kind, Kind::Ratio(a, _) if a == q) && p != 0;
                v.nodes[i].kind = if turned { Kind::Homo(base, [0, 1, 1, 0]) } else { Kind::Homo(base, [-1, 0, 0, 1]) };
                if small_value(&v, i) != small_value(sc, i) {
                    v.nodes[i] = old;
                }
            }
            _ => {
                v.nodes.push(old);
                let j = v.nodes.len() - 1;
                let k = *r.pick(&[1i64, 1, -1, 3, 1 << 20, -1000000007]);
                v.nodes[i].kind = if r.chance(1, 3) {
                    Kind::Comb(j, j, [0; 8]) // replaced below
                } else {
                    Kind::Homo(j, [k, 0, 0, k])
                };
                if let Kind::Comb(..) = v.nodes[i].kind {
                    let y = v.add(Kind::Ratio(r.range(1, 5), 3));
                    v.nodes[i].kind = Kind::Comb(j, y, [0, 1, 0, 0, 0, 0, 0, 1]);
                }
                v.nodes[i].faults.clear();
            }
        }
    }
    (v, false)
}

fn judge_provenance(sc: &Scen, trace: bool) -> Verdict {
    let a = exec::run(sc, Opts { judge: false, ..Opts::default() });
    let (v, same_failures) = variant(sc);
    let b = exec::run(&v, Opts { judge: false, trace, ..Opts::default() });
    let roots: Vec<usize> = sc.steps.iter().filter_map(|(_, s)| if let Step::Build(n) = s { Some(*n) } else { None }).collect();
    let mut violation = None;
    let of = |o: &Outcome, n: usize| -> Vec<Ev> {
        o.events
            .iter()
            .map(|(_, e)| e.clone())
            .filter(|e| match e {
                Ev::Special(i, _) | Ev::Other(i, _) | Ev::Got(i, _) | Ev::Cmp(i, _) | Ev::Failed(i, _) => *i == n,
                _ => false,
            })
            .collect()
    };
    let mut agreed = 0;
    for n in roots {
        let (x, y) = (of(&a, n), of(&b, n));
        for k in 0..x.len().max(y.len()) {
            let (p, q) = (x.get(k), y.get(k));
            let failed = |e: Option<&Ev>| matches!(e, None | Some(Ev::Failed(_, FailKind::Library)) | Some(Ev::Failed(_, FailKind::Budget)));
            if p == q {
                agreed += 1;
                continue;
            }
            if !same_failures && (failed(p) || failed(q)) {
                break;
            }
            violation = Some(Violation {
                class: Class::Provenance,
                step: 0,
                what: format!("number {} gives {:?} as its observation {} but {:?} when its operands are produced in another way", n, p, k, q),
            });
            break;
        }
    }
    let mut trace_lines = b.trace.clone();
    if trace {
        trace_lines.insert(0, format!("variant:\n{}", crate::scen::to_text(&v)));
    }
    let hash = mix(a.hash ^ b.hash.rotate_left(17));
    let mut stats = b.stats;
    add(&mut stats, &a.stats);
    Verdict { violation, other: None, stats, hash, nontrivial: agreed > 1, trace: trace_lines }
}
