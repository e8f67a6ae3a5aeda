//! How much room an operation needs: the coefficients it goes through, in wide integers.
//!
//! Follows one operation over the operand symbols that were read, emitting what was asked for as
//! soon as it is decided and halving coefficients where that is exact. The answer is whether every
//! product across coefficients stayed far inside the machine's range, so that no excuse for a
//! failure was in sight.

use crate::model::{Primer, Special, Sym};

/// Bits a product may take. The machine has 63.
pub const BITS: u32 = 52;

/// Symbols that may have been read beyond what was needed; with more, nothing is known.
const AHEAD: usize = 2;

#[derive(Clone, Copy)]
pub struct Operand<'a> {
    pub head: Result<Special, Primer>,
    pub read: &'a [Sym],
    pub ended: bool,
}

fn small(v: i128) -> bool {
    v.unsigned_abs() >> BITS == 0
}

fn int(s: Special) -> i128 {
    match s {
        Special::NegOne => -1,
        Special::Zero => 0,
        Special::PosOne => 1,
    }
}

/// Products across the corners of the domain.
fn fits(corners: &[(i128, i128)]) -> bool {
    let all = corners.iter().all(|(n, d)| small(*n) && small(*d));
    let k = corners.len();
    // zero and infinity are ordered by signs alone
    let at = |i: usize| match corners[i] {
        (n, 0) => (n.signum(), 0),
        (0, _) => (0, 1),
        c => c,
    };
    all && (0..k).all(|i| (0..k).all(|j| i == j || small(at(i).0 * at(j).1)))
}

#[derive(Clone, Copy, PartialEq)]
enum Range {
    Straddles,
    Below,    // up to -1
    Negative, // -1 to 0
    Lower,    // 0 to 1/2
    Upper,    // 1/2 to 1
    Unit,     // 0 to 1
    Above,    // from 1
}

/// Where the values at the corners lie; open ranges if `strict`.
fn range(corners: &[(i128, i128)], strict: bool) -> Range {
    let side = |p: i128, q: i128| {
        // signs of value - p/q over the corners
        let mut lo = false;
        let mut hi = false;
        let mut eq = false;
        for (n, d) in corners {
            let (n, d) = if *d < 0 { (-n, -d) } else { (*n, *d) };
            let v = if d == 0 { n.signum() } else { (n * q - p * d).signum() };
            match v {
                -1 => lo = true,
                1 => hi = true,
                _ => eq = true,
            }
        }
        (!hi && !(strict && eq), !lo && !(strict && eq)) // all below, all above
    };
    let (m1, z, h, p1) = (side(-1, 1), side(0, 1), side(1, 2), side(1, 1));
    if m1.0 {
        Range::Below
    } else if p1.1 {
        Range::Above
    } else if m1.1 && z.0 {
        Range::Negative
    } else if z.1 && h.0 {
        Range::Lower
    } else if h.1 && p1.0 {
        Range::Upper
    } else if z.1 && p1.0 {
        Range::Unit
    } else {
        Range::Straddles
    }
}

fn amenable(at: impl Iterator<Item = i128>, strict: bool) -> bool {
    let (mut neg, mut pos, mut zero) = (false, false, false);
    for v in at {
        match v.signum() {
            -1 => neg = true,
            1 => pos = true,
            _ => zero = true,
        }
    }
    !(neg && pos) && !(strict && zero)
}

fn even(v: &[i128]) -> bool {
    v.iter().all(|x| x % 2 == 0)
}

/// Rows of a transformation: `K` numerators over `K` denominators.
fn emit<const N: usize>(c: &mut [i128; N], r: Range, primed: &mut bool) -> bool {
    let k = N / 2;
    let turn = |c: &mut [i128; N]| {
        for i in 0..k {
            c.swap(i, k + i);
        }
    };
    let negate = |c: &mut [i128; N]| c[..k].iter_mut().for_each(|v| *v = -*v);
    if !*primed {
        match r {
            Range::Straddles => return false,
            Range::Below => {
                turn(c);
                negate(c);
            }
            Range::Above => turn(c),
            Range::Negative => negate(c),
            Range::Lower | Range::Upper | Range::Unit => {}
        }
        *primed = true;
        return true;
    }
    match r {
        Range::Lower => {
            if even(&c[k..]) {
                c[k..].iter_mut().for_each(|v| *v /= 2);
            } else {
                c[..k].iter_mut().for_each(|v| *v *= 2);
            }
            true
        }
        Range::Upper => {
            turn(c);
            for i in 0..k {
                c[i] -= c[k + i];
            }
            true
        }
        _ => false,
    }
}

/// Columns in pairs (high, low): one symbol of the operand goes in.
fn take<const N: usize>(c: &mut [i128; N], pairs: &[(usize, usize)], s: Sym) {
    if s {
        for (hi, lo) in pairs {
            let v = c[*hi] + c[*lo];
            c[*hi] = c[*lo];
            c[*lo] = v;
        }
    } else if pairs.iter().all(|(hi, _)| c[*hi] % 2 == 0) {
        pairs.iter().for_each(|(hi, _)| c[*hi] /= 2);
    } else {
        pairs.iter().for_each(|(_, lo)| c[*lo] *= 2);
    }
}

/// The sign of an infinite corner depends on which row of a pair is negated.
fn put_primer<const N: usize>(c: &mut [i128; N], pairs: &[(usize, usize)], p: Primer) {
    for (hi, lo) in pairs {
        if matches!(p, Primer::Turn | Primer::Ground) {
            c.swap(*hi, *lo);
        }
        match p {
            Primer::Ground if N == 4 => c[*lo] = -c[*lo],
            Primer::Ground | Primer::Reflect => c[*hi] = -c[*hi],
            _ => {}
        }
    }
}

/// True if the operation over one operand had room all along, pulled `asked` times.
pub fn one(c: [i64; 4], x: Operand, asked: usize) -> bool {
    let mut c = c.map(|v| v as i128);
    match x.head {
        Err(p) => put_primer(&mut c, &[(0, 1), (2, 3)], p),
        Ok(_) => return c.iter().all(|v| small(*v)),
    }
    homographic(c, x, asked, false)
}

fn homographic(mut c: [i128; 4], x: Operand, mut asked: usize, mut primed: bool) -> bool {
    let mut i = 0;
    loop {
        let corners = [(c[1], c[3]), (c[0] + c[1], c[2] + c[3])];
        if !fits(&corners) || !c.iter().all(|v| small(*v)) {
            return false;
        }
        if primed && asked == 0 {
            return x.read.len() <= i + AHEAD;
        }
        let zeros = corners.iter().any(|v| *v == (0, 0));
        // a special value has neither primer nor symbols
        let special = [-1, 0, 1].iter().any(|s| corners.iter().all(|(n, d)| *n == s * d));
        if !zeros && !special && amenable(corners.iter().map(|v| v.0), false) && amenable(corners.iter().map(|v| v.1), false) {
            let was = primed;
            if emit(&mut c, range(&corners, false), &mut primed) {
                asked -= was as usize;
                continue;
            }
        }
        match x.read.get(i) {
            Some(s) => take(&mut c, &[(0, 1), (2, 3)], *s),
            None => return true,
        }
        i += 1;
    }
}

/// The same for two operands, whichever is read first.
pub fn two(c: [i64; 8], x: Operand, y: Operand, asked: usize) -> bool {
    combine(c, x, y, asked) && combine([c[0], c[2], c[1], c[3], c[4], c[6], c[5], c[7]], y, x, asked)
}

fn combine(c: [i64; 8], x: Operand, y: Operand, asked: usize) -> bool {
    const X: [(usize, usize); 4] = [(0, 2), (1, 3), (4, 6), (5, 7)];
    const Y: [(usize, usize); 4] = [(0, 1), (2, 3), (4, 5), (6, 7)];
    let mut c = c.map(|v| v as i128);
    let mut asked = asked;
    match (&x.head, &y.head) {
        (Ok(s), _) => {
            let s = int(*s);
            let h = [c[2] + s * c[0], c[3] + s * c[1], c[6] + s * c[4], c[7] + s * c[5]];
            return rest(h, y, asked, false);
        }
        (_, Ok(s)) => {
            let s = int(*s);
            let h = [c[1] + s * c[0], c[3] + s * c[2], c[5] + s * c[4], c[7] + s * c[6]];
            return rest(h, x, asked, false);
        }
        (Err(p), Err(q)) => {
            put_primer(&mut c, &X, *p);
            put_primer(&mut c, &Y, *q);
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut primed = false;
    loop {
        let at = |k: usize| [c[k + 3], c[k + 2] + c[k + 3], c[k + 1] + c[k + 3], c[k] + c[k + 1] + c[k + 2] + c[k + 3]];
        let (n, d) = (at(0), at(4));
        let corners: Vec<(i128, i128)> = n.iter().copied().zip(d.iter().copied()).collect();
        if !fits(&corners) || !c.iter().all(|v| small(*v)) {
            return false;
        }
        if primed && asked == 0 {
            return x.read.len() <= i + AHEAD && y.read.len() <= j + AHEAD;
        }
        if amenable(n.into_iter(), true) && amenable(d.into_iter(), true) {
            let was = primed;
            if emit(&mut c, range(&corners, true), &mut primed) {
                asked -= was as usize;
                continue;
            }
        }
        match x.read.get(i) {
            Some(s) => take(&mut c, &X, *s),
            None if x.ended => {
                let h = [c[0] + 2 * c[2], c[1] + 2 * c[3], c[4] + 2 * c[6], c[5] + 2 * c[7]];
                let y = Operand { head: Err(Primer::None), read: &y.read[j..], ended: y.ended };
                return rest(h, y, asked, primed);
            }
            None => return true,
        }
        i += 1;
        match y.read.get(j) {
            Some(s) => take(&mut c, &Y, *s),
            None if y.ended => {
                let h = [c[0] + 2 * c[1], c[2] + 2 * c[3], c[4] + 2 * c[5], c[6] + 2 * c[7]];
                let x = Operand { head: Err(Primer::None), read: &x.read[i..], ended: x.ended };
                return rest(h, x, asked, primed);
            }
            None => return true,
        }
        j += 1;
    }
}

/// One operand left, with its own primer if nothing of it was read yet.
fn rest(mut h: [i128; 4], x: Operand, asked: usize, primed: bool) -> bool {
    match x.head {
        Ok(_) => return h.iter().all(|v| small(*v)),
        Err(p) => put_primer(&mut h, &[(0, 1), (2, 3)], p),
    }
    homographic(h, x, asked, primed)
}
