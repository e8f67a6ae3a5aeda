//! The reference model: what number an expression denotes, to any precision,
//! and the unique symbol sequence that represents it.
//!
//! A live operand may be an infinite stream, so a value is known through an
//! enclosure computed from the first k symbols of every leaf. Enclosures are
//! either exact points or open intervals, with exact big integer end points.

use crate::big::Big;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Primer {
    None,
    Turn,
    Reflect,
    Ground,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Special {
    NegOne,
    Zero,
    PosOne,
}

/// false: Amplify, true: Uncover
pub type Sym = bool;

/// What a construction is expected to yield.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Head {
    Special(Special),
    Other(Primer),
    /// no finite value exists
    Undefined,
    /// not decided by the precision the model is willing to spend
    Unknown,
}

/// What a pull is expected to yield.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Next {
    Sym(Sym),
    End,
    Unknown,
    /// the tail is not between zero and one: the model was led astray by a wrong symbol
    Astray,
}

/// A projective point p/q with q >= 0, not 0/0.
#[derive(Clone, Debug)]
pub struct Pt {
    pub p: Big,
    pub q: Big,
}

impl Pt {
    pub fn new(p: Big, q: Big) -> Pt {
        let z = p.trailing_zeros().min(q.trailing_zeros());
        if z > 0 && z != usize::MAX {
            Pt { p: p.shr(z), q: q.shr(z) }
        } else {
            Pt { p, q }
        }
    }
    pub fn int(p: i128, q: i128) -> Pt {
        Pt::new(Big::from(p), Big::from(q))
    }
    pub fn cmp(&self, o: &Pt) -> Ordering {
        // infinities of equal sign compare equal (0 == 0)
        let c = self.p.mul(&o.q).cmp(&o.p.mul(&self.q));
        if self.q.is_zero() && o.q.is_zero() {
            return self.p.signum().cmp(&o.p.signum());
        }
        c
    }
    pub fn cmp_int(&self, p: i128, q: i128) -> Ordering {
        self.cmp(&Pt::int(p, q))
    }
}

#[derive(Clone, Debug)]
pub enum Enc {
    Undefined,
    Unknown,
    Point(Pt),
    Open(Pt, Pt),
}

pub enum Expr {
    Ratio(Big, Big),
    Src { primer: Primer, pre: Vec<Sym>, per: Vec<Sym> },
    Homo(Rc<Expr>, [Big; 4]),
    Comb(Rc<Expr>, Rc<Expr>, [Big; 8]),
    Memo(Rc<Expr>, RefCell<Option<(usize, Enc)>>),
}

pub fn bigs<const N: usize>(v: [i64; N]) -> [Big; N] {
    v.map(|x| Big::from(x as i128))
}

/// Hull of raw vectors (p, q) whose positive combinations are the values.
fn hull(vs: Vec<(Big, Big)>) -> Enc {
    let vs: Vec<_> = vs.into_iter().filter(|(p, q)| !(p.is_zero() && q.is_zero())).collect();
    if vs.is_empty() {
        return Enc::Undefined;
    }
    let pos = vs.iter().any(|(_, q)| q.signum() > 0);
    let neg = vs.iter().any(|(_, q)| q.signum() < 0);
    if pos && neg {
        return Enc::Unknown;
    }
    if !pos && !neg {
        return Enc::Undefined;
    }
    let pts: Vec<Pt> = vs
        .into_iter()
        .map(|(p, q)| if neg { Pt::new(p.neg(), q.neg()) } else { Pt::new(p, q) })
        .collect();
    let mut lo = pts[0].clone();
    let mut hi = pts[0].clone();
    for p in &pts[1..] {
        if p.cmp(&lo) == Ordering::Less {
            lo = p.clone();
        }
        if p.cmp(&hi) == Ordering::Greater {
            hi = p.clone();
        }
    }
    if lo.cmp(&hi) == Ordering::Equal {
        Enc::Point(lo)
    } else if lo.q.is_zero() && hi.q.is_zero() {
        Enc::Unknown
    } else {
        Enc::Open(lo, hi)
    }
}

pub fn map1(m: &[Big; 4], x: &Enc) -> Enc {
    let f = |v: &Pt| (m[0].mul(&v.p).add(&m[1].mul(&v.q)), m[2].mul(&v.p).add(&m[3].mul(&v.q)));
    match x {
        Enc::Undefined => Enc::Undefined,
        Enc::Unknown => {
            if m[0].is_zero() && m[2].is_zero() {
                hull(vec![(m[1].clone(), m[3].clone())])
            } else {
                Enc::Unknown
            }
        }
        Enc::Point(v) => hull(vec![f(v)]),
        Enc::Open(a, b) => {
            // A kernel or a pole strictly inside shows as opposite signs.
            let (fa, fb) = (f(a), f(b));
            hull(vec![fa, fb])
        }
    }
}

fn map2(m: &[Big; 8], x: &Enc, y: &Enc) -> Enc {
    let f = |v: &Pt, w: &Pt| {
        let (a, b, c, d) = (v.p.mul(&w.p), v.p.mul(&w.q), v.q.mul(&w.p), v.q.mul(&w.q));
        let g = |k: usize| m[k].mul(&a).add(&m[k + 1].mul(&b)).add(&m[k + 2].mul(&c)).add(&m[k + 3].mul(&d));
        (g(0), g(4))
    };
    let ends = |e: &Enc| -> Option<Vec<Pt>> {
        match e {
            Enc::Point(v) => Some(vec![v.clone()]),
            Enc::Open(a, b) => Some(vec![a.clone(), b.clone()]),
            _ => None,
        }
    };
    if let (Enc::Undefined, _) | (_, Enc::Undefined) = (x, y) {
        return Enc::Undefined;
    }
    match (ends(x), ends(y)) {
        (Some(xs), Some(ys)) => {
            let mut vs = vec![];
            for v in &xs {
                for w in &ys {
                    vs.push(f(v, w));
                }
            }
            hull(vs)
        }
        _ => Enc::Unknown,
    }
}

fn with_primer(primer: Primer, (p, q): (Big, Big)) -> (Big, Big) {
    match primer {
        Primer::None => (p, q),
        Primer::Turn => (q, p),
        Primer::Reflect => (p.neg(), q),
        Primer::Ground => (q.neg(), p),
    }
}

fn fold<'a>(syms: impl DoubleEndedIterator<Item = &'a Sym>, start: (Big, Big)) -> (Big, Big) {
    let (mut p, mut q) = start;
    for s in syms.rev() {
        if *s {
            let n = p.add(&q);
            p = q;
            q = n;
        } else if p.is_even() {
            p = p.half();
        } else {
            q = q.dbl();
        }
    }
    (p, q)
}

/// Enclosure of primer(symbols, unknown tail), or of the finite number if `ended`.
pub fn prefix_enc(primer: Primer, syms: &[Sym], ended: bool) -> Enc {
    if ended {
        hull(vec![with_primer(primer, fold(syms.iter(), (Big::one(), Big::from(2))))])
    } else {
        hull(vec![
            with_primer(primer, fold(syms.iter(), (Big::zero(), Big::one()))),
            with_primer(primer, fold(syms.iter(), (Big::one(), Big::one()))),
        ])
    }
}

impl Expr {
    pub fn memo(self) -> Rc<Expr> {
        Rc::new(Expr::Memo(Rc::new(self), RefCell::new(None)))
    }
    pub fn enc(&self, k: usize) -> Enc {
        match self {
            Expr::Ratio(p, q) => {
                if q.is_zero() {
                    Enc::Undefined
                } else {
                    hull(vec![(p.clone(), q.clone())])
                }
            }
            Expr::Src { primer, pre, per } => {
                if per.is_empty() {
                    prefix_enc(*primer, pre, true)
                } else {
                    let n = pre.len() + k;
                    let syms: Vec<Sym> = (0..n).map(|i| sym_at(pre, per, i).unwrap()).collect();
                    prefix_enc(*primer, &syms, false)
                }
            }
            Expr::Homo(x, m) => map1(m, &x.enc(k)),
            Expr::Comb(x, y, m) => map2(m, &x.enc(k), &y.enc(k)),
            Expr::Memo(e, cell) => {
                if let Some((kk, enc)) = &*cell.borrow() {
                    if *kk == k {
                        return enc.clone();
                    }
                    if let Enc::Point(_) = enc {
                        return enc.clone();
                    }
                }
                let enc = e.enc(k);
                *cell.borrow_mut() = Some((k, enc.clone()));
                enc
            }
        }
    }
    /// True if every leaf is finite, so that enc is exact.
    pub fn finite(&self) -> bool {
        match self {
            Expr::Ratio(..) => true,
            Expr::Src { per, .. } => per.is_empty(),
            Expr::Homo(x, _) => x.finite(),
            Expr::Comb(x, y, _) => x.finite() && y.finite(),
            Expr::Memo(e, _) => e.finite(),
        }
    }
}

pub fn sym_at(pre: &[Sym], per: &[Sym], i: usize) -> Option<Sym> {
    if i < pre.len() {
        Some(pre[i])
    } else if per.is_empty() {
        None
    } else {
        Some(per[(i - pre.len()) % per.len()])
    }
}

/// Streams longer than this are not followed by enclosures if it can be helped.
pub const LONG: usize = 2000;

pub const KS: [usize; 7] = [8, 24, 64, 128, 256, 512, 1024];

/// Classify an enclosure of a whole number.
pub fn head_of(e: &Enc) -> Head {
    match e {
        Enc::Undefined => Head::Undefined,
        Enc::Unknown => Head::Unknown,
        Enc::Point(v) => match (v.cmp_int(-1, 1), v.cmp_int(0, 1), v.cmp_int(1, 1)) {
            (Ordering::Less, _, _) => Head::Other(Primer::Ground),
            (Ordering::Equal, _, _) => Head::Special(Special::NegOne),
            (_, Ordering::Less, _) => Head::Other(Primer::Reflect),
            (_, Ordering::Equal, _) => Head::Special(Special::Zero),
            (_, _, Ordering::Less) => Head::Other(Primer::None),
            (_, _, Ordering::Equal) => Head::Special(Special::PosOne),
            _ => Head::Other(Primer::Turn),
        },
        Enc::Open(a, b) => {
            let ge = |p: &Pt, v: i128| p.cmp_int(v, 1) != Ordering::Less;
            let le = |p: &Pt, v: i128| p.cmp_int(v, 1) != Ordering::Greater;
            if le(b, -1) {
                Head::Other(Primer::Ground)
            } else if ge(a, 1) {
                Head::Other(Primer::Turn)
            } else if ge(a, -1) && le(b, 0) {
                Head::Other(Primer::Reflect)
            } else if ge(a, 0) && le(b, 1) {
                Head::Other(Primer::None)
            } else {
                Head::Unknown
            }
        }
    }
}

/// Classify an enclosure of a tail, which has to be between zero and one.
pub fn next_of(e: &Enc) -> Next {
    match e {
        Enc::Undefined | Enc::Unknown => Next::Unknown,
        Enc::Point(v) => {
            if v.cmp_int(0, 1) != Ordering::Greater || v.cmp_int(1, 1) != Ordering::Less {
                return Next::Astray;
            }
            match v.cmp_int(1, 2) {
                Ordering::Less => Next::Sym(false),
                Ordering::Equal => Next::End,
                Ordering::Greater => Next::Sym(true),
            }
        }
        Enc::Open(a, b) => {
            if b.cmp_int(0, 1) != Ordering::Greater || a.cmp_int(1, 1) != Ordering::Less {
                return Next::Astray;
            }
            let inside = a.cmp_int(0, 1) != Ordering::Less && b.cmp_int(1, 1) != Ordering::Greater;
            if !inside {
                Next::Unknown
            } else if b.cmp_int(1, 2) != Ordering::Greater {
                Next::Sym(false)
            } else if a.cmp_int(1, 2) != Ordering::Less {
                Next::Sym(true)
            } else {
                Next::Unknown
            }
        }
    }
}

fn step_matrix(head: Option<Primer>, sym: Option<Sym>) -> [Big; 4] {
    match (head, sym) {
        (Some(Primer::None), _) => bigs([1, 0, 0, 1]),
        (Some(Primer::Turn), _) => bigs([0, 1, 1, 0]),
        (Some(Primer::Reflect), _) => bigs([-1, 0, 0, 1]),
        (Some(Primer::Ground), _) => bigs([0, -1, 1, 0]),
        (_, Some(false)) => bigs([2, 0, 0, 1]),
        (_, Some(true)) => bigs([-1, 1, 1, 0]),
        _ => bigs([1, 0, 0, 1]),
    }
}

fn compose(a: &[Big; 4], b: &[Big; 4]) -> [Big; 4] {
    let mut m = [
        a[0].mul(&b[0]).add(&a[1].mul(&b[2])),
        a[0].mul(&b[1]).add(&a[1].mul(&b[3])),
        a[2].mul(&b[0]).add(&a[3].mul(&b[2])),
        a[2].mul(&b[1]).add(&a[3].mul(&b[3])),
    ];
    let z = m.iter().map(|v| v.trailing_zeros()).min().unwrap();
    if z > 0 && z != usize::MAX {
        for v in m.iter_mut() {
            *v = v.shr(z);
        }
    }
    m
}

/// A source that operations cancelling one another amount to.
struct Plain {
    primer: Primer,
    pre: Vec<Sym>,
    per: Vec<Sym>,
}

fn flat(e: &Expr) -> Option<([Big; 4], Plain)> {
    match e {
        Expr::Memo(e, _) => flat(e),
        Expr::Src { primer, pre, per } => Some((bigs([1, 0, 0, 1]), Plain { primer: *primer, pre: pre.clone(), per: per.clone() })),
        Expr::Homo(x, m) => {
            let (k, p) = flat(x)?;
            Some((compose(m, &k), p))
        }
        Expr::Comb(x, y, m) => {
            if !y.finite() || (0..8).any(|i| i != 1 && i != 7 && !m[i].is_zero()) {
                return None;
            }
            let (k, p) = flat(x)?;
            Some((compose(&[m[1].clone(), Big::zero(), Big::zero(), m[7].clone()], &k), p))
        }
        _ => None,
    }
}

fn plain(e: &Expr) -> Option<Plain> {
    let (m, p) = flat(e)?;
    if m[1].is_zero() && m[2].is_zero() && !m[0].is_zero() && m[0].cmp(&m[3]) == Ordering::Equal {
        Some(p)
    } else {
        None
    }
}

/// Order of two sources of the same primer by their symbols alone.
fn order_plain(a: &Plain, b: &Plain) -> Option<Ordering> {
    if a.primer != b.primer {
        return None;
    }
    let n = a.pre.len() + b.pre.len() + a.per.len() * b.per.len() + a.per.len() + b.per.len() + 1;
    // values fall with the primer's and every Uncover's reciprocal or negation
    let mut up = matches!(a.primer, Primer::None | Primer::Ground);
    for i in 0..n {
        let rank = |s: Option<Sym>| match s {
            Some(false) => 0,
            None => 1,
            Some(true) => 2,
        };
        let (x, y) = (sym_at(&a.pre, &a.per, i), sym_at(&b.pre, &b.per, i));
        if x != y {
            let o = rank(x).cmp(&rank(y));
            return Some(if up { o } else { o.reverse() });
        }
        match x {
            None => return Some(Ordering::Equal),
            Some(true) => up = !up,
            _ => {}
        }
    }
    None
}

/// Follows one number while it is being emitted.
#[derive(Clone)]
pub struct Oracle {
    pub expr: Rc<Expr>,
    /// a source followed symbol by symbol, and how far
    plain: Option<(Rc<Plain>, usize)>,
    mat: [Big; 4],
    level: usize,
    cur: Enc,
    max_level: usize,
}

impl Oracle {
    pub fn new(expr: Rc<Expr>) -> Oracle {
        let cur = expr.enc(KS[0]);
        Oracle { expr, plain: None, mat: bigs([1, 0, 0, 1]), level: 0, cur, max_level: KS.len() - 1 }
    }
    /// For streams too long for enclosures; None unless all operations cancel out.
    pub fn long(expr: Rc<Expr>) -> Option<Oracle> {
        let p = plain(&expr)?;
        Some(Oracle { expr, plain: Some((Rc::new(p), 0)), mat: bigs([1, 0, 0, 1]), level: 0, cur: Enc::Unknown, max_level: 0 })
    }
    fn refine(&mut self) -> bool {
        if let Enc::Point(_) | Enc::Undefined = self.cur {
            return false;
        }
        if self.level >= self.max_level || self.expr.finite() {
            return false;
        }
        self.level += 1;
        self.cur = map1(&self.mat, &self.expr.enc(KS[self.level]));
        true
    }
    pub fn head(&mut self) -> Head {
        if let Some((p, _)) = &self.plain {
            return Head::Other(p.primer);
        }
        loop {
            let h = head_of(&self.cur);
            if h == Head::Unknown && self.refine() {
                continue;
            }
            return h;
        }
    }
    pub fn next(&mut self) -> Next {
        if let Some((p, i)) = &self.plain {
            return sym_at(&p.pre, &p.per, *i).map(Next::Sym).unwrap_or(Next::End);
        }
        loop {
            let n = next_of(&self.cur);
            if n == Next::Unknown && self.refine() {
                continue;
            }
            return n;
        }
    }
    pub fn take_head(&mut self, p: Primer) {
        if self.plain.is_some() {
            return;
        }
        self.step(step_matrix(Some(p), None));
    }
    pub fn take(&mut self, s: Sym) {
        if let Some((_, i)) = &mut self.plain {
            *i += 1;
            return;
        }
        self.step(step_matrix(None, Some(s)));
    }
    fn step(&mut self, m: [Big; 4]) {
        self.cur = map1(&m, &self.cur);
        self.mat = compose(&m, &self.mat);
    }
    /// The number that is left, as an expression of its own.
    pub fn tail(&self) -> Rc<Expr> {
        if let Some((p, i)) = &self.plain {
            let (mut pre, mut per) = (p.pre.clone(), p.per.clone());
            pre.drain(..(*i).min(p.pre.len()));
            if !per.is_empty() && *i > p.pre.len() {
                let k = (*i - p.pre.len()) % per.len();
                per.rotate_left(k);
            }
            return Expr::Src { primer: Primer::None, pre, per }.memo();
        }
        Expr::Homo(self.expr.clone(), self.mat.clone()).memo()
    }
    pub fn matrix(&self) -> &[Big; 4] {
        &self.mat
    }
    pub fn enclosure(&self) -> &Enc {
        &self.cur
    }
}

/// Order of two values, if the model can tell.
pub fn order(a: &Expr, b: &Expr) -> Option<Ordering> {
    if let (Some(x), Some(y)) = (plain(a), plain(b)) {
        if x.pre.len().max(y.pre.len()) > LONG {
            return order_plain(&x, &y);
        }
    }
    for k in KS {
        match (a.enc(k), b.enc(k)) {
            (Enc::Point(x), Enc::Point(y)) => return Some(x.cmp(&y)),
            (Enc::Point(x), Enc::Open(lo, hi)) => {
                if x.cmp(&lo) != Ordering::Greater {
                    return Some(Ordering::Less);
                }
                if x.cmp(&hi) != Ordering::Less {
                    return Some(Ordering::Greater);
                }
            }
            (Enc::Open(lo, hi), Enc::Point(y)) => {
                if y.cmp(&lo) != Ordering::Greater {
                    return Some(Ordering::Greater);
                }
                if y.cmp(&hi) != Ordering::Less {
                    return Some(Ordering::Less);
                }
            }
            (Enc::Open(l1, h1), Enc::Open(l2, h2)) => {
                if h1.cmp(&l2) != Ordering::Greater {
                    return Some(Ordering::Less);
                }
                if h2.cmp(&l1) != Ordering::Greater {
                    return Some(Ordering::Greater);
                }
            }
            _ => {}
        }
        if a.finite() && b.finite() {
            return None;
        }
    }
    None
}

/// As the enclosure of a bilinear map, but None if a corner is 0/0 or infinite.
pub fn map2_strict(m: &[Big; 8], x: &Enc, y: &Enc) -> Option<Enc> {
    match map2(m, x, y) {
        Enc::Open(a, b) if !a.q.is_zero() && !b.q.is_zero() => {
            // look at the corners again for 0/0
            let ends = |e: &Enc| match e {
                Enc::Point(v) => vec![v.clone()],
                Enc::Open(a, b) => vec![a.clone(), b.clone()],
                _ => vec![],
            };
            for v in ends(x) {
                for w in ends(y) {
                    if let Enc::Undefined = map2(m, &Enc::Point(v.clone()), &Enc::Point(w.clone())) {
                        return None;
                    }
                }
            }
            Some(Enc::Open(a, b))
        }
        Enc::Point(p) => Some(Enc::Point(p)),
        _ => None,
    }
}

/// The symbol is settled even for a consumer that uses strict inequalities.
pub fn strictly_determined(e: &Enc) -> bool {
    match e {
        Enc::Open(a, b) => {
            (a.cmp_int(0, 1) == Ordering::Greater && b.cmp_int(1, 2) == Ordering::Less)
                || (a.cmp_int(1, 2) == Ordering::Greater && b.cmp_int(1, 1) == Ordering::Less)
        }
        _ => false,
    }
}
