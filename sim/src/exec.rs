//! Executes a scenario against the real library and judges it as it goes.

use crate::alloc::{self, Scope};
use crate::big::Big;
use crate::model::{self, Enc, Expr, Head, Next, Oracle, Primer, Special, Sym};
use crate::room::{self, Operand};
use crate::scen::{Fault, Kind, Scen, Step};
use clarith::{protocol, Clog, Number};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Payloads the simulator unwinds with.
struct Injected;
struct OverBudget;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    /// a wrong symbol, primer, special or end
    Value,
    /// a number where no finite value exists
    Undefined,
    /// a wrong symbol after an earlier failure of the same number
    AfterFail,
    Order,
    Consume,
    /// a symbol, or work, after the end
    Final,
    /// a producer was asked again after it had reported its end
    AfterEnd,
    /// a symbol was demanded that was not needed
    Demand,
    /// a call failed although magnitudes are small
    Avail,
    /// a call did not return within the step budget
    Progress,
    /// memory or operands kept after release, or growth while streaming
    Leak,
    /// the process boundary was touched
    Io,
    /// another computation changed the outcome
    Isolation,
    /// outcome depends on how an operand is produced
    Provenance,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: Class,
    pub step: usize,
    pub what: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FailKind {
    Injected,
    Library,
    Budget,
}

/// What a consumer observes.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Special(usize, i8),
    Other(usize, u8),
    Got(usize, Option<Sym>),
    Cmp(usize, Ordering2),
    Rest(usize, bool, [i64; 4]),
    Failed(usize, FailKind),
    Dropped(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ordering2 {
    Less,
    Equal,
    Greater,
}

pub fn ord2(o: Ordering) -> Ordering2 {
    match o {
        Ordering::Less => Ordering2::Less,
        Ordering::Equal => Ordering2::Equal,
        Ordering::Greater => Ordering2::Greater,
    }
}

#[derive(Default)]
pub struct EdgeSt {
    pub attempts: u32,
    pub delivered: Vec<Sym>,
    pub ended: bool,
    pub after_end: u32,
    pub made: u32,
    pub released: u32,
}

impl EdgeSt {
    pub fn done(&self) -> usize {
        self.delivered.len() + self.ended as usize
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub pulls: u64,
    pub symbols: u64,
    pub fails: u64,
    pub handovers: u64,
    pub reentries: u64,
    pub switches: u64,
    pub drops: u64,
    pub eofs: u64,
    pub lib_failures: u64,
    pub after_fail_pulls: u64,
    pub unjudged: u64,
    pub demand_checks: u64,
    pub compares: u64,
    pub consumes: u64,
    pub io_faults: u64,
    pub undefined: u64,
}

impl Stats {
    pub fn fields(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("calls", self.calls),
            ("operand_pulls", self.pulls),
            ("symbols_emitted", self.symbols),
            ("operand_failures", self.fails),
            ("handovers", self.handovers),
            ("reentries", self.reentries),
            ("thread_switches", self.switches),
            ("abandonments", self.drops),
            ("operand_ends", self.eofs),
            ("range_or_domain_failures", self.lib_failures),
            ("pulls_after_failure", self.after_fail_pulls),
            ("unjudged", self.unjudged),
            ("demand_checks", self.demand_checks),
            ("compares", self.compares),
            ("consumes", self.consumes),
            ("io_faults_answered", self.io_faults),
            ("undefined_results", self.undefined),
        ]
    }
}

pub type Yield = Box<dyn Fn()>;

pub struct Ctx {
    pub edges: RefCell<Vec<EdgeSt>>,
    pub stats: RefCell<Stats>,
    pub hash: Cell<u64>,
    pub budget: Cell<u64>,
    pub yielder: Option<Yield>,
    pub reentry: RefCell<Vec<String>>,
    pub trace: Option<RefCell<Vec<String>>>,
}

impl Ctx {
    fn note(&self, a: u64, b: u64) {
        self.hash.set(crate::prng::mix(self.hash.get() ^ (a << 32) ^ b));
    }
    fn say(&self, f: impl FnOnce() -> String) {
        if let Some(t) = &self.trace {
            t.borrow_mut().push(f());
        }
    }
}

pub const CALL_BUDGET: u64 = 20_000;

/// Code on the simulator's side of an edge.
struct Edge {
    ctx: Rc<Ctx>,
    id: usize,
    faults: Rc<Vec<(u32, Fault)>>,
    inner: Inner,
}

#[cfg_attr(not(clarith_sim), allow(dead_code))]
enum Inner {
    Stream(Vec<Sym>, Vec<Sym>, usize),
    Real(Clog),
}

impl Drop for Edge {
    fn drop(&mut self) {
        let _s = Scope::harness();
        if let Ok(mut e) = self.ctx.edges.try_borrow_mut() {
            e[self.id].released += 1;
        }
    }
}

#[cfg(clarith_sim)]
mod seam {
    use super::*;
    use clarith::sim::{clog, Producer, Reply};

    pub const AVAILABLE: bool = true;

    pub(super) fn install(edge: Edge) -> Clog {
        let p = {
            let _s = Scope::harness();
            producer(edge, 0, false)
        };
        clog(p)
    }

    fn producer(edge: Edge, hops: u8, hopping: bool) -> Producer {
        let mut slot = Some(edge);
        let mut hops = hops;
        let mut hopping = hopping;
        Box::new(move || {
            let _s = Scope::harness();
            if hopping {
                if hops > 0 {
                    return Reply::Handover(producer(slot.take().unwrap(), hops - 1, true));
                }
                hopping = false;
                let e = slot.as_mut().unwrap();
                return Reply::Symbol(e.deliver());
            }
            let e = slot.as_mut().unwrap();
            match e.arrive() {
                0 => Reply::Symbol(e.deliver()),
                n => {
                    hops = n - 1;
                    let h = hops;
                    Reply::Handover(producer(slot.take().unwrap(), h, true))
                }
            }
        })
    }
}

#[cfg(not(clarith_sim))]
mod seam {
    use super::*;
    pub const AVAILABLE: bool = false;
    pub(super) fn install(_: Edge) -> Clog {
        unreachable!()
    }
}

pub const SEAM: bool = seam::AVAILABLE;

impl Edge {
    /// A pull arrives; returns how many times the producer hands over before it answers.
    #[cfg_attr(not(clarith_sim), allow(dead_code))]
    fn arrive(&mut self) -> u8 {
        let ctx = self.ctx.clone();
        let b = ctx.budget.get();
        if b == 0 {
            resume_unwind(Box::new(OverBudget));
        }
        ctx.budget.set(b - 1);
        let attempt = {
            let mut es = ctx.edges.borrow_mut();
            let e = &mut es[self.id];
            e.attempts += 1;
            if e.ended {
                e.after_end += 1;
            }
            e.attempts - 1
        };
        ctx.stats.borrow_mut().pulls += 1;
        ctx.note(1, self.id as u64);
        ctx.say(|| format!("    edge {}: pull #{}", self.id, attempt));
        if let Some(y) = &ctx.yielder {
            y();
        }
        let mut hops = 0;
        for (i, f) in self.faults.iter() {
            if *i != attempt {
                continue;
            }
            match f {
                Fault::Fail => {
                    ctx.stats.borrow_mut().fails += 1;
                    ctx.note(2, self.id as u64);
                    ctx.say(|| format!("    edge {}: FAULT producer fails", self.id));
                    resume_unwind(Box::new(Injected));
                }
                Fault::Handover(n) => {
                    ctx.stats.borrow_mut().handovers += *n as u64;
                    ctx.note(3, *n as u64);
                    ctx.say(|| format!("    edge {}: FAULT producer hands over {} times", self.id, n));
                    hops = *n;
                }
                Fault::Reenter(seed) => {
                    ctx.stats.borrow_mut().reentries += 1;
                    ctx.note(4, *seed as u64);
                    ctx.say(|| format!("    edge {}: FAULT unrelated computation {} runs now", self.id, seed));
                    if let Some(m) = crate::props::reenter(*seed) {
                        ctx.reentry.borrow_mut().push(m);
                    }
                }
            }
        }
        hops
    }

    #[cfg_attr(not(clarith_sim), allow(dead_code))]
    fn deliver(&mut self) -> Option<protocol::Reduction> {
        let r = match &mut self.inner {
            Inner::Stream(pre, per, pos) => {
                let s = model::sym_at(pre, per, *pos);
                if s.is_some() {
                    *pos += 1;
                }
                s
            }
            Inner::Real(c) => {
                let _s = Scope::lib();
                from_red(c.egest())
            }
        };
        let mut es = self.ctx.edges.borrow_mut();
        let e = &mut es[self.id];
        match r {
            Some(s) => e.delivered.push(s),
            None => {
                if !e.ended {
                    self.ctx.stats.borrow_mut().eofs += 1;
                }
                e.ended = true;
            }
        }
        drop(es);
        self.ctx.say(|| format!("    edge {}: delivers {}", self.id, name(r)));
        to_red(r)
    }
}

pub fn name(r: Option<Sym>) -> &'static str {
    match r {
        None => "end",
        Some(false) => "Amplify",
        Some(true) => "Uncover",
    }
}

pub fn from_red(r: Option<protocol::Reduction>) -> Option<Sym> {
    match r {
        None => None,
        Some(protocol::Reduction::Amplify) => Some(false),
        Some(protocol::Reduction::Uncover) => Some(true),
    }
}

pub fn to_red(r: Option<Sym>) -> Option<protocol::Reduction> {
    match r {
        None => None,
        Some(false) => Some(protocol::Reduction::Amplify),
        Some(true) => Some(protocol::Reduction::Uncover),
    }
}

fn to_primer(p: Primer) -> Option<protocol::Primer> {
    match p {
        Primer::None => None,
        Primer::Turn => Some(protocol::Primer::Turn),
        Primer::Reflect => Some(protocol::Primer::Reflect),
        Primer::Ground => Some(protocol::Primer::Ground),
    }
}

fn from_primer(p: &Option<protocol::Primer>) -> Primer {
    match p {
        None => Primer::None,
        Some(protocol::Primer::Turn) => Primer::Turn,
        Some(protocol::Primer::Reflect) => Primer::Reflect,
        Some(protocol::Primer::Ground) => Primer::Ground,
    }
}

fn to_special(s: Special) -> protocol::Special {
    match s {
        Special::NegOne => protocol::Special::NegOne,
        Special::Zero => protocol::Special::Zero,
        Special::PosOne => protocol::Special::PosOne,
    }
}

fn from_special(s: &protocol::Special) -> Special {
    match s {
        protocol::Special::NegOne => Special::NegOne,
        protocol::Special::Zero => Special::Zero,
        protocol::Special::PosOne => Special::PosOne,
    }
}

pub fn special_int(s: Special) -> i8 {
    match s {
        Special::NegOne => -1,
        Special::Zero => 0,
        Special::PosOne => 1,
    }
}

/// What a scenario node denotes.
pub fn denote(sc: &Scen, n: usize) -> Rc<Expr> {
    match &sc.nodes[n].kind {
        Kind::Src { primer, pre, per } => {
            Expr::Src { primer: *primer, pre: pre.clone(), per: per.clone() }.memo()
        }
        Kind::Special(s) => Expr::Ratio(Big::from(special_int(*s) as i128), Big::one()).memo(),
        Kind::Ratio(a, b) => Expr::Ratio(Big::from(*a as i128), Big::from(*b as i128)).memo(),
        Kind::RatioU(pos, a, b) => {
            let a = if *pos { *a as i128 } else { -(*a as i128) };
            Expr::Ratio(Big::from(a), Big::from(*b as i128)).memo()
        }
        Kind::Homo(x, c) => Expr::Homo(denote(sc, *x), model::bigs(*c)).memo(),
        Kind::Comb(x, y, c) => Expr::Comb(denote(sc, *x), denote(sc, *y), model::bigs(*c)).memo(),
    }
}

/// A finite simulated source as an ordinary ratio, for when the seam is not available.
fn ratio_of(pre: &[Sym]) -> Option<(u64, u64)> {
    let e = model::prefix_enc(Primer::None, pre, true);
    if let Enc::Point(v) = e {
        let (p, q) = (v.p.to_i128()?, v.q.to_i128()?);
        if p <= u64::MAX as i128 && q <= u64::MAX as i128 {
            return Some((p as u64, q as u64));
        }
    }
    None
}

/// Builds the number of a node out of library calls. Runs in library scope.
fn construct(ctx: &Rc<Ctx>, sc: &Scen, n: usize) -> Number {
    let node = &sc.nodes[n];
    let number = match &node.kind {
        Kind::Src { primer, pre, per } => {
            if SEAM {
                let edge = {
                    let _s = Scope::harness();
                    ctx.edges.borrow_mut()[n].made += 1;
                    Edge {
                        ctx: ctx.clone(),
                        id: n,
                        faults: Rc::new(node.faults.clone()),
                        inner: Inner::Stream(pre.clone(), per.clone(), 0),
                    }
                };
                return Number::Other(to_primer(*primer), seam::install(edge));
            }
            let (p, q) = ratio_of(pre).unwrap_or((1, 2));
            match Number::ratio_u(true, p as usize, q as usize) {
                Number::Other(_, c) => Number::Other(to_primer(*primer), c),
                s => s,
            }
        }
        Kind::Special(s) => Number::Special(to_special(*s)),
        Kind::Ratio(a, b) => Number::ratio(*a as isize, *b as isize),
        Kind::RatioU(p, a, b) => Number::ratio_u(*p, *a as usize, *b as usize),
        Kind::Homo(x, c) => {
            let x = construct(ctx, sc, *x);
            let c = c.map(|v| v as isize);
            Number::homographic(x, c[0], c[1], c[2], c[3])
        }
        Kind::Comb(x, y, c) => {
            let x = construct(ctx, sc, *x);
            let y = construct(ctx, sc, *y);
            let c = c.map(|v| v as isize);
            Number::combine(x, y, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7])
        }
    };
    if !(node.tap && SEAM) {
        return number;
    }
    match number {
        Number::Special(s) => Number::Special(s),
        Number::Other(p, c) => {
            let edge = {
                let _s = Scope::harness();
                ctx.edges.borrow_mut()[n].made += 1;
                Edge {
                    ctx: ctx.clone(),
                    id: n,
                    faults: Rc::new(node.faults.clone()),
                    inner: Inner::Real(c),
                }
            };
            Number::Other(p, seam::install(edge))
        }
    }
}

enum Live {
    None,
    Special(Special),
    Clog(Primer, bool, Clog), // primer, whether symbols were pulled, rest
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Absent,
    Alive,
    Ended,
    Failed,
    Gone,
}

struct Slot {
    live: Live,
    status: Status,
    oracle: Option<Oracle>,
    judged: bool,
    /// direct operands, for demand checks; none once the slot is re-used dynamically
    node: Option<usize>,
    /// the edge through which the number is pulled, if the simulator sits there
    edge: Option<usize>,
    live_mark: i64,
    pulled: u32,
    /// what a consume left over: wrong symbols are the consume's fault
    rest: bool,
    /// made from a number that had failed before
    tainted: bool,
}

impl Slot {
    fn usable(&self) -> bool {
        matches!(self.status, Status::Alive | Status::Ended | Status::Failed) && self.judged && !matches!(self.live, Live::None)
    }
    fn suspect(&self) -> bool {
        self.status == Status::Failed || self.tainted
    }
}

pub struct Outcome {
    /// pulls that arrived at each edge
    pub attempts: Vec<u32>,
    pub events: Vec<(u8, Ev)>,
    pub violations: Vec<Violation>,
    pub stats: Stats,
    pub hash: u64,
    pub trace: Vec<String>,
}

fn kind_of(p: &Box<dyn Any + Send>) -> FailKind {
    if p.is::<Injected>() {
        FailKind::Injected
    } else if p.is::<OverBudget>() {
        FailKind::Budget
    } else {
        FailKind::Library
    }
}

fn message(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        String::new()
    }
}

/// Library calls made by this process, and those in progress, for the watchdog.
pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static INSIDE: AtomicU64 = AtomicU64::new(0);

/// Bytes a number may hold beyond what it held early in its life.
const GROWTH: i64 = 256;

/// Coefficients with seven bits to spare are not about to overflow.
const ABOUT_TO_OVERFLOW: u64 = 1 << 56;

fn nothing() -> Rc<Expr> {
    Expr::Ratio(Big::zero(), Big::one()).memo()
}

pub struct Opts {
    pub trace: bool,
    /// classes worth computing (some cost time)
    pub demand: bool,
    pub order_demand: bool,
    /// compare with the reference model
    pub judge: bool,
    /// only the steps of this task, or of all
    pub task: Option<u8>,
    pub yielder: Option<Yield>,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { trace: false, demand: false, order_demand: false, judge: true, task: None, yielder: None }
    }
}

pub struct Exec<'a> {
    sc: &'a Scen,
    ctx: Rc<Ctx>,
    slots: Vec<Slot>,
    events: Vec<(u8, Ev)>,
    violations: Vec<Violation>,
    step: usize,
    task: u8,
    judge: bool,
    demand: bool,
    order_demand: bool,
    base_live: i64,
    /// edge pulls a single call may take
    budget: u64,
    /// too long a run for enclosures
    long: bool,
}

pub fn run(sc: &Scen, opts: Opts) -> Outcome {
    let ctx = Rc::new(Ctx {
        edges: RefCell::new((0..sc.nodes.len()).map(|_| EdgeSt::default()).collect()),
        stats: RefCell::new(Stats::default()),
        hash: Cell::new(0),
        budget: Cell::new(0),
        yielder: opts.yielder,
        reentry: RefCell::new(vec![]),
        trace: if opts.trace { Some(RefCell::new(vec![])) } else { None },
    });
    let slots = (0..sc.nodes.len())
        .map(|_| Slot {
            live: Live::None,
            status: Status::Absent,
            oracle: None,
            judged: true,
            node: None,
            edge: None,
            live_mark: 0,
            pulled: 0,
            rest: false,
            tainted: false,
        })
        .collect();
    let longest = sc.nodes.iter().map(|n| if let Kind::Src { pre, .. } = &n.kind { pre.len() } else { 0 }).max().unwrap_or(0);
    let mut ex = Exec {
        sc,
        ctx,
        slots,
        events: vec![],
        violations: vec![],
        step: 0,
        task: 0,
        judge: opts.judge,
        demand: opts.demand,
        order_demand: opts.order_demand,
        base_live: alloc::live(),
        budget: (CALL_BUDGET + 3 * longest as u64) * (1 + sc.nodes.len() as u64 / 8),
        long: longest > model::LONG || sc.steps.len() > model::LONG,
    };
    for i in 0..sc.steps.len() {
        let (task, step) = &sc.steps[i];
        if opts.task.map(|t| t != *task).unwrap_or(false) {
            continue;
        }
        ex.task = *task;
        ex.step = i;
        ex.apply(step);
        if ex.judge && !ex.violations.is_empty() {
            break;
        }
    }
    ex.finish()
}

impl<'a> Exec<'a> {
    fn violate(&mut self, class: Class, what: String) {
        self.ctx.say(|| format!("  !! {:?}: {}", class, what));
        self.violations.push(Violation { class, step: self.step, what });
    }

    fn event(&mut self, e: Ev) {
        use std::hash::{Hash, Hasher};
        let mut h = Fnv(0xcbf29ce484222325);
        e.hash(&mut h);
        self.ctx.note(9, h.finish());
        self.events.push((self.task, e));
    }

    fn call<T>(&mut self, f: impl FnOnce(&Rc<Ctx>, &Scen) -> T) -> Result<T, FailKind> {
        self.ctx.budget.set(self.budget);
        self.ctx.stats.borrow_mut().calls += 1;
        if let Some(y) = &self.ctx.yielder {
            y();
        }
        let ctx = self.ctx.clone();
        let sc = self.sc;
        CALLS.fetch_add(1, Relaxed);
        INSIDE.fetch_add(1, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _s = Scope::lib();
            f(&ctx, sc)
        }));
        INSIDE.fetch_sub(1, Relaxed);
        match r {
            Ok(v) => Ok(v),
            Err(p) => {
                let k = kind_of(&p);
                if k == FailKind::Library {
                    self.ctx.stats.borrow_mut().lib_failures += 1;
                    self.ctx.say(|| format!("    library call panics: {}", message(&p)));
                }
                Err(k)
            }
        }
    }

    fn failed(&mut self, n: usize, k: FailKind, what: &str) {
        self.event(Ev::Failed(n, k));
        if !self.judge {
            return;
        }
        match k {
            FailKind::Budget => {
                self.violate(Class::Progress, format!("{} did not finish within {} operand pulls", what, self.budget))
            }
            FailKind::Library if self.modest(n) => {
                self.violate(Class::Avail, format!("{} failed although all magnitudes are small", what))
            }
            FailKind::Library if self.roomy(n, true) => {
                self.violate(Class::Avail, format!("{} failed although its coefficients were far from the integer range", what))
            }
            _ => {}
        }
    }

    /// True if no machine integer can have been near its range: every operation
    /// below this number has small coefficients and has read few symbols.
    fn modest(&self, n: usize) -> bool {
        fn identity(c: &[i64; 4]) -> bool {
            c[0] == c[3] && c[1] == 0 && c[2] == 0 && c[0] != 0
        }
        // a value near zero or infinity takes as many symbols to make out
        fn starts_soon(k: &Kind) -> bool {
            match k {
                Kind::Src { pre, per, .. } => pre.iter().chain(per).take(20).any(|s| *s),
                _ => false,
            }
        }
        fn walk(ex: &Exec, n: usize) -> bool {
            let bits = |c: &[i64]| c.iter().map(|v| 64 - v.unsigned_abs().leading_zeros() as usize).max().unwrap_or(0);
            match &ex.sc.nodes[n].kind {
                // every symbol comes out again as it went in, for ever
                Kind::Homo(x, c) if identity(c) && bits(c) <= 16 && starts_soon(&ex.sc.nodes[*x].kind) => true,
                Kind::Homo(x, c) => ex.tapped(*x) && bits(c) + ex.done(*x) <= 28 && walk(ex, *x),
                Kind::Comb(x, y, c) => {
                    ex.tapped(*x)
                        && ex.tapped(*y)
                        && bits(c) + ex.done(*x) + ex.done(*y) <= 26
                        && walk(ex, *x)
                        && walk(ex, *y)
                }
                _ => true,
            }
        }
        SEAM && self.slots[n].node.map(|i| walk(self, i)).unwrap_or(false)
    }

    /// True if every operation below this number had room in the machine's integers (room.rs).
    /// `pull`: it was pulled by the simulator itself, which therefore knows how often.
    fn roomy(&self, n: usize, pull: bool) -> bool {
        fn operand<'a>(ex: &Exec, x: usize, e: &'a EdgeSt) -> Option<Operand<'a>> {
            let head = match Oracle::new(denote(ex.sc, x)).head() {
                Head::Special(s) => Ok(s),
                Head::Other(p) => Err(p),
                _ => return None,
            };
            Some(Operand { head, read: &e.delivered, ended: e.ended })
        }
        fn walk(ex: &Exec, n: usize, asked: usize) -> bool {
            let es = ex.ctx.edges.borrow();
            let below = |x: usize| ex.tapped(x) && walk(ex, x, es[x].attempts as usize);
            match &ex.sc.nodes[n].kind {
                Kind::Homo(x, c) => below(*x) && operand(ex, *x, &es[*x]).map(|x| room::one(*c, x, asked)).unwrap_or(false),
                Kind::Comb(x, y, c) => {
                    below(*x)
                        && below(*y)
                        && match (operand(ex, *x, &es[*x]), operand(ex, *y, &es[*y])) {
                            (Some(x), Some(y)) => room::two(*c, x, y, asked),
                            _ => false,
                        }
                }
                _ => true,
            }
        }
        let i = match self.slots[n].node {
            Some(i) if SEAM => i,
            _ => return false,
        };
        let asked = match self.root_edge(n) {
            Some(e) => self.ctx.edges.borrow()[e].attempts as usize,
            None if pull => self.slots[n].pulled as usize + 1,
            None => return false,
        };
        walk(self, i, asked)
    }

    fn after_call(&mut self) {
        let r: Vec<String> = self.ctx.reentry.borrow_mut().drain(..).collect();
        if let Some(m) = r.into_iter().next() {
            self.violate(Class::Isolation, m);
        }
        let bad = self.ctx.edges.borrow().iter().position(|e| e.after_end > 0);
        if let Some(i) = bad {
            self.violate(Class::AfterEnd, format!("the producer of operand {} was asked again after its end", i));
        }
    }

    fn done(&self, n: usize) -> usize {
        self.ctx.edges.borrow()[n].done()
    }

    fn total_done(&self) -> usize {
        self.ctx.edges.borrow().iter().map(|e| e.attempts as usize).sum()
    }

    /// Pulls on every edge but the one through which the number itself is pulled.
    fn below(&self, n: usize) -> usize {
        let own = self.root_edge(n).map(|e| self.ctx.edges.borrow()[e].attempts as usize).unwrap_or(0);
        self.total_done() - own
    }

    /// Judge a freshly constructed number and move it into its slot.
    fn accept(&mut self, n: usize, number: Number, expr: Rc<Expr>, node: Option<usize>) {
        let mut oracle = match self.judge {
            true if self.long && !self.demand => Some(Oracle::long(expr.clone()).unwrap_or_else(|| Oracle::new(expr))),
            true => Some(Oracle::new(expr)),
            false => None,
        };
        let want = oracle.as_mut().map(|o| o.head()).unwrap_or(Head::Unknown);
        let special = matches!(number, Number::Special(_));
        let parts = catch_unwind(AssertUnwindSafe(|| {
            let _s = Scope::lib();
            match special {
                true => Err(number.unwrap_special()),
                false => Ok(number.unwrap_other()),
            }
        }));
        let (got, live) = match parts {
            Err(_) => return self.violate(Class::Value, format!("number {} could not be taken apart", n)),
            Ok(Err(s)) => {
                let s = from_special(&s);
                self.event(Ev::Special(n, special_int(s)));
                (Head::Special(s), Live::Special(s))
            }
            Ok(Ok((p, c))) => {
                let p = from_primer(&p);
                self.event(Ev::Other(n, p as u8));
                (Head::Other(p), Live::Clog(p, false, c))
            }
        };
        self.ctx.say(|| format!("  number {} is {:?} (expected {:?})", n, got, want));
        let mut judged = true;
        match want {
            Head::Unknown => {
                judged = false;
                self.ctx.stats.borrow_mut().unjudged += 1;
            }
            Head::Undefined => {
                self.ctx.stats.borrow_mut().undefined += 1;
                self.violate(Class::Undefined, format!("number {} was delivered ({:?}) but has no finite value", n, got))
            }
            w if w != got => {
                self.violate(Class::Value, format!("number {} starts as {:?}, but its exact value starts as {:?}", n, got, w))
            }
            _ => {}
        }
        if let Head::Other(p) = got {
            if let Some(o) = &mut oracle {
                o.take_head(p);
            }
        }
        self.slots[n] = Slot {
            live,
            status: Status::Alive,
            oracle,
            judged: judged || !self.judge,
            node,
            edge: node.filter(|i| self.tapped(*i)),
            live_mark: alloc::live(),
            pulled: 0,
            rest: false,
            tainted: false,
        };
    }

    fn release(&mut self, n: usize) {
        let live = std::mem::replace(&mut self.slots[n].live, Live::None);
        let before = self.total_done();
        match live {
            // taken for what it is not
            Live::Clog(p, _, c) if (self.step + n) % 3 == 0 => {
                let r = self.call(move |_, _| Number::Other(to_primer(p), c).unwrap_special());
                if r.is_ok() {
                    self.violate(Class::Value, format!("a special value was taken out of number {}, which has none", n));
                }
            }
            live => {
                if self.call(move |_, _| drop(live)).is_err() {
                    self.violate(Class::Leak, format!("releasing number {} panicked", n));
                }
            }
        }
        if self.total_done() != before {
            self.violate(Class::Demand, format!("releasing number {} pulled operand symbols", n));
        }
        self.slots[n].status = Status::Gone;
    }

    /// Takes a live number out of its slot, as a Number of its own.
    fn take_number(&mut self, n: usize, primer: Primer) -> Option<(Number, Rc<Expr>, Primer)> {
        if let Some(e) = self.root_edge(n) {
            // a new consumer may learn of the end once more
            self.ctx.edges.borrow_mut()[e].ended = false;
        }
        let s = &mut self.slots[n];
        if !s.usable() {
            return None;
        }
        match std::mem::replace(&mut s.live, Live::None) {
            Live::None => None,
            Live::Special(sp) => {
                let e = Expr::Ratio(Big::from(special_int(sp) as i128), Big::one()).memo();
                s.status = Status::Gone;
                Some((Number::Special(to_special(sp)), e, Primer::None))
            }
            Live::Clog(p, used, c) => {
                s.status = Status::Gone;
                let (whole, tail) = match &s.oracle {
                    Some(o) => (o.expr.clone(), o.tail()),
                    None => (nothing(), nothing()),
                };
                if !used {
                    // still whole: give it back with its own primer
                    let e = whole;
                    Some((Number::Other(to_primer(p), c), e, p))
                } else {
                    let m = match primer {
                        Primer::None => model::bigs([1, 0, 0, 1]),
                        Primer::Turn => model::bigs([0, 1, 1, 0]),
                        Primer::Reflect => model::bigs([-1, 0, 0, 1]),
                        Primer::Ground => model::bigs([0, -1, 1, 0]),
                    };
                    let e = Expr::Homo(tail, m).memo();
                    Some((Number::Other(to_primer(primer), c), e, primer))
                }
            }
        }
    }

    fn apply(&mut self, step: &Step) {
        self.ctx.say(|| format!("step {}: {:?}", self.step, step));
        match step {
            Step::Build(n) => self.build(*n),
            Step::Pull(n) => self.pull(*n),
            Step::Drop(n) => {
                if let Live::None = self.slots[*n].live {
                    return;
                }
                self.ctx.stats.borrow_mut().drops += 1;
                self.event(Ev::Dropped(*n));
                self.release(*n);
            }
            Step::Compare(a, b) => self.compare(*a, *b),
            Step::Consume(n) => self.consume(*n),
            Step::Homo(n, p, c) => {
                let tainted = self.slots[*n].suspect();
                if let Some((x, e, _)) = self.take_number(*n, *p) {
                    self.slots[*n].node = None;
                    let expr = Expr::Homo(e, model::bigs(*c)).memo();
                    let c = c.map(|v| v as isize);
                    let r = self.call(move |_, _| Number::homographic(x, c[0], c[1], c[2], c[3]));
                    self.settle(*n, r, expr, tainted);
                }
            }
            Step::Comb(a, b, p, q, c) => {
                if a == b {
                    return;
                }
                if !self.slots[*a].usable() || !self.slots[*b].usable() {
                    return;
                }
                let tainted = self.slots[*a].suspect() || self.slots[*b].suspect();
                let x = self.take_number(*a, *p);
                let y = self.take_number(*b, *q);
                if let (Some((x, ex, _)), Some((y, ey, _))) = (x, y) {
                    self.slots[*a].node = None;
                    let expr = Expr::Comb(ex, ey, model::bigs(*c)).memo();
                    let c = c.map(|v| v as isize);
                    let r = self.call(move |_, _| Number::combine(x, y, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]));
                    self.settle(*a, r, expr, tainted);
                }
            }
        }
    }

    /// What became of an operation on live numbers.
    fn settle(&mut self, n: usize, r: Result<Number, FailKind>, expr: Rc<Expr>, tainted: bool) {
        let v0 = self.violations.len();
        match r {
            Ok(x) => self.accept(n, x, expr, None),
            Err(k) if tainted && k != FailKind::Budget => {
                self.slots[n].status = Status::Gone;
                self.event(Ev::Failed(n, k));
            }
            Err(k) => self.construct_failed(n, k, &expr),
        }
        if tainted {
            self.excuse();
            self.slots[n].tainted = true;
            for v in &mut self.violations[v0..] {
                if v.class != Class::Progress {
                    v.class = Class::AfterFail;
                }
            }
        }
        self.after_call();
    }

    /// After a failure, what was read or asked again is of no interest.
    fn excuse(&mut self) {
        for e in self.ctx.edges.borrow_mut().iter_mut() {
            e.after_end = 0;
        }
    }

    fn construct_failed(&mut self, n: usize, k: FailKind, expr: &Rc<Expr>) {
        if !self.judge {
            self.slots[n].status = Status::Gone;
            self.event(Ev::Failed(n, k));
            return;
        }
        let head = Oracle::new(expr.clone()).head();
        if head == Head::Undefined {
            self.ctx.stats.borrow_mut().undefined += 1;
        }
        self.slots[n].status = Status::Gone;
        // no prefix of the operands may ever tell, as at an irrational pole
        let endless = k == FailKind::Budget && head == Head::Unknown;
        if endless || k == FailKind::Library && (head == Head::Undefined || head == Head::Unknown) {
            self.event(Ev::Failed(n, k));
            return;
        }
        self.failed(n, k, &format!("the construction of number {}", n));
    }

    fn build(&mut self, n: usize) {
        if n >= self.sc.nodes.len() || self.slots[n].status != Status::Absent {
            return;
        }
        let expr = if self.judge { denote(self.sc, n) } else { nothing() };
        match self.call(|ctx, sc| construct(ctx, sc, n)) {
            Ok(x) => {
                self.accept(n, x, expr, Some(n));
                if self.judge && self.demand && SEAM && self.slots[n].judged && self.violations.is_empty() {
                    self.check_construction(n);
                }
            }
            Err(k) => self.construct_failed_tree(n, k),
        }
        self.after_call();
    }

    /// A nested construction fails legitimately if any part of it has no finite value.
    fn construct_failed_tree(&mut self, n: usize, k: FailKind) {
        fn any(sc: &Scen, n: usize, heads: &[Head]) -> bool {
            if heads.contains(&Oracle::new(denote(sc, n)).head()) {
                return true;
            }
            match &sc.nodes[n].kind {
                Kind::Homo(x, _) => any(sc, *x, heads),
                Kind::Comb(x, y, _) => any(sc, *x, heads) || any(sc, *y, heads),
                _ => false,
            }
        }
        self.slots[n].status = Status::Gone;
        self.slots[n].node = Some(n);
        if !self.judge {
            self.event(Ev::Failed(n, k));
            return;
        }
        let excuses: &[Head] = match k {
            FailKind::Library => &[Head::Undefined, Head::Unknown],
            FailKind::Budget => &[Head::Unknown],
            FailKind::Injected => &[],
        };
        if any(self.sc, n, excuses) {
            self.ctx.stats.borrow_mut().undefined += 1;
            self.event(Ev::Failed(n, k));
            return;
        }
        self.failed(n, k, &format!("the construction of number {}", n));
    }

    fn pull(&mut self, n: usize) {
        let status = self.slots[n].status;
        if let Live::Special(_) | Live::None = self.slots[n].live {
            return;
        }
        let before_total = self.below(n);
        let before = self.operand_counts(n);
        let mut live = std::mem::replace(&mut self.slots[n].live, Live::None);
        let r = {
            let cell = RefCell::new(&mut live);
            self.call(|_, _| {
                if let Live::Clog(_, used, c) = &mut **cell.borrow_mut() {
                    *used = true;
                    from_red(c.egest())
                } else {
                    None
                }
            })
        };
        self.slots[n].live = live;
        if let Some(e) = self.root_edge(n) {
            // here it is the simulator itself that asks again
            self.ctx.edges.borrow_mut()[e].after_end = 0;
        }
        if status == Status::Failed || self.slots[n].tainted {
            self.ctx.stats.borrow_mut().after_fail_pulls += 1;
            self.excuse();
        }
        match r {
            Err(k) => {
                self.slots[n].status = Status::Failed;
                if status == Status::Ended && (k != FailKind::Injected || self.below(n) != before_total) {
                    self.violate(Class::Final, format!("number {}: a pull after the end failed", n));
                }
                if status == Status::Failed || self.slots[n].tainted {
                    // Refusing to go on after a failure is always right.
                    self.event(Ev::Failed(n, k));
                    if k == FailKind::Budget {
                        self.failed(n, k, &format!("a pull of number {}", n));
                    }
                } else {
                    let expect = self.slots[n].oracle.as_mut().map(|o| o.next());
                    if k == FailKind::Library && expect == Some(Next::Unknown) {
                        self.event(Ev::Failed(n, k));
                    } else {
                        self.failed(n, k, &format!("a pull of number {}", n));
                    }
                }
            }
            Ok(sym) => {
                self.event(Ev::Got(n, sym));
                self.ctx.stats.borrow_mut().symbols += 1;
                self.slots[n].pulled += 1;
                self.judge(n, status, sym, before_total, before);
            }
        }
        self.after_call();
        if self.slots[n].pulled == 4 {
            self.slots[n].live_mark = alloc::live();
        }
        if self.slots.iter().filter(|s| !matches!(s.live, Live::None)).count() == 1 && self.slots[n].pulled > 4 {
            let grown = alloc::live() - self.slots[n].live_mark;
            if grown > GROWTH {
                self.violate(
                    Class::Leak,
                    format!("number {} holds {} more bytes after {} symbols than after 4", n, grown, self.slots[n].pulled),
                );
            }
        }
    }

    fn operand_counts(&self, n: usize) -> Vec<usize> {
        match self.slots[n].node.map(|i| &self.sc.nodes[i].kind) {
            Some(Kind::Homo(x, _)) => vec![self.done(*x)],
            Some(Kind::Comb(x, y, _)) => vec![self.done(*x), self.done(*y)],
            _ => vec![],
        }
    }

    fn judge(&mut self, n: usize, status: Status, sym: Option<Sym>, before_total: usize, before: Vec<usize>) {
        if status == Status::Ended {
            if sym.is_some() {
                self.violate(Class::Final, format!("number {} emits {} after its end", n, name(sym)));
            } else if self.below(n) != before_total {
                self.violate(Class::Final, format!("number {} pulls operands after its end", n));
            }
            return;
        }
        if sym.is_none() && status != Status::Failed {
            self.slots[n].status = Status::Ended;
        }
        if !self.slots[n].judged || !self.judge {
            return;
        }
        let mut o = self.slots[n].oracle.take().unwrap();
        let want = o.next();
        self.ctx.say(|| {
            let w = match want {
                Next::Sym(s) => name(Some(s)),
                Next::End => "end",
                Next::Unknown => "not known",
                Next::Astray => "astray",
            };
            format!("  number {} emits {} (expected {})", n, name(sym), w)
        });
        let ok = match want {
            Next::Sym(s) => sym == Some(s),
            Next::End => sym.is_none(),
            Next::Unknown => {
                self.slots[n].judged = false;
                self.ctx.stats.borrow_mut().unjudged += 1;
                true
            }
            Next::Astray => false,
        };
        if !ok {
            let class = match status {
                Status::Failed => Class::AfterFail,
                _ if self.slots[n].tainted => Class::AfterFail,
                _ if self.slots[n].rest => Class::Consume,
                _ => Class::Value,
            };
            let w = match want {
                Next::Sym(s) => name(Some(s)),
                Next::End => "end",
                _ => "nothing: the value is out of range",
            };
            let nth = self.slots[n].pulled;
            self.violate(class, format!("number {}, symbol {}: got {}, exact value has {}", n, nth, name(sym), w));
            self.slots[n].oracle = Some(o);
            return;
        }
        if self.demand && self.slots[n].judged && SEAM && status == Status::Alive {
            self.check_demand(n, &o, &before);
        }
        if let Some(s) = sym {
            o.take(s);
        }
        self.slots[n].oracle = Some(o);
    }

    fn tapped(&self, n: usize) -> bool {
        matches!(self.sc.nodes[n].kind, Kind::Src { .. }) || self.sc.nodes[n].tap
    }

    fn operand_prefix(&self, n: usize, count: usize) -> Option<Enc> {
        // primer of the operand, as the model has it
        let p = match Oracle::new(denote(self.sc, n)).head() {
            Head::Other(p) => p,
            _ => return None,
        };
        let es = self.ctx.edges.borrow();
        let d = &es[n].delivered;
        if count > d.len() {
            return Some(model::prefix_enc(p, d, true));
        }
        Some(model::prefix_enc(p, &d[..count], false))
    }

    fn check_demand(&mut self, n: usize, o: &Oracle, before: &[usize]) {
        let node = match self.slots[n].node {
            Some(i) => i,
            None => return,
        };
        match self.sc.nodes[node].kind.clone() {
            Kind::Homo(x, c) if self.tapped(x) => {
                let now = self.done(x);
                if now <= before[0] {
                    return;
                }
                self.ctx.stats.borrow_mut().demand_checks += 1;
                if let Some(e) = self.operand_prefix(x, now - 1) {
                    let e = model::map1(o.matrix(), &model::map1(&model::bigs(c), &e));
                    match model::next_of(&e) {
                        Next::Sym(_) | Next::End => {
                            let nth = self.slots[n].pulled;
                            self.violate(
                                Class::Demand,
                                format!("number {}, symbol {} was determined by {} operand symbols but {} were demanded", n, nth, now - 1, now),
                            )
                        }
                        _ => {}
                    }
                }
            }
            Kind::Comb(x, y, c) if self.tapped(x) && self.tapped(y) => {
                const SLACK: usize = 3;
                let (i, j) = (self.done(x), self.done(y));
                self.check_step(n, x, y);
                if i + j <= before[0] + before[1] || i < SLACK || j < SLACK {
                    return;
                }
                self.ctx.stats.borrow_mut().demand_checks += 1;
                if let (Some(ex), Some(ey)) = (self.operand_prefix(x, i - SLACK), self.operand_prefix(y, j - SLACK)) {
                    if let Some(e) = model::map2_strict(&model::bigs(c), &ex, &ey) {
                        let e = model::map1(o.matrix(), &e);
                        if model::strictly_determined(&e) {
                            let nth = self.slots[n].pulled;
                            self.violate(
                                Class::Demand,
                                format!("number {}, symbol {} was determined by {} and {} operand symbols but {} and {} were demanded", n, nth, i - SLACK, j - SLACK, i, j),
                            )
                        }
                    }
                }
            }
            _ => {}
        }
    }

    /// Two live operands are read in step.
    fn check_step(&mut self, n: usize, x: usize, y: usize) {
        let es = self.ctx.edges.borrow();
        let (i, j) = (es[x].done(), es[y].done());
        // a special value has no edge
        let both = !es[x].ended && !es[y].ended && es[x].made > 0 && es[y].made > 0;
        drop(es);
        if both && i.abs_diff(j) > 1 {
            self.violate(Class::Demand, format!("number {} has read {} symbols of one operand and {} of the other, though both go on", n, i, j));
        }
    }

    /// What the construction of an operation has read.
    fn check_construction(&mut self, n: usize) {
        match self.sc.nodes[n].kind.clone() {
            Kind::Homo(x, c) if self.tapped(x) => {
                let now = self.done(x);
                if now == 0 {
                    return;
                }
                self.ctx.stats.borrow_mut().demand_checks += 1;
                if let Some(e) = self.operand_prefix(x, now - 1) {
                    let e = model::map1(&model::bigs(c), &e);
                    // an image that reaches to infinity may take another symbol
                    let bounded = matches!(&e, Enc::Open(a, b) if !a.q.is_zero() && !b.q.is_zero());
                    if bounded && !matches!(model::head_of(&e), Head::Unknown | Head::Undefined) {
                        self.violate(
                            Class::Demand,
                            format!("the start of number {} was determined by {} operand symbols but {} were demanded", n, now - 1, now),
                        );
                    }
                }
            }
            Kind::Comb(x, y, _) if self.tapped(x) && self.tapped(y) => self.check_step(n, x, y),
            _ => {}
        }
    }

    fn compare(&mut self, a: usize, b: usize) {
        if a == b {
            return;
        }
        if !self.slots[a].usable() || !self.slots[b].usable() {
            return;
        }
        let tainted = self.slots[a].suspect() || self.slots[b].suspect();
        let (ea, eb) = (self.root_edge(a), self.root_edge(b));
        let before: Option<(usize, usize)> = match (ea, eb) {
            (Some(x), Some(y)) => Some((self.done(x), self.done(y))),
            _ => None,
        };
        let (x, xe, xp) = self.take_number(a, Primer::None).unwrap();
        let (y, ye, yp) = self.take_number(b, Primer::None).unwrap();
        let specials = matches!(x, Number::Special(_)) || matches!(y, Number::Special(_));
        let want = if self.judge { model::order(&xe, &ye) } else { None };
        if self.judge && want.is_none() && !(xe.finite() && ye.finite()) {
            return; // equal infinite streams: no answer is due
        }
        self.ctx.stats.borrow_mut().compares += 1;
        match self.call(move |_, _| Number::compare(x, y)) {
            Ok(got) => {
                self.event(Ev::Cmp(a, ord2(got)));
                self.ctx.say(|| format!("  compare {} {} = {:?} (expected {:?})", a, b, got, want));
                if let Some(w) = want {
                    if w != got {
                        let class = if tainted { Class::AfterFail } else { Class::Order };
                        self.violate(class, format!("number {} compared to number {}: got {:?}, exact values are {:?}", a, b, got, w));
                    }
                }
                if let (Some((ba, bb)), Some(x), Some(y)) = (before, ea, eb) {
                    if self.order_demand && SEAM && !tainted {
                        self.compare_demand(x, y, ba, bb, specials || xp != yp);
                    }
                }
            }
            Err(k) => {
                self.event(Ev::Failed(a, k));
                if !self.judge {
                } else if let FailKind::Budget = k {
                    self.violate(Class::Progress, format!("comparing number {} to number {} did not finish within {} pulls, although they differ", a, b, self.budget));
                } else {
                    if k == FailKind::Library && !tainted && (self.modest(a) || self.roomy(a, false)) && (self.modest(b) || self.roomy(b, false)) {
                        self.violate(Class::Avail, format!("comparing number {} to number {} failed although all magnitudes are small", a, b));
                    }
                }
            }
        }
        if tainted {
            self.excuse();
        }
        self.after_call();
    }

    /// The edge through which a root is pulled, if the simulator sits there.
    fn root_edge(&self, n: usize) -> Option<usize> {
        self.slots[n].edge
    }

    fn compare_demand(&mut self, x: usize, y: usize, bx: usize, by: usize, decided: bool) {
        self.ctx.stats.borrow_mut().demand_checks += 1;
        let es = self.ctx.edges.borrow();
        let seq = |e: &EdgeSt, from: usize| -> Vec<Option<Sym>> {
            let mut v: Vec<Option<Sym>> = e.delivered.iter().skip(from).map(|s| Some(*s)).collect();
            if e.ended && e.done() > from {
                v.push(None);
            }
            v
        };
        let (sx, sy) = (seq(&es[x], bx), seq(&es[y], by));
        drop(es);
        let allowed = if decided {
            0
        } else {
            sx.iter().zip(sy.iter()).position(|(p, q)| p != q).map(|i| i + 1).unwrap_or(usize::MAX)
        };
        if sx.len() > allowed || sy.len() > allowed {
            self.violate(
                Class::Demand,
                format!("a comparison decided by {} symbols of each number demanded {} and {}", allowed, sx.len(), sy.len()),
            );
        }
    }

    fn consume(&mut self, n: usize) {
        if !self.slots[n].usable() {
            return;
        }
        let tainted = self.slots[n].suspect();
        let v0 = self.violations.len();
        let (x, e, _) = self.take_number(n, Primer::None).unwrap();
        self.ctx.stats.borrow_mut().consumes += 1;
        match self.call(move |_, _| Number::consume(x)) {
            Err(k) => {
                if !self.judge {
                    self.event(Ev::Failed(n, k));
                } else if k == FailKind::Budget {
                    self.event(Ev::Failed(n, k));
                    self.violate(Class::Progress, format!("consuming number {} did not finish within {} pulls", n, self.budget));
                } else {
                    self.event(Ev::Failed(n, k));
                    if k == FailKind::Library && !tainted && (self.modest(n) || self.roomy(n, false)) {
                        self.violate(Class::Avail, format!("consuming number {} failed although all magnitudes are small", n));
                    }
                }
            }
            Ok((rest, c0, c1, c2, c3)) => {
                let c = [c0 as i64, c1 as i64, c2 as i64, c3 as i64];
                self.event(Ev::Rest(n, rest.is_some(), c));
                self.ctx.say(|| format!("  consume {}: rest {} coefficients {:?}", n, rest.is_some(), c));
                let m = model::bigs(c);
                if !self.judge {
                    match rest {
                        None => self.slots[n].status = Status::Gone,
                        Some(y) => {
                            let edge = self.slots[n].edge;
                            self.accept(n, y, nothing(), None);
                            self.slots[n].edge = edge;
                            self.slots[n].tainted = tainted;
                        }
                    }
                    return;
                }
                match rest {
                    None => {
                        // value at one half
                        let p = m[0].add(&m[1].dbl());
                        let q = m[2].add(&m[3].dbl());
                        let got = Expr::Ratio(p, q);
                        if model::order(&got, &e) != Some(Ordering::Equal) {
                            self.violate(Class::Consume, format!("number {}: coefficients {:?} at one half do not give the consumed number", n, c));
                        }
                        self.slots[n].status = Status::Gone;
                    }
                    Some(y) => {
                        if c.iter().all(|v| v.unsigned_abs() < ABOUT_TO_OVERFLOW) {
                            self.violate(Class::Consume, format!("number {}: coefficients {:?} are small but a rest is returned", n, c));
                        }
                        // y = (d x - n) / (-dx x + nx)
                        let inv = [m[3].clone(), m[1].neg(), m[2].neg(), m[0].clone()];
                        let det = m[0].mul(&m[3]).sub(&m[1].mul(&m[2]));
                        if det.is_zero() {
                            self.violate(Class::Consume, format!("number {}: coefficients {:?} are singular but a rest is returned", n, c));
                            return;
                        }
                        let expr = Expr::Homo(e, inv).memo();
                        let v0 = self.violations.len();
                        let edge = self.slots[n].edge;
                        self.accept(n, y, expr, None);
                        self.slots[n].edge = edge;
                        self.slots[n].rest = true;
                        self.slots[n].tainted = tainted;
                        for v in &mut self.violations[v0..] {
                            v.class = Class::Consume;
                        }
                        // from here on the rest is judged symbol by symbol
                    }
                }
            }
        }
        if tainted {
            self.excuse();
            for v in &mut self.violations[v0..] {
                if v.class != Class::Progress {
                    v.class = Class::AfterFail;
                }
            }
        }
        self.after_call();
    }

    fn finish(mut self) -> Outcome {
        let sound = self.violations.is_empty();
        self.step = self.sc.steps.len();
        for n in 0..self.slots.len() {
            if !matches!(self.slots[n].live, Live::None) {
                self.release(n);
            }
        }
        let es = self.ctx.edges.borrow();
        let kept = es.iter().position(|e| e.made != e.released);
        drop(es);
        if sound {
            if let Some(i) = kept {
                self.violate(Class::Leak, format!("operand {} is still held after every number was released", i));
            }
            let left = alloc::live() - self.base_live;
            if left != 0 {
                self.violate(Class::Leak, format!("{} bytes are still held after every number was released", left));
            }
        }
        let stats = self.ctx.stats.borrow().clone();
        let attempts = self.ctx.edges.borrow().iter().map(|e| e.attempts).collect();
        Outcome {
            attempts,
            events: std::mem::take(&mut self.events),
            violations: std::mem::take(&mut self.violations),
            stats,
            hash: self.ctx.hash.get(),
            trace: self.ctx.trace.as_ref().map(|t| t.borrow().clone()).unwrap_or_default(),
        }
    }
}

struct Fnv(u64);

impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
