//! Several computations on threads of their own, with the simulator deciding
//! after every edge pull and library call which thread goes on. Exactly one
//! thread runs at a time, so a run is a function of its scenario.

use crate::exec::{self, Opts, Outcome};
use crate::scen::Scen;
use std::sync::{Arc, Condvar, Mutex};

struct State {
    turn: usize,
    alive: Vec<bool>,
    sched: Vec<u8>,
    pos: usize,
    switches: u64,
}

impl State {
    fn choose(&mut self, me: usize) {
        let alive: Vec<usize> = (0..self.alive.len()).filter(|i| self.alive[*i]).collect();
        if alive.is_empty() {
            return;
        }
        let next = if self.pos < self.sched.len() {
            let c = self.sched[self.pos] as usize;
            self.pos += 1;
            alive[c % alive.len()]
        } else if self.alive[me] {
            me
        } else {
            alive[0]
        };
        if next != me {
            self.switches += 1;
        }
        self.turn = next;
    }
}

type Shared = Arc<(Mutex<State>, Condvar)>;

fn wait(s: &Shared, me: usize) {
    let mut g = s.0.lock().unwrap();
    while g.turn != me {
        g = s.1.wait(g).unwrap();
    }
}

fn pass(s: &Shared, me: usize) {
    {
        let mut g = s.0.lock().unwrap();
        g.choose(me);
        if g.turn == me {
            return;
        }
    }
    s.1.notify_all();
    wait(s, me);
}

/// What one thread observed, without the parts that cannot leave it.
pub struct Report {
    pub events: Vec<exec::Ev>,
    pub stats: exec::Stats,
    pub hash: u64,
    pub isolation: Option<String>,
}

pub fn tasks(sc: &Scen) -> Vec<u8> {
    let mut v: Vec<u8> = sc.steps.iter().map(|(t, _)| *t).collect();
    v.sort();
    v.dedup();
    v
}

pub fn report(o: Outcome) -> Report {
    Report {
        events: o.events.into_iter().map(|(_, e)| e).collect(),
        stats: o.stats,
        hash: o.hash,
        isolation: o.violations.iter().find(|v| v.class == exec::Class::Isolation).map(|v| v.what.clone()),
    }
}

pub fn run(sc: &Scen) -> (Vec<Report>, u64) {
    let ids = tasks(sc);
    let shared: Shared = Arc::new((
        Mutex::new(State { turn: 0, alive: vec![true; ids.len()], sched: sc.sched.clone(), pos: 0, switches: 0 }),
        Condvar::new(),
    ));
    let seeds = crate::props::known_reentries();
    let mut handles = vec![];
    for (i, t) in ids.iter().enumerate() {
        let (sc, s, t, seeds) = (sc.clone(), shared.clone(), *t, seeds.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    crate::props::set_known_reentries(seeds);
                    wait(&s, i);
                    let y = s.clone();
                    let o = exec::run(
                        &sc,
                        Opts { judge: false, task: Some(t), yielder: Some(Box::new(move || pass(&y, i))), ..Opts::default() },
                    );
                    let r = report(o);
                    {
                        let mut g = s.0.lock().unwrap();
                        g.alive[i] = false;
                        g.choose(i);
                    }
                    s.1.notify_all();
                    r
                })
                .unwrap(),
        );
    }
    let reports = handles.into_iter().map(|h| h.join().unwrap()).collect();
    let switches = shared.0.lock().unwrap().switches;
    (reports, switches)
}
