//! A stateless model checker for the parallel proof checker: the real threads run one at a time,
//! every lock, atomic and thread operation is a scheduling point, and all schedules up to a
//! preemption bound are enumerated depth-first.
use carcara::sync::hooks::{self, Event};
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    /// not started yet
    Absent,
    /// waiting at a scheduling point with a pending operation
    Ready(Op),
    /// a writer that has attempted to take a held lock: it blocks later readers
    Queued(usize),
    Running,
    Finished,
    /// running, but blocked in something the hooks do not see
    Lost,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Start,
    Read(usize),
    Write(usize),
    Other(usize),
}

#[derive(Default, Clone, Debug)]
struct Lock {
    readers: Vec<usize>,
    writer: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Point {
    pub enabled: Vec<usize>,
    pub chosen: usize,
    pub current: Option<usize>,
    /// which alternatives have been or are being explored
    pub tried: Vec<usize>,
    /// preemptions used before this point
    pub preemptions: usize,
}

pub struct Ctl {
    inner: Mutex<Inner>,
    cv: Condvar,
}

struct Inner {
    n: usize,
    states: Vec<State>,
    locks: HashMap<usize, Lock>,
    names: HashMap<usize, usize>,
    turn: Option<usize>,
    prefix: Vec<usize>,
    points: Vec<Point>,
    ops: u64,
    deadlock: bool,
    free_run: bool,
    last_progress: Instant,
    trace: Vec<(usize, String)>,
    lost: bool,
}

impl Inner {
    fn enabled(&self, t: usize) -> bool {
        match self.states[t] {
            State::Ready(Op::Start | Op::Other(_)) => true,
            State::Ready(Op::Read(l)) => {
                let free = self.locks.get(&l).is_none_or(|k| k.writer.is_none());
                free && !self.states.iter().any(|s| *s == State::Queued(l))
            }
            // a writer may always attempt: it is then granted or queued
            State::Ready(Op::Write(_)) => true,
            State::Queued(l) => self.locks.get(&l).is_none_or(|k| k.writer.is_none() && k.readers.is_empty()),
            _ => false,
        }
    }
    /// Picks the next thread to run and hands the turn to it.
    fn schedule(&mut self, current: Option<usize>) {
        loop {
            if self.states.iter().any(|s| *s == State::Absent) {
                return;
            }
            let enabled: Vec<usize> = (0..self.n).filter(|t| self.enabled(*t)).collect();
            if enabled.is_empty() {
                if self.states.iter().any(|s| !matches!(s, State::Finished | State::Lost)) && !self.states.contains(&State::Lost) {
                    self.deadlock = true;
                    self.free_run = true;
                }
                self.turn = None;
                return;
            }
            let i = self.points.len();
            let cur = current.filter(|c| enabled.contains(c));
            let chosen = match self.prefix.get(i) {
                Some(c) if enabled.contains(c) => *c,
                Some(_) => {
                    // the run diverged from the recorded one
                    self.lost = true;
                    cur.unwrap_or(enabled[0])
                }
                None => cur.unwrap_or(enabled[0]),
            };
            let before = self.points.last().map_or(0, |p| p.preemptions + (p.current.is_some_and(|c| c != p.chosen)) as usize);
            self.points.push(Point { enabled, chosen, current: cur, tried: vec![chosen], preemptions: before });
            let t = chosen;
            match self.states[t] {
                State::Ready(Op::Write(l)) => {
                    let k = self.locks.entry(l).or_default();
                    if k.writer.is_none() && k.readers.is_empty() {
                        k.writer = Some(t);
                    } else {
                        self.states[t] = State::Queued(l);
                        // someone else has to run now
                        continue;
                    }
                }
                State::Queued(l) => self.locks.entry(l).or_default().writer = Some(t),
                State::Ready(Op::Read(l)) => self.locks.entry(l).or_default().readers.push(t),
                _ => {}
            }
            self.states[t] = State::Running;
            self.turn = Some(t);
            return;
        }
    }
}

thread_local! {
    static ME: std::cell::RefCell<Option<(Arc<Ctl>, usize)>> = const { std::cell::RefCell::new(None) };
    static DRIVER: std::cell::RefCell<Option<Arc<Ctl>>> = const { std::cell::RefCell::new(None) };
}

impl Ctl {
    fn stop_at(&self, me: usize, op: Op, what: impl FnOnce(&mut Inner) -> String) {
        let mut g = self.inner.lock().unwrap();
        if g.free_run {
            drop(g);
            // after a deadlock was found, unwind every thread
            panic!("exploration stopped: deadlock");
        }
        let w = what(&mut g);
        g.trace.push((me, w));
        g.ops += 1;
        let was_lost = g.states[me] == State::Lost;
        g.states[me] = State::Ready(op);
        g.last_progress = Instant::now();
        if !was_lost || g.turn.is_none() {
            let cur = if op == Op::Start { None } else { Some(me) };
            g.schedule(cur);
        }
        self.cv.notify_all();
        self.wait_turn(g, me);
    }
    fn wait_turn(&self, mut g: std::sync::MutexGuard<Inner>, me: usize) {
        loop {
            if g.free_run {
                drop(g);
                panic!("exploration stopped: deadlock");
            }
            if g.turn == Some(me) {
                return;
            }
            let (h, to) = self.cv.wait_timeout(g, Duration::from_millis(500)).unwrap();
            g = h;
            if to.timed_out() && g.last_progress.elapsed() > Duration::from_secs(3) {
                // the running thread is blocked in something the hooks do not see
                if let Some(t) = g.turn {
                    if g.states[t] == State::Running {
                        g.states[t] = State::Lost;
                        g.lost = true;
                        g.last_progress = Instant::now();
                        g.schedule(None);
                        if g.turn.is_none() {
                            g.deadlock = true;
                            g.free_run = true;
                        }
                        self.cv.notify_all();
                    }
                }
            }
        }
    }
}

struct Hooks;
impl hooks::Hooks for Hooks {
    fn token(&self) -> usize {
        DRIVER.with(|d| match &*d.borrow() {
            Some(c) => Arc::into_raw(c.clone()) as usize,
            None => 0,
        })
    }
    fn enter(&self, token: usize, worker: usize) {
        if token == 0 {
            return;
        }
        // SAFETY: the token was made by `token` above, which leaked one reference for it
        let c: Arc<Ctl> = unsafe { Arc::from_raw(token as *const Ctl) };
        ME.with(|m| *m.borrow_mut() = Some((c.clone(), worker)));
        crate::core::GUARDED.with(|g| g.set(1));
        c.stop_at(worker, Op::Start, |_| "start".into());
    }
    fn exit(&self) {
        let me = ME.with(|m| m.borrow_mut().take());
        let Some((c, t)) = me else { return };
        let mut g = c.inner.lock().unwrap();
        g.states[t] = State::Finished;
        g.last_progress = Instant::now();
        g.trace.push((t, "end".into()));
        if !g.free_run && g.turn == Some(t) {
            g.schedule(None);
        }
        c.cv.notify_all();
    }
    fn event(&self, e: Event) {
        let me = ME.with(|m| m.borrow().clone());
        let Some((c, t)) = me else { return };
        if std::thread::panicking() {
            // unwinding: only keep track of released locks
            if let Event::ReadRelease(l) | Event::WriteRelease(l) = e {
                let mut g = c.inner.lock().unwrap();
                release(&mut g, t, l);
            }
            return;
        }
        match e {
            Event::Read(l) => c.stop_at(t, Op::Read(l), |g| format!("read lock {}", name(g, l))),
            Event::Write(l) => c.stop_at(t, Op::Write(l), |g| format!("write lock {}", name(g, l))),
            Event::TryWrite(l) | Event::TryRead(l) => c.stop_at(t, Op::Other(l), |g| format!("try lock {}", name(g, l))),
            Event::Atomic(l) => c.stop_at(t, Op::Other(l), |g| format!("atomic {}", name(g, l))),
            Event::TryWriteOk(l) => {
                let mut g = c.inner.lock().unwrap();
                g.locks.entry(l).or_default().writer = Some(t);
            }
            Event::TryReadOk(l) => {
                let mut g = c.inner.lock().unwrap();
                g.locks.entry(l).or_default().readers.push(t);
            }
            Event::ReadRelease(l) | Event::WriteRelease(l) => {
                let mut g = c.inner.lock().unwrap();
                release(&mut g, t, l);
            }
        }
    }
}

fn release(g: &mut Inner, t: usize, l: usize) {
    let k = g.locks.entry(l).or_default();
    if k.writer == Some(t) {
        k.writer = None;
    } else if let Some(i) = k.readers.iter().position(|x| *x == t) {
        k.readers.swap_remove(i);
    }
}

fn name(g: &mut Inner, l: usize) -> usize {
    let n = g.names.len();
    *g.names.entry(l).or_insert(n)
}

pub fn install() {
    hooks::set(&Hooks);
}

pub struct Run<X> {
    pub result: Result<X, String>,
    pub deadlock: bool,
    pub lost: bool,
    pub points: Vec<Point>,
    pub ops: u64,
    pub trace: Vec<(usize, String)>,
}

/// Runs `f`, which starts `n` controlled threads, along `prefix` and then without preemption.
fn run_once<X>(n: usize, prefix: Vec<usize>, f: &dyn Fn() -> X) -> Run<X> {
    let ctl = Arc::new(Ctl {
        inner: Mutex::new(Inner {
            n,
            states: vec![State::Absent; n],
            locks: HashMap::new(),
            names: HashMap::new(),
            turn: None,
            prefix,
            points: vec![],
            ops: 0,
            deadlock: false,
            free_run: false,
            last_progress: Instant::now(),
            trace: vec![],
            lost: false,
        }),
        cv: Condvar::new(),
    });
    DRIVER.with(|d| *d.borrow_mut() = Some(ctl.clone()));
    let result = crate::core::guard(f);
    DRIVER.with(|d| *d.borrow_mut() = None);
    let mut g = ctl.inner.lock().unwrap();
    Run {
        result,
        deadlock: g.deadlock,
        lost: g.lost,
        points: std::mem::take(&mut g.points),
        ops: g.ops,
        trace: std::mem::take(&mut g.trace),
    }
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub schedules: u64,
    pub ops: u64,
    pub max_points: usize,
    pub complete: bool,
    pub lost: u64,
    /// Scheduling points, each counted once per path that leads to it.
    pub states: u64,
}

/// Enumerates every schedule with at most `bound` preemptions (up to `cap` schedules).
/// `on` is called after each run; it returns false to stop.
pub fn explore<X>(n: usize, bound: usize, cap: u64, f: &dyn Fn() -> X, on: &mut dyn FnMut(&Run<X>) -> bool) -> Stats {
    let mut st = Stats { complete: true, ..Default::default() };
    let mut path: Vec<Point> = vec![];
    let mut prefix: Vec<usize> = vec![];
    loop {
        let run = run_once(n, prefix.clone(), f);
        st.schedules += 1;
        st.ops += run.ops;
        st.max_points = st.max_points.max(run.points.len());
        st.lost += run.lost as u64;
        if !on(&run) {
            st.complete = false;
            return st;
        }
        // keep the already-tried sets of the prefix, adopt the new suffix
        let keep = prefix.len().min(run.points.len());
        path.truncate(keep);
        st.states += (run.points.len() - keep) as u64;
        path.extend(run.points[keep..].iter().cloned());
        if st.schedules >= cap {
            st.complete = false;
            return st;
        }
        // backtrack
        loop {
            let Some(p) = path.last_mut() else { return st };
            let next = p.enabled.iter().copied().find(|t| {
                !p.tried.contains(t) && (p.current.is_none_or(|c| c == *t) || p.preemptions < bound)
            });
            match next {
                Some(t) => {
                    p.tried.push(t);
                    p.chosen = t;
                    break;
                }
                None => {
                    path.pop();
                }
            }
        }
        prefix = path.iter().map(|p| p.chosen).collect();
    }
}
