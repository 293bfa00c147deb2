//! C14: the parallel checker on every schedule. Proofs are all trees of items up to a size; the
//! sequential checker's verdict is the reference.
use crate::core::*;
use crate::explore;
use crate::rules::Tally;
use carcara::ast::*;
use carcara::benchmarking::{CollectResults, RunMeasurement};
use carcara::checker::{CheckerStatistics, Config, ParallelProofChecker, ProofChecker, Scheduler};
use carcara::parser;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// a cheap step that is right in any context
    Ok,
    /// an expensive step, right in any context
    Heavy,
    Hole,
    /// a step that is wrong in any context
    Bad,
    /// a step that is right only if the innermost context maps x to y (or z)
    Ctx(char),
    Sub(Vec<Item>),
    /// a `bind` subproof mapping x to the given variable
    Bind(char, Vec<Item>),
}

const PROBLEM: &str = "(set-logic ALL)(declare-sort U 0)(declare-const a U)(declare-const b U)(declare-fun f (U) U)\
(declare-fun g (U U) U)(declare-fun P (U) Bool)(declare-const q Bool)(declare-const x U)(declare-const y U)(declare-const z U)\
(assert (not (= a a)))(check-sat)";

struct Text {
    out: String,
}

impl Text {
    fn items(&mut self, items: &[Item], prefix: &str, depth: usize) {
        for (i, it) in items.iter().enumerate() {
            let id = format!("{prefix}t{i}");
            match it {
                Item::Ok => self.out += &format!("(step {id} (cl (= (f a) (f a))) :rule refl)\n"),
                Item::Heavy => self.out += &format!("(step {id} (cl (<= 0 0)) :rule la_generic :args (1))\n"),
                Item::Hole => self.out += &format!("(step {id} (cl q) :rule hole)\n"),
                Item::Bad => self.out += &format!("(step {id} (cl (= a b)) :rule refl)\n"),
                Item::Ctx(v) => self.out += &format!("(step {id} (cl (= (g x (f x)) (g {v} (f {v})))) :rule refl)\n"),
                Item::Sub(body) => {
                    self.out += &format!("(anchor :step {id})\n(assume {id}.h q)\n");
                    self.items(body, &format!("{id}."), depth + 1);
                    self.out += &format!(
                        "(step {id}.e (cl (= b b)) :rule refl)\n(step {id} (cl (not q) (= b b)) :rule subproof :discharge ({id}.h))\n"
                    );
                }
                Item::Bind(v, body) => {
                    self.out += &format!("(anchor :step {id} :args (({v} U) (:= (x U) {v})))\n");
                    self.items(body, &format!("{id}."), depth + 1);
                    self.out += &format!(
                        "(step {id}.e (cl (= (P x) (P {v}))) :rule refl)\n(step {id} (cl (= (forall ((x U)) (P x)) (forall (({v} U)) (P {v})))) :rule bind)\n"
                    );
                }
            }
        }
    }
}

pub fn text(items: &[Item]) -> String {
    let mut t = Text { out: "(assume h (not (= a a)))\n".into() };
    t.items(items, "", 0);
    t.out += "(step r (cl (= a a)) :rule refl)\n(step e (cl) :rule resolution :premises (h r))\n";
    t.out
}

/// All item lists with exactly `n` items in total, nested at most `nest` deep.
pub fn lists(n: usize, nest: usize, leaves: &[Item], binds: &[char], subs: bool) -> Vec<Vec<Item>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        // the first item has size k
        let mut firsts: Vec<Item> = vec![];
        if k == 1 {
            firsts.extend(leaves.iter().cloned());
        }
        if nest > 0 {
            for body in lists(k - 1, nest - 1, leaves, binds, subs) {
                if subs {
                    firsts.push(Item::Sub(body.clone()));
                }
                for v in binds {
                    firsts.push(Item::Bind(*v, body.clone()));
                }
            }
        }
        for rest in lists(n - k, nest, leaves, binds, subs) {
            for f in &firsts {
                let mut v = vec![f.clone()];
                v.extend(rest.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

/// Records which commands were checked.
#[derive(Default, Debug, Clone)]
struct Recorder {
    steps: Vec<(String, String)>,
    holey: bool,
}
impl CollectResults for Recorder {
    fn add_step_measurement(&mut self, _: &str, step_id: &str, rule: &str, _: Duration) {
        self.steps.push((step_id.into(), rule.into()));
    }
    fn add_assume_measurement(&mut self, _: &str, id: &str, _: bool, _: Duration) {
        self.steps.push((id.into(), "assume".into()));
    }
    fn add_polyeq_depth(&mut self, _: usize) {}
    fn add_run_measurement(&mut self, _: &(String, usize), _: RunMeasurement) {}
    fn register_holey(&mut self) {
        self.holey = true;
    }
    fn register_error(&mut self, _: &carcara::Error) {}
    fn combine(mut a: Self, b: Self) -> Self {
        a.steps.extend(b.steps);
        a.holey |= b.holey;
        a
    }
}

fn stats() -> CheckerStatistics<'static, Recorder> {
    CheckerStatistics {
        file_name: "this",
        polyeq_time: Duration::ZERO,
        assume_time: Duration::ZERO,
        assume_core_time: Duration::ZERO,
        results: Recorder::default(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Valid,
    Holey,
    Invalid,
}
fn verdict(r: Result<bool, carcara::Error>) -> Verdict {
    match r {
        Ok(false) => Verdict::Valid,
        Ok(true) => Verdict::Holey,
        Err(_) => Verdict::Invalid,
    }
}

/// The commands whose checking is recorded: everything but local assumptions.
fn ids(cmds: &[ProofCommand], out: &mut BTreeMap<String, usize>) {
    fn local(cmds: &[ProofCommand], out: &mut BTreeMap<String, usize>) {
        let steps: Vec<ProofCommand> = cmds.iter().filter(|c| !matches!(c, ProofCommand::Assume { .. })).cloned().collect();
        ids(&steps, out);
    }
    for c in cmds {
        match c {
            ProofCommand::Subproof(s) => local(&s.commands, out),
            c => *out.entry(c.id().to_string()).or_default() += 1,
        }
    }
}

const STACK: usize = 4 << 20;

/// Without control: every command is checked exactly once, for every number of workers.
fn distribution(rep: &Report, t: &mut Tally, items: &[Item], max_threads: usize) {
    let txt = text(items);
    let parse = || parser::parse_instance(PROBLEM.as_bytes(), txt.as_bytes(), None, parser::Config::new()).map_err(|e| e.to_string());
    let (problem, proof, rules, mut pool) = match parse() {
        Ok(x) => x,
        Err(e) => panic!("harness proof: {e}\n{txt}"),
    };
    let mut st = stats();
    let want = match guard(|| ProofChecker::new(&mut pool, &rules, Config::new()).check_with_stats(&problem, &proof, &mut st)) {
        Ok(r) => verdict(r),
        Err(p) => {
            rep.violation(&txt, &format!("sequential checking panics: {p}"));
            return;
        }
    };
    t.inc(&format!("sequential_{want:?}"), 1);
    let mut all = BTreeMap::new();
    ids(&proof.commands, &mut all);
    let pool = Arc::new(pool);
    for n in 1..=max_threads {
        t.inc("transitions", 1);
        let r = guard(|| {
            let (sched, usage) = Scheduler::new(n, &proof);
            let mut c = ParallelProofChecker::new(pool.clone(), Config::new(), &problem.prelude, &usage, STACK, rules.clone());
            let mut st = stats();
            let r = c.check_with_stats(&problem, &proof, &sched, &mut st);
            (verdict(r), st.results)
        });
        let (got, rec) = match r {
            Ok(x) => x,
            Err(p) => {
                rep.violation(&format!("{n} threads\n{txt}"), &format!("panics: {p}"));
                continue;
            }
        };
        if got != want {
            rep.violation(&format!("{n} threads\n{txt}"), &format!("the verdict is {got:?}, sequentially it is {want:?}"));
        }
        if want == Verdict::Invalid {
            continue;
        }
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        for (id, rule) in &rec.steps {
            if !rule.starts_with("anchor") {
                *seen.entry(id.clone()).or_default() += 1;
            }
        }
        if seen != all {
            let diff: Vec<_> = all.iter().filter(|(k, v)| seen.get(*k) != Some(v)).map(|(k, v)| (k, v, seen.get(k))).collect();
            rep.violation(&format!("{n} threads\n{txt}"), &format!("commands checked a wrong number of times (id, expected, checked): {diff:?}"));
        }
        // the statistics do not depend on the distribution either
        let mut a: Vec<_> = st.results.steps.iter().filter(|s| !s.1.starts_with("anchor")).cloned().collect();
        let mut b: Vec<_> = rec.steps.iter().filter(|s| !s.1.starts_with("anchor")).cloned().collect();
        a.sort();
        b.sort();
        if a != b || st.results.holey != rec.holey {
            rep.violation(&format!("{n} threads\n{txt}"), "the collected statistics differ from sequential checking");
        }
    }
}

/// Under control: every schedule with at most `bound` preemptions.
fn schedules(rep: &Report, t: &mut Tally, items: &[Item], n: usize, bound: usize, cap: u64, with_stats: bool) {
    let txt = text(items);
    let (problem, proof, rules, mut pool) =
        parser::parse_instance(PROBLEM.as_bytes(), txt.as_bytes(), None, parser::Config::new()).expect("harness proof");
    let want = match guard(|| ProofChecker::new(&mut pool, &rules, Config::new()).check(&problem, &proof)) {
        Ok(r) => verdict(r),
        Err(_) => return, // reported by `distribution`
    };
    let pool = Arc::new(pool);
    let f = || {
        let (sched, usage) = Scheduler::new(n, &proof);
        let mut c = ParallelProofChecker::new(pool.clone(), Config::new(), &problem.prelude, &usage, STACK, rules.clone());
        if with_stats {
            let mut st = stats();
            let r = verdict(c.check_with_stats(&problem, &proof, &sched, &mut st));
            (r, st.results.steps.iter().filter(|s| !s.1.starts_with("anchor")).count())
        } else {
            (verdict(c.check(&problem, &proof, &sched)), 0)
        }
    };
    let mut total = BTreeMap::new();
    ids(&proof.commands, &mut total);
    let total: usize = total.values().sum();
    let mut failed = false;
    let st = explore::explore(n, bound, cap, &f, &mut |run| {
        let trace = || {
            let tr: Vec<String> = run.trace.iter().map(|(t, w)| format!("  thread {t}: {w}")).collect();
            let ch: Vec<usize> = run.points.iter().map(|p| p.chosen).collect();
            format!("\nschedule (thread chosen at each point): {ch:?}\n{}", tr.join("\n"))
        };
        let key = format!("{n} threads, {}\n{txt}", if with_stats { "with statistics" } else { "without statistics" });
        if run.deadlock {
            rep.violation(&key, &format!("deadlock{}", trace()));
            failed = true;
        } else {
            match &run.result {
                Err(p) => {
                    rep.violation(&key, &format!("panics: {p}{}", trace()));
                    failed = true;
                }
                Ok((v, steps)) => {
                    if *v != want {
                        rep.violation(&key, &format!("the verdict is {v:?}, sequentially it is {want:?}{}", trace()));
                        failed = true;
                    } else if with_stats && want != Verdict::Invalid && *steps != total {
                        rep.violation(&key, &format!("{steps} commands were checked, there are {total}{}", trace()));
                        failed = true;
                    }
                }
            }
        }
        !failed
    });
    t.inc("traces_validated_against_impl", st.schedules);
    t.inc("states", st.states);
    t.inc("transitions", st.ops);
    t.inc("explorations", 1);
    t.inc("explorations_complete", st.complete as u64);
    t.inc("runs_with_unmodelled_blocking", st.lost);
    t.distinct.insert(hash_of(&(&txt, n, bound)));
    if !st.complete {
        rep.not_exhaustive();
    }
}

pub fn run(rep: &Report, thorough: bool) {
    explore::install();
    use Item::*;
    // 1. distribution of the commands
    let leaves = [Ok, Heavy, Ctx('y'), Bad, Hole];
    let mut a: Vec<Vec<Item>> = vec![];
    for n in 0..=if thorough { 5 } else { 4 } {
        a.extend(lists(n, 3, if n >= 4 { &leaves[..3] } else { &leaves }, &['y', 'z'][..if n >= 5 { 1 } else { 2 }], true));
    }
    let deep: Vec<Vec<Item>> = lists(if thorough { 7 } else { 6 }, 4, &[Ok, Heavy][..if thorough { 2 } else { 1 }], &['y'][..1], false);
    a.extend(deep);
    rep.add("proofs_distributed", a.len() as u64);
    let m = if thorough { 8 } else { 5 };
    let chunks: Vec<&[Vec<Item>]> = a.chunks(16).collect();
    par(&chunks, |ch| {
        let mut t = Tally::new();
        for p in ch.iter() {
            distribution(rep, &mut t, p, m);
        }
        t.flush(rep);
    });
    rep.sample(text(&a[a.len() / 2]));
    // 2. schedules
    let mut jobs: Vec<(Vec<Item>, usize, usize, bool)> = vec![];
    let all = |n| (0..=n).flat_map(|k| lists(k, 2, &[Ok, Ctx('y'), Ctx('z'), Bad, Hole], &['y', 'z'], true)).collect::<Vec<_>>();
    for p in all(2) {
        jobs.push((p.clone(), 2, if thorough { 3 } else { 2 }, false));
        jobs.push((p.clone(), 3, if thorough { 2 } else { 1 }, false));
        jobs.push((p, 2, if thorough { 2 } else { 1 }, true));
    }
    // nested contexts shared by the workers
    let inner = vec![Ctx('y'), Ctx('y'), Ok, Ctx('z')];
    for p in [
        vec![Bind('y', inner.clone())],
        vec![Bind('z', vec![Bind('y', inner.clone())])],
        vec![Bind('y', vec![Ctx('y'), Bind('z', vec![Ctx('z'), Ctx('z')]), Ctx('y')])],
        vec![Bind('y', vec![Ctx('y')]), Bind('z', vec![Ctx('z'), Ctx('z')])],
        vec![Sub(vec![Bind('y', vec![Ctx('y'), Ctx('y')])]), Ok],
        vec![Bind('y', vec![Sub(vec![Ctx('y'), Ctx('y')]), Ctx('y')])],
        vec![Bind('y', vec![Bind('z', vec![Bind('y', vec![Ctx('y'), Ctx('y'), Ctx('y')])])])],
    ] {
        jobs.push((p.clone(), 2, if thorough { 4 } else { 2 }, false));
        jobs.push((p.clone(), 3, if thorough { 3 } else { 1 }, false));
        jobs.push((p.clone(), 4, if thorough { 2 } else { 1 }, false));
        jobs.push((p, 2, if thorough { 2 } else { 1 }, true));
    }
    let cap = if thorough { 40_000 } else { 20_000 };
    par(&jobs, |(p, n, bound, st)| {
        let mut t = Tally::new();
        let t0 = std::time::Instant::now();
        schedules(rep, &mut t, p, *n, *bound, cap, *st);
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{:.2}s {n} threads bound {bound} {p:?} {:?}", t0.elapsed().as_secs_f64(), t.c.m);
        }
        t.flush(rep);
    });
}
