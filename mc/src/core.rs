//! Building terms and steps, running the real checker on them, and reporting.
use crate::sem::*;
use carcara::ast::rare_rules::{RareStatements, Rules};
use carcara::ast::*;
use carcara::checker::{Config, ProofChecker};
use carcara::parser::{self, Parser};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub const VERIF: &str = "/verif";

pub fn empty_rules() -> Rules {
    RareStatements { rules: indexmap::IndexMap::new() }
}

thread_local! {
    pub static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if GUARDED.with(|g| g.get()) == 0 {
            // a panic of the harness itself
            eprintln!("harness panic: {msg} at {loc}");
            std::process::exit(3);
        }
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    GUARDED.with(|g| g.set(g.get() - 1));
    r
}

pub struct Env {
    pub pool: PrimitivePool,
    pub rules: Rules,
    pub prelude: ProblemPrelude,
    pub decls: String,
}

impl Env {
    pub fn new(decls: &str) -> Env {
        let mut pool = PrimitivePool::new();
        let prelude = {
            let mut p = Parser::new(&mut pool, parser::Config::new(), decls.as_bytes()).expect("decls");
            p.parse_problem().expect("decls").prelude
        };
        Env { pool, rules: empty_rules(), prelude, decls: decls.to_string() }
    }
    pub fn terms(&mut self, texts: &[&str]) -> Vec<T> {
        self.try_terms(texts).unwrap_or_else(|e| panic!("harness term {:?}: {}", texts, e))
    }
    pub fn try_terms(&mut self, texts: &[&str]) -> Result<Vec<T>, String> {
        let decls = self.decls.clone();
        let mut p =
            Parser::new(&mut self.pool, parser::Config::new(), decls.as_bytes()).map_err(|e| e.to_string())?;
        p.parse_problem().map_err(|e| e.to_string())?;
        let mut out = Vec::new();
        for t in texts {
            p.reset(t.as_bytes()).map_err(|e| format!("{t}: {e}"))?;
            out.push(p.parse_term().map_err(|e| format!("{t}: {e}"))?);
        }
        Ok(out)
    }
    pub fn term(&mut self, t: &str) -> T {
        self.terms(&[t]).pop().unwrap()
    }
    pub fn sort(&mut self, s: Sort) -> T {
        self.pool.add(Term::Sort(s))
    }
    pub fn op(&mut self, o: Operator, a: Vec<T>) -> T {
        self.pool.add(Term::Op(o, a))
    }
    pub fn not(&mut self, a: &T) -> T {
        self.pool.add(Term::Op(Operator::Not, vec![a.clone()]))
    }
    pub fn eq(&mut self, a: &T, b: &T) -> T {
        self.pool.add(Term::Op(Operator::Equals, vec![a.clone(), b.clone()]))
    }
    pub fn int(&mut self, i: i64) -> T {
        self.pool.add(Term::new_int(i))
    }
    pub fn bool(&mut self, b: bool) -> T {
        self.pool.add(Term::new_bool(b))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Spec {
    pub rule: String,
    pub premises: Vec<Vec<T>>,
    pub clause: Vec<T>,
    pub args: Vec<T>,
}

impl Spec {
    pub fn key(&self) -> String {
        let cl = |c: &[T]| c.iter().map(|t| show(t)).collect::<Vec<_>>().join(" ");
        let mut s = self.rule.clone();
        for p in &self.premises {
            s += &format!(" [{}]", cl(p));
        }
        s += &format!(" |- [{}]", cl(&self.clause));
        if !self.args.is_empty() {
            s += &format!(" args [{}]", cl(&self.args));
        }
        s
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Accept,
    Reject(String),
    Panic(String),
}
impl Out {
    pub fn ok(&self) -> bool {
        *self == Out::Accept
    }
}

pub fn step(id: &str, rule: &str, clause: Vec<T>, premises: Vec<(usize, usize)>, args: Vec<T>) -> ProofCommand {
    ProofCommand::Step(ProofStep {
        id: id.to_string(),
        clause,
        rule: rule.to_string(),
        premises,
        args,
        discharge: Vec::new(),
    })
}

const IDS: [&str; 12] = ["h0", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "h8", "h9", "h10", "h11"];

pub fn spec_proof(s: &Spec) -> Proof {
    let mut commands: Vec<ProofCommand> = s
        .premises
        .iter()
        .enumerate()
        .map(|(i, c)| step(IDS.get(i).copied().unwrap_or("hx"), "hole", c.clone(), vec![], vec![]))
        .collect();
    commands.push(step(
        "t",
        &s.rule,
        s.clause.clone(),
        (0..s.premises.len()).map(|i| (0, i)).collect(),
        s.args.clone(),
    ));
    Proof { constant_definitions: vec![], commands }
}

pub enum CheckRes {
    Valid,
    Holey,
    Err(carcara::Error),
    Panic(String),
}

pub fn check_proof_raw(env: &mut Env, problem: &Problem, proof: &Proof, cfg: Config) -> CheckRes {
    let r = guard(|| {
        let mut c = ProofChecker::new(&mut env.pool, &env.rules, cfg);
        c.check(problem, proof)
    });
    match r {
        Ok(Ok(false)) => CheckRes::Valid,
        Ok(Ok(true)) => CheckRes::Holey,
        Ok(Err(e)) => CheckRes::Err(e),
        Err(p) => CheckRes::Panic(p),
    }
}

/// Checks one step (premises given as holes). Accepting means that no step was rejected.
pub fn check_spec(env: &mut Env, s: &Spec, cfg: &Config) -> Out {
    let proof = spec_proof(s);
    let problem = Problem::default();
    match check_proof_raw(env, &problem, &proof, cfg.clone()) {
        CheckRes::Valid | CheckRes::Holey => Out::Accept,
        CheckRes::Err(carcara::Error::DoesNotReachEmptyClause) => Out::Accept,
        CheckRes::Err(e) => Out::Reject(match &e {
            carcara::Error::Checker { .. } => String::new(),
            e => format!("{e}"),
        }),
        CheckRes::Panic(p) => Out::Panic(p),
    }
}

/// Same, but returns the error for inspection.
pub fn check_spec_err(env: &mut Env, s: &Spec, cfg: &Config) -> CheckRes {
    let proof = spec_proof(s);
    let problem = Problem::default();
    match check_proof_raw(env, &problem, &proof, cfg.clone()) {
        CheckRes::Err(carcara::Error::DoesNotReachEmptyClause) => CheckRes::Holey,
        r => r,
    }
}

// ------------------------------------------------------------------------------------------------
// Reporting

#[derive(Default)]
pub struct Counters {
    pub m: BTreeMap<String, u64>,
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub start: Instant,
    pub level: &'static str,
    pub inner: Mutex<Inner>,
    pub known: Vec<Known>,
    cases: std::sync::atomic::AtomicU64,
}

#[derive(Default)]
pub struct Inner {
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub violations: BTreeMap<String, String>, // key -> detail
    pub known_hits: BTreeMap<String, u64>,    // known description -> count
    pub distinct: HashSet<u64>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub prop: String,
    pub key: String,
    pub what: String,
}

fn load_known(prop: &str) -> Vec<Known> {
    // known_findings.txt: lines  "finding<TAB>property<TAB>key<TAB>what"; "fixed: ..." lines are
    // documentation only.
    let p = format!("{VERIF}/known_findings.txt");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() >= 4 && f[0] == "finding" && f[1] == prop {
                Some(Known { prop: f[1].into(), key: f[2].into(), what: f[3].into() })
            } else {
                None
            }
        })
        .collect()
}

pub fn hash_of<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn new(prop: &str, tier: &str, level: &'static str) -> Report {
        Report {
            prop: prop.into(),
            tier: tier.into(),
            start: Instant::now(),
            level,
            inner: Mutex::new(Inner { exhaustive: true, ..Default::default() }),
            known: load_known(prop),
            cases: Default::default(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn add(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn merge(&self, c: &Counters) {
        let mut i = self.inner.lock().unwrap();
        for (k, v) in &c.m {
            *i.counters.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn get(&self, name: &str) -> u64 {
        *self.inner.lock().unwrap().counters.get(name).unwrap_or(&0)
    }
    pub fn distinct(&self, h: u64) {
        self.inner.lock().unwrap().distinct.insert(h);
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            let mut s: String = s.into();
            if s.chars().count() > 600 {
                s = s.chars().take(600).chain("...".chars()).collect();
            }
            i.samples.push(s);
        }
    }
    /// Keeps some of the cases of a run (the 1st, 8th, 64th, ...) as samples.
    pub fn case(&self, f: impl FnOnce() -> String) {
        let n = self.cases.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
        if n.is_power_of_two() && n.trailing_zeros() % 3 == 0 {
            self.sample(f());
        }
    }
    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rule = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.into());
    }
    pub fn not_exhaustive(&self) {
        self.inner.lock().unwrap().exhaustive = false;
    }
    /// Reports a violation, identified by `key` (the specific input that fails).
    pub fn violation(&self, key: &str, detail: &str) {
        if let Some(k) = self.known.iter().find(|k| k.key == key) {
            *self.inner.lock().unwrap().known_hits.entry(k.what.clone()).or_insert(0) += 1;
            return;
        }
        let mut i = self.inner.lock().unwrap();
        if i.violations.len() < 2000 {
            i.violations.entry(key.to_string()).or_insert_with(|| detail.to_string());
        }
    }
    pub fn num_violations(&self) -> usize {
        self.inner.lock().unwrap().violations.len()
    }
    pub fn finish(&self) -> i32 {
        let i = self.inner.lock().unwrap();
        let js = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o + "\""
        };
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut cov = String::new();
        cov.push_str(&format!("\"rule\": {}", js(&i.rule)));
        cov.push_str(&format!(", \"exhaustive\": {}", i.exhaustive));
        let samples: Vec<String> = i.samples.iter().map(|s| js(s)).collect();
        cov.push_str(&format!(", \"samples\": [{}]", samples.join(", ")));
        let mut counters = i.counters.clone();
        if self.level != "model_checking" {
            counters.entry("evaluations".into()).or_insert(0);
            counters.insert("distinct_nontrivial".into(), i.distinct.len() as u64);
        }
        for (k, v) in &counters {
            cov.push_str(&format!(", {}: {}", js(k), v));
        }
        let ass: Vec<String> = i.assumptions.iter().map(|s| js(s)).collect();
        let ev = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
            js(&self.prop), js(&self.tier), seed, js(self.level), cov, ass.join(", "), self.elapsed(), i.violations.len()
        );
        let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
        std::fs::write(format!("{VERIF}/evidence/{}.json", self.prop), ev).expect("evidence");
        for (k, v) in &counters {
            println!("{} {k} = {v}", self.prop);
        }
        for k in &self.known {
            if let Some(n) = i.known_hits.get(&k.what) {
                println!("KNOWN-FINDING: property={} {} ({} case(s))", self.prop, k.what, n);
            }
        }
        if i.violations.is_empty() {
            println!("{}: held on everything explored ({:.1}s)", self.prop, self.elapsed());
            return 0;
        }
        let dir = format!("{VERIF}/work/violations");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.txt", self.prop);
        let mut f = std::fs::File::create(&path).unwrap();
        for (k, d) in &i.violations {
            writeln!(f, "{k}\n    {}", d.replace('\n', "\n    ")).unwrap();
        }
        for (n, (k, d)) in i.violations.iter().enumerate() {
            if n >= 8 {
                println!("... {} violations in total, see {path}", i.violations.len());
                break;
            }
            println!("case: {k}\n      {}", d.lines().next().unwrap_or(""));
        }
        println!("VIOLATION property={} replay={}", self.prop, path);
        1
    }
}

/// Runs `f` on every item of `items`, on all cores, each worker with a big stack.
pub fn par<X: Sync, F: Fn(&X) + Sync>(items: &[X], f: F) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(items.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    f(&items[i]);
                })
                .unwrap();
        }
    });
}
