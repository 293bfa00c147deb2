//! Rule-soundness exploration: canonical instances, their edit neighbourhoods, and term grammars,
//! each accepted step being decided by exhaustive evaluation over finite interpretations.
use crate::core::*;
use crate::mutate::*;
use crate::sem::*;
use carcara::checker::Config;
use std::collections::HashSet;
use std::time::Instant;

#[derive(Clone, Debug, Default)]
pub struct Inst {
    pub rule: String,
    pub premises: Vec<Vec<String>>,
    pub clause: Vec<String>,
    pub args: Vec<String>,
}

pub fn inst(rule: &str, premises: &[&[&str]], clause: &[&str], args: &[&str]) -> Inst {
    Inst {
        rule: rule.into(),
        premises: premises.iter().map(|p| p.iter().map(|s| s.to_string()).collect()).collect(),
        clause: clause.iter().map(|s| s.to_string()).collect(),
        args: args.iter().map(|s| s.to_string()).collect(),
    }
}
impl Inst {
    pub fn spec(&self, env: &mut Env) -> Spec {
        let mut all: Vec<&str> = Vec::new();
        for p in &self.premises {
            all.extend(p.iter().map(|s| s.as_str()));
        }
        all.extend(self.clause.iter().map(|s| s.as_str()));
        all.extend(self.args.iter().map(|s| s.as_str()));
        let ts = env.terms(&all);
        let mut it = ts.into_iter();
        Spec {
            rule: self.rule.clone(),
            premises: self.premises.iter().map(|p| p.iter().map(|_| it.next().unwrap()).collect()).collect(),
            clause: self.clause.iter().map(|_| it.next().unwrap()).collect(),
            args: self.args.iter().map(|_| it.next().unwrap()).collect(),
        }
    }
}

pub struct Family {
    pub name: &'static str,
    pub decls: String,
    pub fresh: Vec<&'static str>,
    pub insts: Vec<Inst>,
    pub doms: Vec<Doms>,
    pub cap: u64,
    pub opts: EditOpts,
    pub cfg: Config,
    /// whether a DRAT-like rule is only required to preserve satisfiability
    pub depth2: usize, // explore distance 2 if the number of 1-neighbours is at most this
}

pub struct Tally {
    pub c: Counters,
    pub distinct: HashSet<u64>,
}
impl Tally {
    pub fn new() -> Tally {
        Tally { c: Counters::default(), distinct: HashSet::new() }
    }
    pub fn inc(&mut self, k: &str, n: u64) {
        if let Some(x) = self.c.m.get_mut(k) {
            *x += n;
        } else {
            self.c.m.insert(k.to_string(), n);
        }
    }
    pub fn flush(&mut self, r: &Report) {
        r.merge(&self.c);
        let mut i = r.inner.lock().unwrap();
        i.distinct.extend(self.distinct.drain());
        self.c.m.clear();
    }
}

/// A premise filter used when some steps are meaningful only under extra side conditions.
pub type Pre = fn(&Spec) -> bool;

/// The class of a known family of wrong steps: `div_simplify` concluding t/t = 1, where the only
/// counterexamples are those in which t is zero.
fn class_of(s: &Spec, doms: &[Doms], cap: u64) -> Option<String> {
    use carcara::ast::*;
    if s.rule == "string_decompose" {
        return decompose_reversed(s).then(|| "class string_decompose reversed concludes the length of the wrong part".into());
    }
    if s.rule != "div_simplify" || s.clause.len() != 1 || !s.premises.is_empty() {
        return None;
    }
    let Term::Op(Operator::Equals, lr) = s.clause[0].as_ref() else { return None };
    let Term::Op(Operator::IntDiv | Operator::RealDiv, nd) = lr[0].as_ref() else { return None };
    if nd.len() != 2 || nd[0] != nd[1] || lr[1].as_signed_number() != Some(rug::Rational::from(1)) {
        return None;
    }
    let doms1: Vec<Doms> = doms.iter().map(|d| Doms { div0: Some(1), ..d.clone() }).collect();
    // with t/0 := 1 the conclusion is always true
    if falsify(&s.premises, &s.clause, &doms1, cap).counter.is_some() && nd[0].as_signed_number().is_some() {
        return None;
    }
    if nd[0].as_signed_number().is_some_and(|z| z == 0) {
        return None;
    }
    Some("class div_simplify (op t t) = 1".into())
}

/// Whether the step is the form of `string_decompose` that the rule documents for a reversed
/// decomposition: (= (str.len w_2) n), where w_2 is what follows the first n characters.
fn decompose_reversed(s: &Spec) -> bool {
    use carcara::ast::*;
    let op = |t: &T, o: Operator| match t.as_ref() {
        Term::Op(p, a) if *p == o => a.clone(),
        _ => vec![],
    };
    let [arg] = &s.args[..] else { return false };
    let [p] = &s.premises[..] else { return false };
    let ([p], [c]) = (&p[..], &s.clause[..]) else { return false };
    let [l, n] = &op(p, Operator::GreaterEq)[..] else { return false };
    let [t] = &op(l, Operator::StrLen)[..] else { return false };
    let [e1, e2] = &op(c, Operator::And)[..] else { return false };
    let ([a, b], [c, d]) = (&op(e1, Operator::Equals)[..], &op(e2, Operator::Equals)[..]) else { return false };
    // equalities may be written in either order
    let sum = if a == t { b } else { a };
    let length = if c == n { d } else { c };
    let [w1, w2] = &op(sum, Operator::StrConcat)[..] else { return false };
    let [target] = &op(length, Operator::StrLen)[..] else { return false };
    let ([t1, z, n1], [t2, n2, m]) = (&op(w1, Operator::Substring)[..], &op(w2, Operator::Substring)[..]) else {
        return false;
    };
    let [l2, n3] = &op(m, Operator::Sub)[..] else { return false };
    arg.is_bool_true()
        && (a == t || b == t)
        && (c == n || d == n)
        && target == w2
        && [t1, t2].iter().all(|x| *x == t)
        && [n1, n2, n3].iter().all(|x| *x == n)
        && l2 == l
        && z.as_integer() == Some(rug::Integer::new())
}

/// Checks one candidate and, if accepted, decides its soundness. Returns whether it was accepted.
pub fn probe(
    rep: &Report,
    env: &mut Env,
    s: &Spec,
    cfg: &Config,
    doms: &[Doms],
    cap: u64,
    t: &mut Tally,
) -> bool {
    t.inc("evaluations", 1);
    match check_spec(env, s, cfg) {
        Out::Reject(_) => {
            t.inc("steps_rejected", 1);
            false
        }
        Out::Panic(_) => {
            t.inc("steps_crashed", 1);
            false
        }
        Out::Accept => {
            t.inc("steps_accepted", 1);
            let h = hash_of(&s.key());
            if !t.distinct.insert(h) {
                return true;
            }
            if (s.rule.starts_with("pbblast") || s.rule.starts_with("cp_")) && !crate::pb::in_scope(s) {
                t.inc("accepted_outside_the_rule_domain", 1);
                return true;
            }
            let f = falsify(&s.premises, &s.clause, doms, cap);
            t.inc("interpretations_evaluated", f.interps);
            if f.decided == 0 {
                t.inc("accepted_but_undecided", 1);
                if std::env::var("MC_UNDEC").is_ok() {
                    eprintln!("undecided: {}", s.key());
                }
            }
            if f.truncated {
                t.inc("interpretation_spaces_truncated", 1);
            }
            if let Some(c) = f.counter {
                let key = class_of(s, doms, cap).unwrap_or_else(|| s.key());
                rep.violation(
                    &key,
                    &format!("accepted, but the premises hold and the conclusion fails in the interpretation {c}"),
                );
            }
            true
        }
    }
}

pub fn run_family(rep: &Report, fam: &Family, thorough: bool) {
    let items: Vec<usize> = (0..fam.insts.len()).collect();
    par(&items, |&i| {
        let t0 = Instant::now();
        let mut env = Env::new(&fam.decls);
        let mut tally = Tally::new();
        let s = fam.insts[i].spec(&mut env);
        if !probe(rep, &mut env, &s, &fam.cfg, &fam.doms, fam.cap, &mut tally) {
            tally.inc("canonical_instances_rejected", 1);
            if std::env::var("MC_VERBOSE").is_ok() {
                let e = match check_spec_err(&mut env, &s, &fam.cfg) {
                    CheckRes::Err(e) => format!("{e}"),
                    CheckRes::Panic(p) => format!("PANIC {p}"),
                    _ => "??".into(),
                };
                eprintln!("REJECTED {}\n     {}", s.key(), e);
            }
        }
        tally.inc("canonical_instances", 1);
        if i % 17 == 0 {
            rep.sample(s.key());
        }
        let alpha = Alphabet::new(&mut env, &fam.fresh);
        let n1 = neighbors(&mut env, &s, &alpha, fam.opts);
        tally.inc("distance1_neighbours", n1.len() as u64);
        for n in &n1 {
            probe(rep, &mut env, n, &fam.cfg, &fam.doms, fam.cap, &mut tally);
        }
        let limit = if thorough { fam.depth2 * 6 } else { fam.depth2 };
        if n1.len() <= limit {
            let mut o2 = fam.opts;
            o2.max_repl = fam.opts.max_repl.min(if thorough { 6 } else { 3 });
            let mut seen: HashSet<u64> = HashSet::new();
            // work through compact copies so that the term pool can be dropped periodically
            for n in &n1 {
                let n2 = neighbors(&mut env, n, &alpha, o2);
                for m in &n2 {
                    if seen.insert(hash_of(m)) {
                        tally.inc("distance2_neighbours", 1);
                        probe(rep, &mut env, m, &fam.cfg, &fam.doms, fam.cap, &mut tally);
                    }
                }
            }
        } else {
            tally.inc("instances_explored_to_distance_1_only", 1);
        }
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{:.2}s n1={} evals={} {}", t0.elapsed().as_secs_f64(), n1.len(), tally.c.m["evaluations"], s.key());
        }
        tally.flush(rep);
    });
}

/// Every canonical instance of the catalog must be accepted.
pub fn run_canonical(rep: &Report, fam: &Family) {
    let items: Vec<usize> = (0..fam.insts.len()).collect();
    par(&items, |&i| {
        let mut env = Env::new(&fam.decls);
        let mut t = Tally::new();
        let s = fam.insts[i].spec(&mut env);
        t.inc("evaluations", 1);
        t.inc("canonical_instances", 1);
        match check_spec_err(&mut env, &s, &fam.cfg) {
            CheckRes::Valid | CheckRes::Holey => {
                t.inc("steps_accepted", 1);
                t.distinct.insert(hash_of(&s.key()));
            }
            CheckRes::Err(e) => rep.violation(&s.key(), &format!("a correct step is rejected: {e}")),
            CheckRes::Panic(p) => rep.violation(&s.key(), &format!("a correct step crashes the checker: {p}")),
        }
        if i % 29 == 0 {
            rep.sample(s.key());
        }
        t.flush(rep);
    });
}

/// No step of the edit neighbourhood (including terms no parser would build, if `wild`) may crash.
pub fn run_crash(rep: &Report, fam: &Family, thorough: bool) {
    let items: Vec<usize> = (0..fam.insts.len()).collect();
    par(&items, |&i| {
        let mut env = Env::new(&fam.decls);
        let mut t = Tally::new();
        let s = fam.insts[i].spec(&mut env);
        let alpha = Alphabet::new(&mut env, &fam.fresh);
        let mut o = fam.opts;
        o.subtyping = true;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut one = |env: &mut Env, s: &Spec, t: &mut Tally| {
            t.inc("evaluations", 1);
            rep.case(|| s.key());
            if let Out::Panic(p) = check_spec(env, s, &fam.cfg) {
                // the class of a crash is where it happens
                rep.violation(&panic_site(&p), &format!("panic ({p}) on {}", s.key()));
            }
        };
        one(&mut env, &s, &mut t);
        let n1 = neighbors(&mut env, &s, &alpha, o);
        for n in &n1 {
            if seen.insert(hash_of(n)) {
                t.distinct.insert(hash_of(&n.key()));
                one(&mut env, n, &mut t);
            }
        }
        if n1.len() <= if thorough { 900 } else { 150 } {
            let mut o2 = o;
            o2.max_repl = if thorough { 8 } else { 4 };
            for n in &n1 {
                for m in neighbors(&mut env, n, &alpha, o2) {
                    if seen.insert(hash_of(&m)) {
                        one(&mut env, &m, &mut t);
                    }
                }
            }
        }
        t.flush(rep);
    });
}

/// "message at file:line" with the line number and quoted data removed, so that a known crash is
/// identified by its message and file.
pub fn panic_site(p: &str) -> String {
    let mut s = p.to_string();
    if let Some(i) = s.rfind(':') {
        if s[i + 1..].chars().all(|c| c.is_ascii_digit()) {
            s.truncate(i);
        }
    }
    let mut out = String::new();
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !out.ends_with('#') {
                out.push('#');
            }
        } else if c == '\n' || c == '\t' {
            out.push(' ');
        } else {
            out.push(c);
        }
    }
    format!("panic {out}")
}
