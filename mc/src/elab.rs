//! C15: elaboration keeps proofs accepted. Every accepted proof of the spaces is elaborated under a
//! set of pass sequences; the result must be accepted again, under the strict checker after the full
//! pipeline, must not become holey, and its printed text must read back as an accepted proof.
use crate::core::*;
use crate::mutate::*;
use crate::rules::{panic_site, Family, Tally};
use carcara::ast::*;
use carcara::checker::Config;
use carcara::elaborator::{self, ElaborationStep, Elaborator};
use carcara::parser;
use std::collections::HashSet;

/// Passes by letter, in the order of the default pipeline, without those that call a solver.
const PASSES: [char; 4] = ['p', 'l', 'u', 'r'];

pub fn pass(c: char) -> ElaborationStep {
    match c {
        'p' => ElaborationStep::Polyeq,
        'l' => ElaborationStep::Local,
        'u' => ElaborationStep::Uncrowd,
        'r' => ElaborationStep::Reordering,
        'i' => ElaborationStep::LiaGeneric,
        'h' => ElaborationStep::Hole,
        _ => unreachable!(),
    }
}

/// Every sequence of different passes up to the given length; "pilur" is the default pipeline.
pub fn pipelines(max: usize) -> Vec<String> {
    let mut v = vec!["pilur".to_string(), String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|s| PASSES.iter().filter(|c| !s.contains(**c)).map(move |c| format!("{s}{c}")))
            .collect();
        v.extend(last.iter().cloned());
    }
    // passes that run again on the result of the others
    v.extend(["plurplur", "rulprulp", "pp", "ll", "uu", "rr"].iter().map(|s| s.to_string()));
    v
}

pub struct Subject<'a> {
    pub problem: &'a Problem,
    pub proof: &'a Proof,
    pub cfg: &'a Config,
    /// The problem as text, to read the printed result back.
    pub decls: &'a str,
    pub parser: parser::Config,
    /// Whether the text of the original proof reads back.
    pub readable: bool,
}

/// Elaborates `s`, which the checker accepted (`holey` or not), under each sequence of passes.
pub fn elaborate(rep: &Report, t: &mut Tally, env: &mut Env, s: &Subject, holey: bool, key: &str, pipes: &[String]) {
    t.distinct.insert(hash_of(&key));
    for pipe in pipes {
        for rotate in [true, false] {
            if !rotate && !pipe.contains('u') {
                continue;
            }
            t.inc("evaluations", 1);
            rep.case(|| format!("passes {pipe}: {key}"));
            let config = elaborator::Config {
                lia_options: None,
                hole_options: None,
                uncrowd_rotation: rotate,
            };
            let name = format!("{pipe}{}", if rotate { "" } else { "-" });
            let result = guard(|| {
                let forest = ProofNodeForest::from_commands(s.proof.commands.clone());
                Elaborator::new(&mut env.pool, s.problem, config)
                    .elaborate(forest, pipe.chars().map(pass).collect())
                    .into_commands()
            });
            let commands = match result {
                Ok(c) => c,
                Err(p) => {
                    rep.violation(&format!("{} [{name}] {key}", panic_site(&p)), "elaboration panics");
                    continue;
                }
            };
            if commands == s.proof.commands {
                t.inc("unchanged", 1);
            } else {
                t.inc("changed", 1);
            }
            let new = Proof { constant_definitions: s.proof.constant_definitions.clone(), commands };
            let shown = |env: &mut Env, new: &Proof| crate::print::print_proof(&mut env.pool, &s.problem.prelude, new, false).unwrap_or_default();
            let mut ok = true;
            let mut cfgs = vec![("the checker", s.cfg.clone())];
            if pipe == "pilur" {
                cfgs.push(("the strict checker", s.cfg.clone().elaborated(true)));
            }
            for (who, cfg) in cfgs {
                match check_proof_raw(env, s.problem, &new, cfg) {
                    CheckRes::Valid => {}
                    CheckRes::Holey if holey => {}
                    CheckRes::Holey => {
                        let x = shown(env, &new);
                        rep.violation(&format!("[{name}] {key}"), &format!("was valid and is elaborated to a holey proof:\n{x}"));
                        ok = false;
                    }
                    CheckRes::Err(e) => {
                        let x = shown(env, &new);
                        let key = limit(&s.proof.commands, &new.commands, &e.to_string()).unwrap_or_else(|| format!("[{name}] {key}"));
                        rep.violation(&key, &format!("{who} rejects its elaboration: {e}\n{x}"));
                        ok = false;
                    }
                    CheckRes::Panic(e) => {
                        let x = shown(env, &new);
                        rep.violation(&format!("[{name}] {key}"), &format!("{who} panics on its elaboration: {e}\n{x}"));
                        ok = false;
                    }
                }
                if !ok {
                    break;
                }
            }
            if !ok {
                continue;
            }
            // what the command line prints must be that proof
            if s.readable && new.commands != s.proof.commands {
                t.inc("read_back", 1);
                let text = match crate::print::print_proof(&mut env.pool, &s.problem.prelude, &new, false) {
                    Ok(x) => x,
                    Err(p) => {
                        rep.violation(&format!("[{name}] {key}"), &format!("printing its elaboration panics: {p}"));
                        continue;
                    }
                };
                match crate::print::read(&mut env.pool, s.parser, s.decls, &text) {
                    Ok(Ok((_, p))) if same(&p, &new) => {}
                    Ok(Ok(_)) => rep.violation(&format!("[{name}] {key}"), &format!("its printed elaboration is another proof:\n{text}")),
                    Ok(Err(e)) | Err(e) => rep.violation(&format!("[{name}] {key}"), &format!("its printed elaboration does not parse: {e}\n{text}")),
                }
            }
        }
    }
}

/// The numbers that the parser gives to the contexts are not part of a proof.
pub fn clear(commands: &mut [ProofCommand]) {
    for c in commands {
        if let ProofCommand::Subproof(s) = c {
            s.context_id = 0;
            clear(&mut s.commands);
        }
    }
}

/// The elaborator leaves two kinds of steps as they are, which the strict checker rejects.
fn limit(original: &[ProofCommand], commands: &[ProofCommand], e: &str) -> Option<String> {
    fn outer(list: &[ProofCommand], depth: usize) -> bool {
        list.iter().any(|c| match c {
            ProofCommand::Subproof(s) => outer(&s.commands, depth + 1),
            ProofCommand::Step(s) => s.discharge.iter().any(|d| d.0 < depth),
            _ => false,
        })
    }
    if e.contains("discharge must be 'assume' command") && outer(original, 0) {
        return Some("class a step discharges an assumption of the problem, which is elaborated".into());
    }
    let id = e.strip_prefix("checking failed on step '")?.split('\'').next()?;
    limit_in(&[], commands, id)
}

fn limit_in<'a>(open: &[&'a [ProofCommand]], list: &'a [ProofCommand], id: &str) -> Option<String> {
    let mut open = open.to_vec();
    open.push(list);
    list.iter().find_map(|c| match c {
        ProofCommand::Subproof(s) => limit_in(&open, &s.commands, id),
        ProofCommand::Step(s) if s.id == id => step_limit(&open, s),
        _ => None,
    })
}

fn step_limit(open: &[&[ProofCommand]], s: &ProofStep) -> Option<String> {
    match s.rule.as_str() {
        "resolution" | "th_resolution" if s.args.is_empty() => {
            // the step may have had different premises before a reordering between them was removed
            let all: Vec<&[Rc<Term>]> = s.premises.iter().map(|p| open[p.0][p.1].clause()).collect();
            let mut seen = HashSet::new();
            let different = s.premises.iter().filter(|p| seen.insert(*p)).map(|p| open[p.0][p.1].clause()).collect();
            let goal: HashSet<_> = s.clause.iter().map(lit).collect();
            let either = |mut premises: Vec<&[Rc<Term>]>| {
                plain(&premises, &goal) || {
                    premises.reverse();
                    plain(&premises, &goal)
                }
            };
            (!either(all) || !either(different))
                .then(|| "class a resolution step without arguments, which is no sequence of resolutions of its premises in their order, is left as it is".into())
        }
        "refl" => {
            let [t] = &s.clause[..] else { return None };
            let Term::Op(Operator::Equals, sides) = t.as_ref() else { return None };
            fn bound(t: &Rc<Term>, names: &mut Vec<String>, other: &mut bool) {
                match t.as_ref() {
                    Term::App(f, args) => {
                        bound(f, names, other);
                        args.iter().for_each(|a| bound(a, names, other));
                    }
                    Term::Op(_, args) => args.iter().for_each(|a| bound(a, names, other)),
                    Term::Binder(b, list, inner) => {
                        *other |= matches!(b, Binder::Choice | Binder::Lambda);
                        names.extend(list.iter().map(|(n, _)| n.clone()));
                        bound(inner, names, other);
                    }
                    Term::Let(list, inner) => {
                        *other = true;
                        for (n, t) in list {
                            names.push(n.clone());
                            bound(t, names, other);
                        }
                        bound(inner, names, other);
                    }
                    _ => {}
                }
            }
            let (mut l, mut r, mut other) = (vec![], vec![], false);
            bound(&sides[0], &mut l, &mut other);
            bound(&sides[1], &mut r, &mut other);
            (l != r && (other || l.iter().any(|n| r.contains(n))))
                .then(|| "class a refl step between terms that differ in the variables of a choice, lambda or let term, or that swap bound variables, is left as it is".into())
        }
        _ => None,
    }
}

fn lit(t: &Rc<Term>) -> (u32, Rc<Term>) {
    let (n, t) = t.remove_all_negations();
    (n, t.clone())
}

/// Whether resolving the premises one after the other, each on one literal, can give `goal`.
fn plain(premises: &[&[Rc<Term>]], goal: &HashSet<(u32, Rc<Term>)>) -> bool {
    fn go(current: HashSet<(u32, Rc<Term>)>, rest: &[&[Rc<Term>]], goal: &HashSet<(u32, Rc<Term>)>) -> bool {
        let Some((next, rest)) = rest.split_first() else { return current == *goal };
        for (i, t) in next.iter().enumerate() {
            let (n, t) = lit(t);
            for m in [Some(n + 1), n.checked_sub(1)].into_iter().flatten() {
                let mut c = current.clone();
                if c.remove(&(m, t.clone())) {
                    c.extend(next.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, u)| lit(u)));
                    if go(c, rest, goal) {
                        return true;
                    }
                }
            }
        }
        false
    }
    let Some((first, rest)) = premises.split_first() else { return false };
    !rest.is_empty() && go(first.iter().map(lit).collect(), rest, goal)
}

fn same(a: &Proof, b: &Proof) -> bool {
    let (mut a, mut b) = (a.commands.clone(), b.commands.clone());
    clear(&mut a);
    clear(&mut b);
    a == b
}

/// Checks and elaborates the proof given as text.
pub fn text(rep: &Report, t: &mut Tally, problem: &str, proof: &str, cfg: &Config, pipes: &[String]) {
    t.inc("proof_texts", 1);
    let mut env = Env { pool: PrimitivePool::new(), rules: empty_rules(), prelude: Default::default(), decls: String::new() };
    let parser = parser::Config::new();
    let Ok(Ok((prob, prf))) = crate::print::read(&mut env.pool, parser, problem, proof) else { return };
    let holey = match check_proof_raw(&mut env, &prob, &prf, cfg.clone()) {
        CheckRes::Valid => false,
        CheckRes::Holey => true,
        _ => return,
    };
    t.inc("accepted_proofs", 1);
    let key = format!("{} | {}", problem.trim(), proof.trim().replace('\n', " "));
    elaborate(rep, t, &mut env, &Subject { problem: &prob, proof: &prf, cfg, decls: problem, parser, readable: true }, holey, &key, pipes);
}

/// Places a step in four proofs: at the top level, in a subproof with premises outside it, in a
/// subproof together with its premises, and between reordering steps.
pub fn proofs(s: &Spec) -> Vec<Proof> {
    let id = |i: usize, p: &str| format!("{p}h{i}");
    let premises = |p: &str| -> Vec<ProofCommand> {
        s.premises.iter().enumerate().map(|(i, c)| step(&id(i, p), "hole", c.clone(), vec![], vec![])).collect()
    };
    let main = |p: &str, depth: usize, from: usize| {
        step(&format!("{p}t"), &s.rule, s.clause.clone(), (0..s.premises.len()).map(|i| (depth, from + i)).collect(), s.args.clone())
    };
    let n = s.premises.len();
    let end = |at: usize| step("end", "hole", vec![], vec![(0, at)], vec![]);
    let sub = |commands| ProofCommand::Subproof(Subproof { commands, args: vec![], context_id: 0 });
    let close = |at: usize| step("s", "hole", s.clause.clone(), vec![(1, at)], vec![]);
    let mut flat = premises("");
    flat.push(main("", 0, 0));
    flat.push(end(n));
    let mut outer = premises("");
    outer.push(sub(vec![main("s.", 0, 0), close(0)]));
    outer.push(end(n));
    let mut inner = premises("s.");
    inner.push(main("s.", 1, 0));
    inner.push(close(n));
    let inner = vec![sub(inner), end(0)];
    // every premise and the conclusion pass through a reordering step, and the conclusion is used
    // again in a subproof
    let turned = |c: &[Rc<Term>]| -> Vec<Rc<Term>> { c.iter().rev().cloned().collect() };
    let mut around: Vec<_> =
        s.premises.iter().enumerate().map(|(i, c)| step(&id(i, "o"), "hole", turned(c), vec![], vec![])).collect();
    around.extend(s.premises.iter().enumerate().map(|(i, c)| step(&id(i, ""), "reordering", c.clone(), vec![(0, i)], vec![])));
    around.push(main("", 0, n));
    around.push(step("u", "reordering", turned(&s.clause), vec![(0, 2 * n)], vec![]));
    around.push(sub(vec![
        step("s.u", "reordering", s.clause.clone(), vec![(0, 2 * n + 1)], vec![]),
        step("s", "hole", s.clause.clone(), vec![(1, 0), (0, 2 * n)], vec![]),
    ]));
    around.push(step("end", "hole", vec![], vec![(0, 2 * n + 2), (0, 2 * n + 1)], vec![]));
    [flat, outer, inner, around].into_iter().map(|commands| Proof { constant_definitions: vec![], commands }).collect()
}

/// Elaborates the step in its four proofs if the checker accepts it.
pub fn spec(rep: &Report, t: &mut Tally, env: &mut Env, problem: &Problem, s: &Spec, cfg: &Config, pipes: &[String]) {
    t.inc("steps", 1);
    if !check_spec(env, s, cfg).ok() {
        return;
    }
    t.inc("accepted_steps", 1);
    let decls = env.decls.clone();
    // steps whose terms have variables that no command declares are not written down
    let readable = proofs(s).iter().all(|p| {
        crate::print::print_proof(&mut env.pool, &problem.prelude, p, false)
            .is_ok_and(|x| matches!(crate::print::read(&mut env.pool, parser::Config::new(), &decls, &x), Ok(Ok(_))))
    });
    for (i, proof) in proofs(s).iter().enumerate() {
        let holey = match check_proof_raw(env, problem, proof, cfg.clone()) {
            CheckRes::Valid => false,
            CheckRes::Holey => true,
            _ => continue,
        };
        t.inc("accepted_proofs", 1);
        let key = format!("{}{}", ["", "(subproof, premises outside) ", "(subproof, premises inside) ", "(reordered) "][i], s.key());
        let subject = Subject { problem, proof, cfg, decls: &decls, parser: parser::Config::new(), readable };
        elaborate(rep, t, env, &subject, holey, &key, pipes);
    }
}

pub fn family(rep: &Report, fam: &Family, thorough: bool) {
    let items: Vec<usize> = (0..fam.insts.len()).collect();
    let all = pipelines(4);
    let few = pipelines(if thorough { 2 } else { 0 });
    par(&items, |&i| {
        let mut env = Env::new(&fam.decls);
        let mut t = Tally::new();
        let s = fam.insts[i].spec(&mut env);
        let alpha = Alphabet::new(&mut env, &fam.fresh);
        let problem = Problem { prelude: env.prelude.clone(), ..Default::default() };
        let mut seen: HashSet<u64> = HashSet::new();
        seen.insert(hash_of(&s));
        spec(rep, &mut t, &mut env, &problem, &s, &fam.cfg, &all);
        for n in neighbors(&mut env, &s, &alpha, fam.opts) {
            if seen.insert(hash_of(&n)) {
                spec(rep, &mut t, &mut env, &problem, &n, &fam.cfg, &few);
            }
        }
        t.flush(rep);
    });
}

pub fn binders(rep: &Report) {
    let texts = crate::binder::canonical();
    let all = pipelines(4);
    par(&texts, |x| {
        let mut t = Tally::new();
        text(rep, &mut t, crate::binder::DECLS, &format!("{x}{}", crate::binder::END), &Config::new(), &all);
        t.flush(rep);
    });
}

pub fn structures(rep: &Report, thorough: bool) {
    let pipes = pipelines(if thorough { 1 } else { 0 });
    crate::structure::each_text(rep, if thorough { 5 } else { 4 }, |t, problem, x, cfg| {
        if !cfg.elaborated {
            text(rep, t, problem, x, cfg, &pipes);
        }
    });
}

/// The clauses that the chains start from.
const STARTS: [&[&str]; 3] = [
    &["p q", "(not p) q", "(not q) p p"],
    &["p (not (not q))", "(not p) (not (not q)) r", "(not (not (not q)))"],
    &["p q r", "(not r) p", "(not p) q q"],
];

type Clause = Vec<Rc<Term>>;

/// One step on the clauses derived so far: rule, premises, conclusion and arguments.
type Move = (&'static str, Vec<usize>, Clause, Vec<Rc<Term>>);

fn moves(env: &mut Env, have: &[Clause]) -> Vec<Move> {
    let mut out: Vec<Move> = vec![];
    let r = env.try_terms(&["r"]).unwrap()[0].clone();
    let dedup = |c: &Clause| -> Clause {
        let mut d: Clause = vec![];
        c.iter().for_each(|t| if !d.contains(t) { d.push(t.clone()) });
        d
    };
    for (i, c) in have.iter().enumerate() {
        let mut turned = c.clone();
        turned.rotate_left(1.min(c.len()));
        if turned != *c {
            out.push(("reordering", vec![i], turned, vec![]));
        }
        if dedup(c) != *c {
            out.push(("contraction", vec![i], dedup(c), vec![]));
        }
        if i + 1 == have.len() {
            let mut wider = c.clone();
            wider.push(r.clone());
            out.push(("weakening", vec![i], wider, vec![]));
        }
    }
    // binary resolution of any two clauses on any literals, with the literals kept or merged, and
    // once more with a third clause
    let binary = |a: &Clause, b: &Clause| -> Vec<(Clause, Rc<Term>, bool)> {
        let mut v = vec![];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                let (x, y) = (lit(x), lit(y));
                if x.1 != y.1 || x.0.abs_diff(y.0) != 1 || a[..i].contains(&a[i]) || b[..j].contains(&b[j]) {
                    continue;
                }
                let mut c: Clause = a.clone();
                c.remove(i);
                c.extend(b.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, t)| t.clone()));
                v.push(if x.0 < y.0 { (c, a[i].clone(), true) } else { (c, b[j].clone(), false) });
            }
        }
        v
    };
    let n = have.len();
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            for (c, pivot, polarity) in binary(&have[i], &have[j]) {
                let args = vec![pivot, env.pool.bool_constant(polarity)];
                let merged = dedup(&c);
                out.push(("resolution", vec![i, j], c.clone(), args.clone()));
                if merged != c {
                    out.push(("resolution", vec![i, j], merged.clone(), args.clone()));
                }
                out.push(("resolution", vec![i, j], merged.clone(), vec![]));
                for (k, h) in have.iter().enumerate() {
                    for (d, pivot, polarity) in binary(&c, h) {
                        let mut args = args.clone();
                        args.extend([pivot, env.pool.bool_constant(polarity)]);
                        let mut merged = dedup(&d);
                        out.push(("th_resolution", vec![i, j, k], merged.clone(), args.clone()));
                        merged.reverse();
                        out.push(("resolution", vec![i, j, k], merged, vec![]));
                    }
                }
            }
        }
    }
    let mut seen = HashSet::new();
    out.retain(|m| seen.insert(hash_of(m)));
    out
}

/// Every proof that derives clauses from three given ones by the given number of propositional
/// steps, at the top level or in a subproof.
pub fn chains(rep: &Report, thorough: bool) {
    let depth = if thorough { 3 } else { 2 };
    let decls = crate::cat_bool::DECLS;
    let first: Vec<(usize, usize)> = {
        let mut env = Env::new(decls);
        (0..STARTS.len())
            .flat_map(|s| {
                let start = start(&mut env, s);
                (0..moves(&mut env, &start).len()).map(move |m| (s, m)).collect::<Vec<_>>()
            })
            .collect()
    };
    let pipes = if thorough { vec!["pilur".to_string(), "rul".into()] } else { pipelines(3) };
    par(&first, |&(s, m)| {
        let mut env = Env::new(decls);
        let mut t = Tally::new();
        let mut have = start(&mut env, s);
        let first = moves(&mut env, &have).swap_remove(m);
        have.push(first.2.clone());
        let mut done = vec![first];
        extend(rep, &mut t, &mut env, &mut have, &mut done, depth, &pipes);
        t.flush(rep);
    });
}

fn start(env: &mut Env, s: usize) -> Vec<Clause> {
    STARTS[s]
        .iter()
        .map(|c| {
            let texts = split(c);
            env.try_terms(&texts.iter().map(|x| x.as_str()).collect::<Vec<_>>()).unwrap()
        })
        .collect()
}

/// The terms of a clause written down without a `cl`.
fn split(c: &str) -> Vec<String> {
    let (mut depth, mut v) = (0, vec![String::new()]);
    for ch in c.chars() {
        match ch {
            '(' => depth += 1,
            ')' => depth -= 1,
            ' ' if depth == 0 => {
                v.push(String::new());
                continue;
            }
            _ => {}
        }
        v.last_mut().unwrap().push(ch);
    }
    v
}

fn extend(rep: &Report, t: &mut Tally, env: &mut Env, have: &mut Vec<Clause>, done: &mut Vec<Move>, depth: usize, pipes: &[String]) {
    let problem = Problem { prelude: env.prelude.clone(), ..Default::default() };
    let decls = env.decls.clone();
    let n = have.len() - done.len();
    let cfg = Config::new();
    for inside in [false, true] {
        let mut commands: Vec<_> =
            have[..n].iter().enumerate().map(|(i, c)| step(&format!("h{i}"), "hole", c.clone(), vec![], vec![])).collect();
        let place = |i: usize| if inside && i >= n { (1, i - n) } else { (0, i) };
        let steps: Vec<_> = done
            .iter()
            .enumerate()
            .map(|(k, (rule, premises, clause, args))| {
                step(&format!("t{k}"), rule, clause.clone(), premises.iter().map(|&i| place(i)).collect(), args.clone())
            })
            .collect();
        let last = done.last().unwrap().2.clone();
        if inside {
            let mut steps = steps;
            steps.push(step("s", "hole", last, vec![place(have.len() - 1)], vec![]));
            commands.push(ProofCommand::Subproof(Subproof { commands: steps, args: vec![], context_id: 0 }));
            commands.push(step("end", "hole", vec![], vec![(0, n)], vec![]));
        } else {
            commands.extend(steps);
            commands.push(step("end", "hole", vec![], vec![(0, have.len() - 1)], vec![]));
        }
        let proof = Proof { constant_definitions: vec![], commands };
        t.inc("chains", 1);
        let holey = match check_proof_raw(env, &problem, &proof, cfg.clone()) {
            CheckRes::Valid => false,
            CheckRes::Holey => true,
            _ => {
                t.inc("chains_rejected", 1);
                continue;
            }
        };
        t.inc("accepted_proofs", 1);
        let key = crate::print::print_proof(&mut env.pool, &env.prelude.clone(), &proof, false).unwrap_or_default().replace('\n', " ");
        let subject = Subject { problem: &problem, proof: &proof, cfg: &cfg, decls: &decls, parser: parser::Config::new(), readable: true };
        elaborate(rep, t, env, &subject, holey, &key, pipes);
    }
    if done.len() < depth {
        for m in moves(env, have) {
            have.push(m.2.clone());
            done.push(m);
            extend(rep, t, env, have, done, depth, pipes);
            done.pop();
            have.pop();
        }
    }
}
