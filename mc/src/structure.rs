//! Proof structure: an explicit-state model of how Alethe proofs are put together (scopes,
//! assumptions, discharge, holes, the empty clause). Every reachable model state within the bounds is
//! visited, every transition (accepting or rejecting) is replayed as proof text against the real
//! parser and checker, and the verdicts compared.
use crate::core::*;
use carcara::checker::Config;
use carcara::parser;
use std::collections::HashSet;

/// A term: an atom under some negations.
type Tm = (u8, u8);
const ATOMS: [&str; 6] = ["p", "q", "(=> p q)", "false", "(= a b)", "(= b a)"];

fn tm((a, n): Tm) -> String {
    let mut s = ATOMS[a as usize].to_string();
    for _ in 0..n {
        s = format!("(not {s})");
    }
    s
}
fn neg((a, n): Tm) -> Tm {
    (a, n + 1)
}

#[derive(Clone, Debug)]
struct Cmd {
    id: String,
    clause: Vec<Tm>,
    assume: bool,
}
#[derive(Clone, Debug)]
struct Frame {
    end: String,
    cmds: Vec<Cmd>,
    has_step: bool,
}
#[derive(Clone, Debug)]
pub struct State {
    frames: Vec<Frame>,
    dead: Vec<String>,
    text: String,
    n: usize,
    holey: bool,
    empty: bool,
}

#[derive(Clone, Debug)]
enum Tok {
    Assume(Tm),
    Step { rule: &'static str, clause: Vec<Tm>, premises: Vec<String>, discharge: Vec<String>, id: Option<String>, ok: bool, hole: bool },
    Open,
    End { rule: &'static str, clause: Vec<Tm>, premises: Vec<String>, discharge: Vec<String>, ok: bool, hole: bool },
    /// an assume that takes the place of the end step
    EndAssume,
}

pub struct Opts {
    pub depth: usize,
    pub nest: usize,
    pub holes: bool,
    pub relative: bool,
    pub cfg: usize,
    pub asserts: Vec<Tm>,
    pub elaborated: bool,
}

fn rup(a: &[Tm], b: &[Tm]) -> bool {
    let mut cs: Vec<HashSet<(u8, bool)>> =
        [a, b].iter().map(|c| c.iter().map(|&(x, n)| (x, n % 2 == 0)).collect()).collect();
    loop {
        if cs.is_empty() {
            return false;
        }
        if cs.iter().any(|c| c.is_empty()) {
            return true;
        }
        let Some(u) = cs.iter().find(|c| c.len() == 1).map(|c| *c.iter().next().unwrap()) else { return false };
        cs.retain(|c| !c.contains(&u));
        for c in &mut cs {
            c.remove(&(u.0, !u.1));
        }
    }
}

fn resolvent(a: &[Tm], b: &[Tm]) -> Option<(Vec<Tm>, Tm, bool)> {
    for x in a {
        for y in b {
            if x.0 == y.0 && x.1.abs_diff(y.1) == 1 {
                let mut r: Vec<Tm> = Vec::new();
                for t in a.iter().filter(|t| *t != x).chain(b.iter().filter(|t| *t != y)) {
                    if !r.contains(t) {
                        r.push(*t);
                    }
                }
                return Some((r, if x.1 < y.1 { *x } else { *y }, x.1 < y.1));
            }
        }
    }
    None
}

impl State {
    fn new() -> State {
        State {
            frames: vec![Frame { end: String::new(), cmds: vec![], has_step: false }],
            dead: vec![],
            text: String::new(),
            n: 0,
            holey: false,
            empty: false,
        }
    }
    fn visible(&self) -> Vec<&Cmd> {
        self.frames.iter().flat_map(|f| &f.cmds).collect()
    }
    fn fresh(&self, o: &Opts) -> String {
        match self.frames.last() {
            Some(f) if o.relative && !f.end.is_empty() => format!("{}.c{}", f.end, self.n),
            _ => format!("c{}", self.n),
        }
    }
    fn reference(&self, o: &Opts, id: &str) -> String {
        // discharged commands may be named relative to the step that closes the subproof
        if o.relative {
            let end = &self.frames.last().unwrap().end;
            if let Some(r) = id.strip_prefix(&format!("{end}.")) {
                return r.to_string();
            }
        }
        id.to_string()
    }

    fn tokens(&self, o: &Opts) -> Vec<Tok> {
        let mut out = Vec::new();
        let top = self.frames.len() == 1;
        let step = |rule, clause: Vec<Tm>, premises: Vec<String>, ok, hole| Tok::Step {
            rule,
            clause,
            premises,
            discharge: vec![],
            id: None,
            ok,
            hole,
        };
        for t in [(0, 0), (0, 1), (1, 1), (2, 0)] {
            out.push(Tok::Assume(t));
        }
        if top {
            out.push(Tok::Assume((5, 0)));
        } else {
            out.push(Tok::Assume((1, 0)));
        }
        if self.frames.len() <= o.nest {
            out.push(Tok::Open);
        }
        let vis = self.visible();
        for c in &vis {
            if let [(2, 0)] = c.clause[..] {
                out.push(step("implies", vec![(0, 1), (1, 0)], vec![c.id.clone()], true, false));
                // wrong: drops the antecedent
                out.push(step("implies", vec![(1, 0)], vec![c.id.clone()], false, false));
            }
        }
        for (i, a) in vis.iter().enumerate() {
            for (j, b) in vis.iter().enumerate() {
                if i == j {
                    continue;
                }
                if i < j {
                    if let Some((r, pivot, first)) = resolvent(&a.clause, &b.clause) {
                        let _ = (pivot, first);
                        out.push(step("resolution", r, vec![a.id.clone(), b.id.clone()], !o.elaborated, false));
                    } else {
                        let ok = rup(&a.clause, &b.clause) && !o.elaborated;
                        out.push(step("resolution", vec![], vec![a.id.clone(), b.id.clone()], ok, false));
                    }
                }
            }
        }
        // references to commands that are out of scope, not yet there, or the subproof itself
        let mut bad: Vec<String> = self.dead.iter().rev().take(2).cloned().collect();
        bad.push(self.fresh(o));
        if !top {
            bad.push(self.frames.last().unwrap().end.clone());
        }
        for b in bad {
            out.push(step("hole", vec![(1, 0)], vec![b.clone()], false, true));
            if !top {
                out.push(Tok::End { rule: "subproof", clause: vec![(3, 0)], premises: vec![], discharge: vec![b], ok: false, hole: false });
            }
        }
        // duplicate name
        if let Some(c) = vis.first() {
            out.push(Tok::Step {
                rule: "hole",
                clause: vec![(1, 0)],
                premises: vec![],
                discharge: vec![],
                id: Some(c.id.clone()),
                ok: false,
                hole: true,
            });
        }
        // closing rules elsewhere
        out.push(step("subproof", vec![(3, 0)], vec![], false, false));
        if let Some(c) = vis.iter().find(|c| c.assume) {
            out.push(Tok::Step {
                rule: "resolution",
                clause: vec![(1, 0)],
                premises: vec![],
                discharge: vec![c.id.clone()],
                id: None,
                ok: false,
                hole: false,
            });
        }
        let (ign, allow) = (o.cfg & 1 != 0, o.cfg & 2 != 0);
        if o.holes {
            for c in [vec![], vec![(0, 0)], vec![(1, 0)]] {
                out.push(step("hole", c.clone(), vec![], true, true));
                if c.len() == 1 {
                    out.push(step("lia_generic", c.clone(), vec![], true, true));
                    out.push(step("allowed_rule", c.clone(), vec![], allow || ign, true));
                }
                out.push(step("unknown_rule", c, vec![], ign, true));
            }
            // an allowed rule that the checker knows
            out.push(step("not_not", vec![(1, 0)], vec![], allow, true));
        }
        if !top {
            let f = self.frames.last().unwrap();
            out.push(Tok::EndAssume);
            let locals: Vec<&Cmd> = f.cmds.iter().filter(|c| c.assume).collect();
            let outer: Option<&Cmd> = self.frames[..self.frames.len() - 1].iter().flat_map(|f| &f.cmds).find(|c| c.assume);
            let prev: Option<&Cmd> = f.cmds.last();
            // the step closing the subproof
            for set in 0..1usize << locals.len().min(3) {
                let mut d: Vec<&Cmd> = locals.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, c)| *c).collect();
                let full = set + 1 == 1 << locals.len();
                for variant in 0..5 {
                    let mut clause_ok = true;
                    let mut extra = vec![];
                    if variant == 3 {
                        // also discharge an assumption of an outer scope (which weakens the conclusion)
                        let Some(c) = outer else { continue };
                        extra.push(c);
                    }
                    if variant == 4 {
                        // something that is not an assumption
                        let Some(c) = f.cmds.iter().find(|c| !c.assume) else { continue };
                        extra.push(c);
                        clause_ok = false;
                    }
                    if variant != 0 && !full {
                        continue;
                    }
                    d.extend(extra.iter());
                    let mut clause: Vec<Tm> = d.iter().filter_map(|c| c.clause.first().map(|t| neg(*t))).collect();
                    let mut ok = full && clause_ok && prev.is_some();
                    match prev.map(|p| &p.clause[..]) {
                        Some([]) => clause.push((3, 0)),
                        Some([t]) => clause.push(*t),
                        Some(c) => {
                            clause.extend(c);
                            ok = false;
                        }
                        None => clause.push((3, 0)),
                    }
                    match variant {
                        1 => {
                            // forgets a negated assumption, or claims something else
                            if clause.len() > 1 {
                                clause.remove(0);
                            } else {
                                clause = vec![if clause[0] == (1, 2) { (0, 2) } else { (1, 2) }];
                            }
                            ok = false;
                        }
                        2 => {
                            // claims a different formula
                            let n = clause.len() - 1;
                            clause[n] = if clause[n] == (1, 0) { (0, 0) } else { (1, 0) };
                            ok = false;
                        }
                        _ => {}
                    }
                    let ids: Vec<String> = d.iter().map(|c| self.reference(o, &c.id)).collect();
                    out.push(Tok::End { rule: "subproof", clause: clause.clone(), premises: vec![], discharge: ids.clone(), ok, hole: false });
                    if o.holes && variant == 0 {
                        // an allowed rule may close the subproof, but must discharge its assumptions
                        let ok = full && prev.is_some();
                        out.push(Tok::End { rule: "allowed_rule", clause: clause.clone(), premises: vec![], discharge: ids.clone(), ok: ok && (allow || ign && ids.is_empty()), hole: true });
                        let none = ids.is_empty() && prev.is_some() && locals.is_empty();
                        for r in ["hole", "unknown_rule"] {
                            out.push(Tok::End {
                                rule: r,
                                clause: vec![(1, 0)],
                                premises: vec![],
                                discharge: ids.clone(),
                                ok: none && (r == "hole" || ign),
                                hole: true,
                            });
                        }
                    }
                }
            }
            // any other rule as the closing step
            for (i, a) in vis.iter().enumerate() {
                for b in &vis[i + 1..] {
                    if let Some((r, ..)) = resolvent(&a.clause, &b.clause) {
                        if !locals.is_empty() {
                            out.push(Tok::End { rule: "resolution", clause: r, premises: vec![a.id.clone(), b.id.clone()], discharge: vec![], ok: false, hole: false });
                        }
                    }
                }
            }
        }
        out
    }

    /// The model's transition function; `None` = rejected.
    fn apply(&self, t: &Tok, o: &Opts) -> (String, Option<State>) {
        let mut s = self.clone();
        s.n += 1;
        let step_text = |id: &str, rule: &str, clause: &[Tm], premises: &[String], discharge: &[String]| {
            let lits: Vec<String> = clause.iter().map(|t| tm(*t)).collect();
            let mut x = format!("(step {id} (cl {}) :rule {rule}", lits.join(" "));
            if !premises.is_empty() {
                x += &format!(" :premises ({})", premises.join(" "));
            }
            if !discharge.is_empty() {
                x += &format!(" :discharge ({})", discharge.join(" "));
            }
            x + ")\n"
        };
        match t {
            Tok::Assume(t) => {
                let id = self.fresh(o);
                s.text += &format!("(assume {id} {})\n", tm(*t));
                let f = s.frames.last_mut().unwrap();
                let ok = if f.end.is_empty() {
                    let reordered = *t == (5, 0) && o.asserts.contains(&(4, 0)) && !o.elaborated;
                    o.asserts.contains(t) || reordered
                } else {
                    !f.has_step
                };
                f.cmds.push(Cmd { id, clause: vec![*t], assume: true });
                (s.text.clone(), ok.then_some(s))
            }
            Tok::Step { rule, clause, premises, discharge, id, ok, hole } => {
                let id = id.clone().unwrap_or_else(|| self.fresh(o));
                s.text += &step_text(&id, rule, clause, premises, discharge);
                s.holey |= hole;
                if s.frames.len() == 1 && clause.is_empty() {
                    s.empty = true;
                }
                let f = s.frames.last_mut().unwrap();
                f.has_step = true;
                f.cmds.push(Cmd { id, clause: clause.clone(), assume: false });
                (s.text.clone(), ok.then_some(s))
            }
            Tok::Open => {
                let end = match self.frames.last() {
                    Some(f) if o.relative && !f.end.is_empty() => format!("{}.e{}", f.end, self.n),
                    _ => format!("e{}", self.n),
                };
                s.text += &format!("(anchor :step {end})\n");
                s.frames.push(Frame { end, cmds: vec![], has_step: false });
                (s.text.clone(), Some(s))
            }
            Tok::End { rule, clause, premises, discharge, ok, hole } => {
                let f = s.frames.pop().unwrap();
                s.text += &step_text(&f.end, rule, clause, premises, discharge);
                s.holey |= hole;
                s.dead.extend(f.cmds.into_iter().map(|c| c.id));
                let outer = s.frames.last_mut().unwrap();
                outer.cmds.push(Cmd { id: f.end, clause: clause.clone(), assume: false });
                // whether assumptions may still follow in the outer subproof depends on explicit
                // steps only; the model leaves it to them
                (s.text.clone(), ok.then_some(s))
            }
            Tok::EndAssume => {
                let end = s.frames.last().unwrap().end.clone();
                s.text += &format!("(assume {end} p)\n");
                (s.text.clone(), None)
            }
        }
    }

    /// Text that closes every open subproof and derives the empty clause by a hole, so that the
    /// verdict depends on the commands so far only.
    fn closed(&self, text: &str, o: &Opts) -> String {
        let mut x = text.to_string();
        for (k, f) in self.frames.iter().enumerate().skip(1).rev() {
            x += &format!("(step z{k} (cl) :rule hole)\n");
            let locals: Vec<&Cmd> = f.cmds.iter().filter(|c| c.assume).collect();
            let lits: Vec<String> = locals.iter().map(|c| tm(neg(c.clause[0]))).collect();
            let ids: Vec<String> = locals
                .iter()
                .map(|c| if o.relative { c.id.strip_prefix(&format!("{}.", f.end)).unwrap_or(&c.id).to_string() } else { c.id.clone() })
                .collect();
            x += &format!("(step {} (cl {} false) :rule subproof", f.end, lits.join(" "));
            if !ids.is_empty() {
                x += &format!(" :discharge ({})", ids.join(" "));
            }
            x += ")\n";
        }
        x + "(step z (cl) :rule hole)\n"
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Verdict {
    Valid,
    Holey,
    NoEmptyClause,
    Invalid,
    ParseError,
    Crash,
}

fn config(cfg: usize, elaborated: bool) -> Config {
    let mut c = Config::new().ignore_unknown_rules(cfg & 1 != 0).elaborated(elaborated);
    if cfg & 2 != 0 {
        c.allowed_rules = ["allowed_rule", "not_not"].iter().map(|s| s.to_string()).collect();
    }
    c
}

fn run_real(problem: &str, proof: &str, cfg: &Config, threads: usize) -> (Verdict, String) {
    let r = guard(|| {
        if threads == 0 {
            carcara::check(problem.as_bytes(), proof.as_bytes(), None, parser::Config::new(), cfg.clone(), false)
        } else {
            carcara::check_parallel(
                problem.as_bytes(),
                proof.as_bytes(),
                None,
                parser::Config::new(),
                cfg.clone(),
                false,
                threads,
                1 << 20,
            )
        }
    });
    match r {
        Err(p) => (Verdict::Crash, p),
        Ok(Ok(false)) => (Verdict::Valid, String::new()),
        Ok(Ok(true)) => (Verdict::Holey, String::new()),
        Ok(Err(carcara::Error::DoesNotReachEmptyClause)) => (Verdict::NoEmptyClause, String::new()),
        Ok(Err(e @ carcara::Error::Parser(..))) => (Verdict::ParseError, e.to_string()),
        Ok(Err(e)) => (Verdict::Invalid, e.to_string()),
    }
}

fn entailed(asserts: &[Tm], clause: &[Tm]) -> bool {
    (0..8u8).all(|m| {
        let v = |(a, n): Tm| {
            let (p, q, e) = (m & 1 == 1, m & 2 == 2, m & 4 == 4);
            let b = [p, q, !p || q, false, e, e][a as usize];
            b ^ (n % 2 == 1)
        };
        !asserts.iter().all(|t| v(*t)) || clause.iter().any(|t| v(*t))
    })
}

pub struct Sink<'a> {
    rep: &'a Report,
    t: crate::rules::Tally,
    threads: usize,
}

fn explore(s: &State, o: &Opts, problem: &str, cfg: &Config, sink: &mut Sink) {
    if s.n >= o.depth {
        return;
    }
    for tok in s.tokens(o) {
        let (text, next) = s.apply(&tok, o);
        sink.t.inc("transitions", 1);
        let name = |x: &str| format!("asserts {:?} config {} | {}", o.asserts.iter().map(|t| tm(*t)).collect::<Vec<_>>(), o.cfg + 4 * o.elaborated as usize, x.trim().replace('\n', " "));
        match next {
            None => {
                // the rejected command, followed by commands that would complete the proof
                let mut base = s.clone();
                if matches!(tok, Tok::End { .. }) {
                    base.frames.pop();
                }
                let full = base.closed(&text, o);
                let (v, e) = run_real(problem, &full, cfg, 0);
                sink.t.inc("traces_validated_against_impl", 1);
                sink.t.inc("rejections_confirmed", 1);
                if !matches!(v, Verdict::Invalid | Verdict::ParseError) {
                    sink.rep.violation(&name(&full), &format!("the last explicit command must be rejected, but the verdict is {v:?} {e}"));
                }
            }
            Some(n) => {
                sink.t.inc("states", 1);
                // the proof as it is
                let (v, e) = run_real(problem, &text, cfg, 0);
                sink.t.inc("traces_validated_against_impl", 1);
                let want = if n.frames.len() > 1 {
                    Verdict::ParseError
                } else if !n.empty {
                    Verdict::NoEmptyClause
                } else if n.holey {
                    Verdict::Holey
                } else {
                    Verdict::Valid
                };
                if v != want {
                    sink.rep.violation(&name(&text), &format!("the verdict should be {want:?} but is {v:?} {e}"));
                }
                if n.empty && n.frames.len() == 1 {
                    sink.t.inc("complete_proofs", 1);
                    sink.t.distinct.insert(hash_of(&text));
                    for k in 1..=sink.threads {
                        let (v, e) = run_real(problem, &text, cfg, k);
                        if v != want {
                            sink.rep.violation(&name(&text), &format!("with {k} threads the verdict should be {want:?} but is {v:?} {e}"));
                        }
                    }
                }
                // every unconditional conclusion is a consequence of the assertions
                if !n.holey && n.frames.len() == 1 {
                    if let Some(c) = n.frames[0].cmds.last() {
                        if matches!(v, Verdict::Valid | Verdict::NoEmptyClause) && !entailed(&o.asserts, &c.clause) {
                            sink.rep.violation(&name(&text), "accepted without holes, but the last conclusion does not follow from the assertions");
                        }
                    }
                }
                // completed by a hole
                let full = n.closed(&text, o);
                let (v, e) = run_real(problem, &full, cfg, 0);
                if v != Verdict::Holey {
                    sink.rep.violation(&name(&full), &format!("every command is correct, but the verdict is {v:?} {e}"));
                }
                explore(&n, o, problem, cfg, sink);
            }
        }
    }
}

/// `holes`: with unchecked steps (C13) or without (C12).
pub fn run(rep: &Report, holes: bool, thorough: bool) {
    let mut all = Vec::new();
    let p: Tm = (0, 0);
    let imp: Tm = (2, 0);
    let nq: Tm = (1, 1);
    let mk = |depth, nest, relative, cfg, asserts: &[Tm], elaborated| Opts { depth, nest, holes, relative, cfg, asserts: asserts.to_vec(), elaborated };
    let d = |q, t| if thorough { t } else { q };
    if holes {
        for cfg in 0..4 {
            all.push(mk(d(4, 5), 2, false, cfg, &[p, nq], false));
        }
        all.push(mk(d(4, 5), 2, true, 3, &[p, imp, nq], false));
    } else {
        all.push(mk(d(7, 8), 2, false, 0, &[p, imp, nq], false));
        all.push(mk(d(5, 6), 3, true, 0, &[p, imp], false));
        all.push(mk(d(5, 6), 2, false, 0, &[(4, 0), p], false));
        all.push(mk(d(4, 5), 2, false, 0, &[(4, 0), p, (0, 1)], true));
    }
    for o in &all {
        let asserts: Vec<String> = o.asserts.iter().map(|t| format!("(assert {})", tm(*t))).collect();
        let problem = format!(
            "(set-logic ALL)(declare-const p Bool)(declare-const q Bool)(declare-sort U 0)(declare-const a U)(declare-const b U){}(check-sat)",
            asserts.join("")
        );
        // split the work by the first two commands
        let cfg = config(o.cfg, o.elaborated);
        let root = State::new();
        let mut level = vec![root];
        let mut sink0 = Sink { rep, t: crate::rules::Tally::new(), threads: d(1, 2) };
        sink0.t.inc("states", 1);
        let shallow = Opts { depth: 2, nest: o.nest, holes: o.holes, relative: o.relative, cfg: o.cfg, asserts: o.asserts.clone(), elaborated: o.elaborated };
        explore(&level[0], &shallow, &problem, &cfg, &mut sink0);
        for _ in 0..2 {
            level = level.iter().flat_map(|s| s.tokens(o).iter().filter_map(|t| s.apply(t, o).1).collect::<Vec<_>>()).collect();
        }
        if let Some(s) = level.get(level.len() / 2) {
            rep.sample(s.closed(&s.text, o));
        }
        sink0.t.flush(rep);
        par(&level, |s| {
            let mut sink = Sink { rep, t: crate::rules::Tally::new(), threads: if holes { d(1, 2) } else { 1 } };
            explore(s, o, &problem, &cfg, &mut sink);
            sink.t.flush(rep);
        });
    }
}

/// Every proof text of the model, accepted or not, with the configuration it is meant for.
pub fn each_text(rep: &Report, depth: usize, f: impl Fn(&mut crate::rules::Tally, &str, &str, &Config) + Sync) {
    let p: Tm = (0, 0);
    for (holes, relative, elaborated) in [(false, false, false), (true, false, false), (false, true, true)] {
        let o = Opts {
            depth,
            nest: 2,
            holes,
            relative,
            cfg: 3 * holes as usize,
            asserts: vec![(4, 0), p, (1, 1)],
            elaborated,
        };
        let asserts: Vec<String> = o.asserts.iter().map(|t| format!("(assert {})", tm(*t))).collect();
        let problem = format!(
            "(set-logic ALL)(declare-const p Bool)(declare-const q Bool)(declare-sort U 0)(declare-const a U)(declare-const b U){}(check-sat)",
            asserts.join("")
        );
        let cfg = config(o.cfg, false);
        fn go(s: &State, o: &Opts, f: &mut dyn FnMut(&str)) {
            if s.n >= o.depth {
                return;
            }
            for tok in s.tokens(o) {
                let (text, next) = s.apply(&tok, o);
                f(&text);
                if let Some(n) = next {
                    f(&n.closed(&text, o));
                    go(&n, o, f);
                }
            }
        }
        let root = State::new();
        let level: Vec<State> = root.tokens(&o).iter().filter_map(|t| root.apply(t, &o).1).collect();
        par(&level, |s| {
            let mut t = crate::rules::Tally::new();
            go(s, &o, &mut |x| f(&mut t, &problem, x, &cfg));
            t.flush(rep);
        });
    }
}

/// Every proof text of the model, accepted or not, under the strict and the normal modes (C24).
pub fn both_modes(rep: &Report, thorough: bool) {
    each_text(rep, if thorough { 5 } else { 4 }, |t, problem, x, cfg| crate::strict::proof(rep, t, problem, x, cfg));
}
