//! C22: slices of accepted proofs. Every accepted proof of the spaces is sliced at every command and
//! depth, the sliced problem and proof are written and read back as the command line does, and the
//! result must be accepted, contain the chosen step with what it needs, and assert nothing new.
use crate::core::*;
use crate::elab::proofs;
use crate::rules::{panic_site, Family, Tally};
use carcara::ast::*;
use carcara::checker::Config;
use carcara::parser;
use std::collections::{HashMap, HashSet, VecDeque};

/// A command by its position: the indices of the subproofs around it and its index in the last.
type Place = Vec<usize>;

struct Flat<'a> {
    commands: Vec<(Place, &'a ProofCommand)>,
    at: HashMap<Place, usize>,
}

impl<'a> Flat<'a> {
    fn new(proof: &'a Proof) -> Self {
        fn go<'a>(list: &'a [ProofCommand], at: &Place, out: &mut Vec<(Place, &'a ProofCommand)>) {
            for (i, c) in list.iter().enumerate() {
                let mut here = at.clone();
                here.push(i);
                out.push((here.clone(), c));
                if let ProofCommand::Subproof(s) = c {
                    go(&s.commands, &here, out);
                }
            }
        }
        let mut commands = vec![];
        go(&proof.commands, &vec![], &mut commands);
        let at = commands.iter().enumerate().map(|(i, c)| (c.0.clone(), i)).collect();
        Flat { commands, at }
    }

    /// A premise as it is seen from a command.
    fn premise(&self, from: &Place, p: (usize, usize)) -> Place {
        let mut place = from[..p.0].to_vec();
        place.push(p.1);
        place
    }

    /// The step of a command; that of a subproof is its last.
    fn step(&self, place: &Place) -> Option<(Place, &'a ProofStep)> {
        let mut place = place.clone();
        let mut c = self.commands[*self.at.get(&place)?].1;
        while let ProofCommand::Subproof(s) = c {
            place.push(s.commands.len() - 1);
            c = s.commands.last()?;
        }
        match c {
            ProofCommand::Step(s) => Some((place, s)),
            _ => None,
        }
    }

    /// Whether the step at this place ends a subproof, and the place of the command before it.
    fn previous(&self, place: &Place) -> Option<Place> {
        if place.len() < 2 {
            return None;
        }
        let (last, outer) = place.split_last().unwrap();
        let ProofCommand::Subproof(s) = self.commands[self.at[outer]].1 else { return None };
        (last + 1 == s.commands.len()).then(|| {
            let mut p = outer.to_vec();
            p.push(last - 1);
            p
        })
    }

    fn premises(&self, place: &Place) -> Vec<Place> {
        let Some((place, s)) = self.step(place) else { return vec![] };
        let mut v: Vec<Place> = s.premises.iter().chain(&s.discharge).map(|&p| self.premise(&place, p)).collect();
        v.extend(self.previous(&place));
        v
    }

    fn id(&self, place: &Place) -> &'a str {
        self.commands[self.at[place]].1.id()
    }
}

pub struct Subject<'a> {
    pub problem: &'a Problem,
    pub proof: &'a Proof,
    pub cfg: &'a Config,
    pub parser: parser::Config,
}

/// What a command of a proof is: its kind, rule, clause, arguments and the clauses it uses.
fn describe(f: &Flat, place: &Place, whole: bool) -> String {
    let c = f.commands[f.at[place]].1;
    let shown = |c: &[Rc<Term>]| c.iter().map(|t| format!("{t}")).collect::<Vec<_>>().join(" ");
    let Some((at, s)) = f.step(place) else { return format!("assume {}", shown(c.clause())) };
    if !whole {
        return format!("(cl {})", shown(&s.clause));
    }
    let clauses = |v: &[(usize, usize)]| {
        v.iter().map(|&p| format!("[{}: {}]", f.id(&f.premise(&at, p)), shown(f.commands[f.at[&f.premise(&at, p)]].1.clause()))).collect::<Vec<_>>().join("")
    };
    let mut x = format!("{} (cl {}) args ({}) premises {} discharge {}", s.rule, shown(&s.clause), shown(&s.args), clauses(&s.premises), clauses(&s.discharge));
    if let Some(p) = f.previous(&at) {
        x += &format!(" previous (cl {})", shown(f.commands[f.at[&p]].1.clause()));
        if let ProofCommand::Subproof(s) = f.commands[f.at[&at[..at.len() - 1].to_vec()]].1 {
            x += &format!(" anchor {:?}", s.args);
        }
    }
    x
}

pub fn slices(rep: &Report, t: &mut Tally, env: &mut Env, s: &Subject, key: &str, depths: usize) {
    let flat = Flat::new(s.proof);
    let mut count: HashMap<&str, usize> = HashMap::new();
    for (p, c) in &flat.commands {
        // a subproof is known by its last step
        if !matches!(c, ProofCommand::Subproof(_)) {
            *count.entry(flat.id(p)).or_default() += 1;
        }
    }
    let unique = count.values().all(|n| *n == 1);
    t.distinct.insert(hash_of(&key));
    let mut seen = HashSet::new();
    for (place, c) in &flat.commands {
        if !seen.insert(c.id().to_string()) {
            continue;
        }
        let id = c.id().to_string();
        for depth in 0..depths {
            t.inc("evaluations", 1);
            rep.case(|| format!("[{id} -d {depth}] {key}"));
            // ids that are repeated in different subproofs are confused (a known finding of its own)
            let name = match unique {
                true => format!("[{id} -d {depth}] {key}"),
                false => "class the ids of commands in different subproofs are repeated".to_string(),
            };
            let pool = &mut env.pool;
            let result = match guard(|| carcara::slice::slice(s.proof, &id, pool, depth)) {
                Ok(r) => r,
                Err(p) => {
                    let site = panic_site(&p);
                    rep.violation(&if unique { format!("{site} {name}") } else { name }, "slicing panics");
                    continue;
                }
            };
            let Some((proof, asserts)) = result else {
                if !c.is_assume() {
                    rep.violation(&name, "the step cannot be sliced");
                }
                continue;
            };
            if c.is_assume() {
                rep.violation(&name, "an assume was sliced");
                continue;
            }
            for a in &asserts {
                if !s.problem.premises.contains(a) && !s.proof.commands.iter().any(|c| c.is_assume() && c.clause() == std::slice::from_ref(a)) {
                    rep.violation(&name, &format!("the slice asserts {a}"));
                }
            }
            // written as the command line does
            let prelude = &s.problem.prelude;
            let texts = guard(|| {
                let mut problem = prelude.to_string().into_bytes();
                write_asserts(pool, prelude, &mut problem, &asserts, false).unwrap();
                problem.extend(b"(check-sat)\n(exit)\n");
                let mut proof_text = Vec::new();
                write_proof_to_dest(pool, prelude, &proof, &mut proof_text, true).unwrap();
                (String::from_utf8(problem).unwrap(), String::from_utf8(proof_text).unwrap())
            });
            let (problem_text, proof_text) = match texts {
                Ok(x) => x,
                Err(p) => {
                    rep.violation(&name, &format!("writing the slice panics: {p}"));
                    continue;
                }
            };
            let (problem, proof) = match crate::print::read(pool, s.parser, &problem_text, &proof_text) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) | Err(e) => {
                    rep.violation(&name, &format!("the written slice does not parse: {e}\n{problem_text}\n{proof_text}"));
                    continue;
                }
            };
            match check_proof_raw(env, &problem, &proof, s.cfg.clone()) {
                CheckRes::Valid | CheckRes::Holey => {}
                CheckRes::Err(e) => {
                    rep.violation(&name, &format!("the slice is rejected: {e}\n{problem_text}\n{proof_text}"));
                    continue;
                }
                CheckRes::Panic(e) => {
                    rep.violation(&name, &format!("checking the slice panics: {e}\n{problem_text}\n{proof_text}"));
                    continue;
                }
            }
            if !unique {
                t.inc("ambiguous_ids", 1);
                continue;
            }
            // the steps within the distance are kept as they are, and their premises with their clauses
            let sliced = Flat::new(&proof);
            let mut distance: HashMap<Place, usize> = HashMap::new();
            let mut queue: VecDeque<(Place, usize)> = VecDeque::from([(flat.step(place).unwrap().0, 0)]);
            while let Some((p, d)) = queue.pop_front() {
                if distance.contains_key(&p) || d > depth + 1 {
                    continue;
                }
                for q in flat.premises(&p) {
                    queue.push_back((flat.step(&q).map_or(q, |s| s.0), d + 1));
                }
                distance.insert(p, d);
            }
            for (p, d) in &distance {
                let want = describe(&flat, p, *d <= depth);
                let id = flat.id(p);
                let got = sliced
                    .commands
                    .iter()
                    .find(|c| c.1.id() == id && !matches!(c.1, ProofCommand::Subproof(_)))
                    .map(|c| describe(&sliced, &c.0, *d <= depth));
                t.inc("commands_compared", 1);
                if got.as_ref() != Some(&want) {
                    rep.violation(&name, &format!("{id} was {want}\n    and is {}\n{proof_text}", got.unwrap_or("lost".into())));
                    break;
                }
            }
        }
    }
}

fn text(rep: &Report, t: &mut Tally, problem: &str, proof: &str, cfg: &Config, depths: usize) {
    t.inc("proof_texts", 1);
    let mut env = Env { pool: PrimitivePool::new(), rules: empty_rules(), prelude: Default::default(), decls: String::new() };
    let parser = parser::Config::new();
    let Ok(Ok((prob, prf))) = crate::print::read(&mut env.pool, parser, problem, proof) else { return };
    if !matches!(check_proof_raw(&mut env, &prob, &prf, cfg.clone()), CheckRes::Valid | CheckRes::Holey) {
        return;
    }
    t.inc("accepted_proofs", 1);
    let key = format!("{} | {}", problem.trim(), proof.trim().replace('\n', " "));
    slices(rep, t, &mut env, &Subject { problem: &prob, proof: &prf, cfg, parser }, &key, depths);
}

pub fn structures(rep: &Report, thorough: bool) {
    crate::structure::each_text(rep, if thorough { 5 } else { 4 }, |t, problem, x, cfg| text(rep, t, problem, x, cfg, 3));
}

pub fn binders(rep: &Report) {
    let texts = crate::binder::canonical();
    par(&texts, |x| {
        let mut t = Tally::new();
        text(rep, &mut t, crate::binder::DECLS, &format!("{x}{}", crate::binder::END), &Config::new(), 3);
        t.flush(rep);
    });
}

/// The base instances of every rule, placed in four proofs.
pub fn family(rep: &Report, fam: &Family) {
    let items: Vec<usize> = (0..fam.insts.len()).collect();
    par(&items, |&i| {
        let mut env = Env::new(&fam.decls);
        let mut t = Tally::new();
        let s = fam.insts[i].spec(&mut env);
        let problem = Problem { prelude: env.prelude.clone(), ..Default::default() };
        let decls = env.decls.clone();
        for (n, proof) in proofs(&s).iter().enumerate() {
            if !matches!(check_proof_raw(&mut env, &problem, proof, fam.cfg.clone()), CheckRes::Valid | CheckRes::Holey) {
                continue;
            }
            let readable = crate::print::print_proof(&mut env.pool, &problem.prelude, proof, false)
                .is_ok_and(|x| matches!(crate::print::read(&mut env.pool, parser::Config::new(), &decls, &x), Ok(Ok(_))));
            if !readable {
                continue;
            }
            t.inc("accepted_proofs", 1);
            let key = format!("({n}) {}", s.key());
            slices(rep, &mut t, &mut env, &Subject { problem: &problem, proof, cfg: &fam.cfg, parser: parser::Config::new() }, &key, 3);
        }
        t.flush(rep);
    });
}

/// Longer proofs with nested subproofs, assumes in all places, and steps shared between them.
const LONG: &[&str] = &[
    "(assume h1 p)(assume h2 (not q))
(anchor :step s1)(assume s1.a q)(step s1.b (cl q (not q)) :rule hole)
(anchor :step s1.c)(assume s1.c.a p)(step s1.c.b (cl p) :rule hole :premises (s1.a s1.c.a h1))(step s1.c (cl (not p) p) :rule subproof :discharge (s1.c.a))
(step s1.d (cl q) :rule hole :premises (s1.c s1.b))(step s1 (cl (not q) q) :rule subproof :discharge (s1.a))
(step t1 (cl p q) :rule hole :premises (s1 h2))(assume h3 (= a b))
(anchor :step s2)(step s2.a (cl p) :rule hole :premises (h3 t1))(assume s2.b q)(assume s2.c p)(step s2.d (cl p q) :rule weakening :premises (s2.a))(step s2.e (cl p) :rule hole :premises (s2.d s2.c))
(step s2 (cl (not q) (not p) p) :rule subproof :discharge (s2.b s2.c))
(step t2 (cl) :rule hole :premises (s2 t1 h1))",
    "(assume h1 p)(anchor :step s1)(assume s1.a q)(anchor :step s1.b)(assume s1.b.a p)(anchor :step s1.b.c)(assume s1.b.c.a q)(step s1.b.c.b (cl q) :rule hole :premises (s1.a h1 s1.b.a))
(step s1.b.c (cl (not q) q) :rule subproof :discharge (s1.b.c.a))(step s1.b (cl (not p) q) :rule hole :premises (s1.b.c))(step s1.d (cl p) :rule hole :premises (s1.b))
(step s1 (cl (not q) p) :rule subproof :discharge (s1.a))(step t1 (cl (not q) p r0) :rule hole :premises (s1))(step t2 (cl) :rule hole :premises (t1))",
    "(assume h1 p)(anchor :step s1 :args ((x U) (:= (x U) a)))(step s1.a (cl (= x a)) :rule refl)(anchor :step s1.b)(assume s1.b.a (= x a))(step s1.b.b (cl (= x a)) :rule hole :premises (s1.b.a s1.a))
(step s1.b (cl (not (= x a)) (= x a)) :rule subproof :discharge (s1.b.a))(step s1.c (cl (= p p)) :rule hole :premises (s1.b h1))(step s1 (cl (= p p)) :rule hole :premises (s1.c))
(step t1 (cl p) :rule hole :premises (s1 h1))(step t2 (cl) :rule hole :premises (t1 h1))",
    "(define-fun f1 () Bool (and p q))(assume h1 p)(assume h2 (! q :named nq))(step t1 (cl (and p q)) :rule and_intro :premises (h1 h2))(step t2 (cl (or f1 (not nq)) (not f1)) :rule hole :premises (t1 h2))(step t2x (cl (not f1)) :rule hole :premises (t2 h1))(step t3 (cl) :rule resolution :premises (t2x t1))",
    "(assume h1 p)(step t1 (cl (not p)) :rule hole)(step t2 (cl) :rule resolution :premises (h1 t1) :args (p true))",
    "(anchor :step s1)(assume u1 p)(assume u2 q)(step v1 (cl p) :rule hole :premises (u1 u2))(step v2 (cl q) :rule hole :premises (v1))(step s1 (cl (not p) (not q) q) :rule subproof :discharge (u1 u2))
(anchor :step s2)(assume u1 q)(assume u2 p)(step v1 (cl q) :rule hole :premises (u1 u2 s1))(step v2 (cl p) :rule hole :premises (v1))(step s2 (cl (not q) (not p) p) :rule subproof :discharge (u1 u2))
(step z (cl) :rule hole :premises (s1 s2))",
];

pub fn long(rep: &Report) {
    let problem = "(set-logic ALL)(declare-const p Bool)(declare-const q Bool)(declare-const r0 Bool)(declare-sort U 0)(declare-const a U)(declare-const b U)(assert p)(assert (not q))(assert (= a b))(assert q)(check-sat)";
    par(LONG, |x| {
        let mut t = Tally::new();
        text(rep, &mut t, problem, x, &Config::new(), 9);
        t.flush(rep);
    });
}
