C='carcara/src/'
SEEDS=[
dict(id='c01-implies-own-antecedent',prop='C01',
 edits=[(C+'checker/rules/simplification.rs',' => phi_2.clone(),\n\n            // (phi_1 -> phi_2) -> phi_2 => phi_1 v phi_2\n            (=> (=> phi_1 phi_2) phi_3): ((phi_1, phi_2), phi_3) if phi_2 == phi_3 => {',' => phi_2.clone(),\n\n            // (phi_1 -> phi_2) -> phi_2 => phi_1 v phi_2\n            (=> (=> phi_1 phi_2) phi_3): ((phi_1, phi_2), phi_3) if phi_2 == phi_3 || phi_1 == phi_3 => {')],
 smt='(set-logic QF_UF)\n(declare-const p Bool)\n(declare-const q Bool)\n(assert p)\n(check-sat)',
 proof='(step t1 (cl (= (=> (=> p q) p) (or p q))) :rule implies_simplify)\n(step t2 (cl) :rule hole)',expect='invalid',
 needs='implies_simplify on (=> (=> p q) p), a nested implication that concludes its own antecedent',
 breaks='implies_simplify accepts (= (=> (=> p q) p) (or p q)), which is false for p=false, q=true'),
dict(id='c02-resolution-tautological-premise',prop='C02',
 edits=[(C+'checker/rules/resolution.rs','''            found = true;
        } else {
            current.insert_term(t);''','''            found = true;
        } else if t != pivot_in_current {
            current.insert_term(t);''')],
 smt='(set-logic QF_UF)\n(declare-const p Bool)\n(declare-const q Bool)\n(assert p)\n(assert (or (not p) p q))\n(check-sat)',
 proof='(assume h1 p)\n(assume h2 (or (not p) p q))\n(step t1 (cl (not p) p q) :rule or :premises (h2))\n(step t2 (cl q) :rule resolution :premises (h1 t1) :args (p true))\n(step t3 (cl) :rule hole)',expect='invalid',
 needs='a resolution step with pivot arguments whose second premise contains the pivot with both polarities',
 breaks='resolution with arguments also drops the pivot itself from the second premise, so p and (cl (not p) p q) yield q'),
dict(id='c03-cong-fewer-args',prop='C03',
 edits=[(C+'checker/rules/congruence.rs','''    }?;
    rassert!(
        f_args.len() == g_args.len(),
        CongruenceError::DifferentNumberOfArguments(f_args.len(), g_args.len())
    );
    check_cong(&premises, f_args, g_args)''','''    }?;
    rassert!(
        f_args.len() >= g_args.len(),
        CongruenceError::DifferentNumberOfArguments(f_args.len(), g_args.len())
    );
    check_cong(&premises, f_args, g_args)''')],
 smt='(set-logic QF_UF)\n(declare-const p Bool)\n(declare-const q Bool)\n(declare-const r Bool)\n(declare-const s Bool)\n(assert (= p q))\n(check-sat)',
 proof='(assume h1 (= p q))\n(step t1 (cl (= (and p r s) (and q r))) :rule cong :premises (h1))\n(step t2 (cl) :rule hole)',expect='invalid',
 needs='cong between applications of a variadic operator where the left one has more arguments than the right one',
 breaks='cong accepts (= (and p r s) (and q r)) from (= p q)'),
dict(id='c04-nary-subtraction',prop='C04',
 edits=[(C+'checker/rules/linear_arithmetic.rs','for a in &args[1..] {\n                    self.add_term','if let Some(a) = args.get(1) {\n                    self.add_term')],
 smt='(set-logic QF_LIA)\n(declare-const i Int)\n(declare-const j Int)\n(assert (= i j))\n(check-sat)',
 proof='(step t1 (cl (not (< (- i j 1) (- i j)))) :rule la_generic :args (1))\n(step t2 (cl) :rule hole)',expect='invalid',
 needs='la_generic on a term that is a subtraction with three or more operands',
 breaks='la_generic ignores all but the first two operands of a subtraction'),
dict(id='c05-slt-width-one',prop='C05',
 edits=[(C+'checker/rules/bitvectors.rs','&build_term!(pool, (and {x[0].clone()} (not {y[0].clone()}))),','&build_term!(pool, (and (not {x[0].clone()}) {y[0].clone()})),')],
 smt='(set-logic QF_BV)\n(declare-const x (_ BitVec 1))\n(declare-const y (_ BitVec 1))\n(assert (bvslt x y))\n(check-sat)',
 proof='(step t1 (cl (= (bvslt x y) (and (not ((_ @bit_of 0) x)) ((_ @bit_of 0) y)))) :rule bitblast_slt)\n(step t2 (cl) :rule hole)',expect='invalid',
 needs='bitblast_slt on bit-vectors of width one, where the only bit is the sign bit',
 breaks='bitblast_slt of width 1 is blasted as the unsigned comparison'),
dict(id='c06-pbblast-wide-sign',prop='C06',
 edits=[(C+'checker/rules/pb_blasting.rs',"""        // Check that the coefficient is 2^(n-1)
        rassert!(
            coeff == (Integer::from(1) << (n - 1)), // 2^(n-1)""","""        // Check that the coefficient is 2^(n-1)
        rassert!(
            coeff == (Integer::from(1u32.wrapping_shl((n - 1) as u32))), // 2^(n-1)""")],
 demo="""#!/bin/bash
# signed short-circuited blasting at width 33 with a sign coefficient of 1 instead of 2^32
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
python3 - "$d" <<'EOF'
import sys
d=sys.argv[1]; w=33
for name,coeff in (('good',2**32),('bad',1)):
    xs=['x%d'%i for i in range(w)]; ys=['y%d'%i for i in range(w)]
    open(d+'/'+name+'.smt2','w').write('(set-logic ALL)\\n'+''.join('(declare-const %s Int)\\n'%v for v in xs+ys)+'(assert true)\\n(check-sat)\\n')
    s=lambda v:'(+ '+' '.join('(* %d %s)'%(2**i,t) for i,t in enumerate(v[:-1]))+')'
    open(d+'/'+name+'.alethe','w').write('(step t1 (cl (= (bvsge (@pbbterm %s) (@pbbterm %s)) (>= (+ (- %s (* %d %s)) (- (* %d %s) %s)) 0))) :rule pbblast_bvsge)\\n(step t2 (cl) :rule hole)\\n'%(' '.join(xs),' '.join(ys),s(xs),coeff,xs[-1],coeff,ys[-1],s(ys)))
EOF
r=0
for n in good bad; do
  out=$(timeout 60 ./target/debug/carcara check "$d/$n.alethe" "$d/$n.smt2" 2>/dev/null | tail -1)
  want=holey; [ $n = bad ] && want=invalid
  [ "$out" = $want ] || { echo "$n: expected $want, got $out"; r=1; }
done
exit $r
""",
 needs='a signed pseudo-boolean blasting step over @pbbterm operands of 33 or more bits',
 breaks='the sign coefficient is computed with a wrapping 32-bit shift: 2^32 is rejected and 1 is accepted at width 33'),
]
