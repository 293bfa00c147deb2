//! Instruments a source tree with mutations that are switched on at run time (development tool, not a
//! check): `mutgen SRC_DIR LIST` rewrites every file under SRC_DIR in place and writes one line per
//! mutation to LIST.
use proc_macro2::Span;
use std::fmt::Write;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct V<'a> {
    src: &'a str,
    file: String,
    next: &'a mut u32,
    list: &'a mut String,
    /// (position, priority, text)
    ins: Vec<(usize, i64, String)>,
    rep: Vec<(usize, usize, String)>,
    func: String,
    skip: &'a std::collections::HashSet<u32>,
}

fn line(src: &str, at: usize) -> usize {
    src[..at].bytes().filter(|b| *b == b'\n').count() + 1
}

impl V<'_> {
    fn id(&mut self, span: Span, kind: &str) -> u32 {
        *self.next += 1;
        let r = span.byte_range();
        let text: String = self.src[r.clone()].split_whitespace().collect::<Vec<_>>().join(" ").chars().take(110).collect();
        writeln!(self.list, "{}\t{}\t{}\t{}\t{kind}\t{text}", self.next, self.file, line(self.src, r.start), self.func).unwrap();
        *self.next
    }
    fn wrap(&mut self, n: u32, span: Span, pre: String, post: String) {
        if self.skip.contains(&n) {
            return;
        }
        let r = span.byte_range();
        let len = (r.end - r.start) as i64;
        // outer wrappers open first and close last
        self.ins.push((r.start, -len, pre));
        self.ins.push((r.end, len, post));
    }
    fn text(&self, span: Span) -> String {
        self.src[span.byte_range()].to_string()
    }
    fn macro_args(&mut self, mac: &syn::Macro) {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        if !["rassert", "vec", "assert", "build_term"].contains(&name.as_str()) || name == "build_term" {
            return;
        }
        if let Ok(args) = mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            for (i, a) in args.iter().enumerate() {
                if i == 0 || name == "vec" {
                    self.visit_expr(a);
                }
            }
        }
    }
}

fn has_let(e: &syn::Expr) -> bool {
    struct L(bool);
    impl Visit<'_> for L {
        fn visit_expr_let(&mut self, _: &syn::ExprLet) {
            self.0 = true;
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| quote::quote!(#a).to_string().contains("test"))
}

impl<'ast> Visit<'ast> for V<'_> {
    fn visit_pat(&mut self, _: &'ast syn::Pat) {}
    fn visit_type(&mut self, _: &'ast syn::Type) {}
    fn visit_attribute(&mut self, _: &'ast syn::Attribute) {}
    fn visit_item_const(&mut self, _: &'ast syn::ItemConst) {}
    fn visit_item_static(&mut self, _: &'ast syn::ItemStatic) {}
    fn visit_impl_item_const(&mut self, _: &'ast syn::ImplItemConst) {}
    fn visit_generic_argument(&mut self, _: &'ast syn::GenericArgument) {}
    fn visit_item_macro(&mut self, _: &'ast syn::ItemMacro) {}
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if let Some((_, p, _)) = &i.trait_ {
            let name = p.segments.last().unwrap().ident.to_string();
            if ["Debug", "Display", "Error"].contains(&name.as_str()) && !self.file.contains("printer") {
                return;
            }
        }
        visit::visit_item_impl(self, i);
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if f.sig.constness.is_none() && !is_test(&f.attrs) {
            let old = std::mem::replace(&mut self.func, f.sig.ident.to_string());
            visit::visit_block(self, &f.block);
            self.func = old;
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        if f.sig.constness.is_none() && !is_test(&f.attrs) {
            let old = std::mem::replace(&mut self.func, f.sig.ident.to_string());
            visit::visit_block(self, &f.block);
            self.func = old;
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.macro_args(m);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            syn::Stmt::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "rassert" {
                    let n = self.id(s.span(), "delete");
                    self.wrap(n, s.span(), format!("if !crate::vm({n}) {{ "), " }".into());
                }
                self.macro_args(&m.mac);
            }
            syn::Stmt::Expr(e, Some(_)) => {
                let del = match e {
                    syn::Expr::Try(_) | syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Assign(_) => true,
                    syn::Expr::Binary(b) => {
                        use syn::BinOp::*;
                        matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_) | DivAssign(_) | RemAssign(_) | ShlAssign(_) | ShrAssign(_))
                    }
                    syn::Expr::Continue(_) | syn::Expr::Break(_) => true,
                    _ => false,
                };
                if del {
                    let n = self.id(s.span(), "delete");
                    self.wrap(n, s.span(), format!("if !crate::vm({n}) {{ "), " }".into());
                }
                visit::visit_stmt(self, s);
            }
            _ => visit::visit_stmt(self, s),
        }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
        }
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        if !has_let(&e.cond) {
            let n = self.id(e.cond.span(), "if-true");
            let k = self.id(e.cond.span(), "if-false");
            self.wrap(n, e.cond.span(), format!("!crate::vm({k}) && (crate::vm({n}) || ("), "))".into());
        }
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        visit::visit_expr_while(self, e);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if let Some((_, g)) = &a.guard {
            if !has_let(g) {
                let n = self.id(g.span(), "guard-true");
                let k = self.id(g.span(), "guard-false");
                self.wrap(n, g.span(), format!("!crate::vm({k}) && (crate::vm({n}) || ("), "))".into());
            }
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        let last = m.arms.last();
        let wild = last.is_some_and(|a| {
            a.guard.is_none()
                && match &a.pat {
                    syn::Pat::Wild(_) => true,
                    syn::Pat::Ident(i) => i.ident.to_string().starts_with(|c: char| c.is_lowercase()),
                    _ => false,
                }
        });
        if wild && m.arms.len() > 1 {
            for a in &m.arms[..m.arms.len() - 1] {
                if a.guard.is_none() {
                    let n = self.id(a.pat.span(), "arm-off");
                    let r = a.pat.span().byte_range();
                    if !self.skip.contains(&n) {
                    self.ins.push((r.end, 1 << 40, format!(" if !crate::vm({n})")));
                    }
                }
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        let (l, r) = (self.text(b.left.span()), self.text(b.right.span()));
        if has_let(&b.left) || has_let(&b.right) {
            return visit::visit_expr_binary(self, b);
        }
        match b.op {
            And(_) => {
                let n = self.id(b.left.span(), "drop-conjunct");
                self.wrap(n, b.left.span(), format!("(crate::vm({n}) || ("), "))".into());
                let n = self.id(b.right.span(), "drop-conjunct");
                self.wrap(n, b.right.span(), format!("(crate::vm({n}) || ("), "))".into());
            }
            Or(_) => {
                let n = self.id(b.left.span(), "drop-disjunct");
                self.wrap(n, b.left.span(), format!("(!crate::vm({n}) && ("), "))".into());
                let n = self.id(b.right.span(), "drop-disjunct");
                self.wrap(n, b.right.span(), format!("(!crate::vm({n}) && ("), "))".into());
            }
            Eq(_) | Ne(_) => {
                let n = self.id(b.span(), "negate");
                self.wrap(n, b.span(), format!("(crate::vm({n}) ^ ("), "))".into());
            }
            Lt(_) | Gt(_) => {
                let n = self.id(b.span(), "or-equal");
                self.wrap(n, b.span(), "((".into(), format!(") || (crate::vm({n}) && {l} == {r}))"));
            }
            Le(_) | Ge(_) => {
                let n = self.id(b.span(), "not-equal");
                self.wrap(n, b.span(), "((".into(), format!(") && !(crate::vm({n}) && {l} == {r}))"));
            }
            _ => {}
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_unary(&mut self, u: &'ast syn::ExprUnary) {
        visit::visit_expr_unary(self, u);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        if ["all", "any", "is_empty", "is_some", "is_none", "contains", "contains_key", "is_negative", "is_positive", "is_bool_true", "is_bool_false", "is_const", "is_zero"].contains(&name.as_str()) {
            for (kind, pre, post) in [("true", "|| (", ")"), ("false", "", "")] {
                let n = self.id(m.span(), &format!("call-{kind}"));
                if kind == "true" {
                    self.wrap(n, m.span(), format!("(crate::vm({n}) {pre}"), format!("{post})"));
                } else {
                    self.wrap(n, m.span(), format!("(!crate::vm({n}) && ("), "))".into());
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        match &l.lit {
            syn::Lit::Int(i) => {
                if let Ok(v) = i.base10_parse::<u64>() {
                    let n = self.id(l.span(), "plus-one");
                    let r = l.span().byte_range();
                    let s = i.suffix();
                    if !self.skip.contains(&n) {
                    self.rep.push((r.start, r.end, format!("(if crate::vm({n}) {{ {}{s} }} else {{ {v}{s} }})", v + 1)));
                    }
                }
            }
            syn::Lit::Bool(b) => {
                let n = self.id(l.span(), "flip");
                let r = l.span().byte_range();
                if !self.skip.contains(&n) {
                self.rep.push((r.start, r.end, format!("({} ^ crate::vm({n}))", b.value)));
                }
            }
            _ => {}
        }
    }
    fn visit_expr_range(&mut self, r: &'ast syn::ExprRange) {
        visit::visit_expr_range(self, r);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let skip: std::collections::HashSet<u32> = args.get(3).and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut files = vec![];
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs") && p.file_name().unwrap() != "tests.rs" {
                out.push(p);
            }
        }
    }
    walk(std::path::Path::new(&args[1]), &mut files);
    files.sort();
    let (mut next, mut list) = (0, String::new());
    for p in files {
        let src = std::fs::read_to_string(&p).unwrap();
        let ast = syn::parse_file(&src).unwrap();
        let name = p.strip_prefix(&args[1]).unwrap().display().to_string();
        let mut v = V { src: &src, file: name, next: &mut next, list: &mut list, ins: vec![], rep: vec![], func: String::new(), skip: &skip };
        v.visit_file(&ast);
        let (ins, rep) = (v.ins, v.rep);
        // build
        let mut ev: Vec<(usize, u8, i64, usize, String)> = vec![];
        for (k, (at, pr, t)) in ins.into_iter().enumerate() {
            // closers (pr > 0) before openers at the same position; among closers, smaller (inner) first; among openers, larger (outer) first
            let close = pr > 0;
            // for equal-length wraps the one created first is outer: its opener goes first and its closer last
            let tie = if close { usize::MAX - k } else { k };
            ev.push((at, if close { 0 } else { 1 }, pr, tie, t));
        }
        ev.sort();
        let mut out = String::new();
        let mut pos = 0;
        let mut reps: std::collections::BTreeMap<usize, (usize, String)> = rep.into_iter().map(|(a, b, t)| (a, (b, t))).collect();
        let flush = |out: &mut String, from: usize, to: usize, reps: &mut std::collections::BTreeMap<usize, (usize, String)>| {
            let mut p = from;
            while let Some((&a, _)) = reps.range(p..to).next() {
                let (b, t) = reps.remove(&a).unwrap();
                out.push_str(&src[p..a]);
                out.push_str(&t);
                p = b;
            }
            out.push_str(&src[p..to]);
        };
        for (at, _, _, _, t) in ev {
            flush(&mut out, pos, at, &mut reps);
            out.push_str(&t);
            pos = at;
        }
        flush(&mut out, pos, src.len(), &mut reps);
        std::fs::write(&p, out).unwrap();
    }
    std::fs::write(&args[2], list).unwrap();
    println!("{next} mutations");
}
