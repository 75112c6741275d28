//! Mutant schemata: rewrites a Rust source so that every mutant is present and
//! selected at run time (`crate::__mu::m(id)`), to measure what the checks see.
//! usage: mutate FILE FIRST_ID DROPPED.txt > out ; mutant list on stderr
use proc_macro2::LineColumn;
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct V { ins: Vec<(usize, i32, u32, String)>, lines: Vec<usize>, src: String, id: u32, dropped: HashSet<(String, usize, usize)>, file: String, depth_const: u32, seq: u32, catch: bool }
impl V {
    fn off(&self, p: LineColumn) -> usize {
        let l = self.lines[p.line - 1];
        l + self.src[l..].char_indices().nth(p.column).map(|x| x.0).unwrap_or(0)
    }
    fn range(&self, s: &impl Spanned) -> (usize, usize) { let s = s.span(); (self.off(s.start()), self.off(s.end())) }
    /// A new mutant at this place, unless it is known not to compile.
    fn new(&mut self, s: &impl Spanned, kind: &str) -> Option<u32> {
        let sp = s.span().start();
        let id = self.id;
        self.id += 1;
        if self.depth_const > 0 || self.dropped.contains(&(kind.to_string(), sp.line, sp.column)) { return None }
        let (a, b) = self.range(s);
        let t: String = self.src[a..b].split_whitespace().collect::<Vec<_>>().join(" ").chars().take(90).collect();
        eprintln!("{id}\t{}\t{}\t{}\t{kind}\t{t}", self.file, sp.line, sp.column);
        Some(id)
    }
    fn wrap(&mut self, s: &impl Spanned, pre: String, post: String) {
        let (a, b) = self.range(s);
        self.seq += 1;
        // Outer wraps come first: their openings precede, their endings follow.
        self.ins.push((a, 1, self.seq, pre));
        self.ins.push((b, -1, self.seq, post));
    }
}
fn has_let(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L { fn visit_expr_let(&mut self, _: &'a syn::ExprLet) { self.0 = true } fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {} fn visit_expr_block(&mut self, _: &'a syn::ExprBlock) {} }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let p = a.path(); p.is_ident("test") || p.is_ident("rstest") || (p.is_ident("cfg") && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().contains("test") && !l.tokens.to_string().contains("not"))) })
}
impl<'a> Visit<'a> for V {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !is_test(&m.attrs) { visit::visit_item_mod(self, m) } }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        if is_test(&f.attrs) || f.sig.constness.is_some() { return }
        visit::visit_item_fn(self, f)
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        if is_test(&f.attrs) || f.sig.constness.is_some() { return }
        if f.sig.ident == "fmt" { return }
        visit::visit_impl_item_fn(self, f)
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) { if !is_test(&i.attrs) { visit::visit_item_impl(self, i) } }
    fn visit_item_const(&mut self, _: &'a syn::ItemConst) {}
    fn visit_item_static(&mut self, _: &'a syn::ItemStatic) {}
    fn visit_impl_item_const(&mut self, _: &'a syn::ImplItemConst) {}
    fn visit_item_enum(&mut self, _: &'a syn::ItemEnum) {}
    fn visit_type(&mut self, _: &'a syn::Type) {}
    fn visit_pat(&mut self, _: &'a syn::Pat) {}
    fn visit_generic_argument(&mut self, _: &'a syn::GenericArgument) {}
    fn visit_attribute(&mut self, _: &'a syn::Attribute) {}
    fn visit_expr_repeat(&mut self, r: &'a syn::ExprRepeat) { self.visit_expr(&r.expr) }
    fn visit_expr_const(&mut self, _: &'a syn::ExprConst) {}
    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        if !has_let(&e.cond) {
            if let Some(i) = self.new(&*e.cond, "if-false") { self.wrap(&*e.cond, "(".into(), format!(") && !crate::__mu::m({i})")) }
            if let Some(i) = self.new(&*e.cond, "if-true") { self.wrap(&*e.cond, "(".into(), format!(") || crate::__mu::m({i})")) }
        }
        visit::visit_expr_if(self, e)
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        if !has_let(&e.cond) { if let Some(i) = self.new(&*e.cond, "while-false") { self.wrap(&*e.cond, "(".into(), format!(") && !crate::__mu::m({i})")) } }
        visit::visit_expr_while(self, e)
    }
    fn visit_expr_match(&mut self, e: &'a syn::ExprMatch) {
        self.visit_expr(&e.expr);
        let all = e.arms.iter().any(|a| a.guard.is_none() && matches!(&a.pat, syn::Pat::Wild(_) | syn::Pat::Ident(_)) && !matches!(&a.pat, syn::Pat::Ident(i) if i.ident.to_string().starts_with(char::is_uppercase)));
        for a in &e.arms {
            let old = std::mem::replace(&mut self.catch, all);
            self.visit_arm(a);
            self.catch = old;
        }
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if let Some((_, g)) = &a.guard {
            if !has_let(g) {
                if let Some(i) = self.new(&**g, "guard-false") { self.wrap(&**g, "(".into(), format!(") && !crate::__mu::m({i})")) }
                if let Some(i) = self.new(&**g, "guard-true") { self.wrap(&**g, "(".into(), format!(") || crate::__mu::m({i})")) }
            }
        } else if self.catch && !matches!(a.pat, syn::Pat::Wild(_) | syn::Pat::Ident(_)) {
            // The arm is not taken; only where a catch-all follows does it compile.
            if let Some(i) = self.new(&a.pat, "arm-skip") { let (_, b) = self.range(&a.pat); self.seq += 1; self.ins.push((b, -1, self.seq, format!(" if !crate::__mu::m({i})"))) }
        }
        visit::visit_arm(self, a)
    }
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        match e.op {
            Eq(_) | Ne(_) => if let Some(i) = self.new(e, "negate") { self.wrap(e, "((".into(), format!(") != crate::__mu::m({i}))")) },
            Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                if let Some(i) = self.new(e, "negate") { self.wrap(e, "((".into(), format!(") != crate::__mu::m({i}))")) }
                if let Some(i) = self.new(e, "boundary") {
                    let f = match e.op { Lt(_) => "lt", Le(_) => "le", Gt(_) => "gt", _ => "ge" };
                    let (l, r) = (self.range(&*e.left), self.range(&*e.right));
                    self.seq += 1;
                    let s = self.seq;
                    self.ins.push((l.0, 1, s, format!("crate::__mu::{f}({i}, &(")));
                    // Replace the operator: comment it out.
                    let (oa, ob) = self.range(&e.op);
                    self.ins.push((oa, 1, s, "), &(/*".into()));
                    self.ins.push((ob, -1, s, "*/".into()));
                    self.ins.push((r.1, -1, s, "))".into()));
                }
            }
            And(_) if !has_let(&e.left) && !has_let(&e.right) => {
                if let Some(i) = self.new(&*e.left, "and-left") { self.wrap(&*e.left, "((".into(), format!(") || crate::__mu::m({i}))")) }
                if let Some(i) = self.new(&*e.right, "and-right") { self.wrap(&*e.right, "((".into(), format!(") || crate::__mu::m({i}))")) }
            }
            Or(_) => {
                if let Some(i) = self.new(&*e.left, "or-left") { self.wrap(&*e.left, "((".into(), format!(") && !crate::__mu::m({i}))")) }
                if let Some(i) = self.new(&*e.right, "or-right") { self.wrap(&*e.right, "((".into(), format!(") && !crate::__mu::m({i}))")) }
            }
            Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) => if let Some(i) = self.new(e, "plus-one") { self.wrap(e, format!("crate::__mu::p({i}, "), ")".into()) },
            _ => {}
        }
        visit::visit_expr_binary(self, e)
    }
    fn visit_expr_unary(&mut self, e: &'a syn::ExprUnary) {
        if matches!(e.op, syn::UnOp::Not(_)) { if let Some(i) = self.new(e, "negate") { self.wrap(e, "((".into(), format!(") != crate::__mu::m({i}))")) } }
        if matches!(e.op, syn::UnOp::Neg(_)) { return }
        visit::visit_expr_unary(self, e)
    }
    fn visit_expr_lit(&mut self, e: &'a syn::ExprLit) {
        match &e.lit {
            syn::Lit::Int(_) => if let Some(i) = self.new(e, "plus-one") { self.wrap(e, format!("crate::__mu::p({i}, "), ")".into()) },
            syn::Lit::Bool(_) => if let Some(i) = self.new(e, "negate") { self.wrap(e, "(".into(), format!(" != crate::__mu::m({i}))")) },
            _ => {}
        }
    }
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            if p.path.is_ident("Some") && e.args.len() == 1 { if let Some(i) = self.new(e, "none") { self.wrap(e, format!("crate::__mu::none({i}, "), ")".into()) } }
        }
        for a in &e.args { self.visit_expr(a) }
        if !matches!(&*e.func, syn::Expr::Path(_)) { self.visit_expr(&e.func) }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        for s in &b.stmts {
            if let syn::Stmt::Expr(x, Some(semi)) = s {
                let ok = match x {
                    syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Assign(_) | syn::Expr::Try(_) | syn::Expr::Await(_) => true,
                    syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::BitOrAssign(_) | syn::BinOp::BitXorAssign(_) | syn::BinOp::MulAssign(_)),
                    _ => false,
                };
                let _ = semi;
                if ok {
                    if let Some(i) = self.new(s, "delete") { self.wrap(s, format!("if !crate::__mu::m({i}) {{ "), " }".into()) }
                }
            }
        }
        visit::visit_block(self, b)
    }
    fn visit_stmt_macro(&mut self, _: &'a syn::StmtMacro) {}
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let f = syn::parse_file(&src).unwrap();
    let mut lines = vec![0];
    for (i, c) in src.char_indices() { if c == '\n' { lines.push(i + 1) } }
    let dropped = std::fs::read_to_string(&a[3]).unwrap_or_default().lines().filter_map(|l| {
        let p: Vec<&str> = l.split('\t').collect();
        (p[0] == a[1]).then(|| (p[3].to_string(), p[1].parse().unwrap(), p[2].parse().unwrap()))
    }).collect();
    let mut v = V { ins: vec![], lines, src: src.clone(), id: a[2].parse().unwrap(), dropped, file: a[1].clone(), depth_const: 0, seq: 0, catch: false };
    v.visit_file(&f);
    // Openings at one place: outer (earlier) first. Endings: inner (later) first,
    // and before openings at the same place.
    let mut ins = v.ins;
    ins.sort_by_key(|(o, k, s, _)| (*o, *k, if *k > 0 { *s as i64 } else { -(*s as i64) }));
    let mut out = String::new();
    let mut at = 0;
    for (o, _, _, t) in ins {
        out.push_str(&src[at..o]);
        out.push_str(&t);
        at = o;
    }
    out.push_str(&src[at..]);
    print!("{out}");
}
