// Lists small edits of a Rust file, one per line: kind TAB class TAB start TAB end TAB replacement (escaped).
// class b: meant to change behaviour; class q: keeps behaviour.
use proc_macro2::Span;
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct V<'a> {
    src: &'a str,
    out: Vec<(String, char, usize, usize, String)>,
    in_test: bool,
}
fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
impl<'a> V<'a> {
    fn t<T: Spanned>(&self, x: &T) -> &'a str {
        let (a, b) = rng(x.span());
        &self.src[a..b]
    }
    fn put<T: Spanned>(&mut self, kind: &str, c: char, x: &T, new: String) {
        let (a, b) = rng(x.span());
        self.out.push((kind.into(), c, a, b, new));
    }
    fn is_place(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::Lit(_) | Expr::Reference(_) | Expr::Paren(_))
            || matches!(e, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)))
    }
}
fn has_flow(e: &impl ToTokens) -> bool {
    let s = e.to_token_stream().to_string();
    let toks: Vec<&str> = s.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '?')).collect();
    toks.iter().any(|t| matches!(*t, "return" | "break" | "continue")) || s.contains('?')
}
fn idents(s: &str) -> Vec<String> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty() && !x.chars().next().unwrap().is_numeric()).map(|x| x.to_string()).collect()
}
impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_item_mod(&mut self, m: &'ast ItemMod) {
        if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
            return;
        }
        visit::visit_item_mod(self, m)
    }
    fn visit_item_const(&mut self, _: &'ast ItemConst) {}
    fn visit_expr_binary(&mut self, e: &'ast ExprBinary) {
        let (l, r) = (self.t(&e.left), self.t(&e.right));
        let op = self.t(&e.op);
        let alts: &[&str] = match op {
            "+" => &["-", "*"],
            "-" => &["+"],
            "*" => &["+"],
            "/" => &["*"],
            "%" => &["/"],
            "<<" => &[">>"],
            ">>" => &["<<"],
            "==" => &["!="],
            "!=" => &["=="],
            "<" => &["<=", ">"],
            "<=" => &["<"],
            ">" => &[">="],
            ">=" => &[">"],
            "&&" => &["||"],
            "||" => &["&&"],
            "&" => &["|", "^"],
            "|" => &["&"],
            "^" => &["*"],
            "+=" => &["-="],
            "-=" => &["+="],
            _ => &[],
        };
        for a in alts {
            self.put("op", 'b', &e.op, a.to_string());
        }
        if !op.ends_with('=') || op == "==" {
            self.put("left", 'b', e, format!("({})", l));
            self.put("right", 'b', e, format!("({})", r));
        }
        if matches!(op, "-" | "/" | "<<" ) {
            self.put("swap", 'b', e, format!("({} {} {})", r, op, l));
        }
        if matches!(op, "+" | "*" | "==" | "!=") {
            self.put("commute", 'q', e, format!("({} {} {})", r, op, l));
        }
        match op {
            "==" => self.put("noteq", 'q', e, format!("!({} != {})", l, r)),
            "!=" => self.put("noteq", 'q', e, format!("!({} == {})", l, r)),
            "&&" => self.put("demorgan", 'q', e, format!("!(!({}) || !({}))", l, r)),
            "||" => self.put("demorgan", 'q', e, format!("!(!({}) && !({}))", l, r)),
            "<" => self.put("flip", 'q', e, format!("{} > {}", r, l)),
            ">" => self.put("flip", 'q', e, format!("{} < {}", r, l)),
            "-" => self.put("addneg", 'q', e, format!("({} + (-({})))", l, r)),
            "^" if r.starts_with("2u32") => self.put("sqmul", 'q', e, format!("(({}) * ({}))", l, l)),
            _ => {}
        }
        visit::visit_expr_binary(self, e)
    }
    fn visit_expr_unary(&mut self, e: &'ast ExprUnary) {
        if !matches!(e.op, UnOp::Deref(_)) {
            let x = self.t(&e.expr).to_string();
            self.put("unary", 'b', e, x);
        }
        visit::visit_expr_unary(self, e)
    }
    fn visit_expr_lit(&mut self, e: &'ast ExprLit) {
        if let Lit::Int(i) = &e.lit {
            let v: i128 = i.base10_parse().unwrap();
            self.put("lit+1", 'b', e, format!("{}{}", v + 1, i.suffix()));
            if v > 0 {
                self.put("lit-1", 'b', e, format!("{}{}", v - 1, i.suffix()));
            }
        }
        if let Lit::Bool(b) = &e.lit {
            self.put("bool", 'b', e, (!b.value).to_string());
        }
    }
    fn visit_expr_if(&mut self, e: &'ast ExprIf) {
        let c = self.t(&*e.cond).to_string();
        if !matches!(*e.cond, Expr::Let(_)) && !c.contains("let ") {
            self.put("if-true", 'b', &*e.cond, format!("({}) || true", c));
            self.put("if-false", 'b', &*e.cond, format!("({}) && false", c));
            if let Some((_, el)) = &e.else_branch {
                let th = self.t(&e.then_branch);
                let els = self.t(&**el);
                let els = if matches!(**el, Expr::If(_)) { format!("{{ {} }}", els) } else { els.to_string() };
                self.put("ifswap", 'q', e, format!("if !({}) {} else {}", c, els, th));
                self.put("ifmatch", 'q', e, format!("match {} {{ true => {}, false => {} }}", c, th, els));
            }
            self.put("iflet", 'q', &*e.cond, format!("{{ let cond_v = {}; cond_v }}", c));
        }
        visit::visit_expr_if(self, e)
    }
    fn visit_expr_method_call(&mut self, e: &'ast ExprMethodCall) {
        let r = self.t(&*e.receiver).to_string();
        let m = e.method.to_string();
        if e.args.is_empty() {
            self.put("dropcall", 'b', e, format!("({})", r));
        }
        let alt = match m.as_str() {
            "is_zero" => Some("is_one"),
            "zero" => Some("one"),
            "one" => Some("zero"),
            "any" => Some("all"),
            "all" => Some("any"),
            "is_some" => Some("is_none"),
            "is_none" => Some("is_some"),
            _ => None,
        };
        if let Some(a) = alt {
            self.put("method", 'b', &e.method, a.into());
        }
        if e.args.len() == 2 {
            self.put("argswap", 'b', e, format!("{}.{}({}, {})", r, m, self.t(&e.args[1]), self.t(&e.args[0])));
        }
        visit::visit_expr_method_call(self, e)
    }
    fn visit_expr_call(&mut self, e: &'ast ExprCall) {
        let f = self.t(&*e.func).to_string();
        for i in 1..e.args.len() {
            let mut a: Vec<String> = e.args.iter().map(|x| self.t(x).to_string()).collect();
            a.swap(i - 1, i);
            self.put("argswap", 'b', e, format!("{}({})", f, a.join(", ")));
        }
        visit::visit_expr_call(self, e)
    }
    fn visit_expr_struct(&mut self, e: &'ast ExprStruct) {
        let fs: Vec<&FieldValue> = e.fields.iter().collect();
        for i in 1..fs.len() {
            // swap the values of neighbouring fields
            let (a, b) = (fs[i - 1], fs[i]);
            let (va, vb) = (self.t(&a.expr).to_string(), self.t(&b.expr).to_string());
            let new = format!("{}: {}, {}: {}", self.t(&a.member), vb, self.t(&b.member), va);
            let (s, _) = rng(a.span());
            let (_, en) = rng(b.span());
            self.out.push(("fieldswap".into(), 'b', s, en, new));
            let new = format!("{}: {}, {}: {}", self.t(&b.member), vb, self.t(&a.member), va);
            self.out.push(("fieldorder".into(), 'q', s, en, new));
        }
        visit::visit_expr_struct(self, e)
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        if !has_flow(&e.body) {
            let it = self.t(&*e.expr);
            let p = self.t(&*e.pat);
            let body = self.t(&e.body);
            self.put("forwhile", 'q', e, format!("{{ let mut it_v = ({}).into_iter(); while let Some({}) = it_v.next() {} }}", it, p, body));
            self.put("forloop", 'q', e, format!("{{ let mut it_v = ({}).into_iter(); loop {{ match it_v.next() {{ None => break, Some({}) => {} }} }} }}", it, p, body));
        }
        visit::visit_expr_for_loop(self, e)
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        if matches!(e, Expr::Binary(b) if !self.t(&b.op).ends_with('=') || self.t(&b.op) == "==") || matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::If(_) | Expr::Match(_)) {
            if !has_flow(e) {
                let x = self.t(e).to_string();
                self.put("tmp", 'q', e, format!("({{ let tmp_v = {}; tmp_v }})", x));
                self.put("closure", 'q', e, format!("((|| {})())", x));
            }
        }
        visit::visit_expr(self, e)
    }
    fn visit_block(&mut self, b: &'ast Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Expr(e, Some(_)) => {
                    self.put("delstmt", 'b', s, "{}".into());
                    let _ = e;
                }
                Stmt::Expr(e, None) if i + 1 == b.stmts.len() => {
                    let _ = e;
                }
                Stmt::Local(l) => {
                    if let (Some(init), Pat::Ident(p)) = (&l.init, &l.pat) {
                        if init.diverge.is_none() && p.by_ref.is_none() {
                            let x = self.t(&init.expr).to_string();
                            let m = if p.mutability.is_some() { "mut " } else { "" };
                            self.put("latelet", 'q', s, format!("let {}{}; {} = {};", m, p.ident, p.ident, x));
                        }
                    }
                    // swap with the next let when independent
                    if i + 1 < b.stmts.len() {
                        if let Stmt::Local(n) = &b.stmts[i + 1] {
                            let (a, c) = (self.t(s), self.t(&b.stmts[i + 1]));
                            let (pa, pc) = (idents(self.t(&l.pat)), idents(self.t(&n.pat)));
                            let (ia, ic) = (idents(a), idents(c));
                            let clean = !has_flow(s) && !has_flow(n) && !a.contains("mut ") && !c.contains("mut ") && !a.contains(".next()") && !c.contains("assert");
                            if clean && !pa.iter().any(|x| ic.contains(x)) && !pc.iter().any(|x| ia.contains(x)) {
                                let (st, _) = rng(s.span());
                                let (_, en) = rng(b.stmts[i + 1].span());
                                self.out.push(("letswap".into(), 'q', st, en, format!("{} {}", c, a)));
                            }
                        }
                    }
                }
                Stmt::Macro(_) => self.put("delstmt", 'b', s, "{}".into()),
                _ => {}
            }
        }
        visit::visit_block(self, b)
    }
    fn visit_impl_item_fn(&mut self, f: &'ast ImplItemFn) {
        self.body(&f.block, &f.sig);
        visit::visit_impl_item_fn(self, f)
    }
    fn visit_item_fn(&mut self, f: &'ast ItemFn) {
        if f.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
            return;
        }
        self.body(&f.block, &f.sig);
        visit::visit_item_fn(self, f)
    }
}
impl<'a> V<'a> {
    fn body(&mut self, b: &Block, sig: &Signature) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            let x = self.t(e).to_string();
            self.put("return", 'q', e, format!("return {};", x));
            if matches!(sig.output, ReturnType::Type(..)) {
                self.put("named", 'q', e, format!("let out_v = {}; out_v", x));
            }
            // parameters of the same type exchanged
            let ps: Vec<(&Pat, String)> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((&*t.pat, t.ty.to_token_stream().to_string())) } else { None }).collect();
            for i in 0..ps.len() {
                for j in i + 1..ps.len() {
                    if ps[i].1 == ps[j].1 {
                        let (a, c) = (self.t(ps[i].0).to_string(), self.t(ps[j].0).to_string());
                        let (s, _) = rng(b.span());
                        self.out.push(("paramswap".into(), 'b', s + 1, s + 1, format!(" let ({}, {}) = ({}, {}); ", a, c, c, a)));
                    }
                }
            }
        }
    }
}
fn main() {
    for f in std::env::args().skip(1) {
        let src = std::fs::read_to_string(&f).unwrap();
        let ast = syn::parse_file(&src).unwrap();
        let mut v = V { src: &src, out: vec![], in_test: false };
        let _ = v.in_test;
        v.visit_file(&ast);
        for (k, c, a, b, n) in v.out {
            println!("{}\t{}\t{}\t{}\t{}\t{}", f, k, c, a, b, n.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t"));
        }
    }
}
