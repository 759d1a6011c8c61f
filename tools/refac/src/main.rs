//! refac MODE FILE : rewrite every site of FILE in a behaviour-preserving way (for trying the checks on edits)
use quote::{format_ident, quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct R {
    mode: String,
    n: usize,
}

fn test_item(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"))
}

struct Jumps(bool);
impl<'a> Visit<'a> for Jumps {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
}
fn jumps(b: &Block) -> bool {
    let mut j = Jumps(false);
    j.visit_block(b);
    j.0
}
fn uses(t: impl ToTokens, id: &str) -> usize {
    fn go(ts: proc_macro2::TokenStream, id: &str) -> usize {
        ts.into_iter().map(|t| match t {
            proc_macro2::TokenTree::Group(g) => go(g.stream(), id),
            proc_macro2::TokenTree::Ident(i) => (i == id) as usize,
            _ => 0,
        }).sum()
    }
    go(t.to_token_stream(), id)
}
fn has_let(e: &Expr) -> bool {
    matches!(e, Expr::Let(_)) || matches!(e, Expr::Binary(b) if has_let(&b.left) || has_let(&b.right))
}
fn pure(e: &Expr) -> bool {
    struct P(bool);
    impl<'a> Visit<'a> for P {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            let s = c.func.to_token_stream().to_string();
            let last = s.rsplit("::").next().unwrap().trim().to_string();
            if !(last.starts_with("get_") || last.starts_with("has_") || last == "new") || s.contains("Client") || s.contains("Contract") { self.0 = false }
            visit::visit_expr_call(self, c)
        }
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            let s = c.method.to_string();
            let ok = ["len", "clone", "get", "get_unchecked", "unwrap_optimized", "unwrap_or", "is_some", "is_none", "ledger", "timestamp", "sequence", "fixed_mul_floor", "fixed_mul_ceil", "fixed_div_floor", "fixed_div_ceil", "current_contract_address", "get_collateral", "get_liabilities", "get_supply", "non_queued_tokens", "keys", "values"];
            if !ok.contains(&s.as_str()) { self.0 = false }
            visit::visit_expr_method_call(self, c)
        }
        fn visit_expr_macro(&mut self, _: &'a ExprMacro) { self.0 = false }
        fn visit_expr_if(&mut self, _: &'a ExprIf) { self.0 = false }
        fn visit_expr_match(&mut self, _: &'a ExprMatch) { self.0 = false }
        fn visit_expr_block(&mut self, _: &'a ExprBlock) { self.0 = false }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.0 = false }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) {
            if r.mutability.is_some() { self.0 = false }
            visit::visit_expr_reference(self, r)
        }
    }
    use syn::visit;
    let mut p = P(true);
    p.visit_expr(e);
    p.0
}
fn panics(b: &Block) -> bool {
    b.stmts.len() == 1 && b.to_token_stream().to_string().contains("panic_with_error !") && !b.to_token_stream().to_string().contains("if ")
}
fn idpat(p: &Pat) -> Option<&Ident> {
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(&i.ident),
        Pat::Type(t) => idpat(&t.pat),
        _ => None,
    }
}

impl R {
    fn id(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("{}_{}", s, self.n)
    }

    fn expr(&mut self, e: &mut Expr) {
        let m = self.mode.clone();
        match (m.as_str(), &*e) {
            ("while", Expr::ForLoop(f)) => {
                if let Expr::Range(r) = &*f.expr {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let (i, n) = (self.id("at"), self.id("end"));
                        let (pat, st, lb) = (&f.pat, &f.body.stmts, &f.label);
                        *e = parse_quote!({ let #n = #b; let mut #i = #a; #lb while #i < #n { let #pat = #i; #i += 1; #(#st)* } });
                    }
                }
            }
            ("whilend", Expr::ForLoop(f)) => {
                if let Expr::Range(r) = &*f.expr {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_), false) = (&r.start, &r.end, &r.limits, jumps(&f.body)) {
                        let (i, n) = (self.id("at"), self.id("end"));
                        let (pat, st, lb) = (&f.pat, &f.body.stmts, &f.label);
                        *e = parse_quote!({ let mut #i = #a; let #n = #b; #lb loop { if #i >= #n { break; } let #pat = #i; #(#st)* #i += 1; } });
                    }
                }
            }
            ("itnext", Expr::ForLoop(f)) if !matches!(&*f.expr, Expr::Range(_)) => {
                let i = self.id("it");
                let (pat, st, lb, x) = (&f.pat, &f.body.stmts, &f.label, &f.expr);
                *e = parse_quote!({ let mut #i = (#x).into_iter(); #lb while let Some(#pat) = #i.next() { #(#st)* } });
            }
            ("itloop", Expr::ForLoop(f)) if !matches!(&*f.expr, Expr::Range(_)) => {
                let i = self.id("it");
                let (pat, st, lb, x) = (&f.pat, &f.body.stmts, &f.label, &f.expr);
                *e = parse_quote!({ let mut #i = (#x).into_iter(); #lb loop { match #i.next() { Some(#pat) => { #(#st)* } None => break, } } });
            }
            ("foreach", Expr::ForLoop(f)) if !jumps(&f.body) => {
                let (pat, st, x) = (&f.pat, &f.body.stmts, &f.expr);
                *e = parse_quote!({ (#x).into_iter().for_each(|#pat| { #(#st)* }); });
            }
            ("body", Expr::ForLoop(f)) if !jumps(&f.body) => {
                let i = self.id("step");
                let (pat, st, x) = (&f.pat, &f.body.stmts, &f.expr);
                if let Some(v) = idpat(pat) {
                    *e = parse_quote!({ let mut #i = |#v| { #(#st)* }; for #v in #x { #i(#v); } });
                }
            }
            ("negif", Expr::If(f)) if !has_let(&f.cond) => {
                if let Some((_, el)) = &f.else_branch {
                    let (c, t) = (&f.cond, &f.then_branch);
                    *e = match &**el {
                        Expr::Block(b) => { let b = &b.block; parse_quote!(if !(#c) #b else #t) }
                        o => parse_quote!(if !(#c) { #o } else #t),
                    };
                }
            }
            ("matchif", Expr::If(f)) if !has_let(&f.cond) => {
                let (c, t) = (&f.cond, &f.then_branch);
                let el: Expr = match &f.else_branch { Some((_, x)) => (**x).clone(), None => parse_quote!({}) };
                *e = parse_quote!(match #c { true => #t, false => #el });
            }
            ("iflet", Expr::If(f)) => {
                if let Expr::Let(l) = &*f.cond {
                    let (p, x, t) = (&l.pat, &l.expr, &f.then_branch);
                    let el: Expr = match &f.else_branch { Some((_, x)) => (**x).clone(), None => parse_quote!({}) };
                    *e = parse_quote!(match #x { #p => #t, _ => #el });
                }
            }
            ("splitif", Expr::If(f)) if !has_let(&f.cond) => {
                if let Expr::Binary(b) = &*f.cond {
                    let (l, r, t) = (&b.left, &b.right, &f.then_branch);
                    match (&b.op, &f.else_branch) {
                        (BinOp::And(_), None) => *e = parse_quote!(if #l { if #r #t }),
                        (BinOp::And(_), Some((_, x))) => { let x = x.clone(); *e = parse_quote!(if #l { if #r #t else { #x } } else { #x }) }
                        (BinOp::Or(_), None) => *e = parse_quote!(if #l #t else if #r #t),
                        (BinOp::Or(_), Some((_, x))) => { let x = x.clone(); *e = parse_quote!(if #l #t else if #r #t else { #x }) }
                        _ => {}
                    }
                }
            }
            ("demorgan", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::And(_) if !has_let(l) && !has_let(r) => *e = parse_quote!(!(!(#l) || !(#r))),
                    BinOp::Or(_) => *e = parse_quote!(!(!(#l) && !(#r))),
                    BinOp::Lt(_) => *e = parse_quote!(!(#l >= #r)),
                    BinOp::Gt(_) => *e = parse_quote!(!(#l <= #r)),
                    BinOp::Le(_) => *e = parse_quote!(!(#l > #r)),
                    BinOp::Ge(_) => *e = parse_quote!(!(#l < #r)),
                    BinOp::Eq(_) => *e = parse_quote!(!(#l != #r)),
                    BinOp::Ne(_) => *e = parse_quote!(!(#l == #r)),
                    _ => {}
                }
            }
            ("compound", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                if matches!(&**l, Expr::Path(_) | Expr::Field(_) | Expr::Unary(_)) {
                    match b.op {
                        BinOp::AddAssign(_) => *e = parse_quote!(#l = #l + (#r)),
                        BinOp::SubAssign(_) => *e = parse_quote!(#l = #l - (#r)),
                        BinOp::MulAssign(_) => *e = parse_quote!(#l = #l * (#r)),
                        BinOp::DivAssign(_) => *e = parse_quote!(#l = #l / (#r)),
                        _ => {}
                    }
                }
            }
            ("commute", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Add(_) => *e = parse_quote!((#r) + (#l)),
                    BinOp::Mul(_) => *e = parse_quote!((#r) * (#l)),
                    BinOp::Lt(_) => *e = parse_quote!((#r) > (#l)),
                    BinOp::Gt(_) => *e = parse_quote!((#r) < (#l)),
                    BinOp::Le(_) => *e = parse_quote!((#r) >= (#l)),
                    BinOp::Ge(_) => *e = parse_quote!((#r) <= (#l)),
                    BinOp::Eq(_) => *e = parse_quote!((#r) == (#l)),
                    BinOp::Ne(_) => *e = parse_quote!((#r) != (#l)),
                    _ => {}
                }
            }
            ("opts", Expr::MethodCall(c)) => {
                let (r, a) = (&c.receiver, &c.args);
                match c.method.to_string().as_str() {
                    "unwrap_or" => { let a = &a[0]; *e = parse_quote!(match #r { Some(found) => found, None => #a }) }
                    "min" if a.len() == 1 => { let (x, y) = (self.id("x"), self.id("y")); let a = &a[0]; *e = parse_quote!({ let (#x, #y) = (#r, #a); if #y < #x { #y } else { #x } }) }
                    "max" if a.len() == 1 => { let (x, y) = (self.id("x"), self.id("y")); let a = &a[0]; *e = parse_quote!({ let (#x, #y) = (#r, #a); if #x < #y { #y } else { #x } }) }
                    "is_empty" => *e = parse_quote!((#r.len() == 0)),
                    "is_some" => *e = parse_quote!((!#r.is_none())),
                    "is_none" => *e = parse_quote!((!#r.is_some())),
                    "fixed_mul_floor" => { let (a, b) = (&a[0], &a[1]); *e = parse_quote!(soroban_fixed_point_math::FixedPoint::fixed_mul_floor(#r, #a, #b)) }
                    "fixed_div_floor" => { let (a, b) = (&a[0], &a[1]); *e = parse_quote!((#r).fixed_mul_floor(#b, #a)) }
                    _ => {}
                }
            }
            ("condfn", Expr::If(f)) if !has_let(&f.cond) => {
                let (c, t) = (&f.cond, &f.then_branch);
                let i = self.id("holds");
                *e = match &f.else_branch {
                    Some((_, x)) => parse_quote!({ let #i = || #c; if #i() #t else #x }),
                    None => parse_quote!({ let #i = || #c; if #i() #t }),
                };
            }
            _ => {}
        }
    }

    fn stmts(&mut self, b: &mut Block) {
        let m = self.mode.clone();
        match m.as_str() {
            "condlet" => {
                let mut out = vec![];
                for s in b.stmts.drain(..) {
                    if let Stmt::Expr(Expr::If(mut f), semi) = s {
                        if !has_let(&f.cond) {
                            let c = &f.cond;
                            let i = self.id("cond");
                            out.push(parse_quote!(let #i = #c;));
                            f.cond = parse_quote!(#i);
                        }
                        out.push(Stmt::Expr(Expr::If(f), semi));
                    } else {
                        out.push(s)
                    }
                }
                b.stmts = out;
            }
            "nest" => {
                // if c { panic } rest  =>  if !c { rest } else { panic }
                for i in (0..b.stmts.len()).rev() {
                    let Stmt::Expr(Expr::If(f), _) = &b.stmts[i] else { continue };
                    if f.else_branch.is_some() || has_let(&f.cond) || !panics(&f.then_branch) || i + 1 == b.stmts.len() { continue }
                    let f = f.clone();
                    let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
                    b.stmts.pop();
                    let (c, t) = (&f.cond, &f.then_branch);
                    b.stmts.push(Stmt::Expr(parse_quote!(if !(#c) { #(#rest)* } else #t), None));
                }
            }
            "require" => {
                for s in b.stmts.iter_mut() {
                    if let Stmt::Expr(Expr::If(f), _) = s {
                        if f.else_branch.is_none() && !has_let(&f.cond) && panics(&f.then_branch) {
                            let t = f.then_branch.to_token_stream().to_string();
                            let inner = t.split("panic_with_error ! (").nth(1).unwrap().split(')').next().unwrap().to_string();
                            let (env, err) = inner.split_once(',').unwrap();
                            let (env, err): (Expr, Expr) = (parse_str(env.trim()).unwrap(), parse_str(err.trim().trim_end_matches(',').trim()).unwrap());
                            let env: Expr = match env { Expr::Reference(r) => *r.expr, x => x };
                            let c = &f.cond;
                            *s = parse_quote!(require_that(&#env, !(#c), #err););
                        }
                    }
                }
            }
            "anf" => {
                let mut out = vec![];
                for mut s in b.stmts.drain(..) {
                    let mut pre: Vec<Stmt> = vec![];
                    {
                        let args = match &mut s {
                            Stmt::Local(Local { init: Some(i), .. }) => match &mut *i.expr { Expr::Call(c) => Some(&mut c.args), Expr::MethodCall(c) => Some(&mut c.args), _ => None },
                            Stmt::Expr(Expr::Call(c), _) => Some(&mut c.args),
                            Stmt::Expr(Expr::MethodCall(c), _) => Some(&mut c.args),
                            _ => None,
                        };
                        if let Some(args) = args {
                            for a in args.iter_mut() {
                                let h = match a { Expr::Reference(r) if r.mutability.is_none() => &mut *r.expr, x => x };
                                if matches!(h, Expr::Call(_) | Expr::MethodCall(_) | Expr::Binary(_)) {
                                    let i = self.id("arg");
                                    pre.push(parse_quote!(let #i = #h;));
                                    *h = parse_quote!(#i);
                                }
                            }
                        }
                    }
                    out.extend(pre);
                    out.push(s);
                }
                b.stmts = out;
            }
            "swap" => {
                let mut i = 0;
                while i + 1 < b.stmts.len() {
                    let ok = match (&b.stmts[i], &b.stmts[i + 1]) {
                        (Stmt::Local(x), Stmt::Local(y)) => match (&x.init, &y.init) {
                            (Some(p), Some(q)) => pure(&p.expr) && pure(&q.expr) && p.diverge.is_none() && q.diverge.is_none() && {
                                let ids: Vec<String> = pat_ids(&x.pat).into_iter().collect();
                                let idy: Vec<String> = pat_ids(&y.pat);
                                ids.iter().all(|k| uses(&q.expr, k) == 0) && idy.iter().all(|k| uses(&p.expr, k) == 0 && !ids.contains(k))
                            },
                            _ => false,
                        },
                        _ => false,
                    };
                    if ok { b.stmts.swap(i, i + 1); i += 2 } else { i += 1 }
                }
            }
            "inline" => {
                let mut i = 0;
                while i + 1 < b.stmts.len() {
                    let got = if let Stmt::Local(l) = &b.stmts[i] {
                        match (&l.init, idpat(&l.pat), &l.pat) {
                            (Some(x), Some(id), Pat::Ident(p)) if p.mutability.is_none() && pure(&x.expr) && x.diverge.is_none() => {
                                let total: usize = b.stmts[i + 1..].iter().map(|s| uses(s, &id.to_string())).sum();
                                let inloop = matches!(&b.stmts[i + 1], Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
                                if total == 1 && uses(&b.stmts[i + 1], &id.to_string()) == 1 && !inloop { Some((id.clone(), (*x.expr).clone())) } else { None }
                            }
                            _ => None,
                        }
                    } else { None };
                    if let Some((id, x)) = got {
                        struct Sub(Ident, Expr, bool);
                        impl VisitMut for Sub {
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { let x = &self.1; *e = parse_quote!((#x)); self.2 = true; return } }
                                visit_mut::visit_expr_mut(self, e)
                            }
                            fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
                                if f.colon_token.is_none() { return }
                                visit_mut::visit_field_value_mut(self, f)
                            }
                        }
                        let mut sub = Sub(id, x, false);
                        sub.visit_stmt_mut(&mut b.stmts[i + 1]);
                        if sub.2 { b.stmts.remove(i); continue }
                    }
                    i += 1;
                }
            }
            "late" => {
                // move a pure `let` down to just before its first use
                let mut i = b.stmts.len();
                while i > 0 {
                    i -= 1;
                    let Stmt::Local(l) = &b.stmts[i] else { continue };
                    let (Some(x), Some(id)) = (&l.init, idpat(&l.pat)) else { continue };
                    // only arithmetic and copies: what they read cannot have changed
                    let s = x.expr.to_token_stream().to_string();
                    if !pure(&x.expr) || x.diverge.is_some() || s.contains("get") || s.contains("self") || s.contains(" . ") { continue }
                    let id = id.to_string();
                    let mut j = i + 1;
                    while j < b.stmts.len() && uses(&b.stmts[j], &id) == 0 { j += 1 }
                    if j > i + 1 && j < b.stmts.len() { let s = b.stmts.remove(i); b.stmts.insert(j - 1, s); }
                }
            }
            "tuplelet" => {
                let mut i = 0;
                while i + 1 < b.stmts.len() {
                    let got = match (&b.stmts[i], &b.stmts[i + 1]) {
                        (Stmt::Local(x), Stmt::Local(y)) => match (&x.init, &y.init, &x.pat, &y.pat) {
                            (Some(p), Some(q), Pat::Ident(a), Pat::Ident(c)) if p.diverge.is_none() && q.diverge.is_none() && uses(&q.expr, &a.ident.to_string()) == 0 => {
                                let (pe, qe) = (&p.expr, &q.expr);
                                Some(parse_quote!(let (#a, #c) = (#pe, #qe);))
                            }
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(s) = got { b.stmts[i] = s; b.stmts.remove(i + 1); }
                    i += 1;
                }
            }
            _ => {}
        }
    }

    fn func(&mut self, sig: &mut Signature, b: &mut Block) {
        if self.mode == "inner" && sig.receiver().is_none() && sig.generics.params.is_empty() {
            let name = format_ident!("{}_inner", sig.ident);
            let (ins, out, st) = (&sig.inputs, &sig.output, &b.stmts);
            let mut args: Vec<Ident> = vec![];
            for a in ins.iter() {
                if let FnArg::Typed(t) = a { match idpat(&t.pat) { Some(i) => args.push(i.clone()), None => return } }
            }
            let clean: Vec<FnArg> = ins.iter().map(|a| { let mut a = a.clone(); if let FnArg::Typed(t) = &mut a { t.attrs.clear() } a }).collect();
            if clean.iter().any(|a| a.to_token_stream().to_string().contains("Self")) || uses(&*b, "Self") > 0 { return }
            *b = parse_quote!({ fn #name(#(#clean),*) #out { #(#st)* } #name(#(#args),*) });
            for a in sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &mut *t.pat { p.mutability = None } } }
        }
    }
}
fn pat_ids(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.push(i.ident.to_string()) } }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

impl VisitMut for R {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if !test_item(&m.attrs) { visit_mut::visit_item_mod_mut(self, m) }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if test_item(&f.attrs) { return }
        visit_mut::visit_item_fn_mut(self, f);
        let mut sig = f.sig.clone();
        self.func(&mut sig, &mut f.block);
        f.sig = sig;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if test_item(&f.attrs) { return }
        visit_mut::visit_impl_item_fn_mut(self, f);
        let mut sig = f.sig.clone();
        self.func(&mut sig, &mut f.block);
        f.sig = sig;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.expr(e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        self.stmts(b);
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut f = parse_file(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let mut r = R { mode: a[1].clone(), n: 0 };
    r.visit_file_mut(&mut f);
    let mut out = quote!(#f).to_string();
    if a[1] == "require" && out.contains("require_that (") {
        let err = if a[2].contains("/backstop/") { "BackstopError" } else if a[2].contains("/emitter/") { "EmitterError" } else if a[2].contains("factory") { "PoolFactoryError" } else { "PoolError" };
        let path = if a[2].contains("/pool/") || a[2].contains("/backstop/") || a[2].contains("/emitter/") || a[2].contains("factory") { format!("crate::errors::{}", err) } else { "crate::PoolError".into() };
        out.push_str(&format!("\nfn require_that(e: &soroban_sdk::Env, ok: bool, err: {}) {{ if !ok {{ soroban_sdk::panic_with_error!(e, err); }} }}\n", path));
    }
    print!("{}", out.replace("; ", ";\n").replace("{ ", "{\n").replace("} ", "}\n"));
}
