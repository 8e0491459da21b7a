//! rewrite PASS FILE [skip,fn,names]: applies one behaviour-preserving rewriting to every function of a source file
use quote::quote;
use std::collections::HashSet;
use syn::{parse_quote, visit_mut::*, *};

struct W {
    pass: String,
    skip: HashSet<String>,
    on: bool,
    n: usize,
    tmp: usize,
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && simple(&r.expr),
        Expr::Unary(u) => simple(&u.expr),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}

impl W {
    fn id(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        Ident::new(&format!("{}_{}", p, self.tmp), proc_macro2::Span::call_site())
    }
    fn expr(&mut self, e: &mut Expr) {
        let p = self.pass.clone();
        let mut new: Option<Expr> = None;
        match (p.as_str(), &*e) {
            ("inv-if", Expr::If(i)) if !has_let(&i.cond) && i.else_branch.is_some() => {
                let (c, a, b) = (&i.cond, &i.then_branch, &i.else_branch.as_ref().unwrap().1);
                let b: Block = match &**b {
                    Expr::Block(x) if x.label.is_none() && x.attrs.is_empty() => x.block.clone(),
                    x => parse_quote!({ #x }),
                };
                new = Some(parse_quote!(if !(#c) #b else #a));
            }
            ("let-cond", Expr::If(i)) if !has_let(&i.cond) && !simple(&i.cond) => {
                let t = self.id("cond");
                let (c, a) = (&i.cond, &i.then_branch);
                new = Some(match &i.else_branch {
                    Some((_, b)) => parse_quote!({ let #t = #c; if #t #a else #b }),
                    None => parse_quote!({ let #t = #c; if #t #a }),
                });
            }
            ("if-match", Expr::If(i)) if !has_let(&i.cond) => {
                let (c, a) = (&i.cond, &i.then_branch);
                new = Some(match &i.else_branch {
                    Some((_, b)) => parse_quote!(match #c { true => #a, false => #b }),
                    None => parse_quote!(match #c { true => #a, false => {} }),
                });
            }
            ("iflet-match", Expr::If(i)) => {
                if let Expr::Let(l) = &*i.cond {
                    let (pat, x, a) = (&l.pat, &l.expr, &i.then_branch);
                    new = Some(match &i.else_branch {
                        Some((_, b)) => parse_quote!(match #x { #pat => #a, _ => #b }),
                        None => parse_quote!(match #x { #pat => #a, _ => {} }),
                    });
                }
            }
            ("split-and", Expr::If(i)) if i.else_branch.is_none() && !has_let(&i.cond) => {
                if let Expr::Binary(b) = &*i.cond {
                    if let BinOp::And(_) = b.op {
                        let (l, r, a) = (&b.left, &b.right, &i.then_branch);
                        new = Some(parse_quote!(if #l { if #r #a }));
                    }
                }
            }
            ("and-if", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::And(_) if !has_let(l) && !has_let(r) => new = Some(parse_quote!((if #l { #r } else { false }))),
                    BinOp::Or(_) => new = Some(parse_quote!((if #l { true } else { #r }))),
                    _ => {}
                }
            }
            ("try-match", Expr::Try(t)) => {
                let x = &t.expr;
                new = Some(parse_quote!((match #x { Ok(v) => v, Err(e) => return Err(e.into()) })));
            }
            ("try-let", Expr::Try(t)) => {
                let x = &t.expr;
                let r = self.id("res");
                new = Some(parse_quote!({ let #r = #x; #r? }));
            }
            ("commute", Expr::Binary(b)) if simple(&b.left) || simple(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Add(_) => new = Some(parse_quote!((#r + #l))),
                    BinOp::Mul(_) => new = Some(parse_quote!((#r * #l))),
                    _ => {}
                }
            }
            ("flip", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Lt(_) => new = Some(parse_quote!((#r) > (#l))),
                    BinOp::Le(_) => new = Some(parse_quote!((#r) >= (#l))),
                    BinOp::Gt(_) => new = Some(parse_quote!((#r) < (#l))),
                    BinOp::Ge(_) => new = Some(parse_quote!((#r) <= (#l))),
                    BinOp::Eq(_) => new = Some(parse_quote!((#r) == (#l))),
                    BinOp::Ne(_) => new = Some(parse_quote!((#r) != (#l))),
                    _ => {}
                }
            }
            ("negate", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Lt(_) => new = Some(parse_quote!(!((#l) >= (#r)))),
                    BinOp::Le(_) => new = Some(parse_quote!(!((#l) > (#r)))),
                    BinOp::Gt(_) => new = Some(parse_quote!(!((#l) <= (#r)))),
                    BinOp::Ge(_) => new = Some(parse_quote!(!((#l) < (#r)))),
                    BinOp::Eq(_) => new = Some(parse_quote!(!((#l) != (#r)))),
                    BinOp::Ne(_) => new = Some(parse_quote!(!((#l) == (#r)))),
                    BinOp::And(_) if !has_let(l) && !has_let(r) => new = Some(parse_quote!(!(!(#l) || !(#r)))),
                    BinOp::Or(_) => new = Some(parse_quote!(!(!(#l) && !(#r)))),
                    _ => {}
                }
            }
            ("assign-op", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::AddAssign(_) => new = Some(parse_quote!(#l = #l + #r)),
                    BinOp::SubAssign(_) => new = Some(parse_quote!(#l = #l - #r)),
                    _ => {}
                }
            }
            ("for-while", Expr::ForLoop(f)) if f.label.is_none() => {
                let (pat, x, b) = (&f.pat, &f.expr, &f.body);
                let t = self.id("it");
                new = Some(parse_quote!({ let mut #t = IntoIterator::into_iter(#x); while let Some(#pat) = #t.next() #b }));
            }
            ("for-loop", Expr::ForLoop(f)) if f.label.is_none() => {
                let (pat, x, b) = (&f.pat, &f.expr, &f.body);
                let (t, v) = (self.id("it"), self.id("item"));
                let st = &b.stmts;
                new = Some(parse_quote!({ let mut #t = IntoIterator::into_iter(#x); loop { let Some(#v) = #t.next() else { break }; let #pat = #v; #(#st)* } }));
            }
            ("for-each", Expr::ForLoop(f)) if f.label.is_none() => {
                let (pat, x, b) = (&f.pat, &f.expr, &f.body);
                new = Some(parse_quote!(IntoIterator::into_iter(#x).for_each(|#pat| #b)));
            }
            ("sat-commute", Expr::MethodCall(m)) if m.args.len() == 1 && (m.method == "saturating_add" || m.method == "saturating_mul" || m.method == "min" || m.method == "max") => {
                let (a, b, n) = (&m.receiver, &m.args[0], &m.method);
                if !quote!(#b).to_string().contains("into") && !quote!(#b).to_string().contains('|') {
                    new = Some(parse_quote!((#b).#n(#a)));
                }
            }
            ("ufcs", Expr::MethodCall(m)) if m.method == "saturating_add" || m.method == "saturating_sub" || m.method == "saturating_mul" => {
                let (a, b, n) = (&m.receiver, &m.args[0], &m.method);
                new = Some(parse_quote!(Saturating::#n(#a, #b)));
            }
            ("zero", Expr::MethodCall(m)) if m.method == "is_zero" => {
                let a = &m.receiver;
                new = Some(parse_quote!((#a == Zero::zero())));
            }
            ("zero2", Expr::MethodCall(m)) if m.method == "is_zero" => {
                let a = &m.receiver;
                new = Some(parse_quote!(!(#a > Zero::zero())));
            }
            ("is-matches", Expr::MethodCall(m)) if m.args.is_empty() => {
                let a = &m.receiver;
                match m.method.to_string().as_str() {
                    "is_some" => new = Some(parse_quote!(matches!(#a, Some(_)))),
                    "is_none" => new = Some(parse_quote!(matches!(#a, None))),
                    "is_ok" => new = Some(parse_quote!(matches!(#a, Ok(_)))),
                    "is_err" => new = Some(parse_quote!(matches!(#a, Err(_)))),
                    "unwrap_or_default" => new = Some(parse_quote!(#a.unwrap_or(Default::default()))),
                    "is_empty" => new = Some(parse_quote!((#a.len() == 0))),
                    _ => {}
                }
            }
            ("opt-match", Expr::MethodCall(m)) => {
                let a = &m.receiver;
                match m.method.to_string().as_str() {
                    "ok_or" => {
                        let x = &m.args[0];
                        new = Some(parse_quote!((match #a { Some(v) => Ok(v), None => Err(#x) })));
                    }
                    "unwrap_or_default" => new = Some(parse_quote!((match #a { Some(v) => v, None => Default::default() }))),
                    "unwrap_or" => {
                        let x = &m.args[0];
                        new = Some(parse_quote!((match #a { Some(v) => v, None => #x })));
                    }
                    "map_or" => {
                        let (x, f) = (&m.args[0], &m.args[1]);
                        new = Some(parse_quote!((match #a { Some(v) => (#f)(v), None => #x })));
                    }
                    "and_then" => {
                        let f = &m.args[0];
                        new = Some(parse_quote!((match #a { Some(v) => (#f)(v), None => None })));
                    }
                    "ok" if m.args.is_empty() => new = Some(parse_quote!((match #a { Ok(v) => Some(v), Err(_) => None }))),
                    "err" if m.args.is_empty() => new = Some(parse_quote!((match #a { Ok(_) => None, Err(v) => Some(v) }))),
                    "map_err" => {
                        let f = &m.args[0];
                        new = Some(parse_quote!((match #a { Ok(v) => Ok(v), Err(e) => Err((#f)(e)) })));
                    }
                    _ => {}
                }
            }
            ("map-match", Expr::MethodCall(m)) if m.method == "map" && m.args.len() == 1 => {
                let (a, f) = (&m.receiver, &m.args[0]);
                new = Some(parse_quote!((match #a { Some(v) => Some((#f)(v)), None => None })));
            }
            ("any-find", Expr::MethodCall(m)) if m.args.len() == 1 => {
                let (a, f) = (&m.receiver, &m.args[0]);
                match m.method.to_string().as_str() {
                    "any" => new = Some(parse_quote!(#a.position(#f).is_some())),
                    "position" => new = Some(parse_quote!(#a.enumerate().find_map(|(i, x)| if (#f)(x) { Some(i) } else { None }))),
                    "contains" => new = Some(parse_quote!(#a.iter().any(|x| x == #f))),
                    "filter_map" => new = Some(parse_quote!(#a.flat_map(#f))),
                    _ => {}
                }
            }
            ("any-loop", Expr::MethodCall(m)) if m.args.len() == 1 && m.method == "any" => {
                let (a, f) = (&m.receiver, &m.args[0]);
                new = Some(parse_quote!({ let mut found = false; for x in #a { if (#f)(x) { found = true; break; } } found }));
            }
            ("bind-args", Expr::Call(c)) if c.args.iter().any(|a| matches!(a, Expr::Call(_) | Expr::MethodCall(_))) && !matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 1) => {
                let mut c = c.clone();
                let mut lets: Vec<Stmt> = vec![];
                for a in c.args.iter_mut() {
                    if simple(a) || matches!(a, Expr::Closure(_)) {
                        continue;
                    }
                    let t = self.id("arg");
                    lets.push(parse_quote!(let #t = #a;));
                    *a = parse_quote!(#t);
                }
                new = Some(parse_quote!({ #(#lets)* #c }));
            }
            ("bind-recv", Expr::MethodCall(m)) if matches!(&*m.receiver, Expr::Call(_)) => {
                let mut m = m.clone();
                let t = self.id("recv");
                let a = m.receiver.clone();
                *m.receiver = parse_quote!(#t);
                new = Some(parse_quote!({ let #t = #a; #m }));
            }
            ("ensure-match", Expr::Macro(m)) => new = ensure_match(&m.mac),
            ("closure-call", Expr::Closure(c)) if c.capture.is_none() && c.asyncness.is_none() => {
                let b = &c.body;
                let mut c2 = c.clone();
                c2.body = Box::new(parse_quote!({ let out = #b; out }));
                new = Some(Expr::Closure(c2));
            }
            ("method-self", Expr::Path(x)) if x.qself.is_none() && x.path.segments.len() == 2 && x.path.segments[0].ident == "Self" => {
                let s = &x.path.segments[1];
                if s.ident.to_string().chars().next().unwrap().is_lowercase() {
                    new = Some(parse_quote!(Pallet::<T>::#s));
                }
            }
            ("match-iflet", Expr::Match(m)) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && (matches!(m.arms[1].pat, Pat::Wild(_)) || quote::ToTokens::to_token_stream(&m.arms[1].pat).to_string() == "None") => {
                let (x, p, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].body, &m.arms[1].body);
                new = Some(parse_quote!(if let #p = #x { #a } else { #b }));
            }
            ("mutate-getput", Expr::Call(c)) if c.args.len() == 1 => {
                if let (Expr::Path(p), Expr::Closure(f)) = (&*c.func, &c.args[0]) {
                    if p.path.segments.last().unwrap().ident == "mutate" {
                        let mut g = p.clone();
                        g.path.segments.last_mut().unwrap().ident = Ident::new("get", proc_macro2::Span::call_site());
                        let mut s = p.clone();
                        s.path.segments.last_mut().unwrap().ident = Ident::new("set", proc_macro2::Span::call_site());
                        let (pat, b) = (&f.inputs[0], &f.body);
                        let t = self.id("val");
                        new = Some(parse_quote!({ let mut #t = #g(); let out = { let #pat = &mut #t; #b }; #s(#t); out }));
                    }
                }
            }
            ("mutate-getput", Expr::Call(c)) if c.args.len() == 2 && simple(&c.args[0]) => {
                if let (Expr::Path(p), Expr::Closure(f)) = (&*c.func, &c.args[1]) {
                    if p.path.segments.last().unwrap().ident == "mutate" {
                        let mut g = p.clone();
                        g.path.segments.last_mut().unwrap().ident = Ident::new("get", proc_macro2::Span::call_site());
                        let mut s = p.clone();
                        s.path.segments.last_mut().unwrap().ident = Ident::new("set", proc_macro2::Span::call_site());
                        let (pat, b, k) = (&f.inputs[0], &f.body, &c.args[0]);
                        let k2 = if let Expr::Reference(r) = k { (*r.expr).clone() } else { k.clone() };
                        let t = self.id("val");
                        new = Some(parse_quote!({ let mut #t = #g(&#k2); let out = { let #pat = &mut #t; #b }; #s(#k2.clone(), #t); out }));
                    }
                }
            }
            _ => {}
        }
        if let Some(x) = new {
            *e = x;
            self.n += 1;
        }
    }
    fn body(&mut self, name: &str, sig: &Signature, b: &mut Block) {
        if !self.on || self.skip.contains(name) || sig.constness.is_some() {
            return;
        }
        self.tmp = 0;
        match self.pass.as_str() {
            "closure-body" => {
                let ret = &sig.output;
                let ret: ReturnType = match ret {
                    ReturnType::Default => parse_quote!(-> ()),
                    x => x.clone(),
                };
                let b2 = b.clone();
                *b = parse_quote!({ let run = move || #ret #b2; run() });
                self.n += 1;
            }
            "tail-let" => {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                    if !matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) && !matches!(sig.output, ReturnType::Default) {
                        b.stmts.pop();
                        let t: Type = match &sig.output {
                            ReturnType::Type(_, t) => (**t).clone(),
                            _ => unreachable!(),
                        };
                        if matches!(t, Type::ImplTrait(_)) {
                            b.stmts.push(Stmt::Expr(e, None));
                            return;
                        }
                        b.stmts.push(parse_quote!(let out: #t = #e;));
                        b.stmts.push(Stmt::Expr(parse_quote!(return out), Some(Default::default())));
                        self.n += 1;
                    }
                }
            }
            _ => visit_block_mut(self, b),
        }
    }
}

fn ensure_match(m: &Macro) -> Option<Expr> {
    if m.path.segments.last()?.ident != "ensure" {
        return None;
    }
    let a: syn::punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
    let (c, e) = (a.first()?, a.iter().nth(1)?);
    Some(parse_quote!(match #c { true => (), false => return Err(#e.into()) }))
}

impl VisitMut for W {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        let n = m.ident.to_string();
        if n == "tests" || n == "mock" || n.contains("bench") {
            return;
        }
        visit_item_mod_mut(self, m);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        let (n, s) = (f.sig.ident.to_string(), f.sig.clone());
        self.on = true;
        self.body(&n, &s, &mut f.block);
        self.on = false;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let (n, s) = (f.sig.ident.to_string(), f.sig.clone());
        self.on = true;
        self.body(&n, &s, &mut f.block);
        self.on = false;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_expr_mut(self, e);
        self.expr(e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_stmt_mut(self, s);
        if let Stmt::Macro(m) = s {
            if self.pass == "ensure-match" {
                if let Some(x) = ensure_match(&m.mac) {
                    *s = Stmt::Expr(x, Some(Default::default()));
                    self.n += 1;
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.segments.last().map_or(false, |s| s.ident == "ensure" || s.ident == "matches") {
            let first = |i: syn::parse::ParseStream| -> syn::Result<(Expr, proc_macro2::TokenStream)> { Ok((i.parse()?, i.parse()?)) };
            if let Ok((mut e, rest)) = m.parse_body_with(first) {
                let n = self.n;
                self.visit_expr_mut(&mut e);
                if self.n > n {
                    m.tokens = quote!(#e #rest);
                }
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let mut f = parse_file(&src).unwrap();
    let skip = a.get(3).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut w = W { pass: a[1].clone(), skip, on: false, n: 0, tmp: 0 };
    w.visit_file_mut(&mut f);
    std::fs::write(&a[2], prettyplease::unparse(&f).replace("= >", "=> ")).unwrap();
    println!("{}", w.n);
}
