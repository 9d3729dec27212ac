//! Helper functions without a contract of their own: a call is replaced by the helper's body, before anything
//! else looks at the text. Arguments that are plain places are put in for the parameters, others are bound with `let`; early
//! returns of the helper become branches, or stay where the caller returns the helper's result as it is. What does not fit
//! (recursion, returns inside loops, closures as arguments, generic types) is left alone and reported by the extraction.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{Block, Expr, Stmt};

use crate::rules::{self, FnRef};

fn words(t: proc_macro2::TokenStream) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    rules::idents(t, &mut s);
    s
}

fn path_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => path_name(&p.expr),
        _ => None,
    }
}

/// a variable or a field of one
fn place(e: &Expr) -> bool {
    match e {
        Expr::Field(f) => place(&f.base),
        Expr::Path(_) => path_name(e).is_some(),
        _ => false,
    }
}

/// reads variables and computes; no effects
fn pure_(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Paren(p) => pure_(&p.expr),
        Expr::Cast(c) => pure_(&c.expr),
        Expr::Unary(u) => pure_(&u.expr),
        Expr::Field(f) => pure_(&f.base),
        Expr::Path(_) => path_name(e).is_some(),
        Expr::Binary(b) => {
            use syn::BinOp::*;
            matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_)) && pure_(&b.left) && pure_(&b.right)
        }
        _ => false,
    }
}
/// an iterator over a place
fn iterates(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) if ["rev", "enumerate"].contains(&m.method.to_string().as_str()) && m.args.is_empty() => iterates(&m.receiver),
        Expr::MethodCall(m) => m.method == "iter" && m.args.is_empty() && place(&m.receiver),
        _ => false,
    }
}
fn count(b: &Block, n: &str) -> usize {
    fn go(t: proc_macro2::TokenStream, n: &str) -> usize {
        t.into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
                proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
                _ => 0,
            })
            .sum()
    }
    go(b.to_token_stream(), n)
}
fn computes(e: &Expr) -> bool {
    match e {
        Expr::Binary(_) => true,
        Expr::Paren(p) => computes(&p.expr),
        Expr::Cast(c) => computes(&c.expr),
        Expr::Unary(u) => !matches!(u.op, syn::UnOp::Not(_)) || computes(&u.expr),
        _ => false,
    }
}

fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Field(f) => root(&f.base),
        Expr::Reference(r) => root(&r.expr),
        _ => path_name(e),
    }
}

// ------------------------------------------------------------------------------------------------
// early returns

struct Leaves {
    /// `return Err(..)`/`return None` may stay
    err_ok: bool,
    ret: bool,
    question: bool,
}
fn is_err(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => path_name(&c.func).as_deref() == Some("Err"),
        _ => path_name(e).as_deref() == Some("None"),
    }
}
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        if !(self.err_ok && r.expr.as_deref().map(is_err).unwrap_or(false)) {
            self.ret = true;
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.question = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let w = words(m.tokens.clone());
        if w.contains("return") {
            self.ret = true;
        }
    }
}
fn leaves_stmt(s: &Stmt, err_ok: bool) -> bool {
    let mut l = Leaves { err_ok, ret: false, question: false };
    l.visit_stmt(s);
    l.ret
}
fn leaves_expr(e: &Expr, err_ok: bool) -> bool {
    let mut l = Leaves { err_ok, ret: false, question: false };
    l.visit_expr(e);
    l.ret
}
fn questions(b: &Block) -> bool {
    let mut l = Leaves { err_ok: false, ret: false, question: false };
    l.visit_block(b);
    l.question
}

fn block(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}

/// a block whose value is what the function returns, without `return`s
fn value(stmts: &[Stmt], err_ok: bool) -> Option<Vec<Stmt>> {
    let n = stmts.len();
    for (i, s) in stmts.iter().enumerate() {
        if !leaves_stmt(s, err_ok) {
            continue;
        }
        let rest = &stmts[i + 1..];
        let mut out = stmts[..i].to_vec();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    out.push(Stmt::Expr(value_expr(e, err_ok)?, None));
                }
                return Some(out);
            }
            Stmt::Expr(e, None) if i + 1 == n => {
                out.push(Stmt::Expr(value_expr(e, err_ok)?, None));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                let mut f = f.clone();
                if leaves_expr(&f.cond, err_ok) {
                    return None;
                }
                let then_ends = ends(&f.then_branch);
                match f.else_branch.take() {
                    None => {
                        if !then_ends {
                            return None;
                        }
                        f.then_branch = block(value(&f.then_branch.stmts, err_ok)?);
                        let r = block(value(rest, err_ok)?);
                        f.else_branch = Some((Default::default(), Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: r }))));
                    }
                    Some((t, e)) => {
                        let eb = match &*e {
                            Expr::Block(b) => b.clone(),
                            x => syn::ExprBlock { attrs: vec![], label: None, block: block(vec![Stmt::Expr(x.clone(), None)]) },
                        };
                        let else_ends = ends(&eb.block);
                        let add = |b: &Block, done: bool| -> Option<Block> {
                            let mut v = b.stmts.clone();
                            if !done {
                                if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                                    *semi = Some(Default::default());
                                }
                                v.extend(rest.iter().cloned());
                            }
                            Some(block(value(&v, err_ok)?))
                        };
                        if !then_ends && !else_ends {
                            return None;
                        }
                        f.then_branch = add(&f.then_branch, then_ends)?;
                        let r = add(&eb.block, else_ends)?;
                        f.else_branch = Some((t, Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: r }))));
                    }
                }
                out.push(Stmt::Expr(Expr::If(f), None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if leaves_expr(&init.expr, err_ok) {
                    return None;
                }
                let (_, d) = init.diverge.as_ref()?;
                let Expr::Block(db) = &**d else { return None };
                let (pat, ex) = (&l.pat, &init.expr);
                let yes = block(value(rest, err_ok)?);
                let no = block(value(&db.block.stmts, err_ok)?);
                let f: Expr = syn::parse_quote!(if let #pat = #ex #yes else #no);
                out.push(Stmt::Expr(f, None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}
/// does the block always leave the function?
fn ends(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(f), _)) => ends(&f.then_branch) && matches!(&f.else_branch, Some((_, e)) if matches!(&**e, Expr::Block(x) if ends(&x.block))),
        _ => false,
    }
}
fn value_expr(e: &Expr, err_ok: bool) -> Option<Expr> {
    if !leaves_expr(e, err_ok) {
        return Some(e.clone());
    }
    Some(match e {
        Expr::Return(r) => value_expr(r.expr.as_deref()?, err_ok)?,
        Expr::Block(b) => {
            let mut b = b.clone();
            b.block = block(value(&b.block.stmts, err_ok)?);
            Expr::Block(b)
        }
        Expr::Unsafe(b) => {
            let mut b = b.clone();
            b.block = block(value(&b.block.stmts, err_ok)?);
            Expr::Unsafe(b)
        }
        Expr::If(f) => {
            let mut f = f.clone();
            if leaves_expr(&f.cond, err_ok) {
                return None;
            }
            f.then_branch = block(value(&f.then_branch.stmts, err_ok)?);
            let (_, e) = f.else_branch.as_mut()?;
            **e = value_expr(e, err_ok)?;
            Expr::If(f)
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            if leaves_expr(&m.expr, err_ok) {
                return None;
            }
            for a in &mut m.arms {
                if a.guard.as_ref().map(|g| leaves_expr(&g.1, err_ok)).unwrap_or(false) {
                    return None;
                }
                *a.body = value_expr(&a.body, err_ok)?;
            }
            Expr::Match(m)
        }
        _ => return None,
    })
}

/// the value of `{ body }?` : Ok(v) to v, Err(e) to `return Err(e)`
fn tried(e: &Expr) -> Expr {
    match e {
        Expr::Call(c) if c.args.len() == 1 && matches!(path_name(&c.func).as_deref(), Some("Ok") | Some("Some")) => c.args[0].clone(),
        x if is_err(x) => syn::parse_quote!(return #x),
        Expr::Return(_) => e.clone(),
        Expr::Block(b) => {
            let mut b = b.clone();
            tried_block(&mut b.block);
            Expr::Block(b)
        }
        Expr::If(f) if f.else_branch.is_some() => {
            let mut f = f.clone();
            tried_block(&mut f.then_branch);
            let x = f.else_branch.as_mut().unwrap();
            *x.1 = tried(&x.1);
            Expr::If(f)
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in &mut m.arms {
                *a.body = tried(&a.body);
            }
            Expr::Match(m)
        }
        Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Field(_) => syn::parse_quote!(#e?),
        _ => syn::parse_quote!((#e)?),
    }
}
fn tried_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        *e = tried(e);
    }
}

// ------------------------------------------------------------------------------------------------
// putting arguments in

struct Put {
    /// parameter -> (place, Some(mutable) if the parameter is a reference to it)
    map: BTreeMap<String, (Expr, Option<bool>)>,
    self_ty: Option<String>,
    bad: bool,
}
impl Put {
    fn stripped(&self, e: &Expr) -> Option<Expr> {
        let n = path_name(e)?;
        self.map.get(&n).map(|x| x.0.clone())
    }
}
impl VisitMut for Put {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(n) = path_name(&u.expr) {
                    if let Some((p, Some(_))) = self.map.get(&n) {
                        *e = p.clone();
                        return;
                    }
                }
            }
            Expr::Field(f) => {
                if let Some(p) = self.stripped(&f.base) {
                    *f.base = p;
                    return;
                }
            }
            Expr::Index(f) => {
                if let Some(p) = self.stripped(&f.expr) {
                    *f.expr = p;
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(p) = self.stripped(&m.receiver) {
                    *m.receiver = p;
                    for a in &mut m.args {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Struct(s) => {
                for f in &mut s.fields {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
            Expr::Path(_) => {
                if let Some(n) = path_name(e) {
                    if let Some((p, r)) = self.map.get(&n) {
                        *e = match r {
                            None => p.clone(),
                            Some(true) => syn::parse_quote!(&mut #p),
                            Some(false) => syn::parse_quote!(&#p),
                        };
                        return;
                    }
                }
            }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let (Some(t), Some(f)) = (&self.self_ty, p.segments.first_mut()) {
            if f.ident == "Self" {
                f.ident = syn::Ident::new(t, f.ident.span());
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let w = words(m.tokens.clone());
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name == "matches" {
            // an expression and a pattern
            let mut head = proc_macro2::TokenStream::new();
            let mut it = m.tokens.clone().into_iter();
            for t in it.by_ref() {
                if matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',') {
                    break;
                }
                head.extend([t]);
            }
            let pat: proc_macro2::TokenStream = it.collect();
            if let Ok(mut e) = syn::parse2::<Expr>(head) {
                if words(pat.clone()).iter().all(|x| !self.map.contains_key(x)) {
                    self.visit_expr_mut(&mut e);
                    m.tokens = quote::quote!(#e, #pat);
                    return;
                }
            }
        }
        if ["assert", "assert_eq", "assert_ne", "debug_assert", "vec", "println", "panic"].contains(&name.as_str()) {
            use syn::parse::Parser;
            if let Ok(mut l) = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
                l.iter_mut().for_each(|e| self.visit_expr_mut(e));
                m.tokens = l.to_token_stream();
                return;
            }
        }
        for (k, (p, r)) in &self.map {
            if w.contains(k) && !(r.is_none() && path_name(p).as_ref() == Some(k)) {
                self.bad = true;
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// calls

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctx {
    /// the caller returns the value as it is
    Tail,
    Try,
    Plain,
    /// all of a closure's body
    Closure,
    /// a helper named as an argument: the closure that calls it
    Named,
}

struct Helper {
    f: FnRef,
}

struct Finder<'a> {
    helpers: &'a BTreeMap<String, Helper>,
    impl_ty: Option<String>,
    hit: Option<(proc_macro2::Span, proc_macro2::Span, String, Vec<Expr>, Ctx)>,
    failed: &'a HashSet<String>,
    tails: Vec<proc_macro2::LineColumn>,
    closure: bool,
}
impl<'a> Finder<'a> {
    fn of(&self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                let mut names = vec![last.clone()];
                if segs.len() >= 2 {
                    let q = &segs[segs.len() - 2];
                    let q = if q == "Self" { self.impl_ty.clone()? } else { q.clone() };
                    names = vec![format!("{}::{}", q, last), last];
                }
                let n = names.into_iter().find(|n| self.helpers.contains_key(n))?;
                Some((n, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let mut l = self.helpers.iter().filter(|h| h.1.f.impl_ty.is_some() && h.1.f.sig.ident == m.method && h.1.f.sig.receiver().is_some());
                let h = l.next()?;
                if l.next().is_some() {
                    return None;
                }
                let std = ["len", "push", "get", "find", "iter", "next", "contains", "insert", "remove", "first", "last", "is_empty", "map", "clone", "take", "index", "any", "all", "count", "pop", "split", "chars"];
                if path_name(&m.receiver).as_deref() != Some("self") && std.contains(&m.method.to_string().as_str()) {
                    return None;
                }
                // a receiver of the right type: `self` in an impl of that type, or a place (checked by the name being unique)
                if path_name(&m.receiver).as_deref() == Some("self") && self.impl_ty != h.1.f.impl_ty {
                    return None;
                }
                if !place(&m.receiver) {
                    return None;
                }
                let mut v = vec![(*m.receiver).clone()];
                v.extend(m.args.iter().cloned());
                Some((h.0.clone(), v))
            }
            _ => None,
        }
    }
    fn check(&mut self, e: &Expr, whole: (proc_macro2::Span, proc_macro2::Span), ctx: Ctx) -> bool {
        if self.hit.is_some() {
            return true;
        }
        if let Some((n, args)) = self.of(e) {
            let at = e.span().start();
            // arguments first
            for a in &args {
                self.visit_expr(a);
                if self.hit.is_some() {
                    return true;
                }
            }
            if !self.failed.contains(&format!("{}@{}:{}", n, at.line, at.column)) {
                self.hit = Some((whole.0, whole.1, n, args, ctx));
                return true;
            }
        }
        false
    }
}
impl<'a, 'b> Visit<'b> for Finder<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        if self.hit.is_some() {
            return;
        }
        match e {
            Expr::Try(t) if !self.closure => {
                if self.check(&t.expr, (e.span(), t.question_token.span()), Ctx::Try) {
                    return;
                }
            }
            Expr::Return(r) if !self.closure => {
                if let Some(x) = &r.expr {
                    if self.check(x, (e.span(), x.span()), Ctx::Tail) {
                        return;
                    }
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                let c = if self.tails.contains(&e.span().start()) { Ctx::Tail } else { Ctx::Plain };
                if self.check(e, (e.span(), e.span()), c) {
                    return;
                }
            }
            Expr::Closure(c) => {
                if matches!(&*c.body, Expr::Call(_) | Expr::MethodCall(_)) && self.check(&c.body, (c.body.span(), c.body.span()), Ctx::Closure) {
                    return;
                }
                let t = std::mem::take(&mut self.tails);
                let d = std::mem::replace(&mut self.closure, true);
                self.visit_expr(&c.body);
                self.tails = t;
                self.closure = d;
                return;
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            for a in &m.args {
                if let Expr::Path(p) = a {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = match &segs[..] {
                        [f] => f.clone(),
                        [t, f] if t == "Self" => format!("{}::{}", self.impl_ty.clone().unwrap_or_default(), f),
                        [t, f] => format!("{}::{}", t, f),
                        _ => continue,
                    };
                    if let Some(h) = self.helpers.get(&n) {
                        if h.f.sig.receiver().is_none() && self.hit.is_none() {
                            self.visit_expr(&m.receiver);
                            if self.hit.is_none() {
                                self.hit = Some((a.span(), a.span(), n, vec![], Ctx::Named));
                            }
                            return;
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'b syn::Item) {}
}

fn tails(b: &Block, out: &mut Vec<proc_macro2::LineColumn>) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
        tails_expr(e, out);
    }
}
fn tails_expr(e: &Expr, out: &mut Vec<proc_macro2::LineColumn>) {
    out.push(e.span().start());
    match e {
        Expr::If(f) => {
            tails(&f.then_branch, out);
            if let Some((_, e)) = &f.else_branch {
                tails_expr(e, out);
            }
        }
        Expr::Block(b) => tails(&b.block, out),
        Expr::Unsafe(b) => tails(&b.block, out),
        Expr::Match(m) => m.arms.iter().for_each(|a| tails_expr(&a.body, out)),
        _ => {}
    }
}

fn ret_str(s: &syn::Signature) -> String {
    s.output.to_token_stream().to_string()
}

/// statements and value of the helper's body with these arguments
fn expand(h: &FnRef, args: &[Expr], caller: &FnRef, ctx: Ctx) -> Option<(Vec<Stmt>, Option<Expr>)> {
    let body_words = words(h.block.to_token_stream());
    for g in &h.sig.generics.params {
        match g {
            syn::GenericParam::Lifetime(_) => {}
            syn::GenericParam::Type(t) if !body_words.contains(&t.ident.to_string()) => {}
            _ => return None,
        }
    }
    if h.sig.asyncness.is_some() || h.sig.inputs.len() != args.len() {
        return None;
    }
    let same_ret = ret_str(&h.sig) == ret_str(&caller.sig);
    // a tail call of the same type keeps its returns
    let mut stmts = match ctx {
        Ctx::Tail if same_ret => h.block.stmts.clone(),
        Ctx::Closure => h.block.stmts.clone(),
        Ctx::Try => value(&h.block.stmts, true)?,
        _ => {
            if questions(&h.block) {
                return None;
            }
            value(&h.block.stmts, false)?
        }
    };
    if ctx == Ctx::Try {
        // the error is passed on as it is
        let err = |s: &syn::Signature| -> Option<String> {
            let syn::ReturnType::Type(_, t) = &s.output else { return None };
            let syn::Type::Path(p) = &**t else { return None };
            let l = p.path.segments.last()?;
            let syn::PathArguments::AngleBracketed(a) = &l.arguments else { return None };
            Some(format!("{} {}", l.ident, a.args.iter().skip(1).map(|x| x.to_token_stream().to_string()).collect::<String>()))
        };
        if err(&h.sig)? != err(&caller.sig)? {
            return None;
        }
        let mut b = block(stmts);
        tried_block(&mut b);
        stmts = b.stmts;
    }
    let mut put = Put { map: BTreeMap::new(), self_ty: None, bad: false };
    if let (Some(t), true) = (&h.impl_ty, h.impl_ty != caller.impl_ty) {
        put.self_ty = Some(t.clone());
    }
    let mut lets: Vec<Stmt> = vec![];
    let mut roots: Vec<String> = args.iter().filter_map(root).collect();
    roots.sort();
    let often: HashSet<String> = roots.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0].clone()).collect();
    // what the helper may change
    let mut muts: BTreeSet<String> = BTreeSet::new();
    for (p, a) in h.sig.inputs.iter().zip(args) {
        let m = match p {
            syn::FnArg::Receiver(r) => r.reference.is_none() || r.mutability.is_some(),
            syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()),
        };
        if m {
            muts.extend(words(a.to_token_stream()));
        }
    }
    let mut vars: BTreeSet<String> = BTreeSet::new();
    for (p, a) in h.sig.inputs.iter().zip(args) {
        if matches!(a, Expr::Closure(_)) {
            return None;
        }
        match p {
            syn::FnArg::Receiver(r) => {
                if path_name(a).as_deref() == Some("self") {
                    // `self` stays; it must be a reference in both, or moved in both
                    let c = caller.sig.receiver()?;
                    if c.reference.is_some() != r.reference.is_some() && has_bare_self(&h.block) {
                        return None;
                    }
                    continue;
                }
                r.reference.as_ref()?;
                if has_bare_self(&h.block) {
                    return None;
                }
                put.map.insert("self".into(), (a.clone(), Some(r.mutability.is_some())));
                vars.extend(root(a));
            }
            syn::FnArg::Typed(t) => {
                let syn::Pat::Ident(i) = &*t.pat else { return None };
                if i.by_ref.is_some() || i.subpat.is_some() {
                    return None;
                }
                let n = i.ident.to_string();
                let is_ref = matches!(&*t.ty, syn::Type::Reference(_));
                if i.mutability.is_none() {
                    match a {
                        Expr::Reference(r) if is_ref && place(&r.expr) && (r.mutability.is_none() || root(a).map(|x| !often.contains(&x)).unwrap_or(false)) => {
                            put.map.insert(n, ((*r.expr).clone(), Some(r.mutability.is_some())));
                            vars.extend(root(a));
                            continue;
                        }
                        Expr::Lit(_) => {
                            put.map.insert(n, (a.clone(), None));
                            continue;
                        }
                        Expr::Path(_) if path_name(a).is_some() && !root(a).map(|x| often.contains(&x)).unwrap_or(true) => {
                            put.map.insert(n, (a.clone(), None));
                            vars.extend(root(a));
                            continue;
                        }
                        _ if iterates(a) && count(&h.block, &n) == 1 && words(a.to_token_stream()).is_disjoint(&muts) => {
                            vars.extend(words(a.to_token_stream()));
                            put.map.insert(n, (a.clone(), None));
                            continue;
                        }
                        _ if !is_ref && pure_(a) && words(a.to_token_stream()).is_disjoint(&muts) => {
                            if computes(a) {
                                lets.push(syn::parse_quote!(let _ = #a;));
                            }
                            put.map.insert(n, (if matches!(a, Expr::Field(_) | Expr::Paren(_)) { a.clone() } else { syn::parse_quote!((#a)) }, None));
                            vars.extend(words(a.to_token_stream()));
                            continue;
                        }
                        _ => {}
                    }
                }
                if lets.iter().any(|l| introduced(std::slice::from_ref(l)).iter().any(|x| words(a.to_token_stream()).contains(x))) {
                    return None;
                }
                let (m, ty) = (&i.mutability, &t.ty);
                let id = &i.ident;
                let prim = ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "bool", "char"].contains(&ty.to_token_stream().to_string().as_str());
                lets.push(if prim { syn::parse_quote!(let #m #id: #ty = #a;) } else { syn::parse_quote!(let #m #id = #a;) });
            }
        }
    }
    // capture: names bound in the helper that mean something else in an argument
    let params: BTreeSet<String> = put.map.iter().filter(|(k, v)| path_name(&v.0).as_ref() == Some(k)).map(|x| x.0.clone()).collect();
    let bound: BTreeSet<String> = rules::locals_of(h).into_iter().filter(|n| !params.contains(n) && !put.map.contains_key(n)).collect();
    if bound.iter().any(|b| vars.contains(b)) {
        return None;
    }
    // a parameter shadowed in the helper
    let mut inner = FnRef { name: String::new(), impl_ty: None, trait_: None, sig: h.sig.clone(), block: h.block.clone() };
    inner.sig.inputs.clear();
    let own: BTreeSet<String> = rules::locals_of(&inner).into_iter().collect();
    if put.map.keys().any(|k| own.contains(k)) {
        return None;
    }
    let mut b = block(stmts);
    put.visit_block_mut(&mut b);
    if put.bad {
        return None;
    }
    let mut stmts = lets;
    stmts.extend(b.stmts);
    let tail = match stmts.last() {
        Some(Stmt::Expr(_, None)) => match stmts.pop() {
            Some(Stmt::Expr(e, None)) => Some(e),
            _ => unreachable!(),
        },
        _ => None,
    };
    Some((stmts, tail))
}

fn has_bare_self(b: &Block) -> bool {
    struct S(bool);
    impl<'a> Visit<'a> for S {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Field(f) if path_name(&f.base).as_deref() == Some("self") => {}
                Expr::MethodCall(m) if path_name(&m.receiver).as_deref() == Some("self") => m.args.iter().for_each(|a| self.visit_expr(a)),
                Expr::Path(_) if path_name(e).as_deref() == Some("self") => self.0 = true,
                _ => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if words(m.tokens.clone()).contains("self") {
                self.0 = true
            }
        }
    }
    let mut s = S(false);
    s.visit_block(b);
    s.0
}

/// the statement around a call, if nothing with an effect is evaluated in it before the call
struct Around {
    at: (proc_macro2::LineColumn, proc_macro2::LineColumn),
    /// span, is the call all of the statement?, does the statement end in `;`?
    hit: Option<(proc_macro2::Span, bool, bool)>,
}
impl Around {
    fn is(&self, e: &Expr) -> bool {
        e.span().start() == self.at.0 && e.span().end() == self.at.1
    }
    fn first_of<'a>(&self, l: impl Iterator<Item = &'a Expr>) -> bool {
        for e in l {
            if self.first(e) {
                return true;
            }
            if !pure_(e) && !matches!(e, Expr::Reference(r) if pure_(&r.expr)) {
                return false;
            }
        }
        false
    }
    fn first(&self, e: &Expr) -> bool {
        if self.is(e) {
            return true;
        }
        match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Path(_)) => self.first_of(c.args.iter()),
            Expr::MethodCall(m) => self.first_of(std::iter::once(&*m.receiver).chain(m.args.iter())),
            Expr::Binary(x) if !matches!(x.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) => self.first_of([&*x.left, &*x.right].into_iter()),
            Expr::Binary(x) => self.first(&x.left),
            Expr::Field(x) => self.first(&x.base),
            Expr::Try(x) => self.first(&x.expr),
            Expr::Unary(x) => self.first(&x.expr),
            Expr::Paren(x) => self.first(&x.expr),
            Expr::Reference(x) => self.first(&x.expr),
            Expr::Cast(x) => self.first(&x.expr),
            Expr::If(x) => match &*x.cond {
                Expr::Let(l) => self.first(&l.expr),
                c => self.first(c),
            },
            Expr::Match(x) => self.first(&x.expr),
            Expr::Unsafe(_) => match single(e) {
                Expr::Unsafe(_) => false,
                x => self.first(x),
            },
            Expr::Return(x) => x.expr.as_ref().map(|e| self.first(e)).unwrap_or(false),
            Expr::Assign(x) if pure_(&x.left) || matches!(&*x.left, Expr::Index(i) if pure_(&i.expr) && pure_(&i.index)) => self.first(&x.right),
            Expr::Tuple(x) => self.first_of(x.elems.iter()),
            Expr::Struct(x) => self.first_of(x.fields.iter().map(|f| &f.expr)),
            _ => false,
        }
    }
}
impl<'a> Visit<'a> for Around {
    fn visit_stmt(&mut self, s: &'a Stmt) {
        if self.hit.is_some() {
            return;
        }
        match s {
            Stmt::Local(l) => {
                if l.init.as_ref().map(|i| self.first(&i.expr)).unwrap_or(false) {
                    self.hit = Some((s.span(), false, true));
                }
            }
            Stmt::Expr(e, semi) if self.first(e) => self.hit = Some((s.span(), self.is(single(e)), semi.is_some())),
            _ => {}
        }
        syn::visit::visit_stmt(self, s);
    }
}

/// the expression in `unsafe { e }` (the extracted text has no unsafe operations left)
fn single(e: &Expr) -> &Expr {
    match e {
        Expr::Unsafe(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => x,
            _ => e,
        },
        _ => e,
    }
}

/// gives the names a helper binds other names
struct Fresh(BTreeMap<String, String>);
impl Fresh {
    fn tokens(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        t.into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => match self.0.get(&i.to_string()) {
                    Some(n) => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new(n, i.span())),
                    None => proc_macro2::TokenTree::Ident(i),
                },
                proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))),
                t => t,
            })
            .collect()
    }
}
impl VisitMut for Fresh {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = syn::Ident::new(n, p.ident.span());
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        for f in &mut s.fields {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
        }
        syn::visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_pat_struct_mut(&mut self, s: &mut syn::PatStruct) {
        for f in &mut s.fields {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
        }
        syn::visit_mut::visit_pat_struct_mut(self, s);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.segments.len() == 1 {
            let i = &mut p.path.segments[0].ident;
            if let Some(n) = self.0.get(&i.to_string()) {
                *i = syn::Ident::new(n, i.span());
            }
        }
        syn::visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

/// top-level names a list of statements introduces
fn introduced(stmts: &[Stmt]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for s in stmts {
        if let Stmt::Local(l) = s {
            let mut v = rules::Locals(vec![]);
            v.visit_pat(&l.pat);
            out.extend(v.0);
        }
    }
    out
}

/// `used`: functions of this file that are extracted; `known`: text that declares functions already
pub fn apply(file: &str, text: String, others: &[(String, String)], used: &BTreeSet<String>, known: &str) -> (String, BTreeMap<String, Vec<String>>) {
    let mut text = text;
    let mut notes: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut failed: HashSet<String> = HashSet::new();
    let mut done: BTreeSet<String> = BTreeSet::new();
    for _ in 0..60 {
        let Ok(src) = crate::parse(file, text.clone()) else { return (text, notes) };
        let funs = rules::all_functions(&src.ast);
        let mut helpers: BTreeMap<String, Helper> = BTreeMap::new();
        let add = |name: String, f: FnRef, helpers: &mut BTreeMap<String, Helper>| {
            let short = f.sig.ident.to_string();
            if f.trait_.is_some() || known.contains(&format!("fn {}(", short)) || known.contains(&format!("fn {}<", short)) {
                return;
            }
            if words(f.block.to_token_stream()).contains(&short) {
                return; // recursion
            }
            helpers.insert(name, Helper { f });
        };
        for (f, t) in others {
            if f != file {
                if let Ok(a) = syn::parse_file(t) {
                    // functions of other files: free ones only
                    for (n, x) in rules::all_functions(&a).into_iter().filter(|x| x.1.impl_ty.is_none()) {
                        add(n, x, &mut helpers);
                    }
                }
            }
        }
        for (n, x) in &funs {
            if used.contains(n) {
                helpers.remove(n);
            } else {
                add(n.clone(), FnRef { name: x.name.clone(), impl_ty: x.impl_ty.clone(), trait_: x.trait_.clone(), sig: x.sig.clone(), block: x.block.clone() }, &mut helpers);
            }
        }
        if helpers.is_empty() {
            return (text, notes);
        }
        let mut changed = false;
        for (n, f) in funs.iter().filter(|f| used.contains(&f.0)) {
            let mut fi = Finder { helpers: &helpers, impl_ty: f.impl_ty.clone(), hit: None, failed: &failed, tails: vec![], closure: false };
            tails(&f.block, &mut fi.tails);
            fi.visit_block(&f.block);
            let Some((s0, s1, h, args, ctx)) = fi.hit else { continue };
            let helper = &helpers[&h].f;
            if ctx == Ctx::Named {
                let ps: Vec<String> = helper.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t.pat.to_token_stream().to_string()) } else { None }).collect();
                let (ps_, pe_) = (src.off(s0.start()), src.off(s1.end()));
                let new = format!("|{}| {}({})", ps.join(", "), &src.text[ps_..pe_], ps.join(", "));
                text.replace_range(ps_..pe_, &new);
                changed = true;
                break;
            }
            let times = notes.get(n).map(|v| v.iter().filter(|x| **x == format!("inlined: {}", h)).count()).unwrap_or(0);
            let Some((mut stmts, mut tail)) = expand(helper, &args, f, ctx) else {
                // the call itself, not the `?` or `return` around it
                let mut at = s0.start();
                if ctx == Ctx::Tail {
                    at = call_start(&f.block, s0.start()).unwrap_or(at);
                }
                failed.insert(format!("{}@{}:{}", h, at.line, at.column));
                failed.insert(format!("{}@{}:{}", h, s0.start().line, s0.start().column));
                changed = true;
                break;
            };
            if times > 0 {
                // a second copy binds other names
                let mut b = block(stmts.clone());
                if let Some(t) = &tail {
                    b.stmts.push(Stmt::Expr(t.clone(), None));
                }
                let mut v = rules::Locals(vec![]);
                v.visit_block(&b);
                let outer = introduced(&stmts);
                let mut fr = Fresh(v.0.into_iter().filter(|x| outer.contains(x)).map(|x| (x.clone(), format!("{}_{}", x, times))).collect());
                stmts.iter_mut().for_each(|s| fr.visit_stmt_mut(s));
                if let Some(t) = &mut tail {
                    fr.visit_expr_mut(t);
                }
            }
            let (ps, pe) = (src.off(s0.start()), src.off(s1.end()));
            let body = |v: &[Stmt]| v.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
            let mut ar = Around { at: (s0.start(), s1.end()), hit: None };
            ar.visit_block(&f.block);
            // names the statements would bring into the caller's scope
            let rest = words(f.block.to_token_stream());
            let brought = introduced(&stmts);
            let simple = |e: &Expr| matches!(e, Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Index(_) | Expr::Return(_) | Expr::Macro(_));
            let whole = src.text[ps..pe].starts_with("return");
            let new;
            let (mut rs, mut re) = (ps, pe);
            match ar.hit {
                Some((sp, all, semi)) if (all || !stmts.is_empty()) && brought.iter().all(|x| !rest.contains(x)) && (tail.is_some() || all) => {
                    (rs, re) = (src.off(sp.start()), src.off(sp.end()));
                    let t = match &tail {
                        None => String::new(),
                        Some(e) if all => {
                            let t = e.to_token_stream().to_string();
                            format!("{}{}{}", if whole && !matches!(e, Expr::Return(_)) { "return " } else { "" }, t, if semi { ";" } else { "" })
                        }
                        Some(e) => {
                            let t = e.to_token_stream().to_string();
                            let t = if whole || simple(e) || src.text[pe..re].trim() == ";" { t } else { format!("({})", t) };
                            let t = if whole { format!("return {}", t) } else { t };
                            format!("{}{}{}", &src.text[rs..ps], t, &src.text[pe..re])
                        }
                    };
                    new = format!("{} {}", body(&stmts), t);
                }
                _ => {
                    let t = tail.as_ref().map(|e| e.to_token_stream().to_string()).unwrap_or_default();
                    let t = if stmts.is_empty() {
                        if tail.as_ref().map(|e| simple(e)).unwrap_or(false) { t } else { format!("({})", t) }
                    } else {
                        format!("{{ {} {} }}", body(&stmts), t)
                    };
                    new = if whole { format!("return {}", t) } else { t };
                }
            }
            // lines keep their numbers
            let lost = src.text[rs..re].matches('\n').count();
            text.replace_range(rs..re, &format!("{}{}", new, "\n".repeat(lost)));
            notes.entry(n.clone()).or_default().push(format!("inlined: {}", h));
            done.insert(h);
            changed = true;
            break;
        }
        if !changed {
            break;
        }
    }
    // helpers that are not needed any more
    if let Ok(src) = crate::parse(file, text.clone()) {
        let funs = rules::all_functions(&src.ast);
        let mut called = BTreeSet::new();
        for (_, f) in funs.iter().filter(|f| used.contains(&f.0)) {
            called.extend(words(f.block.to_token_stream()));
        }
        let mut cut: Vec<(usize, usize)> = vec![];
        let mut drop = |attrs: &[syn::Attribute], name: String, short: String, s: (usize, usize)| {
            if done.contains(&name) && !called.contains(&short) && !used.contains(&name) && attrs.iter().all(|a| !a.path().is_ident("test")) {
                cut.push(s);
            }
        };
        for it in &src.ast.items {
            match it {
                syn::Item::Fn(x) => drop(&x.attrs, x.sig.ident.to_string(), x.sig.ident.to_string(), (src.off(it.span().start()), src.off(it.span().end()))),
                syn::Item::Impl(m) if m.trait_.is_none() => {
                    let t = rules::ty_name(&m.self_ty);
                    for i in &m.items {
                        if let syn::ImplItem::Fn(x) = i {
                            drop(&x.attrs, format!("{}::{}", t, x.sig.ident), x.sig.ident.to_string(), (src.off(i.span().start()), src.off(i.span().end())));
                        }
                    }
                }
                _ => {}
            }
        }
        cut.sort();
        for (a, b) in cut.into_iter().rev() {
            let nl = "\n".repeat(text[a..b].matches('\n').count());
            text.replace_range(a..b, &nl);
        }
    }
    (text, notes)
}

fn call_start(b: &Block, at: proc_macro2::LineColumn) -> Option<proc_macro2::LineColumn> {
    struct R(proc_macro2::LineColumn, Option<proc_macro2::LineColumn>);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
            if r.span().start() == self.0 {
                self.1 = r.expr.as_ref().map(|e| e.span().start());
            }
            syn::visit::visit_expr_return(self, r);
        }
    }
    let mut r = R(at, None);
    r.visit_block(b);
    r.1
}
