//! Queries on the syntax tree and the rewriting rules applied to extracted code.
use crate::edits::{Edits, Piece};
use crate::Source;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone)]
pub struct FnRef {
    pub name: String, // Type::method or name
    pub impl_ty: Option<String>,
    pub trait_: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

pub fn ty_name(t: &syn::Type) -> String {
    if let syn::Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            return s.ident.to_string();
        }
    }
    t.to_token_stream().to_string()
}

pub fn all_functions(f: &syn::File) -> Vec<(String, FnRef)> {
    let mut v = vec![];
    for it in &f.items {
        match it {
            syn::Item::Fn(x) if !is_test(&x.attrs) => v.push((
                x.sig.ident.to_string(),
                FnRef { name: x.sig.ident.to_string(), impl_ty: None, trait_: None, sig: x.sig.clone(), block: (*x.block).clone() },
            )),
            syn::Item::Impl(x) if !is_test(&x.attrs) => {
                let t = ty_name(&x.self_ty);
                let tr = x.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                for i in &x.items {
                    if let syn::ImplItem::Fn(m) = i {
                        if is_test(&m.attrs) {
                            continue;
                        }
                        let name = match &tr {
                            Some(tr) => format!("{}@{}::{}", t, tr, m.sig.ident),
                            None => format!("{}::{}", t, m.sig.ident),
                        };
                        v.push((
                            name.clone(),
                            FnRef { name, impl_ty: Some(t.clone()), trait_: tr.clone(), sig: m.sig.clone(), block: m.block.clone() },
                        ));
                    }
                }
            }
            _ => {}
        }
    }
    v
}

/// Expands single-arm `macro_rules!` whose parameters are all `$x:ident`, textually.
pub fn expand_ident_macros(text: &str) -> String {
    let Ok(ast) = syn::parse_file(text) else { return text.to_string() };
    let mut out = text.to_string();
    for it in &ast.items {
        let syn::Item::Macro(m) = it else { continue };
        if !m.mac.path.is_ident("macro_rules") {
            continue;
        }
        let Some(name) = &m.ident else { continue };
        let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        if toks.len() < 4 {
            continue;
        }
        let (TokenTree::Group(pat), TokenTree::Group(body)) = (&toks[0], &toks[3]) else { continue };
        // one arm only
        if toks.len() > 5 {
            continue;
        }
        let pats: Vec<TokenTree> = pat.stream().into_iter().collect();
        let mut params = vec![];
        let mut ok = true;
        let mut i = 0;
        while i < pats.len() {
            match (&pats[i], pats.get(i + 1), pats.get(i + 2), pats.get(i + 3)) {
                (TokenTree::Punct(p), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(k)))
                    if p.as_char() == '$' && c.as_char() == ':' && k == "ident" =>
                {
                    params.push(n.to_string());
                    i += 4;
                    if let Some(TokenTree::Punct(p)) = pats.get(i) {
                        if p.as_char() == ',' {
                            i += 1;
                        }
                    }
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok || params.is_empty() {
            continue;
        }
        let src_of = |sp: proc_macro2::Span| {
            let r = sp.byte_range();
            (r.start, r.end)
        };
        let (bs, be) = src_of(body.span());
        // byte_range counts from the start of the parsed source here
        let b = text.get(bs + 1..be - 1).unwrap_or("").to_string();
        for jt in &ast.items {
            let syn::Item::Macro(inv) = jt else { continue };
            if !inv.mac.path.is_ident(&name.to_string()) {
                continue;
            }
            let args: Vec<String> = inv
                .mac
                .tokens
                .clone()
                .into_iter()
                .filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None })
                .collect();
            if args.len() != params.len() {
                continue;
            }
            let mut e = b.clone();
            // longest parameter names first
            let mut pa: Vec<(String, String)> = params.iter().cloned().zip(args).collect();
            pa.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
            for (p, a) in pa {
                e = e.replace(&format!("${}", p), &a);
            }
            let (s, t) = src_of(inv.span());
            let call = &text[s..t];
            out = out.replacen(call, &e, 1);
        }
    }
    out
}

// ---------------------------------------------------------------- locals

pub struct Locals(pub Vec<String>);
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        // an upper-case identifier pattern is a constant or unit variant
        if !n.chars().next().unwrap().is_uppercase() {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}

pub fn locals_of(f: &FnRef) -> Vec<String> {
    let mut l = Locals(vec![]);
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            l.visit_pat(&t.pat);
        }
    }
    l.visit_block(&f.block);
    l.0
}

/// Map from actual local names to the pinned names the contracts mention.
pub fn align(pinned: &[String], actual: &[String]) -> BTreeMap<String, String> {
    let (n, m) = (pinned.len(), actual.len());
    let mut d = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            d[i][j] = if pinned[i] == actual[j] { d[i + 1][j + 1] + 1 } else { d[i + 1][j].max(d[i][j + 1]) };
        }
    }
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut bad: HashSet<String> = HashSet::new();
    let aset: HashSet<&String> = actual.iter().collect();
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj) = (0, 0);
    let mut flush = |gi: usize, i: usize, gj: usize, j: usize, map: &mut BTreeMap<String, String>| {
        if i - gi == j - gj {
            for k in 0..(i - gi) {
                let (p, a) = (&pinned[gi + k], &actual[gj + k]);
                if aset.contains(p) {
                    continue;
                }
                match map.get(a) {
                    Some(q) if q != p => {
                        bad.insert(a.clone());
                    }
                    _ => {
                        map.insert(a.clone(), p.clone());
                    }
                }
            }
        }
    };
    while i < n && j < m {
        if pinned[i] == actual[j] {
            flush(gi, i, gj, j, &mut map);
            i += 1;
            j += 1;
            gi = i;
            gj = j;
        } else if d[i + 1][j] >= d[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    flush(gi, n, gj, m, &mut map);
    for b in bad {
        map.remove(&b);
    }
    // a name that also keeps its own meaning in the pinned list is not renamed
    let pset: HashSet<&String> = pinned.iter().collect();
    map.retain(|a, _| !pset.contains(a));
    // injective
    let mut seen: HashMap<String, usize> = HashMap::new();
    for v in map.values() {
        *seen.entry(v.clone()).or_default() += 1;
    }
    map.retain(|_, v| seen[v] == 1);
    map
}

struct Rename<'a, 'b> {
    map: &'a BTreeMap<String, String>,
    ed: &'a mut Edits<'b>,
    src: &'a Source,
}

impl<'a, 'b> Rename<'a, 'b> {
    fn ident(&mut self, id: &proc_macro2::Ident) {
        if let Some(n) = self.map.get(&id.to_string()) {
            let s = self.src.off(id.span().start());
            let e = self.src.off(id.span().end());
            self.ed.replace(s, e, vec![Piece::T(n.clone())]);
        }
    }
    fn tokens(&mut self, ts: TokenStream) {
        let mut prev = String::new();
        for t in ts {
            match &t {
                TokenTree::Ident(i) => {
                    if prev != "." && prev != ":" {
                        self.ident(i)
                    }
                    prev = i.to_string();
                }
                TokenTree::Group(g) => {
                    self.tokens(g.stream());
                    prev = String::new();
                }
                TokenTree::Punct(p) => prev = p.as_char().to_string(),
                _ => prev = String::new(),
            }
        }
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for Rename<'a, 'b> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.ident(&p.ident);
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let id = p.path.segments[0].ident.clone();
            self.ident(&id);
        }
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(id) = &f.member {
                if let Some(n) = self.map.get(&id.to_string()) {
                    let s = self.src.off(id.span().start());
                    let e = self.src.off(id.span().end());
                    self.ed.replace(s, e, vec![Piece::T(format!("{}: {}", id, n))]);
                }
            }
        } else {
            self.visit_expr(&f.expr);
        }
    }
    fn visit_field_pat(&mut self, f: &'ast syn::FieldPat) {
        if f.colon_token.is_none() {
            if let (syn::Member::Named(id), syn::Pat::Ident(_)) = (&f.member, &*f.pat) {
                if let Some(n) = self.map.get(&id.to_string()) {
                    let s = self.src.off(f.span().start());
                    let e = self.src.off(f.span().end());
                    let txt = self.src.text[s..e].to_string();
                    let pre = txt.trim_end_matches(&id.to_string()).to_string();
                    self.ed.replace(s, e, vec![Piece::T(format!("{}: {}{}", id, pre, n))]);
                }
                return;
            }
        }
        self.visit_pat(&f.pat);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.tokens(m.tokens.clone());
    }
}

pub fn rename(src: &Source, f: &FnRef, map: &BTreeMap<String, String>, ed: &mut Edits) {
    let mut r = Rename { map, ed, src };
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            r.visit_pat(&t.pat);
        }
    }
    r.visit_block(&f.block);
}

fn rename_tokens(ts: TokenStream, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                out.push_str(map.get(&s).unwrap_or(&s));
                out.push(' ');
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("( ", ") "),
                    proc_macro2::Delimiter::Brace => ("{ ", "} "),
                    proc_macro2::Delimiter::Bracket => ("[ ", "] "),
                    _ => ("", ""),
                };
                out.push_str(a);
                out.push_str(&rename_tokens(g.stream(), map));
                out.push_str(b);
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
    out
}

pub fn norm(ts: TokenStream, map: &BTreeMap<String, String>) -> String {
    rename_tokens(ts, map).trim().to_string()
}

pub fn idents(ts: TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

pub fn norm_str(s: &str) -> Option<String> {
    s.parse::<TokenStream>().ok().map(|t| norm(t, &BTreeMap::new()))
}

// ---------------------------------------------------------------- loops and statements

#[derive(Clone)]
pub struct LoopInfo {
    pub kind: &'static str,
    pub head: usize, // offset of the keyword (after the label)
    pub body_open: usize,
    pub body_close: usize,
    pub stmt_start: usize,
    pub stmt_end: usize,
    pub text: String,
    /// the lower end of the range a `for` runs over
    pub lo: Option<String>,
}

pub struct StmtInfo {
    pub text: String,
    /// just inside the braces of the block the statement is in
    pub block: (usize, usize),
    pub start: usize,
    pub end: usize,
    pub last: bool, // tail expression of its block
}

pub struct Shape<'a> {
    pub src: &'a Source,
    pub map: &'a BTreeMap<String, String>,
    pub loops: Vec<LoopInfo>,
    pub stmts: Vec<StmtInfo>,
}

impl<'a> Shape<'a> {
    fn add(&mut self, kind: &'static str, head: proc_macro2::Span, whole: proc_macro2::Span, b: &syn::Block, text: TokenStream) {
        let o = self.src.off(b.brace_token.span.open().start());
        let c = self.src.off(b.brace_token.span.close().start());
        self.loops.push(LoopInfo {
            kind,
            head: self.src.off(head.start()),
            body_open: o,
            body_close: c,
            stmt_start: self.src.off(whole.start()),
            stmt_end: self.src.off(whole.end()),
            text: norm(text, self.map),
            lo: None,
        });
    }
}

/// an expression that means the same in a specification
fn spec_like(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Paren(p) => spec_like(&p.expr),
        syn::Expr::Field(f) => spec_like(&f.base),
        syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_)) && spec_like(&b.left) && spec_like(&b.right),
        _ => false,
    }
}

impl<'a, 'ast> Visit<'ast> for Shape<'a> {
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.add("for", e.for_token.span, e.span(), &e.body, e.to_token_stream());
        if let syn::Expr::Range(r) = strip(&e.expr) {
            let lo = r.start.as_deref().filter(|x| spec_like(x)).map(|x| norm(x.to_token_stream(), self.map));
            self.loops.last_mut().unwrap().lo = lo;
        }
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.add("while", e.while_token.span, e.span(), &e.body, e.to_token_stream());
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.add("loop", e.loop_token.span, e.span(), &e.body, e.to_token_stream());
        visit::visit_expr_loop(self, e);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let tail = i + 1 == n && matches!(s, syn::Stmt::Expr(_, None));
            self.stmts.push(StmtInfo {
                text: norm(s.to_token_stream(), self.map),
                start: self.src.off(s.span().start()),
                end: self.src.off(s.span().end()),
                block: (self.src.off(b.brace_token.span.open().end()), self.src.off(b.brace_token.span.close().start())),
                last: tail,
            });
            self.visit_stmt(s);
        }
    }
}

// ---------------------------------------------------------------- rewriting rules

pub struct Rewriter<'a, 'b> {
    pub src: &'a Source,
    pub ed: &'a mut Edits<'b>,
    pub notes: Vec<String>,
    pub loop_no: usize,
    pub cloop_no: usize,
    /// the expressions of the collecting closures, in the order of their numbers
    pub cloop_texts: Vec<String>,
    /// enclosing rewritten closures
    pub ctx: Vec<usize>,
    pub cloops: &'a HashMap<(String, usize), String>,
    pub canary: bool,
    pub fn_name: String,
    pub loop_spec: &'a HashMap<usize, String>,
    pub opts: HashSet<String>,
    /// functions that take the memory as an argument: "Type::name" -> by mutable reference?
    pub heap_fns: &'a HashMap<String, bool>,
    /// closure parameters bound to references by a rule, dereferenced where used as operands
    pub refs: Vec<String>,
    /// (variable, from, to): the variable owns memory between these offsets
    pub drop_range: Option<(String, usize, usize)>,
    /// parameter that holds references to the squares of a line
    pub linevec: Option<String>,
}

struct Exits(usize);
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 += 1;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 += 1;
    }
}
pub fn exits(b: &syn::Block) -> usize {
    let mut x = Exits(0);
    x.visit_block(b);
    x.0
}
struct Tries(usize);
impl<'ast> Visit<'ast> for Tries {
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 += 1;
    }
}
struct Moves<'a>(&'a str, &'a str, bool);
impl<'a, 'ast> Visit<'ast> for Moves<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == self.1 && is_ident(&m.receiver, self.0) {
            self.2 = true;
        }
        visit::visit_expr_method_call(self, m);
    }
}

/// offsets between the statement that declares `var` and the one that moves it by calling `.mv(..)` on it,
/// both at the top level of the function, with no `?` in between
pub fn owned_range(src: &Source, b: &syn::Block, var: &str, mv: &str) -> Option<(usize, usize)> {
    let decl = b.stmts.iter().position(|s| {
        matches!(s, syn::Stmt::Local(l) if matches!(&l.pat, syn::Pat::Ident(p) if p.ident == var) && l.init.is_some())
    })?;
    let mut to = None;
    for (i, s) in b.stmts.iter().enumerate().skip(decl + 1) {
        let mut m = Moves(var, mv, false);
        m.visit_stmt(s);
        if m.2 {
            if matches!(s, syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::If(_) | syn::Expr::Match(_), _)) {
                return None;
            }
            to = Some(i);
            break;
        }
        let mut t = Tries(0);
        t.visit_stmt(s);
        if t.0 > 0 {
            return None;
        }
    }
    let to = to?;
    Some((src.off(b.stmts[decl].span().end()), src.off(b.stmts[to].span().start())))
}

/// `unsafe { e }`, `(e)`, `{ e }` -> e
pub fn strip(e: &syn::Expr) -> &syn::Expr {
    let one = |b: &'_ syn::Block| -> bool { b.stmts.len() == 1 && matches!(b.stmts[0], syn::Stmt::Expr(_, None)) };
    match e {
        syn::Expr::Paren(p) => strip(&p.expr),
        syn::Expr::Unsafe(u) if one(&u.block) => match &u.block.stmts[0] {
            syn::Stmt::Expr(x, None) => strip(x),
            _ => e,
        },
        syn::Expr::Block(u) if u.label.is_none() && one(&u.block) => match &u.block.stmts[0] {
            syn::Stmt::Expr(x, None) => strip(x),
            _ => e,
        },
        _ => e,
    }
}

fn last_seg(e: &syn::Expr) -> String {
    match e {
        syn::Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

fn is_ident(e: &syn::Expr, n: &str) -> bool {
    matches!(e, syn::Expr::Path(p) if p.path.is_ident(n))
}

fn method<'e>(e: &'e syn::Expr, name: &str) -> Option<&'e syn::ExprMethodCall> {
    match e {
        syn::Expr::MethodCall(m) if m.method == name => Some(m),
        syn::Expr::Paren(p) => method(&p.expr, name),
        _ => None,
    }
}

/// `x`, `self.x`, `*x`, `&x`: evaluating it again has no effect and gives the same collection
fn is_place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => is_place(&f.base),
        syn::Expr::Paren(p) => is_place(&p.expr),
        syn::Expr::Reference(r) => is_place(&r.expr),
        _ => false,
    }
}

/// stands after the parameters of a closure about whose result nothing is known
pub const NO_CONTRACT: &str = "/*vx_closure*/ ";

/// a truth value computed by comparisons of names, fields and literals: it may stand in a specification
fn predicate_text(e: &syn::Expr) -> bool {
    fn atom(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
            syn::Expr::Paren(p) => atom(&p.expr),
            syn::Expr::Field(f) => atom(&f.base),
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && atom(&u.expr),
            _ => false,
        }
    }
    match e {
        syn::Expr::Paren(p) => predicate_text(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && predicate_text(&u.expr),
        syn::Expr::Binary(b) => {
            use syn::BinOp::*;
            match b.op {
                And(_) | Or(_) => predicate_text(&b.left) && predicate_text(&b.right),
                Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => atom(&b.left) && atom(&b.right),
                _ => false,
            }
        }
        syn::Expr::Macro(m) => m.mac.path.is_ident("matches") && !m.mac.tokens.to_string().contains('('),
        _ => false,
    }
}

/// names, references, closures and the formatting methods listed here
fn pure_text(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.segments.len() == 1,
        syn::Expr::Reference(r) => r.mutability.is_none() && pure_text(&r.expr),
        syn::Expr::Paren(p) => pure_text(&p.expr),
        syn::Expr::Lit(_) => true,
        syn::Expr::Closure(c) => pure_text(&c.body),
        syn::Expr::MethodCall(m) => {
            ["iter", "map", "to_string", "collect", "join", "as_str", "filter", "copied", "cloned"].contains(&m.method.to_string().as_str())
                && pure_text(&m.receiver)
                && m.args.iter().all(pure_text)
        }
        syn::Expr::Macro(m) => m.mac.path.is_ident("format"),
        _ => false,
    }
}

impl<'a, 'b> Rewriter<'a, 'b> {
    /// the closure with its own body as its contract
    fn predicate(&self, c: &syn::ExprClosure) -> Option<Vec<Piece>> {
        if c.inputs.len() != 1 || c.output != syn::ReturnType::Default || !predicate_text(&c.body) {
            return None;
        }
        let body = || self.src_piece(c.body.span());
        let (par, open) = match &c.inputs[0] {
            syn::Pat::Ident(_) | syn::Pat::Type(_) => (vec![self.src_piece(c.inputs[0].span())], String::new()),
            syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Ident(_)) => {
                (vec![Self::t("vx_e")], format!("let {} = *vx_e; ", r.pat.to_token_stream()))
            }
            _ => return None,
        };
        let mut v = vec![Self::t("|")];
        v.extend(par);
        v.push(Self::t(format!("| -> (vx_y: bool) ensures vx_y == ({{ {open}")));
        v.push(body());
        v.push(Self::t(format!(" }}) {{ {open}")));
        v.push(body());
        v.push(Self::t(" }"));
        Some(v)
    }
    pub fn range(&self, s: proc_macro2::Span) -> (usize, usize) {
        (self.src.off(s.start()), self.src.off(s.end()))
    }
    pub fn text(&self, s: proc_macro2::Span) -> String {
        let (a, b) = self.range(s);
        self.src.text[a..b].to_string()
    }
    fn src_piece(&self, s: proc_macro2::Span) -> Piece {
        let (a, b) = self.range(s);
        Piece::S(a, b)
    }
    fn note(&mut self, rule: &str, s: proc_macro2::Span) {
        let t = self.text(s);
        let t: String = t.split_whitespace().collect::<Vec<_>>().join(" ").chars().take(90).collect();
        self.notes.push(format!("{}: {}", rule, t));
    }

    /// for PAT in COLL.iter()[.rev()][.enumerate()]  ==>  for i in 0..COLL.len() { let PAT = &COLL[i]; ... }
    fn slice_for(&mut self, e: &syn::ExprForLoop, no: usize) -> bool {
        let mut it: &syn::Expr = &e.expr;
        let mut enumerate = false;
        let mut rev = false;
        // .filter(|&&X| COND)
        let mut filter: Option<(&syn::Pat, &syn::Expr)> = None;
        if let Some(m) = method(it, "filter") {
            let [syn::Expr::Closure(c)] = m.args.iter().collect::<Vec<_>>()[..] else { return false };
            let [syn::Pat::Reference(p)] = c.inputs.iter().collect::<Vec<_>>()[..] else { return false };
            let syn::Pat::Reference(p) = &*p.pat else { return false };
            filter = Some((&p.pat, &c.body));
            it = &m.receiver;
        }
        if let Some(m) = method(it, "enumerate") {
            if filter.is_some() {
                return false;
            }
            enumerate = true;
            it = &m.receiver;
        }
        if let Some(m) = method(it, "rev") {
            rev = true;
            it = &m.receiver;
        }
        let coll: &syn::Expr = if let Some(m) = method(it, "iter") {
            &m.receiver
        } else if self.opts.contains("slices") && matches!(it, syn::Expr::Path(p) if p.path.get_ident().is_some()) {
            it
        } else if let (syn::Expr::Reference(r), false) = (it, enumerate || rev) {
            if r.mutability.is_some() {
                return false;
            }
            &r.expr
        } else {
            return false;
        };
        if !is_place(coll) {
            return false;
        }
        let (ipat, vpat): (Option<&syn::Pat>, &syn::Pat) = if enumerate {
            match &*e.pat {
                syn::Pat::Tuple(t) if t.elems.len() == 2 => (Some(&t.elems[0]), &t.elems[1]),
                _ => return false,
            }
        } else {
            (None, &e.pat)
        };
        let ctext = self.src_piece(coll.span());
        let ivar = format!("vx_i{}", no);
        let (s, _) = self.range(e.for_token.span);
        let (_, hend) = self.range(e.expr.span());
        let (bo, _) = self.range(e.body.brace_token.span.open());
        // the index variable is the source's own when it is a plain identifier
        let (loopvar, extra): (Vec<Piece>, Vec<Piece>) = match ipat {
            Some(p @ syn::Pat::Ident(pi)) if pi.by_ref.is_none() && pi.mutability.is_none() && !rev => {
                (vec![self.src_piece(p.span())], vec![])
            }
            Some(p) => (
                vec![Piece::T(ivar.clone())],
                vec![Piece::T(" let ".into()), self.src_piece(p.span()), Piece::T(format!(" = {};", ivar))],
            ),
            None => (vec![Piece::T(ivar.clone())], vec![]),
        };
        let mut head = vec![Piece::T("for ".into())];
        head.extend(loopvar.clone());
        head.push(Piece::T(" in 0..".into()));
        head.push(ctext.clone());
        head.push(Piece::T(".len()".into()));
        self.ed.replace(s, hend, head);
        let mut b: Vec<Piece> = vec![Piece::T("{".into())];
        b.extend(extra);
        let idx = |b: &mut Vec<Piece>| {
            b.push(ctext.clone());
            b.push(Piece::T("[".into()));
            if rev {
                b.push(ctext.clone());
                b.push(Piece::T(".len() - 1 - ".into()));
            }
            b.extend(loopvar.clone());
            b.push(Piece::T("]".into()));
        };
        let mut outer: Option<Vec<Piece>> = None;
        if let Some((p, cond)) = filter {
            b.push(Piece::T(" let ".into()));
            b.push(self.src_piece(p.span()));
            b.push(Piece::T(" = ".into()));
            idx(&mut b);
            b.push(Piece::T(";".into()));
            outer = Some(std::mem::replace(&mut b, vec![Piece::T(" if ".into()), self.src_piece(cond.span()), Piece::T(" {".into())]));
        }
        match vpat {
            syn::Pat::Reference(r) => {
                b.push(Piece::T(" let ".into()));
                b.push(self.src_piece(r.pat.span()));
                b.push(Piece::T(" = ".into()));
                idx(&mut b);
                b.push(Piece::T(";".into()));
            }
            syn::Pat::Wild(_) => {}
            p => {
                b.push(Piece::T(" let ".into()));
                b.push(self.src_piece(p.span()));
                b.push(Piece::T(" = &".into()));
                idx(&mut b);
                b.push(Piece::T(";".into()));
            }
        }
        if let Some(o) = outer {
            // COND after the text at the start of the body
            self.ed.replace(bo, bo + 1, o);
            self.ed.list.push(crate::edits::Edit { start: bo + 1, end: bo + 1, prio: 9, pieces: b });
            let (bc, _) = self.range(e.body.brace_token.span.close());
            self.ed.insert(bc, 0, "}");
        } else {
            self.ed.replace(bo, bo + 1, b);
        }
        self.note("for-over-slice-by-index", e.expr.span());
        true
    }

    /// in a `for` body:  if C { A; continue; } REST  ==>  if C { A; } else { REST }
    fn structure_continue(&mut self, e: &syn::ExprForLoop) {
        let (bc, _) = self.range(e.body.brace_token.span.close());
        for st in &e.body.stmts {
            let syn::Stmt::Expr(syn::Expr::If(i), _) = st else { continue };
            if i.else_branch.is_some() {
                continue;
            }
            let Some(last) = i.then_branch.stmts.last() else { continue };
            let syn::Stmt::Expr(syn::Expr::Continue(c), _) = last else { continue };
            let own = match (&c.label, &e.label) {
                (None, _) => true,
                (Some(l), Some(m)) => l.ident == m.name.ident,
                _ => false,
            };
            if !own {
                continue;
            }
            let (s, t) = self.range(last.span());
            self.ed.replace(s, t, vec![]);
            let (_, after) = self.range(st.span());
            self.ed.insert(after, 1, " else {");
            self.ed.insert(bc, 3, "}");
            self.note("continue-to-else", i.cond.span());
        }
    }

    /// for PAT in V.iter_mut().enumerate().filter_map(|(I, M)| Some((I, take(M)?))) B
    ///   ==>  a while over the indices that takes each entry and skips the empty ones
    fn take_for(&mut self, e: &syn::ExprForLoop, no: usize) -> bool {
        let Some(fm) = method(&e.expr, "filter_map") else { return false };
        let [syn::Expr::Closure(c)] = fm.args.iter().collect::<Vec<_>>()[..] else { return false };
        let Some(en) = method(&fm.receiver, "enumerate") else { return false };
        let Some(im) = method(&en.receiver, "iter_mut") else { return false };
        if !is_place(&im.receiver) || c.inputs.len() != 1 {
            return false;
        }
        let p = c.inputs[0].to_token_stream().to_string();
        let b = strip(&c.body).to_token_stream().to_string();
        let w: Vec<&str> = p.trim_start_matches('(').trim_end_matches(')').split(',').map(|x| x.trim()).collect();
        let [i, m] = w[..] else { return false };
        if b != format!("Some (({i} , take ({m}) ?))") {
            return false;
        }
        let (s, t) = self.range(e.span());
        let (bo, _) = self.range(e.body.brace_token.span.open());
        let (bc, _) = self.range(e.body.brace_token.span.close());
        let label = e.label.as_ref().map(|l| format!("'{}: ", l.name.ident)).unwrap_or_default();
        let cont = e.label.as_ref().map(|l| format!("continue '{}", l.name.ident)).unwrap_or("continue".into());
        let spec = self.loop_spec.get(&no).cloned().unwrap_or_default();
        let coll = self.src_piece(im.receiver.span());
        self.ed.replace(s, t, vec![
            Self::t(format!("{{ let mut vx_i{no}: usize = 0;\n{label}while vx_i{no} < ")), coll.clone(),
            Self::t(format!(".len()\n{spec}{{\nlet vx_c{no} = vx_i{no}; vx_i{no} = vx_i{no} + 1;\nlet ")), self.src_piece(e.pat.span()),
            Self::t(" = (match vx_take_at(&mut ".to_string()), coll,
            Self::t(format!(", vx_c{no}) {{ Some(vx_v) => (vx_c{no}, vx_v), None => {{ {cont}; }} }});\n")),
            Piece::S(bo + 1, bc), Self::t("} }"),
        ]);
        self.note("take-each-entry-loop", e.expr.span());
        true
    }

    /// the parts of `G[A..B].iter_mut().skip(A).step_by(S).collect()`: (G, from, to, step)
    fn lane<'e>(e: &'e syn::Expr) -> Option<(&'e syn::Expr, Option<&'e syn::Expr>, Option<&'e syn::Expr>, Option<&'e syn::Expr>)> {
        let c = method(e, "collect")?;
        let mut it: &syn::Expr = &c.receiver;
        let (mut from, mut to, mut step) = (None, None, None);
        if let Some(m) = method(it, "step_by") {
            step = m.args.first();
            it = &m.receiver;
        }
        if let Some(m) = method(it, "skip") {
            from = m.args.first();
            it = &m.receiver;
        }
        let m = method(it, "iter_mut")?;
        let g = strip(&m.receiver);
        match g {
            syn::Expr::Index(i) => {
                let syn::Expr::Range(r) = strip(&i.index) else { return None };
                if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) || from.is_some() || !is_place(&i.expr) {
                    return None;
                }
                from = r.start.as_deref();
                to = r.end.as_deref();
                Some((&i.expr, from, to, step))
            }
            g if is_place(g) => Some((g, from, to, step)),
            _ => None,
        }
    }

    /// M.f(G[A..B].iter_mut().step_by(S).collect())  ==>  f on a copy of these squares, which is put back
    fn lane_call(&mut self, e: &syn::ExprMethodCall) -> bool {
        if e.args.len() != 1 || e.method != "right_left" {
            return false;
        }
        let Some((g, from, to, step)) = Self::lane(&e.args[0]) else { return false };
        let (s, t) = self.range(e.span());
        let (_, m_end) = self.range(e.method.span());
        let gp = self.src_piece(g.span());
        let mut v = vec![Self::t("{ let vx_from = ")];
        v.push(from.map(|x| self.src_piece(x.span())).unwrap_or(Self::t("0")));
        v.push(Self::t("; let vx_to = "));
        match to {
            Some(x) => v.push(self.src_piece(x.span())),
            None => v.extend([gp.clone(), Self::t(".len()")]),
        }
        v.push(Self::t("; let vx_step = "));
        v.push(step.map(|x| self.src_piece(x.span())).unwrap_or(Self::t("1")));
        v.extend([Self::t("; let mut vx_line = vx_get(&*"), gp.clone(), Self::t(", vx_from, vx_to, vx_step); let vx_r = "), Piece::S(s, m_end), Self::t("(&mut vx_line); vx_put(&mut *"), gp, Self::t(", vx_from, vx_to, vx_step, &vx_line); vx_r }")]);
        self.ed.replace(s, t, v);
        self.note("line-copied-in-and-out", e.span());
        self.visit_expr(&e.receiver);
        for x in [from, to, step].into_iter().flatten() {
            self.visit_expr(x);
        }
        true
    }

    /// X.iter().position(|P| COND)  ==>  a loop that stops at the first
    fn position(&mut self, e: &syn::ExprMethodCall) -> bool {
        if e.method != "position" || e.args.len() != 1 {
            return false;
        }
        let Some(it) = method(&e.receiver, "iter") else { return false };
        let syn::Expr::Closure(c) = &e.args[0] else { return false };
        if !is_place(&it.receiver) || c.inputs.len() != 1 {
            return false;
        }
        let n = self.cloop_no;
        self.cloop_no += 1;
        self.cloop_texts.push(norm(e.to_token_stream(), &BTreeMap::new()));
        let get = |s: &Self, k: &str| s.cloops.get(&(k.to_string(), n)).cloned().unwrap_or_default();
        let (s, t) = self.range(e.span());
        let x = self.src_piece(it.receiver.span());
        let (byval, pat) = match &c.inputs[0] {
            syn::Pat::Reference(r) => (true, r.pat.span()),
            p => (false, p.span()),
        };
        let mut v = vec![Self::t(format!("{{ let mut vx_out{n}: Option<usize> = None; let mut vx_n{n}: usize = 0;\n{}while vx_n{n} < ", get(self, "cloopbefore"))), x.clone(),
            Self::t(format!(".len()\n{}{{\n{}", get(self, "cloop"), get(self, "cloopstart")))];
        if self.canary {
            v.push(Self::t(format!("proof {{ assert(vx_reach({})); }} // canary {} closure{}\n", 100 + n, self.fn_name, n)));
        }
        v.extend([Self::t("let "), self.src_piece(pat), Self::t(if byval { " = " } else { " = &" }), x, Self::t(format!("[vx_n{n}]; if ")), self.src_piece(c.body.span()),
            Self::t(format!(" {{ vx_out{n} = Some(vx_n{n}); break; }}\nvx_n{n} = vx_n{n} + 1;\n{}}}\n{}vx_out{n} }}", get(self, "cloopend"), get(self, "cloopafter")))]);
        self.ed.replace(s, t, v);
        self.note("position-to-loop", e.span());
        self.visit_expr(&it.receiver);
        self.visit_expr(&c.body);
        true
    }

    /// for P in [A, B, ..] with constant entries  ==>  for i in 0..n { let P = the i-th; .. }
    fn array_for(&mut self, e: &syn::ExprForLoop, no: usize) -> bool {
        let syn::Expr::Array(a) = &*e.expr else { return false };
        if a.elems.is_empty() || !a.elems.iter().all(|x| matches!(x, syn::Expr::Path(p) if p.path.segments.len() > 1) || matches!(x, syn::Expr::Lit(_))) {
            return false;
        }
        let (s, _) = self.range(e.for_token.span);
        let (_, hend) = self.range(e.expr.span());
        let (bo, _) = self.range(e.body.brace_token.span.open());
        if e.label.is_some() {
            return false;
        }
        // the entries as a ghost sequence, known throughout
        let mut h = vec![Self::t(format!("let ghost vx_arr{no} = seq!["))];
        for x in a.elems.iter() {
            h.push(self.src_piece(x.span()));
            h.push(Self::t(", "));
        }
        h.push(Self::t(format!("];\n#[verifier::loop_isolation(false)]\nfor vx_i{no} in 0..{}usize", a.elems.len())));
        self.ed.replace(s, hend, h);
        let mut b = vec![Self::t("{ let "), self.src_piece(e.pat.span()), Self::t(" = ")];
        let k = a.elems.len();
        for (i, x) in a.elems.iter().enumerate() {
            if i + 1 < k {
                b.push(Self::t(format!("if vx_i{no} == {i} {{ ")));
                b.push(self.src_piece(x.span()));
                b.push(Self::t(" } else "));
            } else {
                b.push(Self::t("{ "));
                b.push(self.src_piece(x.span()));
                b.push(Self::t(" };"));
            }
        }
        self.ed.replace(bo, bo + 1, b);
        self.note("for-over-array", e.expr.span());
        true
    }

    fn heap(&self) -> bool {
        self.opts.contains("heap") || self.opts.contains("heapref") || self.opts.contains("noheap")
    }
    fn t(s: impl Into<String>) -> Piece {
        Piece::T(s.into())
    }

    /// the pointer of `(*E).f` or `*E`
    fn deref<'e>(e: &'e syn::Expr) -> Option<&'e syn::Expr> {
        match strip(e) {
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => Some(&u.expr),
            _ => None,
        }
    }
    fn deref_field<'e>(e: &'e syn::Expr) -> Option<(&'e syn::Expr, String)> {
        match strip(e) {
            syn::Expr::Field(f) => {
                let p = Self::deref(&f.base)?;
                match &f.member {
                    syn::Member::Named(n) => Some((p, n.to_string())),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// `Node::iter_DIR(E)` with any number of `.skip(1)`: (iterator expression, skips)
    fn node_iter<'e>(&self, e: &'e syn::Expr) -> Option<(&'e syn::Expr, usize)> {
        let e = strip(e);
        match e {
            syn::Expr::Call(c) => {
                let n = last_seg(&c.func);
                if n.starts_with("iter_") && c.args.len() == 1 {
                    Some((e, 0))
                } else {
                    None
                }
            }
            syn::Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 => {
                if m.args[0].to_token_stream().to_string() != "1" {
                    return None;
                }
                let (i, k) = self.node_iter(&m.receiver)?;
                Some((i, k + 1))
            }
            _ => None,
        }
    }

    /// for P in Node::iter_d(E)[.skip(1)] B  ==>  loop over `next` of the (expanded) iterator
    fn node_for(&mut self, e: &syn::ExprForLoop, no: usize) -> bool {
        let Some((it, skips)) = self.node_iter(&e.expr) else { return false };
        let (s, t) = self.range(e.span());
        let (bo, _) = self.range(e.body.brace_token.span.open());
        let (bc, _) = self.range(e.body.brace_token.span.close());
        let label = e.label.as_ref().map(|l| format!("'{}: ", l.name.ident)).unwrap_or_default();
        let spec = self.loop_spec.get(&no).cloned().unwrap_or_default();
        let mut v = vec![Self::t(format!("{{ let mut vx_it{no} = ")), self.src_piece(it.span()), Self::t("; ")];
        for _ in 0..skips {
            v.push(Self::t(format!("let _ = vx_it{no}.next(&*vx_h); ")));
        }
        v.push(Self::t(format!("{label}loop\n{spec}{{\nlet ")));
        v.push(self.src_piece(e.pat.span()));
        v.push(Self::t(format!(" = match vx_it{no}.next(&*vx_h) {{ Some(vx_v) => vx_v, None => {{ break; }} }};\n")));
        v.push(Piece::S(bo + 1, bc));
        v.push(Self::t("} }"));
        self.ed.replace(s, t, v);
        self.note("node-iterator-loop", e.expr.span());
        true
    }

    /// Node::iter_d(E).skip(1).min_by(|A, B| CMP)  ==>  a loop keeping the first smallest
    fn min_by(&mut self, e: &syn::ExprMethodCall) -> bool {
        if e.method != "min_by" || e.args.len() != 1 {
            return false;
        }
        let Some((it, skips)) = self.node_iter(&e.receiver) else { return false };
        let syn::Expr::Closure(c) = &e.args[0] else { return false };
        if c.inputs.len() != 2 {
            return false;
        }
        let n = self.cloop_no;
        self.cloop_no += 1;
        self.cloop_texts.push(norm(e.to_token_stream(), &BTreeMap::new()));
        let get = |s: &Self, k: &str| s.cloops.get(&(k.to_string(), n)).cloned().unwrap_or_default();
        let (s, t) = self.range(e.span());
        let mut v = vec![Self::t(format!("{{ let mut vx_src{n} = ")), self.src_piece(it.span()), Self::t("; ")];
        for _ in 0..skips {
            v.push(Self::t(format!("let _ = vx_src{n}.next(&*vx_h); ")));
        }
        v.push(Self::t(format!("let mut vx_out{n}: Option<Ptr> = None;\n{}loop\n{}{{\n", get(self, "cloopbefore"), get(self, "cloop"))));
        v.push(Self::t(format!("let vx_x = match vx_src{n}.next(&*vx_h) {{ Some(vx_v) => vx_v, None => {{ break; }} }};\n{}", get(self, "cloopstart"))));
        if self.canary {
            v.push(Self::t(format!("proof {{ assert(vx_reach({})); }} // canary {} closure{}\n", 100 + n, self.fn_name, n)));
        }
        v.push(Self::t(format!("vx_out{n} = match vx_out{n} {{ None => Some(vx_x), Some(vx_b) => {{ let ")));
        v.push(self.src_piece(c.inputs[0].span()));
        v.push(Self::t(" = &vx_b; let "));
        v.push(self.src_piece(c.inputs[1].span()));
        v.push(Self::t(" = &vx_x; match "));
        v.push(self.src_piece(c.body.span()));
        v.push(Self::t(format!(" {{ std::cmp::Ordering::Greater => Some(vx_x), _ => Some(vx_b) }} }} }};\n{}}}\n{}vx_out{n} }}", get(self, "cloopend"), get(self, "cloopafter"))));
        self.ed.replace(s, t, v);
        self.note("min_by-to-loop", e.span());
        self.visit_expr(it);
        self.visit_expr(&c.body);
        true
    }

    /// SRC.map(|P| B).collect()  ==>  a while loop that pushes; `?` and `return` in B leave the loop with the error
    fn collect(&mut self, e: &syn::ExprMethodCall) -> bool {
        if e.method != "collect" || !e.args.is_empty() {
            return false;
        }
        let Some(m) = method(&e.receiver, "map") else { return false };
        let [syn::Expr::Closure(c)] = m.args.iter().collect::<Vec<_>>()[..] else { return false };
        if c.inputs.len() != 1 {
            return false;
        }
        // Result<Vec<T>, E> or a plain Vec
        let mut types: Option<(String, String)> = None;
        if let Some(t) = &e.turbofish {
            let [syn::GenericArgument::Type(syn::Type::Path(p))] = t.args.iter().collect::<Vec<_>>()[..] else { return false };
            let seg = p.path.segments.last().unwrap();
            let args: Vec<syn::Type> = match &seg.arguments {
                syn::PathArguments::AngleBracketed(a) => {
                    a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect()
                }
                _ => return false,
            };
            if seg.ident == "Result" && args.len() == 2 {
                types = Some((args[0].to_token_stream().to_string(), args[1].to_token_stream().to_string()));
            } else if seg.ident != "Vec" {
                return false;
            }
        }
        let n = self.cloop_no;
        // `|&x|`: the element itself
        let (byval, pat) = match &c.inputs[0] {
            syn::Pat::Reference(r) => (true, r.pat.span()),
            p => (false, p.span()),
        };
        if byval && method(&m.receiver, "iter").is_none() {
            return false;
        }
        // source of the elements
        let mut src: Vec<Piece> = vec![];
        let len: Vec<Piece>;
        let elem: Vec<Piece>;
        if let Some(s) = method(&m.receiver, "chars") {
            src = vec![Piece::T(format!("let vx_src{n} = vx_chars(")), self.src_piece(s.receiver.span()), Piece::T("); ".into())];
            len = vec![Piece::T(format!("vx_src{n}.len()"))];
            elem = vec![Piece::T(format!("vx_src{n}[vx_n{n}]"))];
        } else if let Some(s) = method(&m.receiver, "split") {
            if s.args.len() != 1 {
                return false;
            }
            src = vec![
                Piece::T(format!("let vx_src{n} = vx_split(")),
                self.src_piece(s.receiver.span()),
                Piece::T(", ".into()),
                self.src_piece(s.args[0].span()),
                Piece::T("); ".into()),
            ];
            len = vec![Piece::T(format!("vx_src{n}.len()"))];
            elem = vec![Piece::T(format!("vx_src{n}[vx_n{n}]"))];
        } else if let Some(s) = method(&m.receiver, "iter") {
            let p = if is_place(&s.receiver) {
                self.src_piece(s.receiver.span())
            } else {
                // evaluated once
                src = vec![Piece::T(format!("let vx_src{n} = ")), self.src_piece(s.receiver.span()), Piece::T("; ".into())];
                Piece::T(format!("vx_src{n}"))
            };
            len = vec![p.clone(), Piece::T(".len()".into())];
            elem = vec![Piece::T(if byval { "".into() } else { "&".into() }), p, Piece::T(format!("[vx_n{n}]"))];
        } else if let Some(s) = method(&m.receiver, "into_iter").or(["copied", "cloned"].iter().find_map(|w| method(&m.receiver, w)).and_then(|x| method(&x.receiver, "iter"))) {
            // the elements themselves
            if !is_place(&s.receiver) {
                return false;
            }
            let p = self.src_piece(s.receiver.span());
            len = vec![p.clone(), Piece::T(".len()".into())];
            elem = vec![p, Piece::T(format!("[vx_n{n}]"))];
        } else {
            return false;
        }
        self.cloop_no += 1;
        self.cloop_texts.push(norm(e.to_token_stream(), &BTreeMap::new()));
        let get = |s: &Self, k: &str| s.cloops.get(&(k.to_string(), n)).cloned().unwrap_or_default();
        let mut b: Vec<Piece> = vec![Piece::T("{ ".into())];
        b.extend(src);
        match &types {
            Some((t, er)) => b.push(Piece::T(format!("let mut vx_out{n}: {t} = Vec::new(); let mut vx_err{n}: Option<{er}> = None; "))),
            None => {
                // `opt vecof N TYPE`: the invariant needs the type of the elements
                let t = self.opts.iter().filter_map(|o| o.strip_prefix("vecof ")).filter_map(|o| o.split_once(' ')).find(|o| o.0 == n.to_string()).map(|o| format!(": Vec<{}>", o.1)).unwrap_or_default();
                b.push(Piece::T(format!("let mut vx_out{n}{t} = Vec::new(); ")))
            }
        }
        b.push(Piece::T(format!("let mut vx_n{n}: usize = 0;\n{}", get(self, "cloopbefore"))));
        b.push(Piece::T(format!("'vx_l{n}: while vx_n{n} < ")));
        b.extend(len);
        b.push(Piece::T(format!("\n{}{{\n{}", get(self, "cloop"), get(self, "cloopstart"))));
        if self.canary {
            b.push(Piece::T(format!("proof {{ assert(vx_reach({})); }} // canary {} closure{}\n", 100 + n, self.fn_name, n)));
        }
        b.push(Piece::T("let ".into()));
        b.push(self.src_piece(pat));
        b.push(Piece::T(" = ".into()));
        b.extend(elem);
        b.push(Piece::T(format!("; vx_n{n} = vx_n{n} + 1;\nlet vx_r{n} = ")));
        b.push(self.src_piece(c.body.span()));
        if types.is_some() {
            b.push(Piece::T(format!(
                ";\nmatch vx_r{n} {{ Ok(vx_v) => {{ vx_out{n}.push(vx_v); }} Err(vx_e) => {{ vx_err{n} = Some(vx_e); break 'vx_l{n}; }} }}\n{}}}\n{}match vx_err{n} {{ Some(vx_e) => Err(vx_e), None => Ok(vx_out{n}) }} }}",
                get(self, "cloopend"), get(self, "cloopafter")
            )));
        } else {
            b.push(Piece::T(format!(";\nvx_out{n}.push(vx_r{n});\n{}}}\n{}vx_out{n} }}", get(self, "cloopend"), get(self, "cloopafter"))));
        }
        let (s, t) = self.range(e.span());
        self.ed.replace(s, t, b);
        self.note("collect-to-loop", e.span());
        self.visit_expr(&m.receiver);
        let isref = method(&m.receiver, "iter").is_some() && !byval;
        if isref {
            self.refs.push(c.inputs[0].to_token_stream().to_string());
        }
        if types.is_some() {
            self.ctx.push(n);
            self.visit_expr(&c.body);
            self.ctx.pop();
        } else {
            self.visit_expr(&c.body);
        }
        if isref {
            self.refs.pop();
        }
        true
    }

    pub fn push_spec(&mut self, no: usize, at: usize) {
        if let Some(t) = self.loop_spec.get(&no) {
            self.ed.insert(at, 10, format!("\n{}\n", t.trim_end()));
        }
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for Rewriter<'a, 'b> {
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let no = self.loop_no;
        self.loop_no += 1;
        if self.heap() && self.node_for(e, no) {
            visit::visit_expr_for_loop(self, e);
            return;
        }
        if self.take_for(e, no) {
            self.visit_block(&e.body);
            return;
        }
        let (bo, _) = self.range(e.body.brace_token.span.open());
        self.push_spec(no, bo);
        self.structure_continue(e);
        if !self.slice_for(e, no) && !self.array_for(e, no) {
            if method(&e.expr, "chars").is_some() {
                let (s, _) = self.range(e.expr.span());
                self.ed.insert(s, 0, format!("vx_it{}: ", no));
            }
        }
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let no = self.loop_no;
        self.loop_no += 1;
        let (bo, _) = self.range(e.body.brace_token.span.open());
        self.push_spec(no, bo);
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let no = self.loop_no;
        self.loop_no += 1;
        let (bo, _) = self.range(e.body.brace_token.span.open());
        self.push_spec(no, bo);
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        // a closure that no other rule has taken up: a predicate is its own contract, anything else has none
        let (s, t) = self.range(c.span());
        let v = match self.predicate(c) {
            Some(v) => v,
            None => {
                let (_, bar) = self.range(c.or2_token.span());
                vec![Piece::S(s, bar), Self::t(NO_CONTRACT), self.src_piece(c.body.span())]
            }
        };
        self.ed.replace(s, t, v);
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        if !self.heap() && self.linevec.is_none() {
            let word = e.method.to_string();
            let args: Vec<&syn::Expr> = e.args.iter().collect();
            match (word.as_str(), &args[..]) {
                ("any" | "all", [syn::Expr::Closure(c)]) => {
                    if let (Some(m), Some(v)) = (method(&e.receiver, "iter").filter(|m| m.args.is_empty() && is_place(&m.receiver)), self.predicate(c)) {
                        let (s, t) = self.range(e.span());
                        let mut w = vec![Self::t(format!("vx_{}(&", word)), self.src_piece(m.receiver.span()), Self::t(", ")];
                        w.extend(v);
                        w.push(Self::t(")"));
                        self.ed.replace(s, t, w);
                        self.note("shim-call", e.span());
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
                ("contains", [a @ syn::Expr::Reference(_)]) if is_place(&e.receiver) => {
                    let (s, t) = self.range(e.span());
                    let w = vec![Self::t("vx_contains(&"), self.src_piece(e.receiver.span()), Self::t(", "), self.src_piece(a.span()), Self::t(")")];
                    self.ed.replace(s, t, w);
                    self.note("shim-call", e.span());
                    self.visit_expr(a);
                    return;
                }
                _ => {}
            }
        }
        if self.lane_call(e) || self.position(e) || self.collect(e) {
            return;
        }
        if self.opts.contains("squares") && is_place(&e.receiver) {
            let shim = match (e.method.to_string().as_str(), e.args.len()) {
                ("to_vec", 0) => Some("vx_to_vec(&*"),
                ("clone_from_slice", 1) => Some("vx_copy(&mut *"),
                _ => None,
            };
            if let Some(f) = shim {
                let (s, t) = self.range(e.span());
                let mut v = vec![Self::t(f), self.src_piece(e.receiver.span())];
                for a in &e.args {
                    v.push(Self::t(", "));
                    v.push(self.src_piece(a.span()));
                }
                v.push(Self::t(")"));
                self.ed.replace(s, t, v);
                self.note("shim-call", e.span());
                visit::visit_expr_method_call(self, e);
                return;
            }
        }
        if self.heap() && self.min_by(e) {
            return;
        }
        let name = e.method.to_string();
        if name == "write_to" && e.args.len() == 2 && self.opts.contains("write-to") {
            // IMG.write_to(&mut Cursor::new(&mut OUT), FORMAT)
            if let Some(out) = cursor_over(&e.args[0]) {
                let (s, t) = self.range(e.span());
                let (x, f) = (self.src_piece(e.receiver.span()), self.src_piece(e.args[1].span()));
                self.ed.replace(s, t, vec![Self::t("vx_write_to("), x, Self::t(", &mut "), self.src_piece(out.span()), Self::t(", "), f, Self::t(")")]);
                self.note("shim-call", e.span());
                self.visit_expr(&e.receiver);
                return;
            }
        }
        if let Some(v) = self.linevec.clone() {
            if name == "iter" && e.args.is_empty() && is_ident(&e.receiver, &v) {
                let (s, t) = self.range(e.span());
                let x = self.src_piece(e.receiver.span());
                self.ed.replace(s, t, vec![Self::t("vx_line(&*"), x, Self::t(")")]);
                self.note("line-iterator", e.span());
                self.visit_expr(&e.receiver);
                return;
            }
        }
        if name == "extend" && e.args.len() == 1 && is_place(&e.receiver) {
            // X.extend(V.into_iter()), V a vec![..]
            let v = match method(&e.args[0], "into_iter") {
                Some(m) => strip(&m.receiver),
                None => strip(&e.args[0]),
            };
            if matches!(v, syn::Expr::Macro(m) if m.mac.path.is_ident("vec")) {
                let (s, t) = self.range(e.span());
                let (x, v) = (self.src_piece(e.receiver.span()), self.src_piece(v.span()));
                self.ed.replace(s, t, vec![Self::t("{ let mut vx_v = "), v, Self::t("; "), x, Self::t(".append(&mut vx_v); }")]);
                self.note("extend-to-append", e.span());
                self.visit_expr(&e.receiver);
                return;
            }
        }
        if self.opts.contains("slices") && name == "map" {
            // X.iter().map(|c| c.iter()) : the sequence of slices of X
            if let (Some(i), [syn::Expr::Closure(c)]) = (method(&e.receiver, "iter"), &e.args.iter().collect::<Vec<_>>()[..]) {
                let ok = c.inputs.len() == 1 && c.body.to_token_stream().to_string() == format!("{} . iter ()", c.inputs[0].to_token_stream());
                if ok {
                    let (s, t) = self.range(e.span());
                    let x = self.src_piece(i.receiver.span());
                    self.ed.replace(s, t, vec![Self::t("&vx_slices(&"), x, Self::t(")")]);
                    self.note("iterator-of-slices", e.span());
                    self.visit_expr(&i.receiver);
                    return;
                }
            }
        }
        if name == "sort_unstable" && e.args.is_empty() && is_place(&e.receiver) {
            let (s, t) = self.range(e.span());
            let x = self.src_piece(e.receiver.span());
            self.ed.replace(s, t, vec![Self::t("vx_sort_unstable(&mut "), x, Self::t(")")]);
            self.note("shim-call", e.span());
        }
        if self.heap() && name == "is_null" && e.args.is_empty() {
            let (s, t) = self.range(e.span());
            let x = self.src_piece(e.receiver.span());
            self.ed.replace(s, t, vec![Self::t("("), x, Self::t(" == 0)")]);
            self.visit_expr(&e.receiver);
            return;
        }
        if self.heap() {
            let var = match &*e.receiver {
                syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
                _ => String::new(),
            };
            let ty = if var == "self" {
                self.fn_name.split("::").next().unwrap_or("").split('@').next().unwrap_or("").to_string()
            } else {
                self.opts.iter().filter_map(|o| o.strip_prefix("heapvar ")).filter_map(|o| o.split_once(' ')).find(|o| o.0 == var).map(|o| o.1.to_string()).unwrap_or_default()
            };
            if let Some(m) = self.heap_fns.get(&format!("{}::{}", ty, name)) {
                let (_, t) = self.range(e.span());
                let sep = if e.args.is_empty() { "" } else { ", " };
                let a = if *m { "vx_h" } else { "&*vx_h" };
                self.ed.replace(t - 1, t, vec![Self::t(format!("{sep}{a})"))]);
                self.note("memory-argument", e.span());
            }
        }
        let (s, t) = self.range(e.span());
        let recv = self.src_piece(e.receiver.span());
        let closure = match e.args.first() {
            Some(syn::Expr::Closure(c)) if e.args.len() == 1 => Some(c),
            _ => None,
        };
        let opt = |o: &str| self.opts.contains(o);
        if name == "parse" && e.turbofish.as_ref().is_some_and(|t| t.to_token_stream().to_string().contains("usize")) {
            self.ed.replace(s, t, vec![Piece::T("vx_parse_usize(".into()), recv, Piece::T(")".into())]);
            self.note("shim-call", e.span());
        } else if name == "into" && e.args.is_empty() && opt("str-into") {
            self.ed.replace(s, t, vec![Piece::T("vx_box_str(".into()), recv, Piece::T(")".into())]);
            self.note("shim-call", e.span());
        } else if let (Some(c), "map_err") = (closure, name.as_str()) {
            let (p, b) = (self.src_piece(c.inputs[0].span()), self.src_piece(c.body.span()));
            self.ed.replace(s, t, vec![
                Piece::T("(match ".into()), recv, Piece::T(" { Ok(vx_v) => Ok(vx_v), Err(".into()), p, Piece::T(") => Err(".into()), b, Piece::T(") })".into()),
            ]);
            self.note("combinator-to-match", e.span());
        } else if let (Some(c), "map", true) = (closure, name.as_str(), opt("option-map")) {
            let (p, b) = (self.src_piece(c.inputs[0].span()), self.src_piece(c.body.span()));
            self.ed.replace(s, t, vec![
                Piece::T("(match ".into()), recv, Piece::T(" { Some(".into()), p, Piece::T(") => Some(".into()), b, Piece::T("), None => None })".into()),
            ]);
            self.note("combinator-to-match", e.span());
        } else if name == "or" && e.args.len() == 1 && opt("result-or") {
            let a = self.src_piece(e.args[0].span());
            self.ed.replace(s, t, vec![
                Piece::T("(match (".into()), recv, Piece::T(", ".into()), a, Piece::T(") { (Ok(vx_v), _) => Ok(vx_v), (Err(_), vx_e) => vx_e })".into()),
            ]);
            self.note("combinator-to-match", e.span());
        } else if name == "ok_or" && e.args.len() == 1 {
            let a = self.src_piece(e.args[0].span());
            self.ed.replace(s, t, vec![
                Piece::T("(match (".into()), recv, Piece::T(", ".into()), a, Piece::T(") { (Some(vx_v), _) => Ok(vx_v), (None, vx_e) => Err(vx_e) })".into()),
            ]);
            self.note("combinator-to-match", e.span());
        } else if let (Some(c), "then") = (closure.filter(|c| c.inputs.is_empty()), name.as_str()) {
            let b = self.src_piece(c.body.span());
            self.ed.replace(s, t, vec![Piece::T("(if ".into()), recv, Piece::T(" { Some(".into()), b, Piece::T(") } else { None })".into())]);
            self.note("combinator-to-match", e.span());
        } else if let (Some(c), "ok_or_else") = (closure, name.as_str()) {
            let b = self.src_piece(c.body.span());
            self.ed.replace(s, t, vec![
                Piece::T("(match ".into()), recv, Piece::T(" { Some(vx_v) => Ok(vx_v), None => Err(".into()), b, Piece::T(") })".into()),
            ]);
            self.note("combinator-to-match", e.span());
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        if let Some(n) = self.ctx.last().copied() {
            let (s, t) = self.range(e.span());
            let p = self.src_piece(e.expr.span());
            self.ed.replace(s, t, vec![
                Piece::T("(match ".into()), p,
                Piece::T(format!(" {{ Ok(vx_v) => vx_v, Err(vx_e) => {{ vx_err{n} = Some(vx_e); break 'vx_l{n}; }} }})")),
            ]);
        }
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        if let (Some(n), Some(x)) = (self.ctx.last().copied(), &e.expr) {
            let (s, t) = self.range(e.span());
            let p = self.src_piece(x.span());
            self.ed.replace(s, t, vec![
                Piece::T("match ".into()), p,
                Piece::T(format!(" {{ Ok(vx_v) => {{ vx_out{n}.push(vx_v); continue 'vx_l{n}; }} Err(vx_e) => {{ vx_err{n} = Some(vx_e); break 'vx_l{n}; }} }}")),
            ]);
        }
        // `return` while an owner of memory is alive: it is dropped after the value is computed
        if let Some((v, from, to)) = self.drop_range.clone() {
            let (s, t) = self.range(e.span());
            if from <= s && t <= to {
                let x = match &e.expr {
                    Some(x) => self.src_piece(x.span()),
                    None => Self::t("()"),
                };
                self.ed.replace(s, t, vec![Self::t("{ let vx_ret = "), x, Self::t(format!("; {v}.drop(vx_h); return vx_ret; }}"))]);
                self.note("drop-at-return", e.span());
            }
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_unsafe(&mut self, e: &'ast syn::ExprUnsafe) {
        if self.heap() {
            let (s, t) = self.range(e.unsafe_token.span);
            self.ed.replace(s, t, vec![]);
        }
        visit::visit_expr_unsafe(self, e);
    }
    fn visit_type_ptr(&mut self, e: &'ast syn::TypePtr) {
        if self.heap() && matches!(e.elem.to_token_stream().to_string().as_str(), "Node" | "Self") {
            let (s, t) = self.range(e.span());
            self.ed.replace(s, t, vec![Self::t("Ptr")]);
        }
    }
    fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
        if let (true, syn::Expr::Call(c)) = (self.heap(), strip(&e.expr)) {
            if last_seg(&c.func) == "alloc" && e.ty.to_token_stream().to_string() == "* mut Node" && c.args.len() == 1 && is_ident(&c.args[0], "NODE_LAYOUT") {
                let (s, t) = self.range(e.span());
                self.ed.replace(s, t, vec![Self::t("vx_h.alloc()")]);
                self.note("memory", e.span());
                return;
            }
        }
        visit::visit_expr_cast(self, e);
    }
    fn visit_expr_field(&mut self, e: &'ast syn::ExprField) {
        if self.heap() {
            if let (Some(p), syn::Member::Named(n)) = (Self::deref(&e.base), &e.member) {
                let (s, t) = self.range(e.span());
                let x = self.src_piece(p.span());
                self.ed.replace(s, t, vec![Self::t(format!("vx_h.rd_{}(", n)), x, Self::t(")")]);
                self.note("memory", e.span());
                self.visit_expr(p);
                return;
            }
        }
        visit::visit_expr_field(self, e);
    }
    fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) {
        if let Some(p) = Self::deref(&e.left) {
            let (s, t) = self.range(e.span());
            let v = self.src_piece(e.right.span());
            // *X.last_mut().expect(..) = V
            if let Some(l) = method(strip(p), "expect").or(method(strip(p), "unwrap")).and_then(|m| method(&m.receiver, "last_mut")) {
                if is_place(&l.receiver) {
                    let x = self.src_piece(l.receiver.span());
                    self.ed.replace(s, t, vec![Self::t("{ let vx_v = "), v, Self::t("; let vx_k = "), x.clone(), Self::t(".len() - 1; "), x, Self::t("[vx_k] = vx_v; }")]);
                    self.note("last_mut-to-index", e.span());
                    self.visit_expr(&l.receiver);
                    self.visit_expr(&e.right);
                    return;
                }
            }
            // *X[i] = V where X holds references to the squares of a line
            if let (Some(n), syn::Expr::Index(i)) = (self.linevec.clone(), strip(p)) {
                if is_ident(&i.expr, &n) {
                    let (x, k) = (self.src_piece(i.expr.span()), self.src_piece(i.index.span()));
                    self.ed.replace(s, t, vec![Self::t("{ let vx_v = "), v, Self::t("; let vx_k = "), k, Self::t("; "), x, Self::t("[vx_k] = vx_v; }")]);
                    self.note("line-square", e.span());
                    self.visit_expr(&i.expr);
                    self.visit_expr(&i.index);
                    self.visit_expr(&e.right);
                    return;
                }
            }
        }
        if self.heap() {
            let (s, t) = self.range(e.span());
            let v = self.src_piece(e.right.span());
            if let Some((p, f)) = Self::deref_field(&e.left) {
                let x = self.src_piece(p.span());
                self.ed.replace(s, t, vec![Self::t("{ let vx_v = "), v, Self::t("; let vx_p = "), x, Self::t(format!("; vx_h.wr_{f}(vx_p, vx_v); }}"))]);
                self.note("memory", e.span());
                self.visit_expr(p);
                self.visit_expr(&e.right);
                return;
            }
            if let Some(p) = Self::deref(&e.left) {
                let x = self.src_piece(p.span());
                self.ed.replace(s, t, vec![Self::t("{ let vx_v = "), v, Self::t("; let vx_p = "), x, Self::t("; vx_h.wr(vx_p, vx_v); }")]);
                self.note("memory", e.span());
                self.visit_expr(p);
                self.visit_expr(&e.right);
                return;
            }
            if let syn::Expr::Index(i) = &*e.left {
                let (a, x) = (self.src_piece(i.expr.span()), self.src_piece(i.index.span()));
                self.ed.replace(s, t, vec![Self::t("{ let vx_v = "), v, Self::t("; let vx_p = "), x, Self::t("; "), a, Self::t("[vx_p] = vx_v; }")]);
            }
        }
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(e.op, BitOrAssign(_)) && self.opts.contains("squares") && is_place(&e.left) {
            // on truth values
            let (s, t) = self.range(e.span());
            let (x, v) = (self.src_piece(e.left.span()), self.src_piece(e.right.span()));
            self.ed.replace(s, t, vec![Self::t("{ let vx_b: bool = "), v, Self::t("; "), x.clone(), Self::t(" = vx_b || "), x, Self::t("; }")]);
            self.note("or-assign", e.span());
        }
        if self.heap() && matches!(e.op, AddAssign(_) | SubAssign(_)) {
            if let Some((p, f)) = Self::deref_field(&e.left) {
                let op = if matches!(e.op, AddAssign(_)) { "+" } else { "-" };
                let (s, t) = self.range(e.span());
                let (v, x) = (self.src_piece(e.right.span()), self.src_piece(p.span()));
                self.ed.replace(s, t, vec![Self::t("{ let vx_v = "), v, Self::t("; let vx_p = "), x, Self::t(format!("; let vx_o = vx_h.rd_{f}(vx_p); vx_h.wr_{f}(vx_p, vx_o {op} vx_v); }}"))]);
                self.note("memory", e.span());
                self.visit_expr(p);
                self.visit_expr(&e.right);
                return;
            }
        }
        if matches!(e.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_)) {
            for x in [&e.left, &e.right] {
                if self.refs.iter().any(|r| is_ident(x, r)) {
                    let (s, t) = self.range(x.span());
                    self.ed.insert(s, 5, "(*");
                    self.ed.insert(t, 5, ")");
                }
            }
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        if let Some(i) = e.path.get_ident() {
            if i == "self" && self.opts.contains("mutself") {
                let (s, t) = self.range(e.span());
                self.ed.replace(s, t, vec![Self::t("vx_self")]);
            }
            if self.opts.contains(&format!("constfn {}", i)) {
                let (s, t) = self.range(e.span());
                self.ed.replace(s, t, vec![Self::t(format!("vx_const_{}()", i))]);
                self.note("constant-as-function", e.span());
            }
        }
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if self.heap() {
            let n = last_seg(&e.func);
            let (s, t) = self.range(e.span());
            match (n.as_str(), e.args.len()) {
                ("null_mut", 0) => {
                    self.ed.replace(s, t, vec![Self::t("0")]);
                    return;
                }
                ("dealloc", 2) if is_ident(&e.args[1], "NODE_LAYOUT") => {
                    if let syn::Expr::Cast(c) = strip(&e.args[0]) {
                        let x = self.src_piece(c.expr.span());
                        self.ed.replace(s, t, vec![Self::t("vx_h.dealloc("), x, Self::t(")")]);
                        self.note("memory", e.span());
                        self.visit_expr(&c.expr);
                        return;
                    }
                }
                ("read", 1) => {
                    let x = self.src_piece(e.args[0].span());
                    self.ed.replace(s, t, vec![Self::t("vx_h.rd("), x, Self::t(")")]);
                    self.note("memory", e.span());
                    self.visit_expr(&e.args[0]);
                    return;
                }
                ("take", 1) => {
                    let x = self.src_piece(e.args[0].span());
                    self.ed.replace(s, t, vec![Self::t("vx_take("), x, Self::t(")")]);
                    self.note("shim-call", e.span());
                    self.visit_expr(&e.args[0]);
                    return;
                }
                _ => {}
            }
            if let syn::Expr::Path(p) = &*e.func {
                let k = p.path.segments.len();
                if k >= 2 {
                    let mut ty = p.path.segments[k - 2].ident.to_string();
                    if ty == "Self" {
                        ty = self.fn_name.split("::").next().unwrap_or("").split('@').next().unwrap_or("").to_string();
                    }
                    if let Some(m) = self.heap_fns.get(&format!("{}::{}", ty, n)) {
                        let (_, last) = (0, t - 1);
                        let trailing = e.args.trailing_punct();
                        let sep = if e.args.is_empty() || trailing { "" } else { ", " };
                        let a = if *m { "vx_h" } else { "&*vx_h" };
                        self.ed.replace(last, t, vec![Self::t(format!("{sep}{a})"))]);
                        self.note("memory-argument", e.span());
                    }
                }
            }
        }
        // draw_text_mut(.., TEXT): what is written does not matter to any contract; an expression built from
        // formatting calls only (no effect, no panic) is replaced by an arbitrary text
        if let (syn::Expr::Path(p), Some(last)) = (&*e.func, e.args.last()) {
            let name = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if name == "draw_text_mut" && e.args.len() == 7 && pure_text(last) {
                let (s, t) = self.range(last.span());
                self.ed.replace(s, t, vec![Piece::T("vx_text()".into())]);
                self.note("arbitrary-text", last.span());
                for a in e.args.iter().take(6) {
                    self.visit_expr(a);
                }
                return;
            }
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "unreachable" {
            let (s, t) = self.range(m.span());
            self.ed.replace(s, t, vec![Piece::T("vx_unreachable()".into())]);
            self.note("unreachable-is-an-obligation", m.span());
        }
        if n == "assert" || n == "debug_assert" {
            let (s, t) = self.range(m.span());
            if let Ok(e) = m.parse_body_with(|i: syn::parse::ParseStream| {
                let e: syn::Expr = i.parse()?;
                let _: TokenStream = i.parse()?;
                Ok(e)
            }) {
                let p = self.src_piece(e.span());
                self.ed.replace(s, t, vec![Piece::T("vx_runtime_assert(".into()), p, Piece::T(")".into())]);
                self.note("runtime-assert", m.span());
            }
        }
    }
}

/// `&mut Cursor::new(&mut OUT)` -> OUT
fn cursor_over(e: &syn::Expr) -> Option<&syn::Expr> {
    let syn::Expr::Reference(r) = strip(e) else { return None };
    let syn::Expr::Call(c) = strip(&r.expr) else { return None };
    let f: String = c.func.to_token_stream().to_string().split_whitespace().collect();
    if !(f == "Cursor::new" || f.ends_with("::Cursor::new")) || c.args.len() != 1 {
        return None;
    }
    match strip(&c.args[0]) {
        syn::Expr::Reference(o) if o.mutability.is_some() && is_place(&o.expr) => Some(&o.expr),
        _ => None,
    }
}

pub fn const_as_fn(f: &syn::File, name: &str) -> Option<FnRef> {
    for it in &f.items {
        if let syn::Item::Const(c) = it {
            if c.ident == name {
                let block = match &*c.expr {
                    syn::Expr::Block(b) => b.block.clone(),
                    syn::Expr::Const(b) => b.block.clone(),
                    _ => return None,
                };
                let ty = &c.ty;
                let id = syn::Ident::new(&format!("vx_const_{}", name), c.ident.span());
                let sig: syn::Signature = syn::parse_quote!(fn #id() -> #ty);
                return Some(FnRef { name: name.into(), impl_ty: None, trait_: None, sig, block });
            }
        }
    }
    None
}

pub fn visit_arg(rw: &mut Rewriter, a: &syn::FnArg) {
    if let syn::FnArg::Typed(t) = a {
        rw.visit_type(&t.ty);
    }
}
pub fn visit_ret(rw: &mut Rewriter, r: &syn::ReturnType) {
    rw.visit_return_type(r);
}
