//! serde's derived code: the `Serialize` and `Deserialize` impls of a type are taken from the expanded crate (rustc's own
//! expansion of the working tree) and put under the contracts of proofs/serde.vi. What the derived code does not
//! say itself is generated from the Serialize impl: the content a value is written as, and hence what reading has to give.
//! Changes to the text: items inside `deserialize` are hoisted into a module, `expecting` (error texts) is dropped, a
//! `match` on string literals becomes a chain of `if`, `false as usize` becomes `0usize`, the Visitor trait is named
//! after the kind of content it is made for.
use crate::edits::{Edits, Piece};
use crate::template::{Gen, MapEntry};
use crate::Source;
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().split_whitespace().collect()
}

#[derive(Default)]
struct Find<'a> {
    ty: String,
    defs: Vec<&'a syn::Item>,
    ser: Vec<&'a syn::ItemImpl>,
    de: Vec<&'a syn::ItemImpl>,
}

impl<'a> Visit<'a> for Find<'a> {
    fn visit_item(&mut self, i: &'a syn::Item) {
        match i {
            syn::Item::Struct(s) if s.ident == self.ty => self.defs.push(i),
            syn::Item::Enum(s) if s.ident == self.ty => self.defs.push(i),
            syn::Item::Impl(m) if toks(&m.self_ty) == self.ty => {
                if let Some((_, p, _)) = &m.trait_ {
                    let n = p.segments.last().unwrap().ident.to_string();
                    let derived = m.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) && toks(p).starts_with("_serde::");
                    if n == "Serialize" && derived {
                        self.ser.push(m)
                    }
                    if n == "Deserialize" && derived {
                        self.de.push(m)
                    }
                }
            }
            _ => {}
        }
        syn::visit::visit_item(self, i);
    }
}

struct Calls<'a> {
    name: &'static str,
    calls: Vec<&'a syn::ExprCall>,
}
impl<'a> Visit<'a> for Calls<'a> {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if toks(&c.func).split("::<").next().unwrap().ends_with(self.name) {
            self.calls.push(c)
        }
        syn::visit::visit_expr_call(self, c);
    }
}
fn calls<'a>(b: &'a syn::Block, name: &'static str) -> Vec<&'a syn::ExprCall> {
    let mut v = Calls { name, calls: vec![] };
    v.visit_block(b);
    v.calls
}

fn lit_str(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(s.value()),
            _ => None,
        },
        _ => None,
    }
}
fn lit_int(e: &syn::Expr) -> Option<u64> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(s) => s.base10_parse().ok(),
            _ => None,
        },
        _ => None,
    }
}

struct Walk<'a, 'b> {
    src: &'a Source,
    ed: &'b mut Edits<'a>,
}
impl<'a, 'b> Walk<'a, 'b> {
    fn range(&self, t: &impl Spanned) -> (usize, usize) {
        (self.src.off(t.span().start()), self.src.off(t.span().end()))
    }
}
impl<'a, 'b, 'c> Visit<'c> for Walk<'a, 'b> {
    fn visit_expr_cast(&mut self, c: &'c syn::ExprCast) {
        let w = toks(c);
        if w == "falseasusize" || w == "trueasusize" {
            let (s, e) = self.range(c);
            self.ed.replace(s, e, vec![Piece::T(if w.starts_with('f') { "0usize" } else { "1usize" }.into())]);
        }
        syn::visit::visit_expr_cast(self, c);
    }
    fn visit_expr_match(&mut self, m: &'c syn::ExprMatch) {
        let lit = |p: &syn::Pat| match p {
            syn::Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_)),
            syn::Pat::Or(o) => o.cases.iter().all(|c| matches!(c, syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_)))),
            _ => false,
        };
        let n = m.arms.len();
        if n >= 2 && m.arms[..n - 1].iter().all(|a| lit(&a.pat) && a.guard.is_none()) && matches!(m.arms[n - 1].pat, syn::Pat::Wild(_)) {
            let on = toks(&m.expr);
            let mut pieces = vec![];
            for a in &m.arms {
                let (s, e) = self.range(&*a.body);
                let pats: Vec<&syn::Pat> = match &a.pat {
                    syn::Pat::Or(o) => o.cases.iter().collect(),
                    p => vec![p],
                };
                let tests: Vec<String> = pats
                    .iter()
                    .filter_map(|p| match p {
                        syn::Pat::Lit(l) => match &l.lit {
                            syn::Lit::Str(s) => Some(format!("crate::vx_is({}, {})", on, s.to_token_stream())),
                            syn::Lit::ByteStr(b) => Some(format!(
                                "crate::vx_bytes({}, &[{}])",
                                on,
                                b.value().iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", ")
                            )),
                            _ => None,
                        },
                        _ => None,
                    })
                    .collect();
                pieces.push(Piece::T(if tests.is_empty() { " {".into() } else { format!("if {} {{ ", tests.join(" || ")) }));
                pieces.push(Piece::S(s, e));
                pieces.push(Piece::T(if tests.is_empty() { " }".into() } else { " } else ".into() }));
            }
            let (s, e) = self.range(m);
            self.ed.replace(s, e, pieces);
        }
        syn::visit::visit_expr_match(self, m);
    }
}

/// (value of the type written under this key / variant)
struct Part {
    key: String,
    member: String,
    ty: String,
    index: u64,
}

fn probe(name: &str) -> String {
    if std::env::var("VX_CANARY").is_ok() {
        format!("\nproof {{ assert(crate::vx_reach(0)); }} // canary {} start\n", name)
    } else {
        String::new()
    }
}

fn ascii(s: &str) -> String {
    s.bytes().map(|b| format!("{}u8", b)).collect::<Vec<_>>().join(", ")
}

impl Gen {
    pub fn derived(&mut self, ty: &str) -> Result<(), String> {
        let path = self.expanded.clone().ok_or("no expansion of the crate")?;
        let src = crate::load_path(&path)?;
        let bad = |w: &str| format!("{}: missing {} in the expanded crate", ty, w);
        let mut fd = Find { ty: ty.to_string(), ..Default::default() };
        fd.visit_file(&src.ast);
        if fd.defs.len() != 1 {
            return Err(bad("one definition"));
        }
        if fd.ser.len() != 1 {
            return Err(bad("a derived Serialize"));
        }
        if fd.de.len() != 1 {
            return Err(bad("a derived Deserialize"));
        }
        let (def, ser, de) = (fd.defs[0], fd.ser[0], fd.de[0]);
        fn method<'a>(m: &'a syn::ItemImpl, n: &str) -> Option<&'a syn::ImplItemFn> {
            m.items.iter().find_map(|i| match i {
                syn::ImplItem::Fn(f) if f.sig.ident == n => Some(f),
                _ => None,
            })
        }
        let sfn = method(ser, "serialize").ok_or(bad("serialize"))?;
        let dfn = method(de, "deserialize").ok_or(bad("deserialize"))?;
        let mut parts: Vec<Part> = vec![];
        let is_struct = matches!(def, syn::Item::Struct(_));
        let name;
        let mut out = String::new();
        match def {
            syn::Item::Struct(s) => {
                let fields: Vec<(String, String)> = match &s.fields {
                    syn::Fields::Named(n) => n.named.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), f.ty.to_token_stream().to_string())).collect(),
                    _ => return Err(bad("a struct with named fields")),
                };
                if !s.generics.params.is_empty() {
                    return Err(bad("a type without parameters"));
                }
                out.push_str(&format!("pub struct {} {{ {} }}\n", ty, fields.iter().map(|(n, t)| format!("pub {}: {}", n, t)).collect::<Vec<_>>().join(", ")));
                let st = calls(&sfn.block, "serialize_struct");
                if st.len() != 1 || st[0].args.len() != 3 {
                    return Err(bad("one call of serialize_struct"));
                }
                name = lit_str(&st[0].args[1]).ok_or(bad("the struct's name"))?;
                for (i, c) in calls(&sfn.block, "serialize_field").iter().enumerate() {
                    let key = c.args.get(1).and_then(lit_str).ok_or(bad("a key"))?;
                    let m = c.args.get(2).map(toks).and_then(|w| w.strip_prefix("&self.").map(|x| x.to_string())).ok_or(bad("a member"))?;
                    let t = fields.iter().find(|f| f.0 == m).ok_or(bad("the member"))?.1.clone();
                    parts.push(Part { key, member: m, ty: t, index: i as u64 });
                }
                if parts.len() != fields.len() {
                    return Err(bad("every field"));
                }
            }
            syn::Item::Enum(s) => {
                if s.variants.iter().any(|v| !matches!(v.fields, syn::Fields::Unit)) || !s.generics.params.is_empty() {
                    return Err(bad("an enum of plain variants"));
                }
                out.push_str(&format!("pub enum {} {{ {} }}\n", ty, s.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>().join(", ")));
                let m = match sfn.block.stmts.last() {
                    Some(syn::Stmt::Expr(syn::Expr::Match(m), _)) => m,
                    _ => return Err(bad("a match on the value")),
                };
                let mut nm = String::new();
                for a in &m.arms {
                    let v = toks(&a.pat);
                    let v = v.strip_prefix(&format!("{}::", ty)).ok_or(bad("a variant"))?.to_string();
                    let mut cs = Calls { name: "serialize_unit_variant", calls: vec![] };
                    cs.visit_expr(&a.body);
                    if cs.calls.len() != 1 || cs.calls[0].args.len() != 4 {
                        return Err(bad("serialize_unit_variant"));
                    }
                    let c = cs.calls[0];
                    nm = lit_str(&c.args[1]).ok_or(bad("the enum's name"))?;
                    parts.push(Part {
                        key: lit_str(&c.args[3]).ok_or(bad("a variant's name"))?,
                        member: v,
                        ty: String::new(),
                        index: lit_int(&c.args[2]).ok_or(bad("a variant's index"))?,
                    });
                }
                if parts.len() != s.variants.len() {
                    return Err(bad("every variant"));
                }
                name = nm;
            }
            _ => unreachable!(),
        }
        let seq = |me: &str| format!("seq![{}]", parts.iter().map(|p| format!("({:?}@, _serde::Data::content(&{}.{}))", p.key, me, p.member)).collect::<Vec<_>>().join(", "));
        let content = if is_struct {
            format!("_serde::Content::Struct({:?}@, {})", name, seq("self"))
        } else {
            format!("match *self {{ {} }}", parts.iter().map(|p| format!("{}::{} => _serde::Content::Unit({:?}@, {}, {:?}@)", ty, p.member, name, p.index, p.key)).collect::<Vec<_>>().join(", "))
        };
        out.push_str(&format!("impl _serde::Data for {} {{\n    open spec fn content(&self) -> _serde::Content {{ {} }}\n}}\n", ty, content));
        let off = |t: &dyn Fn() -> proc_macro2::LineColumn| src.off(t());
        let base = self.out.matches('\n').count() + 1;
        let mut marks: Vec<(String, usize, usize, usize)> = vec![];
        let here = |o: &String| base + o.matches('\n').count();

        // which __field number stands for which member
        let inner: Vec<&syn::Item> = dfn.block.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i) } else { None }).collect();
        let rest: Vec<&syn::Stmt> = dfn.block.stmts.iter().filter(|s| !matches!(s, syn::Stmt::Item(_))).collect();
        if rest.len() != 1 {
            return Err(bad("a single call on the format in deserialize"));
        }
        let vis: &syn::ItemImpl = inner
            .iter()
            .find_map(|i| match i {
                syn::Item::Impl(m) if toks(&m.self_ty).starts_with("__Visitor") => Some(m),
                _ => None,
            })
            .ok_or(bad("the visitor"))?;
        let field_of: Box<dyn Fn(&str) -> Option<String>> = if is_struct {
            let f = method(vis, "visit_map").ok_or(bad("visit_map"))?;
            let last = match f.block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => e.clone(),
                _ => return Err(bad("the value built by visit_map")),
            };
            struct S(Vec<(String, String)>);
            impl<'a> Visit<'a> for S {
                fn visit_expr_struct(&mut self, s: &'a syn::ExprStruct) {
                    for f in &s.fields {
                        self.0.push((toks(&f.member), toks(&f.expr)));
                    }
                }
            }
            let mut v = S(vec![]);
            v.visit_expr(&last);
            let l = v.0;
            Box::new(move |m| l.iter().find(|x| x.0 == m).map(|x| x.1.clone()))
        } else {
            let f = method(vis, "visit_enum").ok_or(bad("visit_enum"))?;
            let m = match f.block.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::Match(m), None)) => m,
                _ => return Err(bad("the match of visit_enum")),
            };
            let mut l: Vec<(String, String)> = vec![];
            for a in &m.arms {
                let p = toks(&a.pat); // (__Field::__field0, __variant), or Ok of it
                let fld: String = p.split("__Field::").nth(1).unwrap_or("").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let body = toks(&a.body);
                let v = parts.iter().map(|x| x.member.clone()).filter(|v| body.contains(&format!("Ok({}::{})", ty, v))).next();
                if let Some(v) = v {
                    l.push((v, fld));
                }
            }
            Box::new(move |m| l.iter().find(|x| x.0 == m).map(|x| x.1.clone()))
        };
        let mut flds = vec![];
        for p in &parts {
            flds.push(field_of(&p.member).filter(|f| f.starts_with("__field")).ok_or(bad(&format!("how {} is read", p.member)))?);
        }

        // ---- Serialize
        {
            let (bs, be) = (off(&|| sfn.block.span().start()), off(&|| sfn.block.span().end()));
            let mut ed = Edits::new(&src.text);
            Walk { src: &src, ed: &mut ed }.visit_block(&sfn.block);
            if is_struct {
                let last = sfn.block.stmts.last().unwrap();
                let p = off(&|| last.span().start());
                ed.insert(p, 0, format!("proof {{ assert(_serde::ser::SerializeStruct::state(__serde_state).fields =~= {}); }}\n", seq("self")));
            }
            ed.insert(bs + 1, 0, probe(&format!("{}@Serialize::serialize", ty)));
            let ss = off(&|| ser.span().start());
            let ss = attrs_end(&src, &ser.attrs).unwrap_or(ss);
            let l0 = here(&out);
            out.push_str(&format!("// ---- derived for {} (expanded crate, line {})\n", ty, sfn.sig.ident.span().start().line));
            out.push_str(&format!("{}{}\n}}\n", &src.text[ss..bs], ed.render(bs, be)));
            marks.push((format!("{}@Serialize::serialize", ty), l0, here(&out), sfn.sig.ident.span().start().line));
        }

        // ---- Deserialize
        out.push_str(&format!("pub mod vx_de_{} {{\nuse vstd::prelude::*;\nuse super::*;\nuse super::_serde::*;\n", ty));
        // every name that is recognised, aliases included
        let mut words: Vec<String> = parts.iter().map(|p| p.key.clone()).collect();
        for it in &inner {
            if let syn::Item::Const(c) = it {
                if let syn::Expr::Reference(r) = &*c.expr {
                    if let syn::Expr::Array(a) = &*r.expr {
                        words.extend(a.elems.iter().filter_map(lit_str));
                    }
                }
            }
        }
        words.sort();
        words.dedup();
        let reveal: String = words.iter().map(|w| format!("reveal_strlit({:?}); ", w)).collect();
        let distinct: String = (0..words.len()).flat_map(|i| (0..i).map(move |j| (i, j))).filter_map(|(i, j)| diff(&words[j], &words[i])).collect();
        let bytes: String = parts.iter().map(|p| format!("assert(ascii({:?}@) =~= seq![{}]); ", p.key, ascii(&p.key))).collect();
        for it in &inner {
            let (s, e) = (off(&|| it.span().start()), off(&|| it.span().end()));
            match it {
                syn::Item::Enum(x) => {
                    let a = attrs_end(&src, &x.attrs).unwrap_or(s);
                    out.push_str(&format!("pub {}\n", &src.text[a..e]));
                }
                syn::Item::Struct(x) => {
                    let a = attrs_end(&src, &x.attrs).unwrap_or(s);
                    let mut ed = Edits::new(&src.text);
                    for f in &x.fields {
                        ed.insert(off(&|| f.span().start()), 0, "pub ");
                    }
                    out.push_str(&format!("pub {}\n", ed.render(a, e)));
                }
                syn::Item::Const(c) => {
                    let items: Vec<String> = match &*c.expr {
                        syn::Expr::Reference(r) => match &*r.expr {
                            syn::Expr::Array(a) => a.elems.iter().filter_map(lit_str).collect(),
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let en: String = items.iter().enumerate().map(|(i, k)| format!("{}@[{}]@ == {:?}@, ", c.ident, i, k)).collect();
                    let li: String = items.iter().map(|k| format!("listed({}@, {:?}@), ", c.ident, k)).collect();
                    let pr: String = items.iter().enumerate().map(|(i, k)| format!("assert(vx_names@[{}]@ == {:?}@); ", i, k)).collect();
                    let (cs, ce) = (off(&|| c.expr.span().start()), off(&|| c.expr.span().end()));
                    out.push_str(&format!(
                        "pub exec const {}: {}\n    ensures {}@.len() == {}, {}{}\n{{ let vx_names = {}; proof {{ {}}} vx_names }}\n",
                        c.ident, c.ty.to_token_stream(), c.ident, items.len(), en, li, &src.text[cs..ce], pr
                    ));
                }
                syn::Item::Impl(m) => {
                    let st = toks(&m.self_ty);
                    let tr = m.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                    let fns: Vec<&syn::ImplItemFn> = m.items.iter().filter_map(|i| if let syn::ImplItem::Fn(f) = i { Some(f) } else { None }).collect();
                    let mut names: Vec<String> = fns.iter().map(|f| f.sig.ident.to_string()).filter(|n| n != "expecting").collect();
                    names.sort();
                    let kind = match (tr.as_str(), names.join(" ").as_str()) {
                        ("Visitor", "visit_bytes visit_str visit_u64") => "IdentifierVisitor",
                        ("Visitor", "visit_map visit_seq") => "StructVisitor",
                        ("Visitor", "visit_enum") => "EnumVisitor",
                        ("Deserialize", "deserialize") if st == "__Field" => "Deserialize",
                        _ => return Err(bad("the usual visitors")),
                    };
                    let mut ed = Edits::new(&src.text);
                    let a = attrs_end(&src, &m.attrs).unwrap_or(s);
                    if tr == "Visitor" {
                        let t = m.trait_.as_ref().unwrap().1.segments.last().unwrap().ident.span();
                        ed.replace(off(&|| t.start()), off(&|| t.end()), vec![Piece::T(kind.into())]);
                    }
                    let open = off(&|| m.brace_token.span.open().end());
                    let spec = match kind {
                        "IdentifierVisitor" => format!(
                            "open spec fn named(name: Seq<char>, index: int) -> Option<__Field> {{ {} else {{ None }} }}",
                            parts.iter().zip(&flds).map(|(p, f)| format!("if name == {:?}@ && index == {} {{ Some(__Field::{}) }}", p.key, p.index, f)).collect::<Vec<_>>().join(" else ")
                        ),
                        "StructVisitor" => format!(
                            "open spec fn of(fs: Seq<(Seq<char>, Content)>) -> Option<{ty}> {{ if fs.len() == {n}{c} {{ Some({ty} {{ {v} }}) }} else {{ None }} }}",
                            ty = ty,
                            n = parts.len(),
                            c = parts.iter().map(|p| format!(" && fs[{i}].0 == {:?}@ && <{} as Readable>::reads(fs[{i}].1) is Some", p.key, p.ty, i = p.index)).collect::<String>(),
                            v = parts.iter().map(|p| format!("{}: <{} as Readable>::reads(fs[{}].1)->Some_0", p.member, p.ty, p.index)).collect::<Vec<_>>().join(", ")
                        ),
                        "EnumVisitor" => format!(
                            "open spec fn of(name: Seq<char>, index: int) -> Option<{}> {{ {} else {{ None }} }}",
                            ty,
                            parts.iter().map(|p| format!("if name == {:?}@ && index == {} {{ Some({}::{}) }}", p.key, p.index, ty, p.member)).collect::<Vec<_>>().join(" else ")
                        ),
                        _ => String::new(),
                    };
                    ed.insert(open, 0, format!("\n{}", spec));
                    for f in &fns {
                        let fname = f.sig.ident.to_string();
                        let (fs, fe) = (off(&|| f.span().start()), off(&|| f.span().end()));
                        if fname == "expecting" {
                            ed.replace(fs, fe, vec![Piece::T(String::new())]);
                            continue;
                        }
                        // attributes (#[inline]) are dropped
                        if let Some(ae) = attrs_end(&src, &f.attrs) {
                            ed.replace(fs, ae, vec![Piece::T(String::new())]);
                        }
                        let bo = off(&|| f.block.brace_token.span.open().end());
                        Walk { src: &src, ed: &mut ed }.visit_block(&f.block);
                        let mut start = probe(&format!("{}::{}", ty, fname));
                        match fname.as_str() {
                            "visit_str" | "visit_bytes" => {
                                start.push_str(&format!("proof {{ {}{}{} }}\n", reveal, distinct, if fname == "visit_bytes" { &bytes } else { "" }));
                            }
                            "visit_enum" => start.push_str(&format!("proof {{ {}{} }}\n", reveal, distinct)),
                            "visit_map" => {
                                let start0 = start;
                                start = format!("hide(shuffled);{}", start0);
                                start.push_str(
                                    "let ghost all = __map.left();\nlet ghost mut p: int = 0;\n\
let ghost good = exists|fs: Seq<(Seq<char>, Content)>| #[trigger] Self::of(fs) is Some && shuffled(all, fs);\n\
let ghost gfs = choose|fs: Seq<(Seq<char>, Content)>| #[trigger] Self::of(fs) is Some && shuffled(all, fs);\n\
proof { assert forall|fs: Seq<(Seq<char>, Content)>| #[trigger] Self::of(fs) is Some && shuffled(all, fs) implies fs == gfs by { lemma_same(all, fs, gfs); } }\n",
                                );
                                let lp: Vec<&syn::ExprWhile> = f
                                    .block
                                    .stmts
                                    .iter()
                                    .filter_map(|s| match s {
                                        syn::Stmt::Expr(syn::Expr::While(w), _) => Some(w),
                                        _ => None,
                                    })
                                    .collect();
                                if lp.len() != 1 {
                                    return Err(bad("the loop of visit_map"));
                                }
                                let w = lp[0];
                                ed.insert(off(&|| w.span().start()), 0,
                                    "proof { lemma_taken_none(all); if good { lemma_len(all, gfs); lemma_taken_all(all, gfs); if all.len() > 0 { lemma_taken(all, 0, gfs); } } assert(all.skip(0) =~= all); }\n");
                                let mut inv = String::from(
                                    "\ninvariant 0 <= p <= all.len(), __map.left() == all.skip(p), __map.pending() is None,\n\
good ==> Self::of(gfs) is Some && shuffled(all, gfs), p < all.len() ==> all.skip(p)[0] == all[p],\n\
good && p < all.len() ==> <__Field as Readable>::reads(Content::Key(all[p].name, all[p].index)) is Some,\n",
                                );
                                for (p, fl) in parts.iter().zip(&flds) {
                                    inv.push_str(&format!(
                                        "good ==> ({f} is Some <==> taken(all, p, {i})), good && {f} is Some ==> <{t} as Readable>::reads(gfs[{i}].1) == {f},\n",
                                        f = fl, i = p.index, t = p.ty
                                    ));
                                }
                                inv.push_str("ensures good ==> p == all.len()\ndecreases all.len() - p\n");
                                let lo = off(&|| w.body.brace_token.span.open().start());
                                ed.insert(lo, 0, inv);
                                let canary = probe(&format!("{}::visit_map loop", ty)).replace("vx_reach(0)", "vx_reach(1)");
                                ed.insert(lo + 1, 0, format!(
                                    "{}\nproof {{ if good {{ lemma_taken(all, p, gfs); }} assert(all.skip(p).skip(1) =~= all.skip(p + 1)); p = p + 1; if good && p < all.len() {{ lemma_taken(all, p, gfs); }} }}\n", canary));
                                ed.insert(fs, -5, "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
                            }
                            _ => {}
                        }
                        ed.insert(bo, 0, format!("\n{}", start));
                    }
                    let l0 = here(&out);
                    out.push_str(&ed.render(a, e));
                    out.push('\n');
                    for f in &fns {
                        if f.sig.ident != "expecting" {
                            marks.push((format!("{}::{}", ty, f.sig.ident), l0, here(&out), f.sig.ident.span().start().line));
                        }
                    }
                    if kind == "Deserialize" {
                        out.push_str("impl Readable for __Field {\n    open spec fn reads(c: Content) -> Option<Self> { match c { Content::Key(n, i) => <__FieldVisitor as _serde::de::IdentifierVisitor>::named(n, i), _ => None } }\n}\n");
                    }
                }
                _ => return Err(bad("the usual items")),
            }
        }
        out.push_str(&format!(
            "impl _serde::Readable for {ty} {{\n    open spec fn reads(c: Content) -> Option<Self> {{ match c {{ {pat} if n == {name:?}@ => <__Visitor as _serde::de::{k}>::of({args}), _ => None }} }}\n}}\n",
            ty = ty,
            name = name,
            pat = if is_struct { "Content::Struct(n, fs)" } else { "Content::Unit(n, i, v)" },
            k = if is_struct { "StructVisitor" } else { "EnumVisitor" },
            args = if is_struct { "fs" } else { "v, i" }
        ));
        {
            let a = attrs_end(&src, &de.attrs).unwrap_or(off(&|| de.span().start()));
            let bo = off(&|| dfn.block.brace_token.span.open().end());
            let (rs, re) = (off(&|| rest[0].span().start()), off(&|| rest[0].span().end()));
            let l0 = here(&out);
            out.push_str(&format!("{}{}{}\n}}\n}}\n", &src.text[a..bo], probe(&format!("{}@Deserialize::deserialize", ty)), &src.text[rs..re]));
            marks.push((format!("{}@Deserialize::deserialize", ty), l0, here(&out), dfn.sig.ident.span().start().line));
        }
        out.push_str("}\n");
        // ---- the property
        let l0 = here(&out);
        out.push_str(&format!(
            "fn vx_round_trip_{ty}<'de, F: Format<'de>>(v: &{ty}, s: F::S) -> (r: Result<{ty}, <F::D as _serde::Deserializer<'de>>::Error>)\n    ensures r is Ok && r->Ok_0 == *v,  // [G02]\n{{{probe}\n    match _serde::Serialize::serialize(v, s) {{\n        Ok(o) => {{ let d = F::reader(o); _serde::Deserialize::deserialize(d) }}\n        Err(_) => {{ proof {{ assert(false); }} vx_unreachable() }}\n    }}\n}}\n",
            ty = ty,
            probe = probe(&format!("round trip of {}", ty))
        ));
        marks.push((format!("round trip of {}", ty), l0, here(&out), 0));
        // rustc writes the private path with or without a version
        let out = normalise(&out).replace("#[inline]", "");
        self.out.push_str(&out);
        for (n, a, b, l) in marks {
            self.map.push(MapEntry {
                name: n,
                file: "expanded crate".into(),
                src_line: l,
                out_start: a,
                out_end: b,
                contract: true,
                notes: vec!["derived-code: nested items hoisted, `expecting` dropped, string match to if, false as usize to 0".into()],
            });
        }
        Ok(())
    }
}

/// offset of the first token after the attributes
fn attrs_end(src: &Source, attrs: &[syn::Attribute]) -> Option<usize> {
    attrs.iter().filter(|a| matches!(a.style, syn::AttrStyle::Outer)).map(|a| src.off(a.span().end())).max()
}

/// why two names differ
fn diff(a: &str, b: &str) -> Option<String> {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    if x.len() != y.len() {
        return Some(format!("assert({:?}@.len() != {:?}@.len()); ", a, b));
    }
    let i = (0..x.len()).find(|&i| x[i] != y[i])?;
    Some(format!("assert({:?}@[{i}] != {:?}@[{i}]); ", a, b, i = i))
}

fn normalise(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("__private") {
        let j = i + "__private".len();
        o.push_str(&rest[..j]);
        rest = rest[j..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    o.push_str(rest);
    o
}
