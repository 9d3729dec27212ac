use crate::edits::{Edits, Piece};
use crate::rules::{self, FnRef};
use crate::Source;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub enum Node {
    Text(String),
    Fn(FnBlock),
    Item { file: String, kind: String, name: String, opts: Vec<String> },
    Derived(String),
    Rest { file: String, except: Vec<String> },
}

#[derive(Default, Clone)]
pub struct FnBlock {
    pub file: String,
    pub path: String,
    pub ret: String,
    pub locals: Option<Vec<String>>,
    pub attr: String,
    pub spec: String,
    pub start: String,
    pub loops: HashMap<usize, String>,
    pub loop_kind: HashMap<usize, String>,
    pub loop_start: HashMap<usize, String>,
    pub loop_end: HashMap<usize, String>,
    pub loop_after: HashMap<usize, String>,
    pub loop_before: HashMap<usize, String>,
    pub cloops: HashMap<(String, usize), String>, // (cloop|cloopstart|cloopend|cloopbefore|cloopafter, n)
    pub anchors: Vec<(String, String, usize, String)>, // before|after|blockstart|blockend, pattern, nth, text
    /// loops and collecting closures recognised by their text: (closure?, number, text)
    pub keys: Vec<(bool, usize, String)>,
    pub opts: Vec<String>,
}

impl FnBlock {
    /// the same contract with every text of it rewritten
    fn with_text(&self, f: &dyn Fn(&str) -> String) -> FnBlock {
        let m = |h: &HashMap<usize, String>| h.iter().map(|(n, t)| (*n, f(t))).collect();
        FnBlock {
            start: f(&self.start),
            loops: m(&self.loops),
            loop_start: m(&self.loop_start),
            loop_end: m(&self.loop_end),
            loop_after: m(&self.loop_after),
            loop_before: m(&self.loop_before),
            cloops: self.cloops.iter().map(|(k, t)| (k.clone(), f(t))).collect(),
            anchors: self.anchors.iter().map(|(k, p, n, t)| (k.clone(), p.clone(), *n, f(t))).collect(),
            ..self.clone()
        }
    }
}

/// `//@@ include FILE` is resolved relative to the template
pub fn load_text(path: &str) -> String {
    let t = fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let dir = std::path::Path::new(path).parent().unwrap();
    let mut out = String::new();
    for l in t.lines() {
        if let Some(f) = l.trim().strip_prefix("//@@ include ") {
            out.push_str(&load_text(dir.join(f.trim()).to_str().unwrap()));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

pub fn load(path: &str) -> Vec<Node> {
    let t = load_text(path);
    let mut out = vec![];
    let mut text = String::new();
    let mut cur: Option<FnBlock> = None;
    // where following lines go
    let mut sink: (String, usize, String) = (String::new(), 0, String::new());
    for l in t.lines() {
        let d = l.trim().strip_prefix("//@@ ").map(|x| x.to_string());
        match (&mut cur, d) {
            (None, Some(d)) => {
                let w: Vec<&str> = d.split_whitespace().collect();
                match w[0] {
                    "fn" => {
                        out.push(Node::Text(std::mem::take(&mut text)));
                        cur = Some(FnBlock { file: w[1].into(), path: w[2].into(), ..Default::default() });
                        sink = (String::new(), 0, String::new());
                    }
                    "derived" => {
                        out.push(Node::Text(std::mem::take(&mut text)));
                        out.push(Node::Derived(w[1].into()));
                    }
                    "item" => {
                        out.push(Node::Text(std::mem::take(&mut text)));
                        out.push(Node::Item {
                            file: w[1].into(),
                            kind: w[2].into(),
                            name: w[3].into(),
                            opts: w[4..].iter().map(|x| x.to_string()).collect(),
                        });
                    }
                    "rest" => {
                        out.push(Node::Text(std::mem::take(&mut text)));
                        out.push(Node::Rest { file: w[1].into(), except: w[2..].iter().map(|x| x.to_string()).collect() });
                    }
                    x => panic!("unknown directive {}", x),
                }
            }
            (Some(b), Some(d)) => {
                let (k, rest) = match d.split_once(' ') {
                    Some((k, r)) => (k.to_string(), r.trim().to_string()),
                    None => (d.clone(), String::new()),
                };
                match k.as_str() {
                    "endfn" => {
                        out.push(Node::Fn(cur.take().unwrap()));
                    }
                    "ret" => b.ret = rest,
                    "locals" => b.locals = Some(rest.split_whitespace().map(|x| x.to_string()).collect()),
                    "opt" => b.opts.push(rest),
                    "loop" => {
                        let mut w = rest.split_whitespace();
                        let n = w.next().unwrap().parse().unwrap();
                        if let Some(kd) = w.next() {
                            b.loop_kind.insert(n, kd.to_string());
                        }
                        b.loops.insert(n, String::new());
                        sink = (k, n, String::new());
                    }
                    "loopstart" | "loopend" | "loopafter" | "loopbefore" => sink = (k, rest.parse().unwrap(), String::new()),
                    "cloop" | "cloopstart" | "cloopend" | "cloopafter" | "cloopbefore" => sink = (k, rest.parse().unwrap(), String::new()),
                    "loopkey" | "cloopkey" => {
                        let (n, t) = rest.split_once(' ').unwrap();
                        b.keys.push((k == "cloopkey", n.parse().unwrap(), t.trim().to_string()));
                        sink = (String::new(), 0, String::new());
                    }
                    "before" | "after" | "blockstart" | "blockend" => {
                        let (p, n) = match rest.rsplit_once(" #") {
                            Some((p, n)) if n.trim().parse::<usize>().is_ok() => (p.to_string(), n.trim().parse().unwrap()),
                            _ => (rest.clone(), 0),
                        };
                        b.anchors.push((k.clone(), p, n, String::new()));
                        sink = (k, 0, String::new());
                    }
                    "spec" | "start" | "attr" => sink = (k, 0, String::new()),
                    x => panic!("unknown directive {} in fn {}", x, b.path),
                }
            }
            (Some(b), None) => {
                let l = format!("{}\n", l);
                match sink.0.as_str() {
                    "spec" => b.spec.push_str(&l),
                    "start" => b.start.push_str(&l),
                    "attr" => b.attr.push_str(&l),
                    "loop" => b.loops.entry(sink.1).or_default().push_str(&l),
                    "loopstart" => b.loop_start.entry(sink.1).or_default().push_str(&l),
                    "loopend" => b.loop_end.entry(sink.1).or_default().push_str(&l),
                    "loopafter" => b.loop_after.entry(sink.1).or_default().push_str(&l),
                    "loopbefore" => b.loop_before.entry(sink.1).or_default().push_str(&l),
                    "cloop" | "cloopstart" | "cloopend" | "cloopafter" | "cloopbefore" => {
                        b.cloops.entry((sink.0.clone(), sink.1)).or_default().push_str(&l)
                    }
                    "before" | "after" | "blockstart" | "blockend" => b.anchors.last_mut().unwrap().3.push_str(&l),
                    _ => {
                        if !l.trim().is_empty() {
                            panic!("stray text in fn {}: {}", b.path, l)
                        }
                    }
                }
            }
            (None, None) => {
                text.push_str(l);
                text.push('\n');
            }
        }
    }
    if let Some(b) = cur {
        panic!("unterminated fn block {}", b.path);
    }
    out.push(Node::Text(text));
    out
}

pub struct MapEntry {
    pub name: String,
    pub file: String,
    pub src_line: usize,
    pub out_start: usize,
    pub out_end: usize,
    pub contract: bool,
    pub notes: Vec<String>,
}

pub struct Gen {
    pub expanded: Option<String>,
    pub repo: String,
    pub files: BTreeMap<String, Rc<Source>>,
    pub out: String,
    pub map: Vec<MapEntry>,
    pub notes: Vec<String>,
    pub problems: Vec<String>,
    pub used: BTreeMap<String, BTreeSet<String>>,
    pub heap_fns: HashMap<String, bool>,
    /// text of the template (what it declares itself)
    pub known: String,
    /// the text of the functions that are extracted
    pub said: String,
    /// function -> helpers put in
    pub inlined: BTreeMap<String, Vec<String>>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn linevec(f: &FnRef) -> Option<String> {
    f.sig.inputs.iter().find_map(|a| match a {
        syn::FnArg::Typed(t) => {
            let w: String = t.ty.to_token_stream().to_string().split_whitespace().collect();
            match &*t.pat {
                syn::Pat::Ident(p) if w == "Vec<&mutSquare>" => Some(p.ident.to_string()),
                _ => None,
            }
        }
        _ => None,
    })
}

impl Gen {
    fn src(&mut self, f: &str) -> Result<Rc<Source>, String> {
        if !self.files.contains_key(f) {
            let text = crate::load_text(&self.repo, f)?;
            let none = BTreeSet::new();
            let (text, notes) = crate::inline::apply(f, text, &crate::all_files(&self.repo), self.used.get(f).unwrap_or(&none), &self.known);
            for (k, v) in notes {
                self.inlined.entry(k).or_default().extend(v);
            }
            let s = crate::parse(f, text)?;
            self.files.insert(f.to_string(), Rc::new(s));
        }
        Ok(self.files[f].clone())
    }

    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    pub fn run(&mut self, nodes: &[Node]) -> Result<(), String> {
        for n in nodes {
            if let Node::Fn(b) = n {
                for (o, m) in [("heap", true), ("heapref", false)] {
                    if b.opts.iter().any(|x| x == o) {
                        let ty = b.path.split("::").next().unwrap().split('@').next().unwrap();
                        let f = b.path.rsplit("::").next().unwrap();
                        self.heap_fns.insert(format!("{}::{}", ty, f), m);
                    }
                }
                self.used.entry(b.file.clone()).or_default().insert(b.path.clone());
            }
        }
        self.known = nodes.iter().filter_map(|n| if let Node::Text(t) = n { Some(t.as_str()) } else { None }).collect();
        for n in nodes {
            if let Node::Fn(b) = n {
                self.known.push_str(&format!("\nfn {}(", b.path.rsplit("::").next().unwrap()));
            }
        }
        let extra = self.constants(nodes)?;
        let mut placed = false;
        for n in nodes {
            match n {
                Node::Text(t) => match t.find("verus! {") {
                    Some(i) if !placed => {
                        placed = true;
                        let i = i + "verus! {".len();
                        self.out.push_str(&t[..i]);
                        self.out.push_str(&extra);
                        self.out.push_str(&t[i..]);
                    }
                    _ => self.out.push_str(t),
                },
                Node::Fn(b) => {
                    if let Err(e) = self.function(b) {
                        self.problems.push(e);
                    }
                }
                Node::Derived(ty) => {
                    if let Err(e) = self.derived(ty) {
                        self.problems.push(e);
                    }
                }
                Node::Item { file, kind, name, opts } => {
                    if let Err(e) = self.item(file, kind, name, opts) {
                        self.problems.push(e);
                    }
                }
                Node::Rest { file, except } => {
                    let src = self.src(file)?;
                    let used = self.used.get(file).cloned().unwrap_or_default();
                    for (name, f) in rules::all_functions(&src.ast) {
                        if used.contains(&name) || except.contains(&name) {
                            continue;
                        }
                        self.problems.push(format!("{}: function {} has no contract", file, name));
                        let b = FnBlock { file: file.clone(), path: name.clone(), ..Default::default() };
                        if let Some(t) = &f.impl_ty {
                            if f.trait_.is_some() {
                                continue;
                            }
                            self.out.push_str(&format!("impl {} {{\n", t));
                            let r = self.function(&b);
                            self.out.push_str("}\n");
                            r?;
                        } else {
                            self.function(&b)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// integer constants of the source that the extracted functions use and the template does not mention
    fn constants(&mut self, nodes: &[Node]) -> Result<String, String> {
        let mut out = String::new();
        let named: BTreeSet<String> = nodes
            .iter()
            .filter_map(|n| match n {
                Node::Item { name, .. } => Some(name.clone()),
                Node::Fn(b) => b.path.strip_prefix("const:").map(|x| x.to_string()),
                _ => None,
            })
            .collect();
        let files: Vec<String> = self.used.keys().cloned().collect();
        for file in files {
            let src = self.src(&file)?;
            let used = &self.used[&file];
            let mut words: BTreeSet<String> = BTreeSet::new();
            for (name, f) in rules::all_functions(&src.ast) {
                if used.contains(&name) {
                    rules::idents(f.block.to_token_stream(), &mut words);
                }
            }
            let items: Vec<&syn::ItemConst> = src.ast.items.iter().filter_map(|i| if let syn::Item::Const(c) = i { Some(c) } else { None }).collect();
            loop {
                // a constant may be defined with another
                let before = words.len();
                for c in &items {
                    if words.contains(&c.ident.to_string()) {
                        rules::idents(c.expr.to_token_stream(), &mut words);
                    }
                }
                if words.len() == before {
                    break;
                }
            }
            for c in items {
                let n = c.ident.to_string();
                let ty = c.ty.to_token_stream().to_string();
                if named.contains(&n) || !words.contains(&n) || !["u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "bool"].contains(&ty.as_str()) {
                    continue;
                }
                out.push_str(&format!("\nconst {}: {} = {};\n", n, ty, c.expr.to_token_stream()));
            }
        }
        Ok(out)
    }

    fn item(&mut self, file: &str, kind: &str, name: &str, opts: &[String]) -> Result<(), String> {
        let src = self.src(file)?;
        for it in &src.ast.items {
            match (it, kind) {
                (syn::Item::Struct(s), "struct") if s.ident == name => {
                    let mut t = format!("struct {}", name);
                    t.push_str(&s.generics.to_token_stream().to_string());
                    match &s.fields {
                        syn::Fields::Named(n) => {
                            t.push_str(" {\n");
                            for f in &n.named {
                                let mut ty = f.ty.to_token_stream().to_string();
                                if opts.iter().any(|o| o == "heap") {
                                    ty = ty.replace("* mut Node", "Ptr");
                                }
                                t.push_str(&format!("    {}: {},\n", f.ident.as_ref().unwrap(), ty));
                            }
                            t.push_str("}\n");
                        }
                        x => t.push_str(&format!("{};\n", x.to_token_stream())),
                    }
                    self.out.push_str(&t);
                    if opts.iter().any(|o| o == "clone") {
                        self.derive_check(&s.attrs, "Clone", name);
                        if let syn::Fields::Named(n) = &s.fields {
                            let fs: Vec<String> = n.named.iter().map(|f| {
                                let i = f.ident.as_ref().unwrap();
                                format!("{}: self.{}.clone()", i, i)
                            }).collect();
                            self.out.push_str(&format!(
                                "impl Clone for {} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {} {{ {} }} }} }}\n",
                                name, name, fs.join(", ")));
                        }
                    }
                    return Ok(());
                }
                (syn::Item::Enum(s), "enum") if s.ident == name => {
                    let mut t = format!("enum {} {{\n", name);
                    for v in &s.variants {
                        t.push_str(&format!("    {}{},\n", v.ident, match &v.fields {
                            syn::Fields::Unit => String::new(),
                            // thiserror attributes and the like are dropped with the fields' attributes
                            syn::Fields::Unnamed(u) => format!("({})", u.unnamed.iter().map(|f| f.ty.to_token_stream().to_string()).collect::<Vec<_>>().join(", ")),
                            syn::Fields::Named(n) => format!("{{ {} }}", n.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), f.ty.to_token_stream())).collect::<Vec<_>>().join(", ")),
                        }));
                    }
                    t.push_str("}\n");
                    if opts.iter().any(|o| o == "eq") {
                        self.derive_check(&s.attrs, "PartialEq", name);
                        t = format!("#[derive(PartialEq, Eq, Structural)]\n{}", t);
                    }
                    self.out.push_str(&t);
                    if opts.iter().any(|o| o == "clone") {
                        self.derive_check(&s.attrs, "Clone", name);
                        let mut arms = String::new();
                        for v in &s.variants {
                            match &v.fields {
                                syn::Fields::Unit => arms.push_str(&format!("{}::{} => {}::{}, ", name, v.ident, name, v.ident)),
                                syn::Fields::Unnamed(u) => {
                                    let n = u.unnamed.len();
                                    let p: Vec<String> = (0..n).map(|i| format!("x{}", i)).collect();
                                    let c: Vec<String> = (0..n).map(|i| format!("x{}.clone()", i)).collect();
                                    arms.push_str(&format!("{}::{}({}) => {}::{}({}), ", name, v.ident, p.join(", "), name, v.ident, c.join(", ")));
                                }
                                _ => return Err(format!("clone of enum {} with named fields", name)),
                            }
                        }
                        self.out.push_str(&format!(
                            "impl Clone for {} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ match self {{ {} }} }} }}\n", name, arms));
                    }
                    return Ok(());
                }
                (syn::Item::Const(s), "const") if s.ident == name => {
                    let t = format!("const {}: {} = {};\n", name, s.ty.to_token_stream(), {
                        let a = src.off(s.expr.span().start());
                        let b = src.off(s.expr.span().end());
                        src.text[a..b].to_string()
                    });
                    self.out.push_str(&t);
                    return Ok(());
                }
                _ => {}
            }
        }
        Err(format!("{}: {} {} not found", file, kind, name))
    }

    fn derive_check(&mut self, attrs: &[syn::Attribute], what: &str, name: &str) {
        let ok = attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains(what));
        if !ok {
            self.problems.push(format!("{} no longer derives {}", name, what));
        }
    }

    /// contracts of standard functions that the extracted text mentions and the unit does not give itself
    pub fn std(&mut self, text: &str) {
        let mut more = String::new();
        let mut take = false;
        for l in text.lines() {
            if let Some(w) = l.strip_prefix("//@@ std ") {
                take = w.split_whitespace().any(|w| {
                    let (lead, w) = match w.strip_prefix('=') {
                        Some(x) => ("= ", x),
                        None => ("", w),
                    };
                    self.said.contains(&format!("{}{}", lead, w))
                });
                if take {
                    self.notes.push(format!("contract of a standard function: {}", w));
                }
            } else if take {
                more.push_str(l);
                more.push('\n');
            }
        }
        if !more.is_empty() {
            if more.contains("Allocator") {
                self.out = self.out.replacen("#![allow(", "#![feature(allocator_api)] #![allow(", 1);
            }
            self.out.push_str(&format!("verus! {{\n{}}}\n", more));
        }
    }

    fn function(&mut self, b: &FnBlock) -> Result<(), String> {
        let src = self.src(&b.file)?;
        let f: FnRef = if let Some(c) = b.path.strip_prefix("const:") {
            // a constant with a block initialiser is extracted as a function of no arguments
            rules::const_as_fn(&src.ast, c).ok_or(format!("{}: constant {} not found", b.file, c))?
        } else {
            rules::all_functions(&src.ast)
                .into_iter()
                .find(|x| x.0 == b.path)
                .map(|x| x.1)
                .ok_or(format!("{}: function {} not found", b.file, b.path))?
        };
        let mut ed = Edits::new(&src.text);
        for o in b.opts.iter().filter_map(|o| o.strip_prefix("expect ")) {
            // text outside the function that the extraction relies on
            let want = rules::norm_str(o);
            let have = src.ast.items.iter().any(|i| Some(rules::norm(i.to_token_stream(), &BTreeMap::new())) == want);
            if !have {
                self.problems.push(format!("{}: `{}` not found", b.file, o));
            }
        }
        let mut notes: Vec<String> = self.inlined.get(&b.path).cloned().unwrap_or_default();

        // 1. align local names with the pinned ones
        let actual = rules::locals_of(&f);
        let map = match &b.locals {
            Some(p) if *p != actual => rules::align(p, &actual),
            _ => BTreeMap::new(),
        };
        for (a, p) in &map {
            notes.push(format!("alpha-rename: {} -> {}", a, p));
        }
        rules::rename(&src, &f, &map, &mut ed);

        // 2. shape
        let mut shape = rules::Shape { src: &src, map: &map, loops: vec![], stmts: vec![] };
        shape.visit_block(&f.block);
        let renumbered = self.renumber(b, &src, &f, &shape.loops);
        let b = renumbered.as_ref().unwrap_or(b);
        // `vx_loN` in a contract is the lower end of the range of loop N
        let placed = b.with_text(&|t| {
            let mut t = t.to_string();
            for (i, l) in shape.loops.iter().enumerate() {
                if let Some(lo) = &l.lo {
                    t = t.replace(&format!("vx_lo{}()", i), &format!("({})", lo));
                }
            }
            t
        });
        let b = &placed;
        if b.locals.is_some() || !b.loops.is_empty() {
            let want = b.loops.len();
            if shape.loops.len() != want {
                self.problems.push(format!("{}: {} loops, contract has {}", b.path, shape.loops.len(), want));
            }
        }
        for (i, k) in &b.loop_kind {
            if let Some(l) = shape.loops.get(*i) {
                if l.kind != k {
                    self.problems.push(format!("{}: loop {} is a {}, contract is for a {}", b.path, i, l.kind, k));
                }
            }
        }
        let canary = std::env::var("VX_CANARY").is_ok();
        for (i, l) in shape.loops.iter().enumerate() {
            if let Some(t) = b.loop_start.get(&i) {
                ed.insert(l.body_open + 1, 5, format!("\n{}", t));
            }
            if canary {
                ed.insert(l.body_open + 1, 4, format!("\nproof {{ assert(vx_reach({})); }} // canary {} loop{}\n", i + 1, b.path, i));
            }
            if let Some(t) = b.loop_end.get(&i) {
                ed.insert(l.body_close, 5, format!("\n{}", t));
            }
            if let Some(t) = b.loop_after.get(&i) {
                ed.insert(l.stmt_end, 5, format!("\n{}", t));
            }
            if let Some(t) = b.loop_before.get(&i) {
                ed.insert(l.stmt_start, 1, format!("\n{}", t));
            }
        }
        for (place, pat, nth, text) in &b.anchors {
            let want = rules::norm_str(pat).ok_or(format!("bad pattern {}", pat))?;
            let hit = shape.stmts.iter().filter(|s| s.text.starts_with(&want)).nth(*nth);
            match hit {
                None => self.problems.push(format!("{}: lost anchor `{}`", b.path, pat)),
                Some(s) => {
                    if place == "before" {
                        ed.insert(s.start, 2, format!("{}\n", text));
                    } else if place == "blockstart" {
                        ed.insert(s.block.0, 6, format!("\n{}", text));
                    } else if place == "blockend" {
                        ed.insert(s.block.1, 4, format!("\n{}", text));
                    } else if s.last {
                        self.problems.push(format!("{}: anchor `{}` is a tail expression", b.path, pat));
                    } else {
                        ed.insert(s.end, 2, format!("\n{}", text));
                    }
                }
            }
        }

        // 3. rules
        let bo = src.off(f.block.brace_token.span.open().start());
        let be = src.off(f.block.brace_token.span.close().end());
        let mut opts: std::collections::HashSet<String> = b.opts.iter().cloned().collect();
        if f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some())) {
            opts.insert("mutself".into());
        }
        let mut drop_range = None;
        if let Some(o) = b.opts.iter().find_map(|o| o.strip_prefix("dropvar ")) {
            let (v, mv) = o.split_once(' ').unwrap_or((o, ""));
            let var = map.iter().find(|x| x.1 == v).map(|x| x.0.clone()).unwrap_or(v.to_string());
            match rules::owned_range(&src, &f.block, &var, mv) {
                Some((x, y)) => drop_range = Some((v.to_string(), x, y)),
                None => self.problems.push(format!("{}: lost the owner of the memory `{}`", b.path, v)),
            }
        }
        if opts.contains("dropself") && rules::exits(&f.block) > 0 {
            self.problems.push(format!("{}: leaves early while it owns memory", b.path));
        }
        let heap = opts.contains("heap") || opts.contains("heapref") || opts.contains("noheap");
        {
            let mut rw = rules::Rewriter {
                src: &src,
                ed: &mut ed,
                notes: vec![],
                loop_no: 0,
                cloop_no: 0,
                cloop_texts: vec![],
                ctx: vec![],
                cloops: &b.cloops,
                canary,
                fn_name: b.path.clone(),
                loop_spec: &b.loops,
                opts: opts.clone(),
                heap_fns: &self.heap_fns,
                refs: vec![],
                drop_range,
                linevec: linevec(&f),
            };
            if heap {
                for a in &f.sig.inputs {
                    rules::visit_arg(&mut rw, a);
                }
                rules::visit_ret(&mut rw, &f.sig.output);
            }
            rw.visit_block(&f.block);
            notes.extend(rw.notes);
            let want = b.cloops.keys().filter(|k| k.0 == "cloop").count();
            if rw.cloop_no != want {
                self.problems.push(format!("{}: {} collecting closures, contract has {}", b.path, rw.cloop_no, want));
            }
        }
        if opts.contains("dropself") {
            let a = self.adrop(&mut ed, bo, be, if opts.contains("mutself") { "vx_self" } else { "self" });
            notes.push(a);
        }
        if !b.start.is_empty() {
            ed.insert(bo + 1, 3, format!("\n{}", b.start));
        }
        if canary && !b.path.starts_with("const:") {
            // `hide` has to come first
            let first = !b.start.trim_start().starts_with("hide(");
            ed.insert(bo + 1, if first { 2 } else { 4 }, format!("\nproof {{ assert(vx_reach(0)); }} // canary {} start\n", b.path));
        }

        // 4. signature
        let sig = self.signature(&src, &f, b, &map, &mut ed, bo);
        let body = ed.render(bo, be);
        if body.contains(rules::NO_CONTRACT) {
            self.problems.push(format!("{}: a closure without a contract", b.path));
        }
        self.said.push_str(&src.text[bo..be]);
        let l0 = self.line();
        self.out.push_str(&format!("// ---- extracted from {}:{} ({})\n", b.file, f.sig.ident.span().start().line, b.path));
        self.out.push_str(&b.attr);
        self.out.push_str(&sig);
        self.out.push('\n');
        self.out.push_str(&b.spec);
        self.out.push_str(&body);
        self.out.push('\n');
        let l1 = self.line();
        self.map.push(MapEntry {
            name: b.path.clone(),
            file: b.file.clone(),
            src_line: f.sig.ident.span().start().line,
            out_start: l0,
            out_end: l1,
            contract: !b.spec.trim().is_empty(),
            notes,
        });
        Ok(())
    }

    /// the contract's loops and closures are numbered in the order of the pinned text; where some of
    /// them are recognised by their own text, the numbers follow the order of the current text
    fn renumber(&self, b: &FnBlock, src: &Source, f: &FnRef, loops: &[rules::LoopInfo]) -> Option<FnBlock> {
        if b.keys.is_empty() {
            return None;
        }
        let closures = {
            let mut scratch = Edits::new(&src.text);
            let mut rw = rules::Rewriter {
                src,
                ed: &mut scratch,
                notes: vec![],
                loop_no: 0,
                cloop_no: 0,
                cloop_texts: vec![],
                ctx: vec![],
                cloops: &b.cloops,
                canary: false,
                fn_name: b.path.clone(),
                loop_spec: &b.loops,
                opts: b.opts.iter().cloned().collect(),
                heap_fns: &self.heap_fns,
                refs: vec![],
                drop_range: None,
                linevec: linevec(f),
            };
            rw.visit_block(&f.block);
            rw.cloop_texts
        };
        let texts: Vec<String> = loops.iter().map(|l| l.text.clone()).collect();
        let find = |c: bool, have: &[String]| -> Option<HashMap<usize, usize>> {
            let mut to: HashMap<usize, usize> = HashMap::new();
            for (_, n, t) in b.keys.iter().filter(|k| k.0 == c) {
                let want = rules::norm_str(t)?;
                // the innermost that has the text
                let m = (0..have.len()).filter(|i| have[*i].contains(&want)).min_by_key(|i| have[*i].len())?;
                if to.values().any(|x| *x == m) {
                    return None;
                }
                to.insert(*n, m);
            }
            let mut free: Vec<usize> = (0..have.len()).filter(|m| !to.values().any(|x| x == m)).collect();
            free.reverse();
            for n in 0..have.len() {
                if !to.contains_key(&n) {
                    to.insert(n, free.pop()?);
                }
            }
            Some(to)
        };
        let to_loop = find(false, &texts).unwrap_or_default();
        let to_closure = find(true, &closures).unwrap_or_default();
        if to_loop.iter().chain(&to_closure).all(|(n, m)| n == m) {
            return None;
        }
        let lp = |n: &usize| to_loop.get(n).copied().unwrap_or(*n);
        let cl = |n: &usize| to_closure.get(n).copied().unwrap_or(*n);
        let text = |t: &String| -> String {
            let mut out = String::new();
            let mut rest = t.as_str();
            while let Some(i) = rest.find("vx_") {
                let own = !rest[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_');
                out.push_str(&rest[..i + 3]);
                rest = &rest[i + 3..];
                let w: String = rest.chars().take_while(|c| c.is_ascii_lowercase()).collect();
                let d: String = rest[w.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
                let end = !rest[w.len() + d.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_');
                if let (true, true, Ok(n)) = (own, end, d.parse::<usize>()) {
                    let m = match w.as_str() {
                        "i" | "it" | "arr" | "c" | "lo" => Some(lp(&n)),
                        "n" | "out" | "src" | "err" | "l" | "r" => Some(cl(&n)),
                        _ => None,
                    };
                    if let Some(m) = m {
                        out.push_str(&format!("{}{}", w, m));
                        rest = &rest[w.len() + d.len()..];
                    }
                }
            }
            out.push_str(rest);
            out
        };
        let by_loop = |h: &HashMap<usize, String>| h.iter().map(|(n, t)| (lp(n), text(t))).collect();
        let mut r = b.clone();
        r.start = text(&b.start);
        r.loops = by_loop(&b.loops);
        r.loop_kind = b.loop_kind.iter().map(|(n, t)| (lp(n), t.clone())).collect();
        r.loop_start = by_loop(&b.loop_start);
        r.loop_end = by_loop(&b.loop_end);
        r.loop_after = by_loop(&b.loop_after);
        r.loop_before = by_loop(&b.loop_before);
        r.cloops = b.cloops.iter().map(|((k, n), t)| ((k.clone(), cl(n)), text(t))).collect();
        r.anchors = b.anchors.iter().map(|(k, p, n, t)| (k.clone(), p.clone(), *n, text(t))).collect();
        r.opts = b
            .opts
            .iter()
            .map(|o| match o.strip_prefix("vecof ").and_then(|x| x.split_once(' ')) {
                Some((n, t)) => format!("vecof {} {}", cl(&n.parse().unwrap()), t),
                None => o.clone(),
            })
            .collect();
        Some(r)
    }

    /// BODY  ==>  { let vx_ret = BODY; self.drop(vx_h); vx_ret }
    fn adrop(&mut self, ed: &mut Edits, bo: usize, be: usize, me: &str) -> String {
        ed.insert(bo + 1, 20, " let vx_ret = {");
        ed.insert(be - 1, 20, format!("}}; {me}.drop(vx_h); vx_ret "));
        "drop-at-end: self".to_string()
    }

    fn signature(&mut self, src: &Source, f: &FnRef, b: &FnBlock, map: &BTreeMap<String, String>, ed: &mut Edits, bo: usize) -> String {
        let _ = (map, bo);
        let mut s = String::from("fn ");
        s.push_str(&f.sig.ident.to_string());
        if !f.sig.generics.params.is_empty() {
            let g = f.sig.generics.span();
            s.push_str(&ed.render(src.off(g.start()), src.off(g.end())));
        }
        s.push('(');
        let mut first = true;
        let mut muts = String::new();
        let lineiter = b.opts.iter().any(|o| o == "lineiter");
        for a in &f.sig.inputs {
            if !first {
                s.push_str(", ");
            }
            first = false;
            if let (true, syn::FnArg::Typed(t)) = (b.opts.iter().any(|o| o == "squares"), a) {
                // a mutable slice of squares is the vector it comes from
                let w: String = t.ty.to_token_stream().to_string().split_whitespace().collect();
                if let (syn::Pat::Ident(p), "&mut[Square]") = (&*t.pat, w.as_str()) {
                    s.push_str(&format!("{}: &mut Vec<Square>", map.get(&p.ident.to_string()).cloned().unwrap_or(p.ident.to_string())));
                    continue;
                }
            }
            if let (Some(v), syn::FnArg::Typed(t)) = (linevec(f), a) {
                // references to the squares of a line: the line itself, copied in and out by the caller
                if matches!(&*t.pat, syn::Pat::Ident(p) if p.ident == v) {
                    s.push_str(&format!("{}: &mut Vec<Square>", map.get(&v).cloned().unwrap_or(v)));
                    continue;
                }
            }
            if let (true, syn::FnArg::Typed(t)) = (lineiter, a) {
                // an iterator over `&&mut Square` is the iterator over a line, in either direction
                let w: String = t.ty.to_token_stream().to_string().split_whitespace().collect();
                if w.starts_with("implIterator<Item=&") && w.ends_with("mutSquare>+Clone") {
                    if let syn::Pat::Ident(p) = &*t.pat {
                        let n = map.get(&p.ident.to_string()).cloned().unwrap_or(p.ident.to_string());
                        s.push_str(&format!("{}: LineIt<'a>", n));
                        if p.mutability.is_some() {
                            muts.push_str(&format!(" let mut {} = {};", n, n));
                        }
                        continue;
                    }
                }
            }
            if let syn::FnArg::Typed(t) = a {
                if let syn::Pat::Ident(p) = &*t.pat {
                    if p.mutability.is_some() {
                        // `mut x: T` -> `x: T` and `let mut x = x;`
                        let n = map.get(&p.ident.to_string()).cloned().unwrap_or(p.ident.to_string());
                        let (x, y) = (src.off(t.ty.span().start()), src.off(t.ty.span().end()));
                        s.push_str(&format!("{}: {}", n, ed.render(x, y)));
                        muts.push_str(&format!(" let mut {} = {};", n, n));
                        continue;
                    }
                }
            }
            if b.opts.iter().any(|o| o == "slices") && a.to_token_stream().to_string().contains("ExactSizeIterator") {
                // an iterator over iterators over `&usize` is given as the sequences it yields
                if let syn::FnArg::Typed(t) = a {
                    s.push_str(&format!("{}: &Vec<Vec<usize>>", t.pat.to_token_stream()));
                    continue;
                }
            }
            if let syn::FnArg::Receiver(r) = a {
                if r.reference.is_none() && r.mutability.is_some() {
                    s.push_str("self");
                    muts.push_str(" let mut vx_self = self;");
                    continue;
                }
            }
            let (x, y) = (src.off(a.span().start()), src.off(a.span().end()));
            s.push_str(&ed.render(x, y));
        }
        for (o, t) in [("heap", "vx_h: &mut Hp"), ("heapref", "vx_h: &Hp")] {
            if b.opts.iter().any(|x| x == o) {
                s.push_str(if first { "" } else { ", " });
                s.push_str(t);
            }
        }
        s.push(')');
        if let syn::ReturnType::Type(_, t) = &f.sig.output {
            let (x, y) = (src.off(t.span().start()), src.off(t.span().end()));
            let mut t = ed.render(x, y).replace("Self::Item", "Ptr");
            if let Some(o) = b.opts.iter().find_map(|o| o.strip_prefix("ret ")) {
                // `impl Iterator` is the struct the body builds
                let built = match f.block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => match rules::strip(e) {
                        syn::Expr::Struct(x) => x.path.to_token_stream().to_string(),
                        _ => String::new(),
                    },
                    _ => String::new(),
                };
                if built != o {
                    self.problems.push(format!("{}: does not build {}", b.path, o));
                }
                t = o.to_string();
            }
            if b.ret.is_empty() {
                s.push_str(&format!(" -> {}", t));
            } else {
                s.push_str(&format!(" -> ({}: {})", b.ret, t));
            }
        }
        if !muts.is_empty() {
            // `hide` has to come first
            ed.insert(bo + 1, if b.start.trim_start().starts_with("hide(") { 4 } else { 0 }, muts);
        }
        if let Some(w) = &f.sig.generics.where_clause {
            s.push_str(&format!(" {}", w.to_token_stream()));
        }
        let _: Option<Piece> = None;
        s
    }

    pub fn map_json(&self) -> String {
        let arr = |v: &Vec<String>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
        let fns: Vec<String> = self
            .map
            .iter()
            .map(|m| {
                format!(
                    "{{\"name\": {}, \"file\": {}, \"src_line\": {}, \"out_start\": {}, \"out_end\": {}, \"contract\": {}, \"notes\": {}}}",
                    js(&m.name), js(&m.file), m.src_line, m.out_start, m.out_end, m.contract, arr(&m.notes)
                )
            })
            .collect();
        format!("{{\"functions\": [{}],\n \"problems\": {},\n \"notes\": {}}}\n", fns.join(",\n "), arr(&self.problems), arr(&self.notes))
    }
}
