//! vx: mechanical extraction of Rust functions into a Verus file.
//!
//! `vx --repo DIR --template FILE --out OUT.rs --map OUT.json`
//!
//! The template is a Verus source file. Lines starting with `//@@` are directives; a function
//! block `//@@ fn FILE PATH` ... `//@@ endfn` is replaced by the text of that function, copied
//! from the working tree, with contracts, loop invariants and proof blocks inserted. The executable
//! text is changed only by the rules in rules.rs (each application is logged in the map).
mod derive;
mod edits;
mod inline;
mod rules;
mod template;

use std::collections::{BTreeMap, HashMap};
use std::fs;

fn main() {
    let mut args: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            args.insert(k.to_string(), it.next().unwrap_or_default());
        }
    }
    let repo = args.get("repo").cloned().unwrap_or("/repo".into());
    if let Some(f) = args.get("locals") {
        // print the local names of every function of a file (for the `locals` directives)
        let src = load(&repo, f).unwrap();
        for (name, fun) in rules::all_functions(&src.ast) {
            println!("{} : {}", name, rules::locals_of(&fun).join(" "));
        }
        return;
    }
    let tpl_path = &args["template"];
    let tpl = template::load(tpl_path);
    let mut gen = template::Gen {
        repo,
        expanded: args.get("expanded").cloned(),
        files: BTreeMap::new(),
        out: String::new(),
        map: vec![],
        notes: vec![],
        problems: vec![],
        used: Default::default(),
        heap_fns: Default::default(),
        known: String::new(),
        said: String::new(),
        inlined: Default::default(),
    };
    let r = gen.run(&tpl);
    if let Err(e) = r {
        gen.problems.push(e);
    }
    let std = std::path::Path::new(tpl_path).with_file_name("std.vi");
    if let Ok(t) = fs::read_to_string(std) {
        gen.std(&t);
    }
    fs::write(&args["out"], &gen.out).unwrap();
    fs::write(&args["map"], gen.map_json()).unwrap();
}

pub struct Source {
    pub text: String,
    pub ast: syn::File,
    /// line -> byte offset
    pub lines: Vec<usize>,
}

impl Source {
    pub fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let start = self.lines[lc.line - 1];
        let line_end = self.lines.get(lc.line).copied().unwrap_or(self.text.len());
        let line = &self.text[start..line_end];
        start + line.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(line.len())
    }
}

pub fn load_text(repo: &str, file: &str) -> Result<String, String> {
    let text = fs::read_to_string(format!("{}/{}", repo, file)).map_err(|e| format!("{}: {}", file, e))?;
    Ok(rules::expand_ident_macros(&text))
}

pub fn load(repo: &str, file: &str) -> Result<Source, String> {
    parse(file, load_text(repo, file)?)
}

/// every source file of the crate
pub fn all_files(repo: &str) -> Vec<(String, String)> {
    fn walk(repo: &str, dir: &str, out: &mut Vec<(String, String)>) {
        let Ok(rd) = fs::read_dir(format!("{}/{}", repo, dir)) else { return };
        for e in rd.flatten() {
            let n = format!("{}/{}", dir, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                walk(repo, &n, out);
            } else if n.ends_with(".rs") {
                if let Ok(t) = fs::read_to_string(e.path()) {
                    out.push((n, t));
                }
            }
        }
    }
    let mut v = vec![];
    walk(repo, "src", &mut v);
    v.sort();
    v
}

pub fn load_path(file: &str) -> Result<Source, String> {
    parse(file, fs::read_to_string(file).map_err(|e| format!("{}: {}", file, e))?)
}

pub fn parse(file: &str, text: String) -> Result<Source, String> {
    let ast = syn::parse_file(&text).map_err(|e| format!("{}: cannot parse: {}", file, e))?;
    let mut lines = vec![0];
    for (i, c) in text.char_indices() {
        if c == '\n' {
            lines.push(i + 1);
        }
    }
    Ok(Source { text, ast, lines })
}
