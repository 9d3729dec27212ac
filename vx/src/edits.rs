//! Text edits over one source file. Everything that no edit touches is copied verbatim.
#[derive(Clone, Debug)]
pub enum Piece {
    T(String),
    /// A sub-range of the source, rendered with the edits that lie inside it.
    S(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub prio: i32,
    pub pieces: Vec<Piece>,
}

pub struct Edits<'a> {
    pub src: &'a str,
    pub list: Vec<Edit>,
}

impl<'a> Edits<'a> {
    pub fn new(src: &'a str) -> Self {
        Edits { src, list: vec![] }
    }
    pub fn insert(&mut self, pos: usize, prio: i32, text: impl Into<String>) {
        self.list.push(Edit { start: pos, end: pos, prio, pieces: vec![Piece::T(text.into())] });
    }
    pub fn replace(&mut self, start: usize, end: usize, pieces: Vec<Piece>) {
        self.list.push(Edit { start, end, prio: 0, pieces });
    }
    pub fn render(&self, a: usize, b: usize) -> String {
        self.render_x(a, b, &mut vec![])
    }
    fn render_x(&self, a: usize, b: usize, active: &mut Vec<usize>) -> String {
        // outermost edits inside [a, b]
        let mut idx: Vec<usize> = (0..self.list.len())
            .filter(|i| !active.contains(i) && self.list[*i].start >= a && self.list[*i].end <= b)
            .collect();
        // wide replacements first at equal start; insertions at the same start go by priority
        idx.sort_by_key(|&i| {
            let e = &self.list[i];
            let ins = e.start == e.end;
            (e.start, if ins { 0 } else { 1 }, if ins { e.prio as i64 } else { -((e.end - e.start) as i64) }, i)
        });
        let mut out = String::new();
        let mut pos = a;
        for &i in &idx {
            let e = self.list[i].clone();
            if e.start < pos {
                continue; // inside a replacement already rendered
            }
            out.push_str(&self.src[pos..e.start]);
            active.push(i);
            for p in &e.pieces {
                match p {
                    Piece::T(t) => out.push_str(t),
                    Piece::S(x, y) => {
                        let s = self.render_x(*x, *y, active);
                        out.push_str(&s)
                    }
                }
            }
            active.pop();
            pos = e.end;
        }
        out.push_str(&self.src[pos..b]);
        out
    }
}
