use crate::{guard, rng::Rng, Prop};
use image::Rgb;
use puzzle_utils::{parse_sudoku, print_sudoku, solve_sudoku, SudokuError};
use serde_json::{json, Value};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "S01" => Prop { gen: gen_board, check: check_s01, bounds: "random, minimal and mutated 81-cell boards" },
        "S02" => Prop { gen: gen_board, check: check_s02, bounds: "random, minimal and mutated 81-cell boards" },
        "S03" => Prop { gen: gen_s03, check: check_s03, bounds: "slices of length 0 to 200 and 81-cell boards, allocator guard" },
        "S04" => Prop { gen: gen_s04, check: check_s04, bounds: "strings of up to 170 characters" },
        "S05" => Prop { gen: gen_s05, check: check_s05, bounds: "slices of length 0 to 170 and 81-cell boards" },
        _ => return None,
    })
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

/// independent solver: bitmask search, fewest candidates first; None if the node budget runs out
pub fn oracle(board: &[u8], budget: &mut u64) -> Option<Option<Vec<u8>>> {
    let (mut r, mut c, mut b) = ([0u16; 9], [0u16; 9], [0u16; 9]);
    let mut g = board.to_vec();
    for i in 0..81 {
        let v = g[i];
        if v == 0 {
            continue;
        }
        if v > 9 {
            return Some(None);
        }
        let m = 1 << v;
        let (y, x) = (i / 9, i % 9);
        let z = y / 3 * 3 + x / 3;
        if r[y] & m != 0 || c[x] & m != 0 || b[z] & m != 0 {
            return Some(None);
        }
        r[y] |= m;
        c[x] |= m;
        b[z] |= m;
    }
    fn go(g: &mut [u8], r: &mut [u16; 9], c: &mut [u16; 9], b: &mut [u16; 9], budget: &mut u64) -> Option<bool> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let mut best: Option<(u32, usize, u16)> = None;
        for i in 0..81 {
            if g[i] == 0 {
                let (y, x) = (i / 9, i % 9);
                let free = !(r[y] | c[x] | b[y / 3 * 3 + x / 3]) & 0x3fe;
                let k = free.count_ones();
                if best.is_none_or(|t| k < t.0) {
                    best = Some((k, i, free));
                }
            }
        }
        let Some((_, i, free)) = best else { return Some(true) };
        let (y, x) = (i / 9, i % 9);
        let z = y / 3 * 3 + x / 3;
        for v in 1..=9u8 {
            let m = 1u16 << v;
            if free & m != 0 {
                g[i] = v;
                r[y] |= m;
                c[x] |= m;
                b[z] |= m;
                if go(g, r, c, b, budget)? {
                    return Some(true);
                }
                g[i] = 0;
                r[y] &= !m;
                c[x] &= !m;
                b[z] &= !m;
            }
        }
        Some(false)
    }
    match go(&mut g, &mut r, &mut c, &mut b, budget) {
        None => None,
        Some(true) => Some(Some(g)),
        Some(false) => Some(None),
    }
}

/// known hard or sparse puzzles, and an impossible board without local contradiction
const HARD: [&str; 8] = [
    "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
    "000000039000001005003050800008090006070002000100400000009080050020000600400700000",
    "800000000003600000070090200050007000000045700000100030001000068008500010090000400",
    "000000000000003085001020000000507000004000100090000000500000073002010000000040009",
    "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
    "000006000059000008200008000045000000003000000006003054000325006000000000000000000",
    "000000000000000000000000000000000000000000000000000000000000000000000000123456780",
    "005300000800000020070010500400005300010070006003200080060500009004000030000009700",
];

fn full_grid(rng: &mut Rng) -> Vec<u8> {
    // shuffle the canonical grid by all its symmetries
    let mut digits: Vec<u8> = (1..=9).collect();
    rng.shuffle(&mut digits);
    let order = |rng: &mut Rng| {
        let mut bands = [0usize, 1, 2];
        rng.shuffle(&mut bands);
        let mut o = Vec::new();
        for b in bands {
            let mut k = [0usize, 1, 2];
            rng.shuffle(&mut k);
            o.extend(k.iter().map(|x| b * 3 + x));
        }
        o
    };
    let (ro, co) = (order(rng), order(rng));
    let t = rng.chance(1, 2);
    (0..81)
        .map(|i| {
            let (mut y, mut x) = (ro[i / 9], co[i % 9]);
            if t {
                std::mem::swap(&mut y, &mut x);
            }
            digits[(y * 3 + y / 3 + x) % 9]
        })
        .collect()
}

fn board(rng: &mut Rng, i: u64) -> Vec<u8> {
    match i {
        0 => return vec![0; 81],
        1 => return vec![255; 81],
        _ => {}
    }
    // one or two givens anywhere: exhaustive over the first cases
    if i < 2 + 810 {
        let mut b = vec![0; 81];
        b[((i - 2) / 10) as usize] = ((i - 2) % 10 + 1) as u8;
        return b;
    }
    if i < 2 + 810 + HARD.len() as u64 {
        return HARD[(i - 812) as usize].bytes().map(|b| b - b'0').collect();
    }
    let mut g = full_grid(rng);
    if rng.chance(1, 12) {
        // no clue can be taken away; often changed in one place afterwards, which mostly needs search to refute
        let mut idx: Vec<usize> = (0..81).collect();
        rng.shuffle(&mut idx);
        let mut left = 60;
        for k in idx {
            let v = std::mem::take(&mut g[k]);
            let unique = (1..=9).filter(|&x| x != v).all(|x| {
                g[k] = x;
                matches!(oracle(&g, &mut 3000), Some(None))
            });
            g[k] = if unique { 0 } else { v };
            left -= unique as i32;
            if left == 0 {
                break;
            }
        }
        if rng.chance(1, 2) {
            let full: Vec<usize> = (0..81).filter(|&k| g[k] > 0).collect();
            let k = full[rng.below(full.len() as u64) as usize];
            g[k] = if rng.chance(1, 2) { 0 } else { rng.range(1, 9) as u8 };
        }
        return g;
    }
    match rng.below(8) {
        // all kept, or few holes
        0 => {
            for _ in 0..rng.below(12) {
                let k = rng.below(81) as usize;
                g[k] = 0;
            }
        }
        1..=4 => {
            let keep = rng.range(22, 70);
            let mut idx: Vec<usize> = (0..81).collect();
            rng.shuffle(&mut idx);
            for &k in &idx[keep as usize..] {
                g[k] = 0;
            }
        }
        5 => {
            // sparse
            let keep = rng.below(12);
            let mut idx: Vec<usize> = (0..81).collect();
            rng.shuffle(&mut idx);
            for &k in &idx[keep as usize..] {
                g[k] = 0;
            }
        }
        6 => {
            // two or three random givens
            g = vec![0; 81];
            for _ in 0..rng.range(2, 4) {
                let k = rng.below(81) as usize;
                g[k] = rng.range(1, 9) as u8;
            }
        }
        _ => {
            for k in 0..81 {
                if rng.chance(1, 2) {
                    g[k] = 0
                }
            }
        }
    }
    // mutations
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            let k = rng.below(81) as usize;
            g[k] = match rng.below(4) {
                0 => rng.range(10, 255) as u8,
                1 => rng.range(9, 12) as u8,
                _ => rng.range(1, 9) as u8,
            };
        }
    }
    g
}

fn gen_board(i: u64, rng: &mut Rng) -> Value {
    json!(board(rng, i))
}

fn valid(grid: &[u8], board: &[u8]) -> Result<(), String> {
    if grid.len() != 81 {
        return Err(format!("grid has {} cells", grid.len()));
    }
    for u in 0..9 {
        let unit = |f: &dyn Fn(usize) -> usize| -> bool {
            let mut m = 0u16;
            for k in 0..9 {
                let v = grid[f(k)];
                if !(1..=9).contains(&v) {
                    return false;
                }
                m |= 1 << v;
            }
            m == 0x3fe
        };
        if !unit(&|k| u * 9 + k) {
            return Err(format!("row {u} is not a permutation of 1..9: {grid:?}"));
        }
        if !unit(&|k| k * 9 + u) {
            return Err(format!("column {u} is not a permutation of 1..9: {grid:?}"));
        }
        if !unit(&|k| (u / 3 * 3 + k / 3) * 9 + u % 3 * 3 + k % 3) {
            return Err(format!("box {u} is not a permutation of 1..9: {grid:?}"));
        }
    }
    for i in 0..81 {
        if board[i] != 0 && board[i] != grid[i] {
            return Err(format!("cell {i} is {} instead of the given {}", grid[i], board[i]));
        }
    }
    Ok(())
}

fn check_s01(v: &Value) -> Result<(), String> {
    let b = bytes(v);
    match solve_sudoku(&b) {
        Ok(g) => valid(&g, &b),
        Err(_) => Ok(()),
    }
}

fn check_s02(v: &Value) -> Result<(), String> {
    let b = bytes(v);
    let mut budget = 200_000;
    // an oracle that gives up leaves the board out
    let Some(truth) = oracle(&b, &mut budget) else { return Ok(()) };
    match (solve_sudoku(&b), truth) {
        (Ok(_), Some(_)) | (Err(SudokuError::NoSolution), None) => Ok(()),
        (Ok(g), None) => Err(format!("returned {g:?} for a board without completion")),
        (Err(e), Some(g)) => Err(format!("returned `{e}` although {g:?} is a completion")),
        (Err(e), None) => Err(format!("returned `{e}` instead of no solution")),
    }
}

fn gen_s03(i: u64, rng: &mut Rng) -> Value {
    if i < 200 {
        return json!(vec![i % 11; i as usize]);
    }
    if rng.chance(1, 20) {
        let n = rng.below(200);
        return json!((0..n).map(|_| rng.below(12)).collect::<Vec<_>>());
    }
    gen_board(i - 200, rng)
}

fn check_s03(v: &Value) -> Result<(), String> {
    let b = bytes(v);
    // 0 solved, 1 no solution, 2 size error, 3 other
    let r = guard::guarded(|| match solve_sudoku(&b) {
        Ok(_) => (0, 0),
        Err(SudokuError::NoSolution) => (1, 0),
        Err(SudokuError::InvalidSize(n)) => (2, n),
        Err(_) => (3, 0),
    })?;
    if b.len() != 81 {
        if r != (2, b.len()) {
            return Err(format!("slice of {} cells: outcome {r:?} instead of the size error", b.len()));
        }
    } else if r.0 > 1 {
        return Err(format!("81 cells: outcome {r:?}"));
    }
    Ok(())
}

fn gen_s04(i: u64, rng: &mut Rng) -> Value {
    let n = match i % 4 {
        0 => 81,
        1 => rng.range(79, 83),
        2 => rng.below(171),
        _ => 81,
    };
    let mut s: Vec<char> = (0..n).map(|_| char::from(b'0' + rng.below(10) as u8)).collect();
    if rng.chance(1, 2) && !s.is_empty() {
        for _ in 0..rng.range(1, 2) {
            let k = rng.below(s.len() as u64) as usize;
            let odd = ['a', 'F', '/', ':', ' ', '-', '.', '\u{0}', '٣', '９', '½', 'é', '𝟡', '\n', '+', '_', '²'];
            s[k] = if rng.chance(1, 2) {
                odd[rng.below(odd.len() as u64) as usize]
            } else {
                char::from_u32(rng.below(0x300) as u32).unwrap_or('x')
            };
        }
    }
    let mut s: String = s.into_iter().collect();
    if rng.chance(1, 4) {
        // something in front or behind that is easily taken for nothing
        let t = ["\u{feff}", "\n", "\r\n", "\r", " ", "\t", "\0", "\u{200b}", "\u{a0}", "\u{2028}", "\u{0b}", "\u{0c}", "\"", ";", ",", ".", "#", "\u{85}", "0x", "+", "\u{ad}"];
        let t = t[rng.below(t.len() as u64) as usize];
        match rng.below(3) {
            0 => s.insert_str(0, t),
            1 => s.push_str(t),
            _ => s = format!("{t}{s}{t}"),
        }
    }
    json!(s)
}

fn check_s04(v: &Value) -> Result<(), String> {
    let s = v.as_str().unwrap();
    let bad = s.chars().find(|c| !('0'..='9').contains(c));
    let n = s.chars().count();
    match (parse_sudoku(s), bad) {
        (Err(SudokuError::InvalidInteger(c)), Some(d)) if c == d => Ok(()),
        (Err(SudokuError::InvalidSize(k)), None) if k == n && n != 81 => Ok(()),
        (Ok(b), None) if n == 81 && b.len() == 81 && s.chars().zip(&b).all(|(c, &x)| c as u32 - 48 == x as u32) => Ok(()),
        (r, _) => Err(format!("parse gave {r:?}")),
    }
}

fn gen_s05(i: u64, rng: &mut Rng) -> Value {
    if i < 3 {
        return json!(vec![[0, 9, 255][i as usize]; 81]);
    }
    match rng.below(4) {
        0 => {
            let n = rng.below(171);
            json!((0..n).map(|_| rng.below(256)).collect::<Vec<_>>())
        }
        1 => {
            let mut b = vec![0; 81];
            b[rng.below(81) as usize] = rng.range(1, 255);
            json!(b)
        }
        2 => json!((0..81).map(|_| rng.below(256)).collect::<Vec<_>>()),
        _ => json!((0..81).map(|_| rng.below(10)).collect::<Vec<_>>()),
    }
}

pub fn sudoku_line(x: u32, y: u32) -> bool {
    let l = |v: u32| v % 100 == 0 || [299, 301, 599, 601].contains(&v);
    l(x) || l(y)
}

fn check_s05(v: &Value) -> Result<(), String> {
    let b = bytes(v);
    match print_sudoku(&b) {
        Err(SudokuError::InvalidSize(n)) if n == b.len() && n != 81 => Ok(()),
        Ok(img) if b.len() == 81 => {
            if img.dimensions() != (900, 900) {
                return Err(format!("picture is {:?}", img.dimensions()));
            }
            let zero = b.iter().all(|&x| x == 0);
            for (x, y, p) in img.enumerate_pixels() {
                if sudoku_line(x, y) {
                    if *p != Rgb([0, 0, 0]) {
                        return Err(format!("grid line pixel ({x},{y}) is {p:?}"));
                    }
                } else if zero && *p != Rgb([255, 255, 255]) {
                    return Err(format!("blank board pixel ({x},{y}) is {p:?}"));
                }
            }
            Ok(())
        }
        r => Err(format!("print of {} cells gave {:?}", b.len(), r.map(|i| i.dimensions()))),
    }
}
