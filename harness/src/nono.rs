use crate::{rng::Rng, Prop};
use image::{Rgb, RgbImage};
use puzzle_utils::{parse_nonogram_rules, print_nonogram, print_nonogram_solution, solve_nonogram, NonogramError};
use serde_json::{json, Value};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "N01" => Prop { gen: gen_puzzle, check: check_n01, bounds: "puzzles of up to 10x10 (24x24 with one square per line, dense ones of 20x20), strips of up to 700" },
        "N02" => Prop { gen: gen_puzzle, check: check_n02, bounds: "puzzles of up to 10x10 (24x24 with one square per line, dense ones of 20x20), strips of up to 700 (unsolvable ones: as far as an independent solver decides them)" },
        "N03" => Prop { gen: gen_n03, check: check_n03, bounds: "strings of up to 6 rules with up to 6 entries, some with 300 rules or 300 entries" },
        "N04" => Prop { gen: gen_n04, check: check_n04, bounds: "puzzles of up to 10x10 (24x24 with one square per line, dense ones of 20x20), strips of up to 700, empty ones" },
        "N05" => Prop { gen: gen_n05, check: check_n05, bounds: "puzzles of up to 12x12 and strips of up to 1100" },
        "N06" => Prop { gen: gen_n06, check: check_n06, bounds: "puzzles of up to 8x8, one of 30x30, one of 256x257, strips of up to 1100, sizes that do not match, large dimensions" },
        _ => return None,
    })
}

const BLACK: Rgb<u8> = Rgb([0, 0, 0]);
const GRAY: Rgb<u8> = Rgb([105, 105, 105]);

type Rules = Vec<Vec<usize>>;

fn rules(v: &Value) -> Rules {
    v.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect()
}

fn runs(line: impl Iterator<Item = bool>) -> Vec<usize> {
    let mut out = Vec::new();
    let mut n = 0;
    for b in line {
        if b {
            n += 1;
        } else if n > 0 {
            out.push(n);
            n = 0;
        }
    }
    if n > 0 {
        out.push(n);
    }
    out
}

fn zeros(rng: &mut Rng, r: &mut Vec<usize>) {
    for _ in 0..rng.below(3) {
        let k = rng.below(r.len() as u64 + 1) as usize;
        r.insert(k, 0);
    }
}

fn puzzle(i: u64, rng: &mut Rng) -> (Rules, Rules) {
    // exhaustive: every grid up to 3x3
    let mut k = i;
    for (w, h) in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (1, 5), (5, 1), (1, 6), (6, 1), (1, 7), (7, 1)] {
        let n = 1u64 << (w * h);
        if k < n {
            let g: Vec<bool> = (0..w * h).map(|b| k >> b & 1 == 1).collect();
            return of_grid(w, h, &g);
        }
        k -= n;
    }
    if rng.chance(1, 40) {
        // one square per line: as many guesses as lines; sometimes a line more than squares
        let n = rng.range(4, 13) as usize;
        let mut at: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut at);
        let g: Vec<bool> = (0..n * n).map(|k| at[k / n] == k % n).collect();
        return of_grid(n, n, &g);
    }
    let m = if rng.chance(1, 4) { 10 } else { 5 };
    let (w, h) = (rng.range(1, m) as usize, rng.range(1, m) as usize);
    let p = rng.range(1, 9);
    let g: Vec<bool> = (0..w * h).map(|_| rng.chance(p, 10)).collect();
    let (mut c, mut r) = of_grid(w, h, &g);
    if rng.chance(1, 3) {
        for l in c.iter_mut().chain(r.iter_mut()) {
            if rng.chance(1, 3) {
                zeros(rng, l);
            }
        }
    }
    if w <= 6 && h <= 6 && rng.chance(1, 3) {
        // perturb: often unsolvable
        for _ in 0..rng.range(1, 2) {
            let (set, len) = if rng.chance(1, 2) { (&mut c, h) } else { (&mut r, w) };
            let k = rng.below(set.len() as u64) as usize;
            set[k] = random_rule(rng, len);
        }
    }
    (c, r)
}

fn random_rule(rng: &mut Rng, len: usize) -> Vec<usize> {
    let p = rng.range(1, 9);
    let mut r = runs((0..len).map(|_| rng.chance(p, 10)).collect::<Vec<_>>().into_iter());
    if r.is_empty() && rng.chance(1, 2) {
        r.push(0);
    }
    r
}

fn of_grid(w: usize, h: usize, g: &[bool]) -> (Rules, Rules) {
    (
        (0..w).map(|x| runs((0..h).map(|y| g[y * w + x]))).collect(),
        (0..h).map(|y| runs((0..w).map(|x| g[y * w + x]))).collect(),
    )
}

/// one long line (columns determine it), or up to three of medium length
fn strip(rng: &mut Rng) -> Value {
    let n = match rng.below(8) {
        0 => rng.range(511, 700),
        1 => rng.range(256, 330),
        2 | 3 => rng.range(60, 140),
        _ => rng.range(11, 40),
    } as usize;
    let m = if n > 40 { 1 } else { rng.range(1, 3) as usize };
    let p = rng.range(1, 9);
    let alt = rng.chance(1, 2);
    let g: Vec<bool> = (0..n * m).map(|k| if alt { k % 2 == 0 } else { rng.chance(p, 10) }).collect();
    let (c, r) = of_grid(n, m, &g);
    if rng.chance(1, 3) { json!({"col": r, "row": c, "solvable": true}) } else { json!({"col": c, "row": r, "solvable": true}) }
}

/// one square per row and column: many solutions, found only by guessing every line
fn permutation(n: usize, rng: &mut Rng) -> Value {
    let mut at: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut at);
    let g: Vec<bool> = (0..n * n).map(|k| at[k / n] == k % n).collect();
    let (c, r) = of_grid(n, n, &g);
    json!({"col": c, "row": r, "solvable": true})
}

/// dense enough that lines alone determine most squares
fn dense(rng: &mut Rng) -> Value {
    let (w, h) = (rng.range(10, 20) as usize, rng.range(10, 20) as usize);
    let p = rng.range(70, 90);
    let g: Vec<bool> = (0..w * h).map(|_| rng.chance(p, 100)).collect();
    let (c, r) = of_grid(w, h, &g);
    json!({"col": c, "row": r, "solvable": true})
}

fn gen_puzzle(i: u64, rng: &mut Rng) -> Value {
    match i {
        300..=303 => {
            let n = rng.range(511, 700) as usize;
            let g: Vec<bool> = (0..n).map(|k| k % 2 == 0 || (k == 1 && i < 302)).collect();
            let (c, r) = of_grid(n, 1, &g);
            return if i % 2 == 0 { json!({"col": r, "row": c, "solvable": true}) } else { json!({"col": c, "row": r, "solvable": true}) };
        }
        // a long line with room to move, decided by the others only after it is looked at
        308..=315 => {
            let k = rng.range(130, 280) as usize;
            let free = rng.range(2, 12) as usize;
            let n = 1 + 2 * k + free;
            let a = |x: usize| x % 2 == 1 && x < 2 * k;
            let g: Vec<bool> = (0..3 * n).map(|j| match j / n { 0 => a(j), 1 => false, _ => !a(j % n) }).collect();
            let (c, r) = of_grid(n, 3, &g);
            return if i % 2 == 0 { json!({"col": r, "row": c, "solvable": true}) } else { json!({"col": c, "row": r, "solvable": true}) };
        }
        304..=307 => return permutation([24, 21, 16, 18][i as usize - 304], rng),
        _ => (),
    }
    if i > 2000 && rng.chance(1, 1500) {
        let n = rng.range(14, 22) as usize;
        return permutation(n, rng);
    }
    if i > 1000 && rng.chance(1, 400) {
        return dense(rng);
    }
    if i % 4096 == 1077 || (i > 2000 && rng.chance(1, 400)) {
        return strip(rng);
    }
    let (c, r) = puzzle(i, rng);
    json!({"col": c, "row": r})
}

fn clean(r: &[usize]) -> Vec<usize> {
    r.iter().copied().filter(|&x| x > 0).collect()
}

fn check_n01(v: &Value) -> Result<(), String> {
    let (c, r) = (rules(&v["col"]), rules(&v["row"]));
    let (w, h) = (c.len(), r.len());
    if let Ok(g) = solve_nonogram(&c, &r) {
        if g.len() != w * h {
            return Err(format!("grid has {} cells", g.len()));
        }
        for x in 0..w {
            if runs((0..h).map(|y| g[y * w + x])) != clean(&c[x]) {
                return Err(format!("column {x} of {g:?} breaks its rule {:?}", c[x]));
            }
        }
        for y in 0..h {
            if runs((0..w).map(|x| g[y * w + x])) != clean(&r[y]) {
                return Err(format!("row {y} of {g:?} breaks its rule {:?}", r[y]));
            }
        }
    }
    Ok(())
}

/// independent solver: row by row over all placements, checking column prefixes
fn oracle(c: &[Vec<usize>], r: &[Vec<usize>], budget: &mut u64) -> Option<bool> {
    let (w, h) = (c.len(), r.len());
    let cols: Vec<Vec<usize>> = c.iter().map(|x| clean(x)).collect();
    let rows: Vec<Vec<u64>> = r
        .iter()
        .map(|x| {
            let x = clean(x);
            (0..1u64 << w).filter(|m| runs((0..w).map(|i| m >> i & 1 == 1)) == x).collect()
        })
        .collect();
    fn prefix_ok(col: &[usize], cells: &[bool], h: usize) -> bool {
        let rs = runs(cells.iter().copied());
        let open = cells.last().copied().unwrap_or(false) && cells.len() < h;
        let done = if open { rs.len() - 1 } else { rs.len() };
        if rs.len() > col.len() || rs[..done] != col[..done] {
            return false;
        }
        if open && rs[done] > col[done] {
            return false;
        }
        cells.len() < h || rs.len() == col.len()
    }
    fn go(y: usize, h: usize, w: usize, cells: &mut Vec<Vec<bool>>, cols: &[Vec<usize>], rows: &[Vec<u64>], budget: &mut u64) -> Option<bool> {
        if y == h {
            return Some(true);
        }
        for &m in &rows[y] {
            if *budget == 0 {
                return None;
            }
            *budget -= 1;
            for x in 0..w {
                cells[x].push(m >> x & 1 == 1);
            }
            let ok = (0..w).all(|x| prefix_ok(&cols[x], &cells[x], h));
            if ok && go(y + 1, h, w, cells, cols, rows, budget)? {
                return Some(true);
            }
            for x in 0..w {
                cells[x].pop();
            }
        }
        Some(false)
    }
    go(0, h, w, &mut vec![Vec::new(); w], &cols, &rows, budget)
}

fn check_n02(v: &Value) -> Result<(), String> {
    let (c, r) = (rules(&v["col"]), rules(&v["row"]));
    let mut budget = 100_000;
    match solve_nonogram(&c, &r) {
        Ok(_) if v["solvable"] == true => Ok(()),
        Err(NonogramError::NoSolution) if v["solvable"] == true => Err("reported no solution for a solvable puzzle".into()),
        Ok(_) => match oracle(&c, &r, &mut budget) {
            Some(false) => Err("returned a grid for a puzzle without solution".into()),
            _ => Ok(()),
        },
        Err(NonogramError::NoSolution) => match oracle(&c, &r, &mut budget) {
            Some(true) => Err("reported no solution for a solvable puzzle".into()),
            _ => Ok(()),
        },
        Err(e) => Err(format!("`{e}` for a non-empty puzzle")),
    }
}

fn gen_n04(i: u64, rng: &mut Rng) -> Value {
    if i < 40 || rng.chance(1, 40) {
        // no rows or no columns
        let n = if i < 40 { i / 2 % 5 } else { rng.below(20) };
        let rs: Rules = (0..n).map(|_| random_rule(rng, 4)).collect();
        return if i % 2 == 0 { json!({"col": rs, "row": []}) } else { json!({"col": [], "row": rs}) };
    }
    if rng.chance(1, 3) {
        let (w, h) = (rng.range(1, 6) as usize, rng.range(1, 6) as usize);
        let mut c: Rules = (0..w).map(|_| random_rule(rng, h)).collect();
        let mut r: Rules = (0..h).map(|_| random_rule(rng, w)).collect();
        for l in c.iter_mut().chain(r.iter_mut()) {
            if rng.chance(1, 4) {
                zeros(rng, l);
            }
        }
        return json!({"col": c, "row": r});
    }
    gen_puzzle(i - 40, rng)
}

fn check_n04(v: &Value) -> Result<(), String> {
    let (c, r) = (rules(&v["col"]), rules(&v["row"]));
    match solve_nonogram(&c, &r) {
        Err(NonogramError::EmptyPuzzle) if c.is_empty() || r.is_empty() => Ok(()),
        Ok(_) | Err(NonogramError::NoSolution) if !c.is_empty() && !r.is_empty() => Ok(()),
        x => Err(format!("outcome {x:?}")),
    }
}

fn gen_n03(i: u64, rng: &mut Rng) -> Value {
    let special = ["", ";", ",", "0", "1,", ",1", "1;;1", " 1", "+1", "-1", "18446744073709551615", "18446744073709551616", "18446744073709551615,1", "18446744073709551615,18446744073709551615;1", "9223372036854775808,9223372036854775808", "1,1", "٣", "1_0", "01", "1.0"];
    let bounds = [0u64, 1, 2, 3, 5, 10, u64::MAX, u64::MAX - 1, 1 << 63];
    if i < (special.len() * bounds.len()) as u64 {
        return json!({"s": special[i as usize / bounds.len()], "bound": bounds[i as usize % bounds.len()]});
    }
    let mut s = String::new();
    let (a, b) = if rng.chance(1, 200) { [(300, 2), (2, 300)][rng.below(2) as usize] } else { (6, 6) };
    for k in 0..rng.range(1, a) {
        if k > 0 {
            s.push(';');
        }
        for j in 0..rng.range(1, b) {
            if j > 0 {
                s.push(',');
            }
            match rng.below(40) {
                0 => s.push_str(special[rng.below(special.len() as u64) as usize]),
                1 => s.push(char::from(rng.range(32, 126) as u8)),
                2 => s.push_str(&rng.next().to_string()),
                _ => s.push_str(&rng.below(4).to_string()),
            }
        }
    }
    if rng.chance(1, 8) {
        // something in front or behind that is easily taken for nothing
        let t = ["\u{feff}", "\n", "\r\n", "\r", " ", "\t", "\0", "\u{200b}", "\u{a0}", "\u{2028}", "\u{0b}", "\u{0c}", "\"", ";", ",", ".", "#", "\u{85}", "0x", "+", "\u{ad}"];
        let t = t[rng.below(t.len() as u64) as usize];
        let at = [0, s.len(), s.find(|c| c == ';' || c == ',').unwrap_or(0), s.rfind(|c| c == ';' || c == ',').map_or(0, |k| k + 1)][rng.below(4) as usize];
        s.insert_str(at, t);
    }
    let bound = if rng.chance(1, 10) { bounds[rng.below(9) as usize] } else { rng.below(if b > 6 { 1500 } else { 18 }) };
    json!({"s": s, "bound": bound})
}

fn check_n03(v: &Value) -> Result<(), String> {
    let (s, bound) = (v["s"].as_str().unwrap(), v["bound"].as_u64().unwrap() as usize);
    #[derive(Debug)]
    enum E {
        Entry(String),
        Long,
    }
    // decimal digits only; the standard parser also takes one leading plus sign
    let num = |t: &str| -> Option<usize> {
        let d = t.strip_prefix('+').unwrap_or(t);
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let mut n: u128 = 0;
        for b in d.bytes() {
            n = n * 10 + (b - b'0') as u128;
            if n > usize::MAX as u128 {
                return None;
            }
        }
        Some(n as usize)
    };
    let mut want: Result<Rules, E> = Ok(Vec::new());
    'o: for rule in s.split(';') {
        let mut vals = Vec::new();
        let mut sum: u128 = 0;
        for t in rule.split(',') {
            match num(t) {
                Some(n) => {
                    vals.push(n);
                    sum += n as u128;
                }
                None => {
                    want = Err(E::Entry(t.to_string()));
                    break 'o;
                }
            }
        }
        sum += vals.len() as u128 - 1;
        if sum > bound as u128 && !(bound == usize::MAX) {
            want = Err(E::Long);
            break;
        }
        if sum > bound as u128 {
            // sums beyond the machine's range saturate: only distinguishable from the bound itself
            return Ok(());
        }
        if let Ok(w) = want.as_mut() {
            w.push(vals);
        }
    }
    let got = parse_nonogram_rules(s, bound);
    match (&got, &want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(NonogramError::InvalidRule(a)), Err(E::Entry(b))) if **a == **b => Ok(()),
        (Err(NonogramError::InvalidRuleDimension), Err(E::Long)) => Ok(()),
        _ => Err(format!("parser gave {got:?} instead of {want:?}")),
    }
}

fn gen_n05(i: u64, rng: &mut Rng) -> Value {
    let (w, h) = if i < 49 {
        (i % 7, i / 7)
    } else {
        match rng.below(5) {
            _ if i == 60 => (130, 2),
            _ if i == 61 => (2, 130),
            _ if i == 62 => (259, 1),
            _ if i == 63 => (1, 259),
            _ if i == 204 => (1100, 1),
            _ if i == 205 => (1, 1100),
            0 => (rng.below(27), rng.below(3)),
            1 => (rng.below(3), rng.below(27)),
            _ => (rng.below(13), rng.below(13)),
        }
    };
    let mut list = |n: u64, m: u64| -> Rules {
        (0..n)
            .map(|_| {
                let big = rng.chance(1, 20);
                (0..rng.below(m + 2)).map(|_| if big { rng.next() as usize } else { rng.below(12) as usize }).collect()
            })
            .collect()
    };
    let (c, r) = (list(w, h), list(h, w));
    let (mut w, mut h) = (w, h);
    if rng.chance(1, 8) {
        match rng.below(4) {
            0 => w += 1,
            1 => h += 1,
            2 => w = rng.below(1 << 32),
            _ => h = rng.below(1 << 32),
        }
    }
    json!({"w": w, "h": h, "col": c, "row": r})
}

fn check_n05(v: &Value) -> Result<(), String> {
    let (w, h) = (v["w"].as_u64().unwrap() as u32, v["h"].as_u64().unwrap() as u32);
    let (c, r) = (rules(&v["col"]), rules(&v["row"]));
    let fits = w as usize == c.len() && h as usize == r.len();
    match print_nonogram(w, h, &c, &r) {
        Err(NonogramError::InvalidDimensions) if !fits => Ok(()),
        Ok(img) if fits => {
            let (rw, rh) = (150.max(10 * w), 150.max(10 * h));
            if img.dimensions() != (50 * w + rw, 50 * h + rh) {
                return Err(format!("picture is {:?}", img.dimensions()));
            }
            let on = |v: u32, base: u32, n: u32| (0..n).any(|k| {
                let l = base + 50 * k;
                v == l || (k % 5 == 0 && (v == l + 1 || v == l - 1))
            });
            for (x, y, p) in img.enumerate_pixels() {
                if (on(x, rw, w) || on(y, rh, h)) && *p != GRAY {
                    return Err(format!("line pixel ({x},{y}) is {p:?}"));
                }
            }
            Ok(())
        }
        x => Err(format!("print gave {:?}", x.map(|i| i.dimensions()))),
    }
}

fn gen_n06(i: u64, rng: &mut Rng) -> Value {
    let (w, h) = if i < 25 {
        (i % 5, i / 5)
    } else {
        match rng.below(4) {
            _ if i == 30 => (270, 1),
            _ if i == 31 => (1, 270),
            _ if i == 32 => (30, 30),
            _ if i == 204 => (1100, 1),
            _ if i == 205 => (1, 1100),
            _ if i == 1033 => (256, 257),
            0 => (rng.below(21), rng.below(3)),
            1 => (rng.below(3), rng.below(21)),
            _ => (rng.below(9), rng.below(9)),
        }
    };
    let (mut iw, mut ih) = (50 * w + 150.max(10 * w), 50 * h + 150.max(10 * h));
    let mut n = w * h;
    let (mut w, mut h) = (w, h);
    if rng.chance(1, 4) {
        match rng.below(9) {
            0 => n += 1,
            1 => n = n.saturating_sub(1),
            2 => iw += 1,
            3 => ih -= 1,
            4 => iw = rng.below(300),
            5 => ih = rng.below(300),
            6 => std::mem::swap(&mut w, &mut h),
            7 => {
                n = 0;
                w = 0;
                h = rng.below(1 << 32);
                iw = 150;
                ih = (h * 50 + 150.max(10 * h)) & 0xffff_ffff;
                if ih > 5000 {
                    ih = 5;
                }
            }
            _ => {
                n = 0;
                h = 0;
                // picture width congruent modulo 2^32 only
                w = [71582788, 71582789, 85899346, 4294967295, 429496730][rng.below(5) as usize];
                ih = 150;
                iw = (w * 50 + 150.max(10 * w)) & 0xffff_ffff;
                if iw > 5000 {
                    iw = 100;
                }
            }
        }
    }
    if i == 1033 {
        (w, h, iw, ih, n) = (256, 257, 256 * 60, 257 * 60, 256 * 257);
    }
    let p = rng.range(0, 10);
    json!({"w": w, "h": h, "iw": iw, "ih": ih, "fill": rng.below(1 << 30),
        "grid": (0..n).map(|_| rng.chance(p, 10)).collect::<Vec<_>>()})
}

fn check_n06(v: &Value) -> Result<(), String> {
    let f = |k: &str| v[k].as_u64().unwrap();
    let (w, h, iw, ih) = (f("w"), f("h"), f("iw") as u32, f("ih") as u32);
    let g: Vec<bool> = v["grid"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
    let mut rng = Rng::new(f("fill"));
    let plain = iw as u64 * ih as u64 > 50_000_000;
    let img = RgbImage::from_fn(iw, ih, |_, _| {
        let r = if plain { 0x123456 } else { rng.next() };
        Rgb([r as u8, (r >> 8) as u8, (r >> 16) as u8])
    });
    let (rw, rh) = (150.max(10 * w), 150.max(10 * h));
    let fits = g.len() as u64 == w * h && iw as u64 == 50 * w + rw && ih as u64 == 50 * h + rh;
    match print_nonogram_solution(w as u32, h as u32, img.clone(), &g) {
        Err(NonogramError::InvalidDimensions) if !fits => Ok(()),
        Ok(out) if fits => {
            if out.dimensions() != (iw, ih) {
                return Err(format!("picture is {:?}", out.dimensions()));
            }
            for (x, y, p) in out.enumerate_pixels() {
                let mut e = *img.get_pixel(x, y);
                let (x2, y2) = (x as u64, y as u64);
                if x2 >= rw && y2 >= rh {
                    let (cx, cy) = ((x2 - rw) / 50, (y2 - rh) / 50);
                    if (x2 - rw) % 50 > 0 && (y2 - rh) % 50 > 0 && g[(cy * w + cx) as usize] {
                        e = BLACK;
                    }
                }
                if *p != e {
                    return Err(format!("pixel ({x},{y}) is {p:?} instead of {e:?}"));
                }
            }
            Ok(())
        }
        x => Err(format!("print gave {:?}", x.map(|i| i.dimensions()))),
    }
}
