//! Private structures of /repo, compiled from its source files.
#[path = "/repo/src/structures/mod.rs"]
#[allow(dead_code, unused)]
mod structures;

use crate::{guard, rng::Rng, Prop};
use serde_json::{json, Value};
use structures::{
    dancing_links::{DancingLinksError, DancingMatrix},
    disjoint_set::DisjointSet,
};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "U01" => Prop { gen: gen_u01, check: check_u01, bounds: "sequences of up to 60 operations on up to 14 elements, up to 3000 on up to 1200; equal merges of up to 4096 elements, merges along paths of 70000 and 200000 elements" },
        "X01" => Prop { gen: gen_x01, check: check_x01, bounds: "up to 14 constraints over up to 20 rows (row numbers up to 1500), a few of up to 900 with a known cover, up to 3 commitments, allocator guard" },
        "X02" => Prop { gen: gen_x02, check: check_x02, bounds: "up to 14 constraints over up to 20 rows (row numbers up to 1500), a few of up to 900 with a known cover, up to 3 commitments, then solve or drop, under the allocator guard" },
        _ => return None,
    })
}

fn gen_x02(i: u64, rng: &mut Rng) -> Value {
    let mut v = gen_x01(i, rng);
    v["end"] = if rng.chance(1, 2) { json!("solve") } else { json!("drop") };
    v
}

fn check_x02(v: &Value) -> Result<(), String> {
    let list = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let cs: Vec<Vec<usize>> = v["constraints"].as_array().unwrap().iter().map(list).collect();
    let commits = list(&v["commits"]);
    let solve = v["end"] == "solve";
    guard::guarded(|| {
        let mut m = DancingMatrix::new(cs.iter().map(|c| c.iter()));
        for &row in &commits {
            let _ = m.add_solution(row);
        }
        if solve {
            let _ = m.solve();
        }
    })
}

fn gen_u01(i: u64, rng: &mut Rng) -> Value {
    // very many elements: merged along a path, in an order that depends on the stride and the direction
    if (24..32).contains(&i) {
        return json!({"size": 200_000, "path": 1, "dir": i % 4, "ops": []});
    }
    if i % 8 == 5 && (i / 8) % 200 == 5 {
        return json!({"size": 70_000, "path": rng.range(1, 2000), "dir": rng.below(4), "ops": []});
    }
    if rng.chance(1, 6) {
        // groups of equal size merged by their first or last members: the deepest trees there can be
        let n = 1u64 << if rng.chance(1, 12) { rng.range(7, 12) } else { rng.range(2, 7) };
        let m = n + rng.below(4);
        let ops: Vec<(u64, u64, u64)> = (0..rng.below(12))
            .map(|_| {
                let deep = |rng: &mut Rng| if rng.chance(1, 2) { if rng.chance(1, 2) { n - 1 } else { 0 } } else { rng.below(m) };
                (rng.range(1, 3), deep(rng), deep(rng))
            })
            .collect();
        return json!({"size": m, "tree": n, "keep": rng.below(3), "down": rng.chance(1, 2), "ops": ops});
    }
    let (n, k) = if rng.chance(1, 60) {
        (rng.below(1200), rng.below(3000))
    } else if rng.chance(1, 20) {
        (rng.below(101), rng.below(400))
    } else {
        (rng.below(15), rng.below(60))
    };
    let m = n + 3;
    let ops: Vec<(u64, u64, u64)> = (0..k)
        .map(|_| {
            let op = match rng.below(10) {
                0 => 0,
                1..=2 => 1,
                3..=5 => 2,
                _ => 3,
            };
            (op, rng.below(m), rng.below(m))
        })
        .collect();
    json!({"size": n, "fresh": rng.chance(1, 4), "ops": ops})
}

/// label and members of every group
struct Groups {
    label: Vec<usize>,
    members: Vec<Vec<usize>>,
}

impl Groups {
    fn add(&mut self) {
        let n = self.label.len();
        self.label.push(n);
        self.members.push(vec![n]);
    }
    fn merge(&mut self, a: usize, b: usize) {
        let (mut x, mut y) = (self.label[a], self.label[b]);
        if x == y {
            return;
        }
        if self.members[x].len() > self.members[y].len() {
            std::mem::swap(&mut x, &mut y);
        }
        for m in std::mem::take(&mut self.members[x]) {
            self.label[m] = y;
            self.members[y].push(m);
        }
    }
}

fn check_u01(v: &Value) -> Result<(), String> {
    let n = v["size"].as_u64().unwrap() as usize;
    let mut model = Groups { label: vec![], members: vec![] };
    (0..n).for_each(|_| model.add());
    let mut set;
    if v["fresh"] == true {
        set = DisjointSet::new();
        for _ in 0..n {
            set.add();
        }
    } else {
        set = DisjointSet::with_size(n);
    }
    if let Some(step) = v["path"].as_u64().map(|x| x as usize) {
        let dir = v["dir"].as_u64().unwrap_or(0);
        for off in 0..step {
            let mut along: Vec<usize> = (off..n).step_by(step).collect();
            if dir >= 2 {
                along.reverse();
            }
            for a in along {
                // two groups stay apart: below and above 60000
                if a + step < n && (a + step < 60_000 || a >= 60_000) {
                    let (x, y) = if dir % 2 == 0 { (a, a + step) } else { (a + step, a) };
                    set.union(x, y);
                    model.merge(x, y);
                }
            }
        }
        for k in 1..step.min(n) {
            if k % 7 != 0 {
                set.union(k - 1, k);
                model.merge(k - 1, k);
            }
        }
    }
    if let Some(t) = v["tree"].as_u64().map(|x| x as usize) {
        let keep = v["keep"].as_u64().unwrap_or(0);
        let mut side = 1;
        while side < t {
            for a in (0..t.min(n)).step_by(2 * side).filter(|a| a + 2 * side <= n) {
                let (x, y) = match keep {
                    0 => (a, a + side),
                    1 => (a + 2 * side - 1, a + side - 1),
                    _ => (a + side, a),
                };
                set.union(x, y);
                model.merge(x, y);
            }
            side *= 2;
        }
    }
    for (k, op) in v["ops"].as_array().unwrap().iter().enumerate() {
        let (o, a, b) = (op[0].as_u64().unwrap(), op[1].as_u64().unwrap() as usize, op[2].as_u64().unwrap() as usize);
        let n = model.label.len();
        match o {
            0 => {
                set.add();
                model.add();
            }
            1 => {
                let got = set.find(a);
                if got.is_some() != (a < n) {
                    return Err(format!("operation {k}: find({a}) with {n} elements gave {got:?}"));
                }
                if let Some(r) = got {
                    if r >= n || model.label[r] != model.label[a] {
                        return Err(format!("operation {k}: find({a}) gave {r}, not a member of the group"));
                    }
                }
            }
            2 => {
                let got = set.common_set(a, b);
                let want = (a < n && b < n).then(|| model.label[a] == model.label[b]);
                if got != want {
                    return Err(format!("operation {k}: common_set({a},{b}) gave {got:?} instead of {want:?}"));
                }
            }
            _ => {
                let got = set.union(a, b);
                if got.is_some() != (a < n && b < n) {
                    return Err(format!("operation {k}: union({a},{b}) with {n} elements gave {got:?}"));
                }
                if a < n && b < n {
                    model.merge(a, b);
                }
            }
        }
    }
    let n = model.label.len();
    // same representative exactly within a group: the map between labels and representatives is one to one
    let mut reps: Vec<Option<usize>> = vec![None; n];
    for k in 0..n {
        let i = if v["down"] == true { n - 1 - k } else { k };
        reps[i] = set.find(i);
    }
    let mut rep_of = std::collections::HashMap::new();
    let mut label_of = std::collections::HashMap::new();
    for i in 0..n {
        let Some(r) = reps[i] else { return Err(format!("find({i}) with {n} elements gave nothing")) };
        if r >= n || model.label[r] != model.label[i] {
            return Err(format!("find({i}) gave {r}, not a member of the group"));
        }
        if *rep_of.entry(model.label[i]).or_insert(r) != r || *label_of.entry(r).or_insert(model.label[i]) != model.label[i] {
            return Err(format!("element {i}: representatives do not match the groups"));
        }
    }
    if (0..n).any(|i| set.find(i) != reps[i]) || set.find(n).is_some() {
        return Err("representatives changed by queries".into());
    }
    Ok(())
}

fn gen_x01(i: u64, rng: &mut Rng) -> Value {
    if (256..264).contains(&i) || rng.chance(1, 2000) {
        return gen_wide(rng);
    }
    if i >= 264 && rng.chance(1, 40) {
        return gen_deep(rng);
    }
    let large = rng.chance(1, 4);
    let (rows, cols) = if large { (rng.below(21), rng.below(15)) } else { (rng.below(10), rng.below(8)) };
    let p = rng.range(1, 8);
    let plant = rng.chance(1, 2);
    let mut cs: Vec<Vec<u64>> = (0..cols).map(|_| (0..rows).filter(|_| rng.chance(p, 16)).collect()).collect();
    let mut name: Vec<u64> = (0..40).collect();
    if i < 256 {
        // exhaustive: up to two constraints over four rows
        cs = vec![(0..4).filter(|b| i >> b & 1 == 1).collect(), (0..4).filter(|b| i >> (b + 4) & 1 == 1).collect()];
    } else {
        if plant {
            // make sure that an exact cover exists: rows 0..k partition the constraints
            let k = rng.range(1, 6);
            for c in cs.iter_mut() {
                c.retain(|&r| r >= k);
                c.push(rng.below(k));
            }
        }
        for c in cs.iter_mut() {
            rng.shuffle(c);
        }
        rng.shuffle(&mut name[..(rows.max(6)) as usize]);
        if rng.chance(1, 20) {
            // large row numbers with gaps
            for x in name.iter_mut() {
                *x = *x * 37 + 5;
            }
        }
    }
    let commits: Vec<u64> = (0..if rng.chance(1, 2) { 0 } else { rng.below(4) }).map(|_| rng.below(rows + 2)).map(|r| name[r as usize]).collect();
    let cs: Vec<Vec<u64>> = cs.iter().map(|c| c.iter().map(|&r| name[r as usize]).collect()).collect();
    json!({"constraints": cs, "commits": commits})
}

/// hundreds of constraints with a known cover, a few further rows, and one constraint with hundreds of rows
/// a long forced part, then a few rows among which the search has to choose
fn gen_deep(rng: &mut Rng) -> Value {
    let forced = rng.range(20, 300);
    let mut cs: Vec<Vec<u64>> = (0..forced).map(|r| vec![r]).collect();
    let (rows, cols) = (rng.range(3, 12), rng.range(2, 7));
    for _ in 0..cols {
        let mut c: Vec<u64> = (0..rows).filter(|_| rng.chance(1, 2)).map(|r| forced + r).collect();
        for r in 0..2 {
            let x = forced + (rng.below(rows) + r) % rows;
            if c.len() < 2 && !c.contains(&x) {
                c.push(x);
            }
        }
        cs.push(c);
    }
    rng.shuffle(&mut cs);
    json!({"constraints": cs, "commits": []})
}

fn gen_wide(rng: &mut Rng) -> Value {
    let cols = rng.range(2, 900) as usize;
    let mut cs: Vec<Vec<u64>> = vec![vec![]; cols];
    let (mut c, mut row, mut planted) = (0, 0, vec![]);
    let most = if rng.chance(1, 3) { 300 } else { 4 };
    while c < cols {
        let k = rng.range(1, most) as usize;
        for x in cs.iter_mut().skip(c).take(k) {
            x.push(row);
        }
        planted.push(row);
        c += k;
        row += 1;
    }
    for _ in 0..rng.below(9) {
        for _ in 0..rng.range(1, 5) {
            let x = &mut cs[rng.below(cols as u64) as usize];
            if x.last() != Some(&row) {
                x.push(row);
            }
        }
        row += 1;
    }
    let x = rng.below(cols as u64) as usize;
    for _ in 0..rng.below(400) {
        cs[x].push(row);
        row += 1;
    }
    for c in cs.iter_mut() {
        rng.shuffle(c);
    }
    rng.shuffle(&mut cs);
    rng.shuffle(&mut planted);
    planted.truncate(rng.below(5) as usize);
    json!({"constraints": cs, "commits": planted, "planted": true})
}

/// is there a selection of rows with exactly one in each constraint that contains `sel`? None: gave up
fn cover_exists(cs: &[Vec<usize>], sel: &mut Vec<usize>, budget: &mut u64) -> Option<bool> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let count = |c: &Vec<usize>| sel.iter().filter(|&&r| c.contains(&r)).count();
    if cs.iter().any(|c| count(c) > 1) {
        return Some(false);
    }
    let Some(c) = cs.iter().find(|c| count(c) == 0) else { return Some(true) };
    for &r in c {
        sel.push(r);
        let ok = cover_exists(cs, sel, budget)?;
        sel.pop();
        if ok {
            return Some(true);
        }
    }
    Some(false)
}

fn check_x01(v: &Value) -> Result<(), String> {
    let list = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let cs: Vec<Vec<usize>> = v["constraints"].as_array().unwrap().iter().map(list).collect();
    let commits = list(&v["commits"]);
    // 0 fine, otherwise an error code
    let r: Result<(u8, usize, usize), String> = guard::guarded(|| {
        let mut m = DancingMatrix::new(cs.iter().map(|c| c.iter()));
        let mut taken: Vec<usize> = Vec::new();
        for (k, &row) in commits.iter().enumerate() {
            let here: Vec<usize> = (0..cs.len()).filter(|&c| cs[c].contains(&row)).collect();
            let fine = !here.is_empty() && !taken.iter().any(|t| here.iter().any(|&c| cs[c].contains(t)));
            match m.add_solution(row) {
                Ok(()) if fine => taken.push(row),
                Err(DancingLinksError::IndexError | DancingLinksError::InvalidRow) if !fine => {}
                _ => return (1, k, row),
            }
        }
        let covers = |sel: &[usize]| cs.iter().all(|c| c.iter().filter(|r| sel.contains(r)).count() == 1);
        let named = |r: &usize| cs.iter().any(|c| c.contains(r));
        let exists = if v["planted"] == true { Some(true) } else { cover_exists(&cs, &mut taken.clone(), &mut 100_000) };
        match m.solve() {
            Ok(sel) => {
                let mut s = sel.clone();
                s.sort_unstable();
                let n = s.len();
                s.dedup();
                if s.len() != n {
                    return (2, 0, 0);
                }
                if !covers(&s) || !s.iter().all(named) {
                    return (3, 0, 0);
                }
                if !taken.iter().all(|t| s.contains(t)) {
                    return (4, 0, 0);
                }
            }
            Err(_) if exists == Some(true) => return (5, 0, 0),
            Err(_) => {}
        }
        (0, 0, 0)
    });
    match r? {
        (0, ..) => Ok(()),
        (1, k, row) => Err(format!("commitment {k} of row {row} was wrongly accepted or refused")),
        (2, ..) => Err("solution contains a row twice".into()),
        (3, ..) => Err("solution is not an exact cover by named rows".into()),
        (4, ..) => Err("solution lacks a committed row".into()),
        _ => Err("no solution reported although an exact cover exists".into()),
    }
}
