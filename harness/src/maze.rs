use crate::{rng::Rng, Prop};
use image::{Rgb, RgbImage};
use puzzle_utils::{create_maze, print_maze, print_maze_solution, MazeAlgorithm, MazeDirection, MazeError, MazeNode};
use serde_json::{json, Value};

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "M01" => Prop { gen: gen_dims, check: check_m01, bounds: "mazes of up to 24x24, strips of up to 400 cells, a few mazes of up to 73000 cells" },
        "M02" => Prop { gen: gen_dims, check: check_m02, bounds: "mazes of up to 24x24, strips of up to 400 cells, a few mazes of up to 73000 cells" },
        "M03" => Prop { gen: gen_dims, check: check_m03, bounds: "mazes of up to 24x24, strips of up to 400 cells, a few mazes of up to 73000 cells" },
        "M04" => Prop { gen: gen_m04, check: check_m04, bounds: "grids of up to 9x9, a few of up to 90000 cells, strips of up to 300, sizes that do not match (sides of up to 2^32), zero sides" },
        "M05" => Prop { gen: gen_m05, check: check_m05, bounds: "pictures of up to 70x70 and strips of up to 66000, routes of up to 40 steps and a few of up to 70000" },
        "M06" => Prop { gen: gen_dims, check: check_m06, bounds: "mazes of up to 24x24, strips of up to 400 cells, a few mazes of up to 73000 cells" },
        _ => return None,
    })
}

const BLACK: Rgb<u8> = Rgb([0, 0, 0]);
const WHITE: Rgb<u8> = Rgb([255, 255, 255]);
const RED: Rgb<u8> = Rgb([255, 0, 0]);

fn gen_dims(i: u64, rng: &mut Rng) -> Value {
    if i < 400 {
        return json!({"w": i % 20 / 1 + 1, "h": i / 20 + 1, "tries": 4});
    }
    if i < 408 || rng.chance(1, 400) {
        // more cells than 16 bits can number, long paths
        let (w, h) = [(1, 70000), (70000, 1), (270, 270), (2, 35000), (150, 150), (100, 700), (200, 160), (130, 130)][(i % 8) as usize];
        return json!({"w": w, "h": h, "tries": 3});
    }
    match rng.below(10) {
        0 => json!({"w": 1, "h": rng.range(1, 400), "tries": 2}),
        1 => json!({"w": rng.range(1, 400), "h": 1, "tries": 2}),
        2 => json!({"w": 2, "h": rng.range(1, 40), "tries": 8}),
        _ => json!({"w": rng.range(1, 24), "h": rng.range(1, 24), "tries": 4}),
    }
}

fn walls(n: &MazeNode) -> (bool, bool) {
    let v = serde_json::to_value(n).unwrap();
    (v["right"].as_bool().unwrap(), v["down"].as_bool().unwrap())
}

fn node(r: bool, d: bool) -> MazeNode {
    serde_json::from_value(json!({"right": r, "down": d})).unwrap()
}

type Made = (usize, usize, Vec<(bool, bool)>, Vec<MazeDirection>, Vec<MazeNode>);

/// creates the case's mazes and hands each to `f`
fn each(v: &Value, f: impl Fn(&Made) -> Result<(), String>) -> Result<(), String> {
    let (w, h) = (v["w"].as_u64().unwrap() as usize, v["h"].as_u64().unwrap() as usize);
    // the random choices cannot be fixed from outside: a replay tries many times
    let tries = v["tries"].as_u64().unwrap_or(2000);
    for _ in 0..tries {
        let (g, s) = create_maze(w, h, MazeAlgorithm::RecursiveBacktrack);
        let m = (w, h, g.iter().map(walls).collect(), s, g);
        f(&m).map_err(|e| format!("{e}; maze (right,down walls) {:?}, solution {:?}", m.2, m.3))?;
    }
    Ok(())
}

fn check_m03(v: &Value) -> Result<(), String> {
    each(v, |_| Ok(()))
}

fn check_m01(v: &Value) -> Result<(), String> {
    each(v, |(w, h, g, _, _)| {
        let (w, h) = (*w, *h);
        if g.len() != w * h {
            return Err(format!("{} nodes", g.len()));
        }
        let mut exits = 0;
        let mut passages = 0;
        let mut comp: Vec<usize> = (0..w * h).collect();
        fn root(c: &mut [usize], mut i: usize) -> usize {
            while c[i] != i {
                c[i] = c[c[i]];
                i = c[i];
            }
            i
        }
        for i in 0..w * h {
            let (r, d) = g[i];
            if i % w == w - 1 {
                if !r {
                    return Err(format!("right border open at {i}"));
                }
            } else if !r {
                passages += 1;
                let (a, b) = (root(&mut comp, i), root(&mut comp, i + 1));
                if a == b {
                    return Err(format!("two routes between {i} and {}", i + 1));
                }
                comp[a] = b;
            }
            if i / w == h - 1 {
                if !d {
                    exits += 1;
                }
            } else if !d {
                passages += 1;
                let (a, b) = (root(&mut comp, i), root(&mut comp, i + w));
                if a == b {
                    return Err(format!("two routes between {i} and {}", i + w));
                }
                comp[a] = b;
            }
        }
        if exits != 1 {
            return Err(format!("{exits} exits"));
        }
        if passages != w * h - 1 {
            return Err(format!("{passages} passages instead of {}", w * h - 1));
        }
        Ok(())
    })
}

fn check_m02(v: &Value) -> Result<(), String> {
    each(v, |(w, h, g, s, _)| {
        let (w, h) = (*w, *h);
        let mut at = 0usize;
        let mut seen = vec![false; w * h];
        seen[0] = true;
        for d in s.iter().rev() {
            let (open, next) = match d {
                MazeDirection::Right => (at % w + 1 < w && !g[at].0, at + 1),
                MazeDirection::Down => (at / w + 1 < h && !g[at].1, at + w),
                MazeDirection::Left => (at % w > 0 && !g[at - 1].0, at.wrapping_sub(1)),
                MazeDirection::Up => (at >= w && !g[at - w].1, at.wrapping_sub(w)),
            };
            if !open {
                return Err(format!("step {d:?} from {at} is not open"));
            }
            if seen[next] {
                return Err(format!("{next} visited twice"));
            }
            seen[next] = true;
            at = next;
        }
        if at / w != h - 1 {
            return Err(format!("route ends in {at}, not in the bottom row"));
        }
        for x in 0..w {
            let c = (h - 1) * w + x;
            if g[c].1 == (c == at) {
                return Err(format!("route ends in {at} but bottom border of {c} is {}", if g[c].1 { "closed" } else { "open" }));
            }
        }
        Ok(())
    })
}

fn check_m06(v: &Value) -> Result<(), String> {
    each(v, |(w, h, _, s, nodes)| {
        let img = print_maze(*w as u32, *h as u32, nodes).map_err(|e| format!("print_maze: {e}"))?;
        let sol = print_maze_solution(img.clone(), s).map_err(|e| format!("print_maze_solution: {e}"))?;
        for (x, y, p) in sol.enumerate_pixels() {
            if *p == RED && *img.get_pixel(x, y) == BLACK {
                return Err(format!("route covers the wall pixel ({x},{y})"));
            }
        }
        Ok(())
    })
}

fn gen_m04(i: u64, rng: &mut Rng) -> Value {
    let (w, h) = if i < 36 {
        (i % 6, i / 6)
    } else {
        match rng.below(6) {
            _ if i == 100 => (300, 300),
            _ if i == 101 => (2, 33000),
            _ if i % 500 == 102 => (rng.below(300), rng.range(1, 3)),
            _ if i % 500 == 103 => (rng.range(1, 3), rng.below(300)),
            _ if i % 500 == 104 => (rng.range(10, 40), rng.range(10, 40)),
            0 => (1, rng.below(60)),
            1 => (rng.below(60), 1),
            _ => (rng.below(10), rng.below(10)),
        }
    };
    let mut n = w * h;
    let (mut w, mut h) = (w, h);
    if (36..60).contains(&i) {
        // sides whose product does not fit in 32 bits, with a few nodes only
        let sides = [65_536, 65_537, 1 << 31, 429_496_729, u32::MAX as u64, 1 << 20, 2, 3];
        (w, h) = (sides[i as usize % 8], sides[rng.below(6) as usize]);
        n = (w * h & 0xffff_ffff).min(40);
    } else if rng.chance(1, 8) {
        n = match rng.below(3) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            _ => rng.below(30),
        };
    }
    let p = rng.range(1, 9);
    let bits: Vec<u64> = (0..n).map(|_| rng.chance(p, 10) as u64 * 2 + rng.chance(p, 10) as u64).collect();
    json!({"w": w, "h": h, "walls": bits})
}

fn check_m04(v: &Value) -> Result<(), String> {
    let (w, h) = (v["w"].as_u64().unwrap() as usize, v["h"].as_u64().unwrap() as usize);
    let g: Vec<(bool, bool)> = v["walls"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap()).map(|b| (b & 2 != 0, b & 1 != 0)).collect();
    let nodes: Vec<MazeNode> = g.iter().map(|&(r, d)| node(r, d)).collect();
    match print_maze(w as u32, h as u32, &nodes) {
        Err(MazeError::InvalidDimensions) if g.len() != w * h => Ok(()),
        Ok(img) if g.len() == w * h => {
            if img.dimensions() != ((10 * w + 1) as u32, (10 * h + 1) as u32) {
                return Err(format!("picture is {:?}", img.dimensions()));
            }
            let mut want = vec![vec![false; 10 * w + 1]; 10 * h + 1];
            for row in want.iter_mut() {
                row[0] = true;
            }
            for x in 10..10 * w + 1 {
                want[0][x] = true;
            }
            for i in 0..w * h {
                let (x, y) = (i % w, i / w);
                for k in 0..=10 {
                    if g[i].0 {
                        want[y * 10 + k][x * 10 + 10] = true;
                    }
                    if g[i].1 {
                        want[y * 10 + 10][x * 10 + k] = true;
                    }
                }
            }
            for (x, y, p) in img.enumerate_pixels() {
                let e = if want[y as usize][x as usize] { BLACK } else { WHITE };
                if *p != e {
                    return Err(format!("pixel ({x},{y}) is {p:?} instead of {e:?}"));
                }
            }
            Ok(())
        }
        r => Err(format!("print_maze gave {:?}", r.map(|i| i.dimensions()))),
    }
}

fn gen_m05(i: u64, rng: &mut Rng) -> Value {
    let side = |rng: &mut Rng| match rng.below(4) {
        0 => rng.below(16),
        1 => rng.range(1, 7) * 10 + 1,
        2 => rng.range(1, 7) * 10 + rng.below(10),
        _ => rng.below(71),
    };
    let (mut w, mut h) = if i < 17 * 17 { (i % 17, i / 17) } else { (side(rng), side(rng)) };
    let short = rng.chance(1, 2);
    let mut n = rng.below(if short { 6 } else { 41 });
    let long = i > 17 * 17 && i % 200 < 3;
    if long {
        // long pictures, long routes
        (w, h) = [(rng.range(1000, 3000), rng.range(6, 30)), (rng.range(6, 30), rng.range(1000, 3000)), (w, h)][(i % 3) as usize];
        n = [600, 600, 70_000][(i % 3) as usize];
    }
    // sides beyond 16 bits
    let huge = i == 600 || i == 601;
    if huge {
        (w, h) = if i == 600 { (66_000, 16) } else { (16, 66_000) };
        n = 7_000;
    }
    let long = long || huge;
    // mostly stay inside the picture
    let stay = rng.chance(9, 10);
    let (mut x, mut y) = (0i64, 0i64);
    let mut steps = Vec::new();
    for _ in 0..n {
        let mut d = rng.below(4);
        if huge || long && rng.chance(2, 3) {
            d = if w > h { 0 } else { 1 };
        }
        let (a, b) = match d {
            0 => (x + 1, y),
            1 => (x, y + 1),
            2 => (x - 1, y),
            _ => (x, y - 1),
        };
        let inside = a >= 0 && b >= 0 && a * 10 + 6 <= w as i64 && b * 10 + 6 <= h as i64;
        if inside || (!stay || rng.chance(1, 60)) && !(long && rng.chance(99, 100)) && n < 1000 {
            steps.push(d);
            x = a;
            y = b;
        }
    }
    steps.reverse();
    json!({"w": w, "h": h, "fill": rng.below(1 << 30), "route": steps})
}

fn check_m05(v: &Value) -> Result<(), String> {
    let (w, h) = (v["w"].as_u64().unwrap() as u32, v["h"].as_u64().unwrap() as u32);
    let mut rng = Rng::new(v["fill"].as_u64().unwrap());
    let img = RgbImage::from_fn(w, h, |_, _| {
        let r = rng.next();
        if r & 0xf == 0 {
            RED
        } else {
            Rgb([r as u8, (r >> 8) as u8, (r >> 16) as u8])
        }
    });
    let steps: Vec<u64> = v["route"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let dirs: Vec<MazeDirection> = steps
        .iter()
        .map(|d| match d {
            0 => MazeDirection::Right,
            1 => MazeDirection::Down,
            2 => MazeDirection::Left,
            _ => MazeDirection::Up,
        })
        .collect();
    // the centre line: None if it leaves the picture
    let mut line = std::collections::HashSet::new();
    let mut ok = true;
    let mut put = |x: i64, y: i64| {
        if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 {
            ok = false;
        } else {
            line.insert((x as u32, y as u32));
        }
    };
    let (mut x, mut y) = (5i64, 0i64);
    for k in 0..=5 {
        put(x, k);
        y = k;
    }
    let mut go = |dx: i64, dy: i64, n: i64| {
        for _ in 0..n {
            x += dx;
            y += dy;
            put(x, y);
        }
    };
    for d in steps.iter().rev() {
        match d {
            0 => go(1, 0, 10),
            1 => go(0, 1, 10),
            2 => go(-1, 0, 10),
            _ => go(0, -1, 10),
        }
    }
    go(0, 1, 5);
    match print_maze_solution(img.clone(), &dirs) {
        Err(_) if !ok => Ok(()),
        Ok(out) if ok => {
            if out.dimensions() != (w, h) {
                return Err(format!("picture is {:?}", out.dimensions()));
            }
            for (x, y, p) in out.enumerate_pixels() {
                let e = if line.contains(&(x, y)) { RED } else { *img.get_pixel(x, y) };
                if *p != e {
                    return Err(format!("pixel ({x},{y}) is {p:?} instead of {e:?}"));
                }
            }
            Ok(())
        }
        Ok(_) => Err("succeeded although the route leaves the picture".into()),
        Err(e) => Err(format!("`{e}` although the route stays in the picture")),
    }
}
