//! Concrete contract search: runs the real code of /repo on enumerated and random inputs and
//! evaluates the property's contract on each.  `pz search PROP SECS SEED WORKER NWORKERS CASEFILE`,
//! `pz replay PROP CASEFILE`.
mod guard;
mod maze;
mod nono;
mod png;
mod rng;
mod serial;
mod sudoku;
#[cfg(feature = "structs")]
mod st;

use rng::Rng;
use serde_json::{json, Value};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: guard::Guard = guard::Guard;

pub struct Prop {
    pub gen: fn(u64, &mut Rng) -> Value,
    pub check: fn(&Value) -> Result<(), String>,
    pub bounds: &'static str,
}

fn prop(id: &str) -> Option<Prop> {
    match id {
        #[cfg(feature = "structs")]
        "U01" | "X01" | "X02" => st::prop(id),
        "S01" | "S02" | "S03" | "S04" | "S05" => sudoku::prop(id),
        "N01" | "N02" | "N03" | "N04" | "N05" | "N06" => nono::prop(id),
        "G01" => Some(png::prop()),
        "G02" => Some(serial::prop()),
        "M01" | "M02" | "M03" | "M04" | "M05" | "M06" => maze::prop(id),
        _ => None,
    }
}

/// runs the check, a panic is a failure
fn run(p: &Prop, case: &Value) -> Result<(), String> {
    match std::panic::catch_unwind(|| (p.check)(case)) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    }
}

static CASE_START: AtomicU64 = AtomicU64::new(0);

fn watchdog(limit: u64, t0: Instant) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = CASE_START.load(Ordering::Relaxed);
        let now = t0.elapsed().as_millis() as u64;
        if s != 0 && now > s + limit * 1000 {
            println!("{}", json!({"hang": limit}));
            let _ = std::io::stdout().flush();
            std::process::exit(3);
        }
    });
}

/// on a stack of 2 MiB, the size a Rust thread has unless it asks for another
fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(cases).unwrap();
    if t.join().is_err() {
        std::process::exit(5);
    }
}

fn cases() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let p = match args.get(2).and_then(|id| prop(id)) {
        Some(p) => p,
        None => {
            println!("{}", json!({"unsupported": true}));
            std::process::exit(4)
        }
    };
    let t0 = Instant::now();
    match args[1].as_str() {
        "search" => {
            let secs: f64 = args[3].parse().unwrap();
            let seed: u64 = args[4].parse().unwrap();
            let (k, n): (u64, u64) = (args[5].parse().unwrap(), args[6].parse().unwrap());
            let f = std::fs::File::create(&args[7]).unwrap();
            let limit = (secs.max(1.0) as u64).max(20);
            watchdog(limit, t0);
            let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k));
            let mut cases = 0u64;
            let mut distinct = std::collections::HashSet::new();
            let mut i = k;
            while t0.elapsed().as_secs_f64() < secs {
                let case = (p.gen)(i, &mut rng);
                let text = case.to_string();
                {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    text.hash(&mut h);
                    if distinct.len() < 2_000_000 {
                        distinct.insert(h.finish());
                    }
                }
                let mut rec = (text.len() as u64).to_le_bytes().to_vec();
                rec.extend_from_slice(text.as_bytes());
                f.write_all_at(&rec, 0).unwrap();
                CASE_START.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                let r = run(&p, &case);
                CASE_START.store(0, Ordering::Relaxed);
                cases += 1;
                if let Err(what) = r {
                    println!("{}", json!({"cases": cases, "violation": {"case": case, "what": what}}));
                    std::process::exit(1);
                }
                i += n;
            }
            println!("{}", json!({"cases": cases, "distinct": distinct.len(), "bounds": p.bounds}));
        }
        "replay" => {
            watchdog(150, t0);
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let v: Value = serde_json::from_str(&text).unwrap();
            let case = v.get("case").cloned().unwrap_or(v);
            CASE_START.store(1, Ordering::Relaxed);
            match run(&p, &case) {
                Ok(()) => println!("property holds on this input"),
                Err(e) => {
                    println!("property fails: {e}");
                    std::process::exit(1);
                }
            }
        }
        _ => std::process::exit(4),
    }
}
