//! Global allocator that, while armed, tracks every live block, detects double frees and frees of
//! unknown blocks, overwrites freed memory and keeps it (so stale reads see garbage and stale writes
//! are found), and counts leaks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Guard;

struct State {
    live: Vec<(usize, usize)>,
    dead: Vec<(usize, usize, usize)>,
    error: Option<&'static str>,
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static STATE: UnsafeCell<State> = const { UnsafeCell::new(State { live: Vec::new(), dead: Vec::new(), error: None }) };
}

const POISON: u8 = 0xD5;

fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    ARMED.with(|a| a.set(false));
    let r = STATE.with(|s| f(unsafe { &mut *s.get() }));
    ARMED.with(|a| a.set(true));
    r
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if armed() && !p.is_null() {
            unsafe { std::ptr::write_bytes(p, 0xC3, l.size()) };
            with(|s| s.live.push((p as usize, l.size())));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if armed() {
            let keep = with(|s| {
                let a = p as usize;
                match s.live.iter().rposition(|&(q, _)| q == a) {
                    Some(i) => {
                        let (_, size) = s.live.swap_remove(i);
                        if size != l.size() {
                            s.error.get_or_insert("freed with the wrong size");
                        }
                        unsafe { std::ptr::write_bytes(p, POISON, size) };
                        s.dead.push((a, size, l.align()));
                        true
                    }
                    None if s.dead.iter().any(|&(q, _, _)| q == a) => {
                        s.error.get_or_insert("freed twice");
                        true
                    }
                    None => {
                        // an older block (allocated before arming), or an invalid pointer
                        false
                    }
                }
            });
            if keep {
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}

/// Runs `f` under the guard.  Returns its result, or the memory error that it committed.  Everything
/// that `f` allocates, except what its result holds, must have been freed: `f` should return plain data.
pub fn guarded<R: Copy>(f: impl FnOnce() -> R) -> Result<R, String> {
    with(|s| {
        s.live.clear();
        s.dead.clear();
        s.error = None;
        s.live.reserve(1 << 13);
        s.dead.reserve(1 << 13);
    });
    // `with` leaves the guard armed
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.with(|a| a.set(false));
    let s = STATE.with(|s| unsafe { &mut *s.get() });
    let mut err = s.error.map(String::from);
    for &(a, size, _) in &s.dead {
        let bytes = unsafe { std::slice::from_raw_parts(a as *const u8, size) };
        if err.is_none() && bytes.iter().any(|&b| b != POISON) {
            err = Some("freed memory was written".into());
        }
    }
    if err.is_none() && r.is_ok() && !s.live.is_empty() {
        err = Some(format!("{} blocks leaked", s.live.len()));
    }
    for (a, size, align) in s.dead.drain(..) {
        unsafe { System.dealloc(a as *mut u8, Layout::from_size_align_unchecked(size, align)) };
    }
    s.live.clear();
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(_) if err.is_some() => Err(err.unwrap_or_default()),
        Ok(v) => Ok(v),
    }
}
