//! Allocator monitor: per-thread peak usage, and inspection of every block at
//! the moment it is freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;

pub struct Mon;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static SCAN: Cell<*const Scan> = const { Cell::new(std::ptr::null()) };
}
/// A single request beyond this is refused, as on a small machine.
const LIMIT: usize = 6 << 30;

/// Secret words to look for in freed blocks.
pub struct Scan {
    /// Hash of every window of `W` consecutive secret words, with its name.
    windows: HashMap<u64, u32>,
    names: Vec<String>,
    filter: Vec<u64>,
    pub blocks: Cell<u64>,
    pub words: Cell<u64>,
    pub hits: Cell<u64>,
    /// The first few hits: name of the secret, where it was freed.
    pub first: std::cell::RefCell<Vec<(String, String)>>,
}
pub const W: usize = 16;
const FBITS: u32 = 22;
fn whash(w: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in w {
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}
#[inline]
fn key(w: &[u64]) -> usize {
    let h = w[0].wrapping_mul(0x9E3779B97F4A7C15) ^ w[5].wrapping_mul(0xC2B2AE3D27D4EB4F) ^ w[10].wrapping_mul(0x165667B19E3779F9) ^ w[15].wrapping_mul(0xD6E8FEB86659FD93);
    (h >> (64 - FBITS)) as usize
}
impl Scan {
    pub fn new() -> Self {
        Scan { windows: HashMap::new(), names: vec![], filter: vec![0; 1 << (FBITS - 6)], blocks: Cell::new(0), words: Cell::new(0), hits: Cell::new(0), first: Default::default() }
    }
    pub fn add(&mut self, name: &str, v: &[u64]) {
        if v.len() < W {
            return;
        }
        if self.names.last().is_none_or(|x| x != name) {
            self.names.push(name.to_string());
        }
        let id = self.names.len() as u32 - 1;
        for w in v.windows(W) {
            // windows too plain to identify anything
            let mut d: Vec<u64> = w.to_vec();
            d.sort_unstable();
            d.dedup();
            if d.len() < 6 {
                continue;
            }
            self.windows.entry(whash(w)).or_insert(id);
            let k = key(w);
            self.filter[k / 64] |= 1 << (k % 64);
        }
    }
    pub fn len(&self) -> usize {
        self.windows.len()
    }
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        // Under inspection, blocks start out clean: what is found in them when
        // they are freed was put there by the code observed.
        let clean = SCAN.try_with(|s| !s.get().is_null()).unwrap_or(false);
        let p = unsafe { if clean { System.alloc_zeroed(l) } else { System.alloc(l) } };
        up(l.size() as isize);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        up(l.size() as isize);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = SCAN.try_with(|s| {
            let sp = s.get();
            if !sp.is_null() {
                unsafe { inspect(&*sp, p, l) };
            }
        });
        let _ = CUR.try_with(|c| c.set(c.get() - l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    // realloc: the default (allocate, copy, free) so that the old block is
    // inspected too.
}
fn up(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe fn inspect(s: &Scan, p: *mut u8, l: Layout) {
    if l.size() < 8 * W || l.align() < 8 {
        return;
    }
    let v = unsafe { std::slice::from_raw_parts(p as *const u64, l.size() / 8) };
    s.blocks.set(s.blocks.get() + 1);
    s.words.set(s.words.get() + v.len() as u64);
    for (i, w) in v.windows(W).enumerate() {
        let k = key(w);
        if s.filter[k / 64] >> (k % 64) & 1 == 0 {
            continue;
        }
        if let Some(id) = s.windows.get(&whash(w)) {
            s.hits.set(s.hits.get() + 1);
            // Describing the hit frees blocks itself: pause the inspection.
            let keep = SCAN.with(|c| c.replace(std::ptr::null()));
            if let Ok(mut f) = s.first.try_borrow_mut() {
                if f.len() < 64 {
                    f.push((s.names[*id as usize].clone(), format!("word {i} of a block of {} bytes freed from\n{}", l.size(), frames())));
                }
            }
            SCAN.with(|c| c.set(keep));
            break;
        }
    }
}
fn frames() -> String {
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let mut out = vec![];
    for l in bt.lines() {
        let l = l.trim_start();
        let Some((n, name)) = l.split_once(": ") else { continue };
        if n.parse::<u32>().is_ok() && ["fhe::", "fhe_math::", "fhe_util::", "fhe_traits::"].iter().any(|p| name.contains(p)) {
            out.push(name.to_string());
        }
    }
    out.join("\n")
}
/// Run with every freed block inspected.
pub fn scanning<T>(s: &Scan, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SCAN.with(|c| c.set(std::ptr::null()));
        }
    }
    let _r = Reset;
    SCAN.with(|c| c.set(s as *const Scan));
    f()
}
/// Run and report the peak growth of this thread's heap.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.with(|c| c.get());
    let old = PEAK.with(|p| p.replace(base));
    let r = f();
    let pk = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(old.max(pk)));
    (r, (pk - base).max(0) as usize)
}
