//! Coverage of the crate under test (built by `sancov.sh`) and what guides the
//! search from it: edge counters, a corpus of choice sequences that reached new
//! edges or counts, operands of comparisons, and mutations of those sequences.

use crate::engine::{mix, Rng};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

// ------------------------------------------------------------ instrumentation

const MAX_RANGES: usize = 512;
static mut RANGES: [(usize, usize); MAX_RANGES] = [(0, 0); MAX_RANGES];
static N_RANGES: AtomicUsize = AtomicUsize::new(0);

/// Called before `main`, once per object file.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let (a, b) = (start as usize, stop as usize);
    let n = N_RANGES.load(Ordering::Relaxed);
    if a >= b || n >= MAX_RANGES {
        return;
    }
    unsafe {
        let r = std::ptr::addr_of_mut!(RANGES);
        for i in 0..n {
            if (*r)[i].0 == a {
                return;
            }
        }
        (*r)[n] = (a, b - a);
    }
    N_RANGES.store(n + 1, Ordering::Relaxed);
}

static CMP_ON: AtomicBool = AtomicBool::new(false);
const MAX_CMPS: usize = 512;
static mut CMPS: [(u64, u64); MAX_CMPS] = [(0, 0); MAX_CMPS];
static N_CMPS: AtomicUsize = AtomicUsize::new(0);
static CMP_BUSY: AtomicBool = AtomicBool::new(false);

#[cold]
fn cmp(a: u64, b: u64) {
    if a == b || CMP_BUSY.swap(true, Ordering::Acquire) {
        return;
    }
    let n = N_CMPS.load(Ordering::Relaxed);
    unsafe {
        let r = std::ptr::addr_of_mut!(CMPS);
        let seen = (0..n).any(|i| (*r)[i] == (a, b));
        if !seen && n < MAX_CMPS {
            (*r)[n] = (a, b);
            N_CMPS.store(n + 1, Ordering::Relaxed);
        }
    }
    CMP_BUSY.store(false, Ordering::Release);
}

macro_rules! hooks {
    ($($name:ident $t:ty),*) => {$(
        #[no_mangle]
        pub extern "C" fn $name(a: $t, b: $t) {
            if CMP_ON.load(Ordering::Relaxed) {
                cmp(u64::from(a), u64::from(b));
            }
        }
    )*};
}

hooks!(
    __sanitizer_cov_trace_const_cmp1 u8,
    __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_const_cmp8 u64,
    __sanitizer_cov_trace_cmp1 u8,
    __sanitizer_cov_trace_cmp2 u16,
    __sanitizer_cov_trace_cmp4 u32,
    __sanitizer_cov_trace_cmp8 u64
);

/// `cases` is the number of cases, the width of the value and the cases.
///
/// # Safety
/// Called by instrumented code only.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if CMP_ON.load(Ordering::Relaxed) {
        let n = (*cases as usize).min(64);
        for i in 0..n {
            cmp(*cases.add(2 + i), v);
        }
    }
}

pub fn edges() -> usize {
    let n = N_RANGES.load(Ordering::Relaxed);
    unsafe { (0..n).map(|i| (*std::ptr::addr_of!(RANGES))[i].1).sum() }
}

fn each_word(mut f: impl FnMut(usize, &mut [u8])) {
    let n = N_RANGES.load(Ordering::Relaxed);
    let mut base = 0;
    for i in 0..n {
        let s = unsafe {
            let (a, l) = (*std::ptr::addr_of!(RANGES))[i];
            std::slice::from_raw_parts_mut(a as *mut u8, l)
        };
        let mut at = 0;
        for c in s.chunks_mut(8) {
            let k = c.len();
            let hit = if k == 8 { u64::from_ne_bytes((&*c).try_into().unwrap()) != 0 } else { c.iter().any(|x| *x != 0) };
            if hit {
                f(base + at, c);
            }
            at += k;
        }
        base += s.len();
    }
}

// --------------------------------------------------------------------- guide

#[derive(Clone)]
pub struct Entry {
    pub choices: Vec<u64>,
    pub bounds: Vec<u64>,
    pub cmps: Vec<(u64, u64)>,
    tried: u32,
}

pub struct Guide {
    /// count classes seen per edge
    seen: Vec<u8>,
    pub corpus: Vec<Entry>,
    pub found: u64,
}

const MAX_LEN: usize = 20_000;
const MAX_CORPUS: usize = 4000;

fn class(x: u8) -> u8 {
    match x {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl Guide {
    pub fn new() -> Guide {
        Guide { seen: vec![0; edges()], corpus: Vec::new(), found: 0 }
    }

    pub fn on(&self) -> bool {
        !self.seen.is_empty()
    }

    pub fn clear(&self) {
        each_word(|_, c| c.fill(0));
    }

    /// Takes the counters of the case that just ran; true when they show something new.
    pub fn fresh(&mut self) -> bool {
        let seen = &mut self.seen;
        let mut new = false;
        each_word(|at, c| {
            for (i, x) in c.iter_mut().enumerate() {
                let k = class(*x);
                let s = &mut seen[at + i];
                if k & !*s != 0 {
                    *s |= k;
                    new = true;
                }
                *x = 0;
            }
        });
        new
    }

    pub fn add(&mut self, choices: Vec<u64>, bounds: Vec<u64>, cmps: Vec<(u64, u64)>) {
        self.found += 1;
        if choices.is_empty() || choices.len() > MAX_LEN {
            return;
        }
        let e = Entry { choices, bounds, cmps, tried: 0 };
        if self.corpus.len() < MAX_CORPUS {
            self.corpus.push(e);
        } else {
            let at = mix(self.found) as usize % MAX_CORPUS;
            self.corpus[at] = e;
        }
    }

    pub fn hit(&self) -> Vec<u8> {
        self.seen.iter().map(|x| u8::from(*x != 0)).collect()
    }

    /// A changed copy of some entry.
    pub fn mutant(&mut self, r: &mut Rng) -> Vec<u64> {
        let n = self.corpus.len();
        let mut below = |n: usize| ((u128::from(r.next()) * n as u128) >> 64) as usize;
        // of a few, the one that had the least work; or one of the newest
        let mut at = if below(4) == 0 { n - 1 - below(n.min(16)) } else { below(n) };
        for _ in 0..2 {
            let o = below(n);
            let work = |e: &Entry| u64::from(e.tried + 1) * (100 + e.choices.len() as u64);
            if work(&self.corpus[o]) < work(&self.corpus[at]) {
                at = o;
            }
        }
        self.corpus[at].tried += 1;
        let other = below(n);
        let mut c = self.corpus[at].choices.clone();
        let mut b = self.corpus[at].bounds.clone();
        let e = &self.corpus[at];
        let times = 1 + [0, 0, 0, 1, 1, 2, 3, 7][below(8)];
        for _ in 0..times {
            let len = c.len();
            if len == 0 {
                break;
            }
            match below(12) {
                0..=2 => {
                    // another value for one draw
                    let p = below(len);
                    c[p] = value(&mut below, b[p], c[p]);
                }
                3..=5 if !e.cmps.is_empty() => {
                    // what a comparison wanted in place of what it got
                    let (x, y) = e.cmps[below(e.cmps.len())];
                    let (want, got) = if below(4) == 0 { (y, x) } else { (x, y) };
                    let want = want.wrapping_add([0, 0, 0, 1, u64::MAX][below(5)]);
                    let start = below(len);
                    let exact = (0..len).map(|k| (start + k) % len).find(|&p| c[p] == got && b[p] != 1);
                    let p = match exact {
                        Some(p) if below(4) != 0 => p,
                        _ => {
                            // some draw that is wide enough
                            let q = (0..len).map(|k| (start + k) % len).find(|&p| b[p] == 0 || b[p] > 16);
                            q.unwrap_or(start)
                        }
                    };
                    let moved = c[p].wrapping_add(want.wrapping_sub(got));
                    let m = b[p];
                    c[p] = if m == 1 {
                        c[p]
                    } else if m == 0 || moved < m {
                        moved
                    } else if want < m {
                        want
                    } else if m.is_power_of_two() {
                        moved & (m - 1)
                    } else {
                        value(&mut below, m, c[p])
                    };
                }
                6 => {
                    // leave some out
                    let p = below(len);
                    let most = if below(3) == 0 { 32 } else { 4 };
                    let k = 1 + below(most);
                    let q = (p + k).min(len);
                    c.drain(p..q);
                    b.drain(p..q);
                }
                7 => {
                    // some again, here or elsewhere
                    let p = below(len);
                    let most = if below(3) == 0 { 64 } else { 8 };
                    let q = (p + 1 + below(most)).min(len);
                    let (x, y) = (c[p..q].to_vec(), b[p..q].to_vec());
                    let to = if below(2) == 0 { q } else { below(len + 1) };
                    if c.len() + x.len() <= MAX_LEN {
                        c.splice(to..to, x);
                        b.splice(to..to, y);
                    }
                }
                8 => {
                    // go on as another entry does
                    let o = &self.corpus[other];
                    let p = below(len);
                    let q = below(o.choices.len());
                    c.truncate(p);
                    b.truncate(p);
                    c.extend_from_slice(&o.choices[q..]);
                    b.extend_from_slice(&o.bounds[q..]);
                    c.truncate(MAX_LEN);
                    b.truncate(MAX_LEN);
                }
                9 => {
                    // the value of another draw of the same range
                    let p = below(len);
                    let start = below(len);
                    if let Some(q) = (0..len).map(|k| (start + k) % len).find(|&q| q != p && b[q] == b[p]) {
                        c[p] = c[q];
                    }
                }
                10 => {
                    // the rest at random
                    let p = below(len);
                    c.truncate(p);
                    b.truncate(p);
                }
                _ => {
                    // a run of draws anew
                    let p = below(len);
                    let q = (p + 1 + below(16)).min(len);
                    for i in p..q {
                        c[i] = value(&mut below, b[i], c[i]);
                    }
                }
            }
        }
        c
    }
}

fn value(below: &mut dyn FnMut(usize) -> usize, bound: u64, old: u64) -> u64 {
    if bound == 1 {
        return old;
    }
    let top = if bound == 0 { u64::MAX } else { bound - 1 };
    match below(6) {
        0 => 0,
        1 => top,
        2 => old.saturating_add(1 + below(2) as u64).min(top),
        3 => old.saturating_sub(1 + below(2) as u64),
        4 => (old ^ 1u64 << below(64.min(65 - top.leading_zeros() as usize))).min(top),
        _ => {
            let x = mix(below(1 << 62) as u64);
            if bound == 0 { x } else { x % bound }
        }
    }
}

/// Runs `f` and returns the operands of the comparisons in it that were unequal.
pub fn with_cmps(f: impl FnOnce()) -> Vec<(u64, u64)> {
    N_CMPS.store(0, Ordering::Relaxed);
    CMP_ON.store(true, Ordering::Relaxed);
    f();
    CMP_ON.store(false, Ordering::Relaxed);
    let n = N_CMPS.load(Ordering::Relaxed);
    unsafe { (&(*std::ptr::addr_of!(CMPS)))[..n].to_vec() }
}
