//! A small property-based testing engine.
//!
//! Every random decision a generator takes is one bounded draw from a choice
//! sequence (`G`).  A case is therefore fully described by its list of draws:
//! replaying the list rebuilds the case, and shrinking means making the list
//! shorter and its entries smaller (as Hypothesis does).  Case `i` of a run is
//! a pure function of (VERIF_SEED, property id, i) and the code under test.

use std::collections::BTreeMap;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
    let mut h = mix(seed ^ (data.len() as u64));
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
    }
    for &b in it.remainder() {
        h = mix(h ^ u64::from(b));
    }
    h
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// Numbers and texts that occur in the source of the crate under test.  Where a
/// draw is a quantity it is sometimes one of these, or next to one.
#[derive(Default)]
pub struct Dict {
    pub numbers: Vec<u64>,
    pub texts: Vec<String>,
}

pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();

impl Dict {
    pub fn load(dir: &std::path::Path) -> Dict {
        let mut files = Vec::new();
        let mut todo = vec![dir.to_path_buf()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    files.push(p);
                }
            }
        }
        let mut numbers = std::collections::BTreeSet::new();
        let mut texts = std::collections::BTreeSet::new();
        for f in files {
            let t = std::fs::read_to_string(f).unwrap_or_default();
            let mut tests = false;
            for l in t.lines() {
                let l = l.trim();
                tests |= l.starts_with("#[cfg(test)]");
                if tests || l.starts_with("//") {
                    continue;
                }
                let n = numbers_in(l);
                // long runs of numbers are tables
                if n.len() <= 4 {
                    numbers.extend(n);
                }
                let s = texts_in(l);
                if s.len() == 1 && s[0].len() <= 40 && !l.contains("=>") {
                    texts.insert(s[0].clone());
                }
            }
        }
        numbers.retain(|x| *x > 2);
        Dict { numbers: numbers.into_iter().collect(), texts: texts.into_iter().collect() }
    }
}

fn numbers_in(l: &str) -> Vec<u64> {
    let mut out = Vec::new();
    let b = l.as_bytes();
    let mut i = 0;
    let mut quoted = false;
    while i < b.len() {
        if b[i] == b'"' {
            quoted = !quoted;
        }
        let starts = b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'.'));
        if quoted || !starts {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
            j += 1;
        }
        let word: String = l[i..j].chars().filter(|c| *c != '_').collect();
        let v = if let Some(h) = word.strip_prefix("0x") {
            let h: String = h.chars().take_while(char::is_ascii_hexdigit).collect();
            u64::from_str_radix(&h, 16)
        } else if let Some(h) = word.strip_prefix("0b") {
            let h: String = h.chars().take_while(|c| *c == '0' || *c == '1').collect();
            u64::from_str_radix(&h, 2)
        } else {
            let h: String = word.chars().take_while(char::is_ascii_digit).collect();
            h.parse()
        };
        out.extend(v);
        i = j;
    }
    out
}

fn texts_in(l: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut it = l.split('"').skip(1);
    while let Some(s) = it.next() {
        if !s.is_empty() && !s.contains(['\\', '{']) {
            out.push(s.to_string());
        }
        it.next();
    }
    out
}

enum Src {
    Random(Rng),
    /// a recorded case: draws beyond the list are 0
    Replay(Vec<u64>, usize),
    /// a changed record: draws beyond the list, or out of range, are random
    Mutant(Vec<u64>, usize, Rng),
}

pub struct G {
    src: Src,
    pub record: Vec<u64>,
    /// the range of every draw in `record`
    pub bounds: Vec<u64>,
    pub index: u64,
    sink: Option<std::fs::File>,
}

impl G {
    fn new(src: Src, index: u64) -> G {
        G { src, record: Vec::new(), bounds: Vec::new(), index, sink: None }
    }

    fn with_sink(mut self) -> G {
        self.sink = std::env::var_os("VP_RECORD_FILE").map(|f| std::fs::File::create(f).unwrap());
        self
    }

    pub fn random(seed: u64, index: u64) -> G {
        G::new(Src::Random(Rng::new(seed)), index).with_sink()
    }

    pub fn replay(choices: Vec<u64>) -> G {
        G::new(Src::Replay(choices, 0), 0)
    }

    pub fn mutant(choices: Vec<u64>, seed: u64) -> G {
        G::new(Src::Mutant(choices, 0, Rng::new(seed)), 0).with_sink()
    }

    /// A draw in `0..n` (`n == 0` means the full 64 bit range).
    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(n, None)
    }

    /// A draw in `0..n` that stands for a quantity `lo + draw`.
    fn quantity(&mut self, n: u64, lo: i64) -> u64 {
        self.draw(n, if n == 0 || n >= 24 { Some(lo) } else { None })
    }

    fn draw(&mut self, n: u64, lo: Option<i64>) -> u64 {
        let scale = |x: u64| if n == 0 { x } else { ((u128::from(x) * u128::from(n)) >> 64) as u64 };
        let random = |r: &mut Rng| {
            if let (Some(lo), Some(d)) = (lo, DICT.get()) {
                if r.next() % 32 == 0 && !d.numbers.is_empty() {
                    let x = d.numbers[(r.next() % d.numbers.len() as u64) as usize];
                    let x = x.wrapping_add([0, 0, 0, 1, u64::MAX][(r.next() % 5) as usize]);
                    let x = x.wrapping_sub(lo as u64);
                    if n == 0 || x < n {
                        return x;
                    }
                }
            }
            scale(r.next())
        };
        let v = match &mut self.src {
            Src::Random(r) => random(r),
            Src::Replay(c, pos) => {
                let x = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if n != 0 && x >= n { n - 1 } else { x }
            }
            Src::Mutant(c, pos, r) => {
                let x = c.get(*pos).copied();
                *pos += 1;
                match x {
                    Some(x) if n == 0 || x < n => x,
                    Some(x) if n.is_power_of_two() => x & (n - 1),
                    _ => random(r),
                }
            }
        };
        self.push(v, n);
        v
    }

    fn push(&mut self, v: u64, n: u64) {
        self.record.push(v);
        self.bounds.push(n);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }

    /// `v` itself unless a record says otherwise; for choices made by other means.
    fn given(&mut self, n: u64, v: u64) -> u64 {
        let v = match &mut self.src {
            Src::Random(_) => v,
            Src::Replay(c, pos) | Src::Mutant(c, pos, _) => {
                let x = c.get(*pos).copied().unwrap_or(v);
                *pos += 1;
                if n != 0 && x >= n { n - 1 } else { x }
            }
        };
        self.push(v, n);
        v
    }

    /// Walks through `0..n` case by case instead of drawing at random.
    pub fn enumerate(&mut self, n: u64) -> u64 {
        let v = match &mut self.src {
            Src::Random(_) => self.index % n,
            Src::Replay(c, pos) => {
                let x = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                x.min(n - 1)
            }
            Src::Mutant(c, pos, r) => {
                let x = c.get(*pos).copied().unwrap_or_else(|| r.next());
                *pos += 1;
                x % n
            }
        };
        // a range of 1 keeps a mutation away from it
        self.push(v, if n > 1 << 32 { 1 } else { n });
        v
    }

    /// A text from the source of the crate under test.
    pub fn source_text(&mut self) -> String {
        let d = DICT.get();
        let n = d.map_or(0, |d| d.texts.len()) as u64;
        // the draw itself must not depend on the list: a record holds the bytes
        let pick = match &mut self.src {
            Src::Random(r) | Src::Mutant(_, _, r) if n > 0 => d.unwrap().texts[(r.next() % n) as usize].clone(),
            _ => String::new(),
        };
        let len = self.given(64, pick.len().min(63) as u64) as usize;
        let b: Vec<u8> = (0..len).map(|i| self.given(128, u64::from(pick.as_bytes().get(i).copied().unwrap_or(b'a') & 127)) as u8).collect();
        String::from_utf8(b).unwrap_or_default()
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.quantity((hi - lo + 1) as u64, lo) as i64
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.quantity((hi - lo + 1) as u64, lo as i64) as usize
    }

    pub fn bits(&mut self, n: u32) -> u64 {
        if n == 0 {
            0
        } else if n >= 64 {
            self.quantity(0, 0)
        } else {
            self.quantity(1u64 << n, 0)
        }
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability `num / den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }

    /// Index chosen with the given weights; put the simplest alternative first.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        weights.len() - 1
    }

    /// `len` bytes from a single draw (draw 0 gives zero bytes).
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let seed = self.below(1 << 48);
        if seed == 0 {
            return vec![0; len];
        }
        let mut r = Rng::new(seed);
        let mut out = Vec::with_capacity(len + 8);
        while out.len() < len {
            out.extend_from_slice(&r.next().to_le_bytes());
        }
        out.truncate(len);
        out
    }

    /// Interesting 32 bit patterns, mixed with uniform ones.
    pub fn word(&mut self) -> u32 {
        match self.below(8) {
            0 => self.below(4) as u32,
            1 => self.below(256) as u32,
            2 => *self.pick(&[
                0u32, 1, 2, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_fffe, 0x7fff_ffff,
                0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0x7f80_0000, 0xff80_0000,
                0x3f80_0000, 0x0080_0000, 0x007f_ffff, 0xaaaa_aaaa, 0x5555_5555,
            ]),
            3 => (1u32 << self.below(32)).wrapping_add(self.below(3) as u32).wrapping_sub(1),
            _ => self.quantity(1 << 32, 0) as u32,
        }
    }

    pub fn i32(&mut self) -> i32 {
        self.word() as i32
    }

    pub fn word64(&mut self) -> u64 {
        match self.below(4) {
            0 => self.below(256),
            1 => *self.pick(&[
                0u64, 1, 0xffff_ffff, 0x1_0000_0000, 0x1f_ffff_ffff_ffff, 0x20_0000_0000_0000,
                0x20_0000_0000_0001, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX,
                u64::MAX - 1, 76_561_198_122_624_102,
            ]),
            _ => self.quantity(0, 0),
        }
    }

    /// A float by bit pattern.  Finite unless `wild`.
    pub fn f32(&mut self, wild: bool) -> f32 {
        let x = match self.below(6) {
            0 => *self.pick(&[
                0.0f32, 1.0, -1.0, 0.5, -0.0, 100.25, 1e-10, 1e10, f32::MAX, f32::MIN, f32::MIN_POSITIVE,
                16_777_216.0, 0.1,
            ]),
            1 => (self.range(-1_000_000, 1_000_000) as f32) / 100.0,
            _ => f32::from_bits(self.word()),
        };
        if wild || x.is_finite() {
            x
        } else {
            f32::from_bits(x.to_bits() & 0x3f7f_ffff)
        }
    }
}

/// What a single case reports about itself.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: Option<String>,
    pub attach: Vec<(String, Vec<u8>)>,
    pub replaying: bool,
    /// number of oracle evaluations in this case, when it makes many
    pub evals: u64,
    pub known: Vec<(&'static str, String)>,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.nontrivial = true;
        self.key = hash_bytes(self.key ^ 0x5151, key);
    }
    pub fn attach(&mut self, name: &str, data: &[u8]) {
        self.attach.retain(|(n, _)| n != name);
        self.attach.push((name.to_string(), data.to_vec()));
    }
}

pub type CaseFn = fn(&mut G, &mut Cx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// guided cases of the quick tier (20 times as many in the thorough one)
    pub guided: u64,
    /// Size of a finite space walked completely by cases `0..n` (0: none).
    pub enumerated: fn() -> u64,
    pub assumptions: &'static [&'static str],
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(hash_bytes(seed, id.as_bytes()) ^ mix(index))
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

pub fn run_case(p: &Prop, g: &mut G, cx: &mut Cx) -> Result<(), String> {
    match guard(|| (p.case)(g, cx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

/// Shrinks `choices` under `fails` (which returns the record of draws actually
/// used when the case still fails).
pub fn shrink(
    choices: Vec<u64>,
    budget: usize,
    wall: std::time::Duration,
    fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
) -> (Vec<u64>, usize) {
    let start = std::time::Instant::now();
    let mut best = choices;
    let mut used = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, used: &mut usize| -> bool {
        if *used >= budget || start.elapsed() > wall {
            return false;
        }
        *used += 1;
        if let Some(rec) = fails(&cand) {
            let smaller = (rec.len(), &rec) < (best.len(), &*best);
            if smaller {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // truncate
        let mut k = best.len() / 2;
        while k > 0 {
            if best.len() > k {
                let c = best[..best.len() - k].to_vec();
                if attempt(c, &mut best, &mut used) {
                    continue;
                }
            }
            k /= 2;
        }
        // delete chunks
        let mut size = (best.len() / 2).clamp(1, 256);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !attempt(c, &mut best, &mut used) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt(c, &mut best, &mut used);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut lo = 0u64;
            let mut guard = 0;
            while i < best.len() && best[i] > lo && guard < 24 {
                guard += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(c, &mut best, &mut used) {
                    if mid + 1 > best.get(i).copied().unwrap_or(0) {
                        break;
                    }
                    lo = mid + 1;
                }
            }
        }
        if best == before || used >= budget || start.elapsed() > wall {
            return (best, used);
        }
    }
}

pub fn hex(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() * 2);
    for b in data {
        s.push(char::from_digit(u32::from(b >> 4), 16).unwrap());
        s.push(char::from_digit(u32::from(b & 15), 16).unwrap());
    }
    s
}

pub fn short_hex(data: &[u8], n: usize) -> String {
    if data.len() <= n {
        hex(data)
    } else {
        format!("{}..({} bytes)", hex(&data[..n]), data.len())
    }
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct WorkerOut {
    pub cases: u64,
    pub evals: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    /// case, message and, for a guided case, its record
    pub fail: Option<(u64, String, Option<Vec<u64>>)>,
    pub known: BTreeMap<String, String>,
    pub guided: u64,
    pub corpus: u64,
}
