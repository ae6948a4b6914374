#![allow(dead_code, unused_must_use)]
mod alloc;
mod binser;
mod cov;
mod engine;
mod gen;
mod known;
mod model;
mod props;
mod refdec;
mod tables;
mod wire;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const CPU_LIMIT_ONE: u64 = 60;

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    // the default stack size of a Rust thread
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap()
}

fn find(id: &str) -> &'static Prop {
    props::all().iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn rlimit(res: libc::__rlimit_resource_t, v: u64) {
    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
    unsafe {
        libc::setrlimit(res, &l);
    }
}

fn main() {
    install_panic_hook();
    rlimit(libc::RLIMIT_CORE, 0);
    let _ = DICT.set(Dict::load(Path::new("/repo/src")));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    match cmd {
        "run" => run(&a[2]),
        "worker" => worker(&a[2..]),
        "guide" => guide(&a[2..]),
        "one" => one(&a[2..]),
        "replay" => replay(&a[2]),
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.title);
            }
        }
        "gencase" => {
            let p = find(&a[2]);
            let idx: u64 = a[3].parse().unwrap();
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let code = on_thread(move || {
                let mut g = G::random(case_seed(seed, p.id, idx), idx);
                let mut cx = Cx::default();
                let r = run_case(p, &mut g, &mut cx);
                println!("{:?}\nlabels {:?} nontrivial {} draws {}", r, cx.labels, cx.nontrivial, g.record.len());
                println!("sample {:?}", cx.sample);
                i32::from(r.is_err())
            });
            std::process::exit(code);
        }
        "genmut" => {
            let p = find(&a[2]);
            let (c, s) = split_mutant(&std::fs::read(&a[3]).unwrap());
            let code = on_thread(move || {
                let mut g = G::mutant(c, s);
                i32::from(run_case(p, &mut g, &mut Cx::default()).is_err())
            });
            std::process::exit(code);
        }
        "corpus" => std::process::exit(props::corpus_report()),
        _ => {
            eprintln!("usage: vp run ID | replay FILE | list");
            std::process::exit(2);
        }
    }
}

// ---------------------------------------------------------------- worker

fn split_mutant(b: &[u8]) -> (Vec<u64>, u64) {
    let mut w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let n = w[0] as usize;
    let s = w[1];
    w.drain(..2);
    w.truncate(n);
    (w, s)
}

#[derive(Default)]
struct Tally {
    out: WorkerOut,
    keys: HashSet<u64>,
}

impl Tally {
    /// Runs case `i`; false when it fails.
    fn case(&mut self, p: &Prop, i: u64, g: &mut G) -> bool {
        let mut cx = Cx::default();
        let r = run_case(p, g, &mut cx);
        let out = &mut self.out;
        out.cases += 1;
        out.evals += cx.evals.max(1);
        for l in &cx.labels {
            *out.labels.entry((*l).to_string()).or_default() += 1;
        }
        for (id, what) in &cx.known {
            out.known.entry((*id).to_string()).or_insert_with(|| what.clone());
        }
        if cx.nontrivial {
            self.keys.insert(cx.key);
            if out.samples.len() < 2 {
                if let Some(s) = cx.sample.take() {
                    out.samples.push((i, s));
                }
            }
        }
        if let Err(m) = r {
            out.fail = Some((i, m, None));
            return false;
        }
        true
    }

    fn save(&self, dir: &Path, k: &str) {
        let mut kb = Vec::with_capacity(self.keys.len() * 8);
        for x in &self.keys {
            kb.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(dir.join(format!("keys.{k}")), kb).unwrap();
        std::fs::write(dir.join(format!("out.{k}")), serde_json::to_vec(&self.out).unwrap()).unwrap();
    }
}

/// `worker ID seed start stride total dir k [until]`: fresh cases.
fn worker(a: &[String]) -> ! {
    let p = find(&a[0]);
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, total) = (num(1), num(2), num(3), num(4));
    let dir = PathBuf::from(&a[5]);
    let k = a[6].clone();
    let until: u64 = a.get(7).and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    rlimit(libc::RLIMIT_AS, 24 << 30);
    on_thread(move || {
        let prog = std::fs::File::create(dir.join(format!("prog.{k}"))).unwrap();
        let mut t = Tally::default();
        let mut i = start;
        while i < total && i <= until {
            prog.write_all_at(&i.to_le_bytes(), 0).unwrap();
            if !t.case(p, i, &mut G::random(case_seed(seed, p.id, i), i)) {
                break;
            }
            i += stride;
        }
        prog.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();
        t.save(&dir, &k);
    });
    std::process::exit(0)
}

/// `guide ID seed start stride base end dir k`: cases `base..end` as mutations of
/// earlier ones (a quarter as many fresh cases to begin with) that reached
/// something new in the code under test.  Only of use in the instrumented build.
fn guide(a: &[String]) -> ! {
    let p = find(&a[0]);
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, base, end) = (num(1), num(2), num(3), num(4), num(5));
    let dir = PathBuf::from(&a[6]);
    let k = a[7].clone();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    rlimit(libc::RLIMIT_AS, 24 << 30);
    on_thread(move || {
        let prog = std::fs::File::create(dir.join(format!("prog.{k}"))).unwrap();
        let cur = std::fs::File::create(dir.join(format!("cur.{k}"))).unwrap();
        let mut guide = cov::Guide::new();
        let mut t = Tally::default();
        let learn = |guide: &mut cov::Guide, g: &mut G| {
            if guide.fresh() {
                let (c, b) = (std::mem::take(&mut g.record), std::mem::take(&mut g.bounds));
                let again = c.clone();
                let cmps = cov::with_cmps(|| {
                    let _ = run_case(p, &mut G::replay(again), &mut Cx::default());
                });
                guide.clear();
                guide.add(c, b, cmps);
            }
        };
        // not the cases of the plain workers
        let other = mix(seed ^ 0x6775_6964_65);
        let mut scratch = Tally::default();
        let mut i = start;
        while i < (end - base) / 4 + stride && guide.on() {
            let cs = case_seed(other, p.id, i);
            save_current(&cur, cs, &[]);
            prog.write_all_at(&(base + i).to_le_bytes(), 0).unwrap();
            let mut g = G::mutant(Vec::new(), cs);
            guide.clear();
            if !scratch.case(p, base + i, &mut g) {
                t.out.fail = scratch.out.fail.take().map(|f| (f.0, f.1, Some(g.record)));
                break;
            }
            learn(&mut guide, &mut g);
            i += stride;
        }
        let mut i = base + start;
        while i < end && !guide.corpus.is_empty() && t.out.fail.is_none() {
            let cs = case_seed(other, p.id, i);
            let c = guide.mutant(&mut Rng::new(cs));
            save_current(&cur, cs, &c);
            prog.write_all_at(&i.to_le_bytes(), 0).unwrap();
            let mut g = G::mutant(c, cs);
            guide.clear();
            if !t.case(p, i, &mut g) {
                t.out.fail = t.out.fail.take().map(|f| (f.0, f.1, Some(g.record)));
                break;
            }
            learn(&mut guide, &mut g);
            i += stride;
        }
        prog.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();
        t.out.guided = t.out.cases;
        t.out.corpus = guide.corpus.len() as u64;
        std::fs::write(dir.join(format!("cov.{k}")), guide.hit()).unwrap();
        t.save(&dir, &k);
    });
    std::process::exit(0)
}

fn save_current(f: &std::fs::File, seed: u64, c: &[u64]) {
    let mut b = Vec::with_capacity(16 + c.len() * 8);
    b.extend_from_slice(&(c.len() as u64).to_le_bytes());
    b.extend_from_slice(&seed.to_le_bytes());
    c.iter().for_each(|x| b.extend_from_slice(&x.to_le_bytes()));
    f.write_all_at(&b, 0).unwrap();
}

// ------------------------------------------------- one case in this process

/// `one ID choices.json out.json`
fn one(a: &[String]) -> ! {
    let p = find(&a[0]);
    rlimit(libc::RLIMIT_CPU, CPU_LIMIT_ONE);
    rlimit(libc::RLIMIT_AS, 24 << 30);
    let choices: Vec<u64> = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
    let out = PathBuf::from(&a[2]);
    let code = on_thread(move || {
        let mut g = G::replay(choices);
        let mut cx = Cx { replaying: true, ..Cx::default() };
        let r = run_case(p, &mut g, &mut cx);
        let msg = r.err();
        let code = if msg.is_some() { 10 } else { 0 };
        std::fs::write(out, serde_json::to_vec(&(msg, g.record)).unwrap()).unwrap();
        code
    });
    std::process::exit(code)
}

enum OneRes {
    Pass,
    Fail(String, Vec<u64>),
    Crash(String),
    Inconclusive(String),
}

fn run_one_child(p: &Prop, dir: &Path, choices: &[u64]) -> OneRes {
    let cf = dir.join("one.in");
    let of = dir.join("one.out");
    let _ = std::fs::remove_file(&of);
    std::fs::write(&cf, serde_json::to_vec(choices).unwrap()).unwrap();
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["one", p.id])
        .arg(&cf)
        .arg(&of)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    match (st.code(), st.signal()) {
        (Some(0), _) => OneRes::Pass,
        (Some(10), _) => {
            let (m, r): (Option<String>, Vec<u64>) =
                serde_json::from_slice(&std::fs::read(&of).unwrap()).unwrap();
            OneRes::Fail(m.unwrap_or_default(), r)
        }
        (_, Some(s)) if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&s) => {
            OneRes::Crash(format!("the process died with signal {s} ({})", sig_name(s)))
        }
        (_, Some(s)) if s == libc::SIGXCPU || (s == libc::SIGKILL && cpu_of_children() >= CPU_LIMIT_ONE) => {
            OneRes::Crash(format!("no result after {CPU_LIMIT_ONE} s of CPU time (hang)"))
        }
        (c, s) => OneRes::Inconclusive(format!("exit {c:?} signal {s:?}")),
    }
}

fn cpu_of_children() -> u64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_CHILDREN, &mut u);
        (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64
    }
}

fn sig_name(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "SIGSEGV, e.g. stack overflow",
        libc::SIGABRT => "SIGABRT, e.g. stack overflow or failed allocation",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        _ => "signal",
    }
}

/// The draws of a case that does not come to an end.  They can depend on the code
/// under test, so a dry generation is not possible: a child dumps them as it goes.
fn record_of(p: &'static Prop, seed: u64, index: u64, cur: Option<&Path>) -> Vec<u64> {
    let dir = std::env::temp_dir().join(format!("vp-rec-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("rec");
    let mut c = Command::new(std::env::current_exe().unwrap());
    match cur {
        Some(cur) => c.args(["genmut", p.id]).arg(cur),
        None => c.args(["gencase", p.id, &index.to_string()]).env("VERIF_SEED", seed.to_string()),
    };
    let st = c.env("VP_RECORD_FILE", &f).stdout(Stdio::null()).stderr(Stdio::null()).status();
    drop(st);
    let r = std::fs::read(&f).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    r.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

/// Runs the cases `start, start + stride, ..` up to `until` in a process of their
/// own; the message when the last one fails.
fn history(p: &Prop, seed: u64, start: u64, stride: u64, total: u64, until: u64) -> Option<String> {
    let tmp = Tmp(std::env::temp_dir().join(format!("vp-hist-{}", std::process::id())));
    std::fs::create_dir_all(&tmp.0).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", p.id, &seed.to_string(), &start.to_string(), &stride.to_string(), &total.to_string()])
        .arg(&tmp.0)
        .args(["0", &until.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    let o: WorkerOut = serde_json::from_slice(&std::fs::read(tmp.0.join("out.0")).ok()?).ok()?;
    o.fail.filter(|f| f.0 == until).map(|f| f.1)
}

// ---------------------------------------------------------------- run

struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Found {
    idx: u64,
    msg: String,
    crashed: bool,
    record: Option<Vec<u64>>,
}

/// Runs the processes (name of its files, arguments) side by side to their end, or
/// until no earlier failure can turn up.
fn drive(exe: &Path, args: Vec<(String, Vec<String>)>, dir: &Path) -> (Vec<Found>, Vec<String>) {
    struct W {
        child: Child,
        k: String,
        last: u64,
        since: Instant,
        done: bool,
        killed: bool,
    }
    let mut ws: Vec<W> = args
        .into_iter()
        .map(|(k, a)| W {
            child: Command::new(exe)
                .args(a)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker"),
            k,
            last: u64::MAX,
            since: Instant::now(),
            done: false,
            killed: false,
        })
        .collect();
    let progress = |k: &str| -> Option<u64> {
        let mut b = [0u8; 8];
        let mut f = std::fs::File::open(dir.join(format!("prog.{k}"))).ok()?;
        f.read_exact(&mut b).ok()?;
        Some(u64::from_le_bytes(b))
    };
    let mut fails: Vec<Found> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    loop {
        let mut alive = false;
        let min_fail = fails.iter().map(|f| f.idx).min();
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            let crash = |idx: u64, msg: String| Found { idx, msg, crashed: true, record: None };
            if let Ok(Some(st)) = w.child.try_wait() {
                w.done = true;
                let at = progress(&w.k);
                if st.code() == Some(0) {
                    if let Ok(b) = std::fs::read(dir.join(format!("out.{}", w.k))) {
                        if let Ok(o) = serde_json::from_slice::<WorkerOut>(&b) {
                            if let Some((idx, msg, record)) = o.fail {
                                fails.push(Found { idx, msg, crashed: false, record });
                            }
                        }
                    }
                } else if !w.killed {
                    match (at, st.signal()) {
                        (Some(i), Some(s)) if i != u64::MAX => fails.push(crash(i, format!("worker died with signal {s}"))),
                        (i, s) => inconclusive.push(format!("worker {} ended with {st:?} at case {i:?} signal {s:?}", w.k)),
                    }
                }
                continue;
            }
            alive = true;
            let at = progress(&w.k).unwrap_or(u64::MAX);
            if at != w.last {
                w.last = at;
                w.since = Instant::now();
            }
            if w.since.elapsed() > Duration::from_secs(100) && at != u64::MAX {
                w.killed = true;
                let _ = w.child.kill();
                fails.push(crash(at, "worker made no progress".into()));
            }
            if let Some(m) = min_fail {
                if at != u64::MAX && at > m {
                    w.killed = true;
                    let _ = w.child.kill();
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    fails.sort_by_key(|f| f.idx);
    (fails, inconclusive)
}

/// This program with the crate under test instrumented, when it was built.
fn instrumented() -> Option<PathBuf> {
    let exe = std::env::current_exe().ok()?;
    let p = exe.parent()?.parent()?.parent()?.join("target-cov/release/vp");
    p.is_file().then_some(p)
}

fn run(id: &str) -> ! {
    let p = find(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let (mut total, mut guided) = (p.quick, p.guided);
    if tier == "thorough" {
        total = p.thorough;
        guided *= 20;
    }
    let num = |k: &str| std::env::var(k).ok().and_then(|s| s.parse().ok());
    if let Some(n) = num("VERIF_CASES") {
        guided = (u128::from(guided) * u128::from(n) / u128::from(total)) as u64;
        total = n;
    }
    if let Some(n) = num("VERIF_GUIDED") {
        guided = n;
    }
    let enumerated = (p.enumerated)();
    total = total.max(enumerated);

    let tmp = Tmp(std::env::temp_dir().join(format!("vp-{}-{}", id, std::process::id())));
    std::fs::create_dir_all(&tmp.0).unwrap();
    let n = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 8).min(total.max(1));
    let dir = tmp.0.to_string_lossy().to_string();

    let exe = std::env::current_exe().unwrap();
    let mut names: Vec<String> = (0..n).map(|k| k.to_string()).collect();
    let args = (0..n)
        .map(|k| {
            let a = ["worker".into(), id.to_string(), seed.to_string(), k.to_string(), n.to_string(), total.to_string(), dir.clone(), k.to_string()];
            (k.to_string(), a.to_vec())
        })
        .collect();
    let (fails, mut inconclusive) = drive(&exe, args, &tmp.0);

    let mut violation: Option<(String, PathBuf)> = None;
    for f in &fails {
        let f = Failure { seed, idx: f.idx, msg: &f.msg, crashed: f.crashed, record: f.record.clone(), cur: None, n, total };
        let (idx, msg) = (f.idx, f.msg);
        match settle(p, f, &tmp.0, tier) {
            Ok(v) => {
                violation = Some(v);
                break;
            }
            Err(why) => inconclusive.push(format!("case {idx}: {why} (first seen as: {msg})")),
        }
    }

    // the guided part; what fails there has to fail here as well
    let mut unconfirmed: Vec<String> = Vec::new();
    let mut edges = (0, 0);
    if let (Some(exe), true, None) = (instrumented(), guided > 0, &violation) {
        let args = (0..n)
            .map(|k| {
                let name = format!("g{k}");
                let a = ["guide".into(), id.to_string(), seed.to_string(), k.to_string(), n.to_string(), total.to_string(), (total + guided).to_string(), dir.clone(), name.clone()];
                (name, a.to_vec())
            })
            .collect();
        let (fails, inc) = drive(&exe, args, &tmp.0);
        unconfirmed.extend(inc);
        for f in &fails {
            let k = if f.idx < total { 0 } else { (f.idx - total) % n };
            let cur = Some(tmp.0.join(format!("cur.g{k}")));
            let f = Failure { seed, idx: f.idx, msg: &f.msg, crashed: f.crashed, record: f.record.clone(), cur, n, total };
            let (idx, msg) = (f.idx, f.msg);
            match settle(p, f, &tmp.0, tier) {
                Ok(v) => {
                    violation = Some(v);
                    break;
                }
                Err(why) => unconfirmed.push(format!("guided case {idx}: {why} (first seen as: {msg})")),
            }
        }
        let mut hit: Vec<u8> = Vec::new();
        for k in 0..n {
            if let Ok(b) = std::fs::read(tmp.0.join(format!("cov.g{k}"))) {
                hit.resize(b.len(), 0);
                hit.iter_mut().zip(b).for_each(|(x, y)| *x |= y);
            }
            names.push(format!("g{k}"));
        }
        edges = (hit.iter().filter(|x| **x != 0).count(), hit.len());
    }

    // merge
    let mut merged = WorkerOut::default();
    let mut keys: HashSet<u64> = HashSet::new();
    for k in &names {
        if let Ok(b) = std::fs::read(tmp.0.join(format!("out.{k}"))) {
            if let Ok(o) = serde_json::from_slice::<WorkerOut>(&b) {
                merged.cases += o.cases;
                merged.evals += o.evals;
                merged.guided += o.guided;
                merged.corpus += o.corpus;
                for (l, c) in o.labels {
                    *merged.labels.entry(l).or_default() += c;
                }
                merged.samples.extend(o.samples);
                for (i, w) in o.known {
                    merged.known.entry(i).or_insert(w);
                }
            }
        }
        if let Ok(b) = std::fs::read(tmp.0.join(format!("keys.{k}"))) {
            keys.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    merged.samples.sort();
    merged.samples.truncate(6);

    let mut coverage = BTreeMap::new();
    use serde_json::json;
    coverage.insert("evaluations", json!(merged.evals));
    coverage.insert("cases", json!(merged.cases));
    coverage.insert("distinct_nontrivial", json!(keys.len()));
    coverage.insert("rule", json!(p.rule));
    coverage.insert(
        "samples",
        json!(merged.samples.iter().map(|(i, s)| format!("case {i}: {s}")).collect::<Vec<_>>()),
    );
    coverage.insert("classes", json!(merged.labels));
    coverage.insert("guided_cases", json!(merged.guided));
    coverage.insert("guiding_corpus", json!(merged.corpus));
    coverage.insert("guided_edges_reached", json!(edges.0));
    coverage.insert("library_edges", json!(edges.1));
    if !unconfirmed.is_empty() {
        coverage.insert("guided_unconfirmed", json!(unconfirmed));
    }
    if enumerated > 0 {
        coverage.insert("enumerated_points", json!(enumerated));
    }
    if !merged.known.is_empty() {
        coverage.insert("known_findings_seen", json!(merged.known));
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": i32::from(violation.is_some()),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();

    println!(
        "{id}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s ({tier}, seed {seed})",
        merged.cases,
        merged.evals,
        keys.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, w) in &merged.known {
        println!("KNOWN-FINDING: property={id} {k}: {w}");
    }
    drop(tmp);
    if let Some((msg, path)) = violation {
        println!("{msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
    if !inconclusive.is_empty() {
        for m in inconclusive {
            eprintln!("error: {m}");
        }
        std::process::exit(3);
    }
    std::process::exit(0)
}

struct Failure<'a> {
    seed: u64,
    idx: u64,
    msg: &'a str,
    crashed: bool,
    record: Option<Vec<u64>>,
    cur: Option<PathBuf>,
    n: u64,
    total: u64,
}

fn write_replay(p: &Prop, f: &Failure, doc: serde_json::Value) -> PathBuf {
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-seed{}-case{}.json", p.id, f.seed, f.idx));
    let mut doc = doc;
    doc["property"] = p.id.into();
    doc["title"] = p.title.into();
    doc["seed"] = f.seed.into();
    doc["case"] = f.idx.into();
    doc["first_message"] = f.msg.into();
    doc["replay_with"] = format!("cd /verif && ./check.sh replay {}", path.display()).into();
    std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
    path
}

/// A failure that only shows after other cases ran in the same process.
fn settle_history(p: &'static Prop, f: &Failure) -> Option<(String, PathBuf)> {
    if f.cur.is_some() {
        return None;
    }
    let first = f.idx % f.n;
    let mut message = history(p, f.seed, first, f.n, f.total, f.idx)?;
    let mut start = first;
    // as few cases as do
    let mut back = 1;
    while back * f.n <= f.idx - first {
        let s = f.idx - back * f.n;
        if let Some(m) = history(p, f.seed, s, f.n, f.total, f.idx) {
            start = s;
            message = m;
            break;
        }
        back *= 2;
    }
    let cases = (f.idx - start) / f.n;
    let message = format!("{message} (after {cases} other cases in the same process, not by itself)");
    let path = write_replay(
        p,
        f,
        serde_json::json!({
            "message": message,
            "history": { "start": start, "stride": f.n, "total": f.total, "until": f.idx },
        }),
    );
    Some((message, path))
}

/// Confirms a failure, shrinks it and writes the replay file.
fn settle(p: &'static Prop, f: Failure, dir: &Path, tier: &str) -> Result<(String, PathBuf), String> {
    let (choices, message);
    let (seed, idx) = (f.seed, f.idx);
    if !f.crashed {
        let rec = f.record.clone();
        let (c, m) = on_thread(move || {
            let mut g = match rec {
                Some(c) => G::replay(c),
                None => G::random(case_seed(seed, p.id, idx), idx),
            };
            let mut cx = Cx::default();
            let r = run_case(p, &mut g, &mut cx);
            (g.record, r.err())
        });
        // A failure the worker saw but that does not show again, neither by itself
        // nor after the cases before it, is not reported as a violation.
        let Some(m) = m else {
            return settle_history(p, &f).ok_or_else(|| "failure did not reproduce".into());
        };
        let (best, _) = on_thread(move || {
            let mut f = |cand: &[u64]| -> Option<Vec<u64>> {
                let mut g = G::replay(cand.to_vec());
                let mut cx = Cx { replaying: true, ..Cx::default() };
                run_case(p, &mut g, &mut cx).err().map(|_| g.record)
            };
            shrink(c, 4000, Duration::from_secs(45), &mut f)
        });
        message = {
            let b = best.clone();
            on_thread(move || {
                let mut g = G::replay(b);
                let mut cx = Cx { replaying: true, ..Cx::default() };
                run_case(p, &mut g, &mut cx).err()
            })
            .unwrap_or(m)
        };
        choices = best;
    } else {
        let rec = record_of(p, seed, idx, f.cur.as_deref());
        match run_one_child(p, dir, &rec) {
            OneRes::Crash(m) => {
                let hang = m.contains("hang");
                let mut f = |cand: &[u64]| -> Option<Vec<u64>> {
                    match run_one_child(p, dir, cand) {
                        OneRes::Crash(_) => Some(cand.to_vec()),
                        _ => None,
                    }
                };
                let (best, _) = if hang {
                    (rec, 0)
                } else {
                    shrink(rec, 400, Duration::from_secs(60), &mut f)
                };
                choices = best;
                message = m;
            }
            OneRes::Fail(m, r) => {
                choices = r;
                message = m;
            }
            OneRes::Pass => return Err("crash did not reproduce".into()),
            OneRes::Inconclusive(m) => return Err(m),
        }
    }
    // attachments of the final case
    let mut attach: BTreeMap<String, String> = BTreeMap::new();
    if !f.crashed {
        let c = choices.clone();
        let at = on_thread(move || {
            let mut g = G::replay(c);
            let mut cx = Cx { replaying: true, ..Cx::default() };
            let _ = run_case(p, &mut g, &mut cx);
            cx.attach
        });
        for (n, d) in at {
            attach.insert(n, hex(&d));
        }
    }
    let path = write_replay(
        p,
        &f,
        serde_json::json!({ "tier": tier, "message": message, "choices": choices, "attachments_hex": attach }),
    );
    Ok((message, path))
}

fn replay(file: &str) -> ! {
    let doc: serde_json::Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let p = find(doc["property"].as_str().unwrap());
    if let Some(h) = doc["history"].as_object() {
        let v = |k: &str| h[k].as_u64().unwrap();
        match history(p, doc["seed"].as_u64().unwrap(), v("start"), v("stride"), v("total"), v("until")) {
            None => {
                println!("{}: the recorded cases pass", p.id);
                std::process::exit(0)
            }
            Some(m) => {
                println!("{m}\nVIOLATION property={} replay={file}", p.id);
                std::process::exit(1)
            }
        }
    }
    let choices: Vec<u64> = doc["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let tmp = Tmp(std::env::temp_dir().join(format!("vp-replay-{}", std::process::id())));
    std::fs::create_dir_all(&tmp.0).unwrap();
    let r = run_one_child(p, &tmp.0, &choices);
    drop(tmp);
    match r {
        OneRes::Pass => {
            println!("{}: the recorded case passes", p.id);
            std::process::exit(0)
        }
        OneRes::Fail(m, _) | OneRes::Crash(m) => {
            println!("{m}\nVIOLATION property={} replay={file}", p.id);
            std::process::exit(1)
        }
        OneRes::Inconclusive(m) => {
            eprintln!("error: {m}");
            std::process::exit(3)
        }
    }
}
