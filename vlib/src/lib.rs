//! Property-based testing engine shared by the harness binaries.
//!
//! A case is a *choice sequence*: every random decision of a generator is one bounded draw from
//! [`Src`], recorded so that a failing case can be shrunk (delete / zero / lower draws) and
//! replayed from a file without the random generator.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub mod clock;
pub mod gen;
pub use serde_json;

// ---------------------------------------------------------------- choice source

enum Mode {
    Rng(u64),
    Replay(usize),
}

/// A shrunk candidate that keeps drawing this long after its choices ran out is discarded.
const OVERRUN: usize = 20_000;

pub struct Src {
    pub choices: Vec<u64>,
    mode: Mode,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { choices: Vec::new(), mode: Mode::Rng(seed) }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { choices, mode: Mode::Replay(0) }
    }
    /// A value in `0..n` (`n >= 1`); 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        match &mut self.mode {
            Mode::Rng(s) => {
                let r = splitmix(s);
                let v = if n == u64::MAX { r } else { ((r as u128 * n as u128) >> 64) as u64 };
                self.choices.push(v);
                v
            }
            Mode::Replay(p) => {
                let v = self.choices.get(*p).copied().unwrap_or(0);
                *p += 1;
                if *p > self.choices.len() + OVERRUN {
                    std::panic::panic_any("choice sequence exhausted");
                }
                v.min(n - 1)
            }
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Weighted index.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    pub fn opt<T>(&mut self, num: u64, den: u64, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.chance(num, den) { Some(f(self)) } else { None }
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.urange(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    /// A list that is usually short, now and then (1 in 24) up to `big` long.
    pub fn many<T>(&mut self, lo: usize, hi: usize, big: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let hi = if self.chance(1, 24) { big } else { hi };
        let n = self.urange(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    /// Heavy-tailed number: mostly small, sometimes boundary values up to max.
    pub fn num(&mut self, max: u64) -> u64 {
        match self.weighted(&[6, 3, 2, 2, 1]) {
            0 => self.below(max.min(10) + 1),
            1 => self.below(max.min(300) + 1),
            2 => self.below(max.saturating_add(1).max(1)),
            3 => {
                let b = [0x7f, 0xff, 0x7fff, 0xffff, 0x7fff_ffff, 0xffff_ffff, 1 << 31, 1 << 32, 1 << 63, u64::MAX];
                let x = *self.pick(&b);
                x.min(max)
            }
            _ => max - self.below(max.min(3) + 1),
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // identity when all draws are 0
        for i in 0..xs.len() {
            let j = i + self.idx(xs.len() - i);
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- results

#[derive(Debug, Clone)]
pub struct Fail {
    /// Signature: what kind of failure, independent of the concrete values.
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)+) => {
        if !$cond { return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($fmt)+) }); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($fmt:tt)+) => {
        match (&$a, &$b) {
            (a, b) => if a != b { return Err($crate::Fail { sig: ($sig).to_string(),
                msg: format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b) }); }
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    case_nontrivial: bool,
    case_labels: Vec<String>,
    case_desc: Option<String>,
    /// set while a case is replayed or shrunk, so that the case's description is always built
    pub verbose: bool,
}

impl Ctx {
    /// Marks the case non-trivial; `key` identifies it for the distinct count.
    pub fn nontrivial<K: Hash>(&mut self, key: K) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.nontrivial.insert(h.finish());
        self.case_nontrivial = true;
    }
    /// Classifies the case.
    pub fn label(&mut self, l: impl Into<String>) {
        let l = l.into();
        if !self.case_labels.contains(&l) {
            self.case_labels.push(l);
        }
    }
    /// Describes the case (kept for a few samples and for failures).
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.verbose || self.samples.len() < 40 {
            self.case_desc = Some(f());
        }
    }
    fn begin(&mut self) {
        self.case_nontrivial = false;
        self.case_labels.clear();
        self.case_desc = None;
    }
    fn end(&mut self, unit: &str) {
        for l in self.case_labels.drain(..) {
            *self.labels.entry(format!("{unit}/{l}")).or_insert(0) += 1;
        }
        if self.case_nontrivial && self.samples.len() < 40 {
            if let Some(d) = self.case_desc.take() {
                self.samples.push((unit.to_string(), d));
            }
        }
    }
}

pub type UnitFn = fn(&mut Src, &mut Ctx) -> R;
pub struct Unit {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: UnitFn,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub units: Vec<Unit>,
}
#[macro_export]
macro_rules! unit {
    ($name:expr, $q:expr, $t:expr, $f:expr) => {
        $crate::Unit { name: $name, quick: $q, thorough: $t, f: $f }
    };
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| {
            let f = l.file();
            let f = f.find("/crates/").map(|i| &f[i + 1..]).unwrap_or(f);
            format!("{}:{}", f, l.line())
        }).unwrap_or_default();
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if IN_CASE.with(|c| c.get()) {
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() { *p = Some(format!("{loc}: {m}")); }
            });
        } else {
            eprintln!("harness panic at {loc}: {m}");
        }
    }));
}

/// Runs code under test, turning a panic into a failure with the panicking file as signature.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = IN_CASE.with(|c| c.replace(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| panic_fail(what))
}

fn panic_fail(what: &str) -> Fail {
    let p = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
    let file = p.split(':').next().unwrap_or("").to_string();
    if p.ends_with("choice sequence exhausted") {
        return Fail { sig: "exhausted".into(), msg: p };
    }
    let sig = if file.starts_with("src/") { format!("harness-panic:{file}") } else { format!("panic:{file}") };
    Fail { sig, msg: format!("panic in {what}: {p}") }
}

// ---------------------------------------------------------------- running

fn run_case(u: &Unit, src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.begin();
    clock::reset();
    IN_CASE.with(|c| c.set(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (u.f)(src, ctx)));
    IN_CASE.with(|c| c.set(false));
    clock::off();
    match r {
        Ok(r) => r,
        Err(_) => Err(panic_fail(u.name)),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
fn case_seed(seed: u64, prop: &str, unit: &str, i: u64) -> u64 {
    let mut s = seed ^ hash_str(prop).rotate_left(17) ^ hash_str(unit);
    let a = splitmix(&mut s);
    let mut t = a ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut t)
}

fn still_fails(u: &Unit, choices: &[u64], sig: &str) -> Option<Fail> {
    let mut c = Ctx::default();
    let mut s = Src::replay(choices.to_vec());
    match run_case(u, &mut s, &mut c) {
        Err(f) if f.sig == sig => Some(f),
        _ => None,
    }
}

fn shrink(u: &Unit, choices: Vec<u64>, f: Fail) -> (Vec<u64>, Fail) {
    let t0 = clock::real_now();
    let mut best = choices;
    let mut bf = f;
    let mut evals = 0u32;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            evals += 1;
            if let Some(f) = still_fails(u, &cand, &bf.sig) { best = cand; bf = f; true } else { false }
        }};
    }
    let over = |e: u32| e > 6000 || clock::real_now() - t0 > 25.0;
    loop {
        let before = best.clone();
        // truncate
        let mut n = best.len() / 2;
        while n > 0 && !over(evals) {
            if best.len() > n && attempt!(best[..best.len() - n].to_vec()) { continue; }
            n /= 2;
        }
        // delete chunks
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size && !over(evals) {
                i -= 1;
                if i + size > best.len() { continue; }
                let st = i + 1 - 1;
                if st + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(st..st + size);
                    attempt!(c);
                }
            }
        }
        // zero chunks then lower single values
        for size in [8usize, 2] {
            let mut i = 0;
            while i + size <= best.len() && !over(evals) {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && !over(evals) {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && !over(evals) && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) { hi = mid } else { lo = mid }
                    }
                }
            }
            i += 1;
        }
        if best == before || over(evals) { break; }
    }
    (best, bf)
}

struct Known {
    prop: String,
    sig: String,
    what: String,
}
fn load_known(root: &str) -> Vec<Known> {
    // one finding per line: "finding: property=<id> sig=<signature> what=<text>"; other lines are notes
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
        for l in t.lines() {
            let Some(r) = l.strip_prefix("finding: property=") else { continue };
            let Some((p, r)) = r.split_once(" sig=") else { continue };
            let Some((s, w)) = r.split_once(" what=") else { continue };
            v.push(Known { prop: p.trim().into(), sig: s.trim().into(), what: w.trim().into() });
        }
    }
    v
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(prop: &str, unit: &str, choices: &[u64], f: &Fail, desc: &str) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{unit}.json");
    let j = serde_json::json!({"property": prop, "unit": unit, "signature": f.sig, "message": f.msg,
        "case": desc, "choices": choices});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn describe(u: &Unit, choices: &[u64]) -> String {
    let mut c = Ctx { verbose: true, ..Default::default() };
    let mut s = Src::replay(choices.to_vec());
    let _ = run_case(u, &mut s, &mut c);
    c.case_desc.unwrap_or_default()
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}…", &s[..e])
}

struct Shared {
    map: *mut AtomicU64,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    fn open(path: &str) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress file");
        f.set_len(4096).expect("progress file size");
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared { map: p as *mut AtomicU64 }
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { (*self.map.add(i)).store(v, Ordering::Relaxed) }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { (*self.map.add(i)).load(Ordering::Relaxed) }
    }
}

const THREADS: usize = 8;
/// Slot of the progress file: unit + 1 while shrinking.
const PHASE: usize = 100;
const SHRINK_LIMIT: f64 = 60.0;
/// No case takes more than a second or two; one that runs this long never ends.
const HANG_LIMIT: f64 = 150.0;
const STACK: usize = 4 << 20;

pub fn main(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(&props, &args[2]),
        Some("child") => child(&props, &args[2], &args[3]),
        Some("one") => one(&props, &args[2], &args[3], args[4].parse().unwrap()),
        Some("replay") => replay(&props, &args[2]),
        Some("list") => {
            for p in &props {
                println!("{} {:?}", p.id, p.units.iter().map(|u| (u.name, u.quick, u.thorough)).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property {id}");
        std::process::exit(2)
    })
}

/// Runs the search in a child so that an abort (stack overflow, abort()) is attributed to a case.
fn supervise(props: &[Prop], id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let p = find(props, id);
    let exe = std::env::current_exe().unwrap();
    let prog = format!("{}/.progress-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    let mut ch = std::process::Command::new(&exe).args(["child", id, &prog]).spawn().expect("spawn");
    let sh = Shared::open(&prog);
    let mut seen = [(0u64, 0u64, 0.0f64); THREADS];
    let mut shrink_since = None;
    let mut verdict = None;
    let st = loop {
        if let Some(st) = ch.try_wait().expect("wait") { break st; }
        std::thread::sleep(std::time::Duration::from_millis(50));
        let now = clock::real_now();
        if sh.get(PHASE) > 0 {
            let t0 = *shrink_since.get_or_insert(now);
            if now - t0 > SHRINK_LIMIT {
                let u = p.units[(sh.get(PHASE) - 1) as usize].name;
                println!("VIOLATION property={id} replay={}/replays/{id}-{u}.json", root());
                verdict = Some(1);
            }
        } else {
            for (t, s) in seen.iter_mut().enumerate() {
                let (u, i) = (sh.get(t * 2), sh.get(t * 2 + 1));
                if (s.0, s.1) != (u, i) { *s = (u, i, now); }
                if u > 0 && now - s.2 > HANG_LIMIT {
                    let unit = p.units[(u - 1) as usize].name;
                    let seed = env_u64("VERIF_SEED", 1);
                    let f = Fail { sig: "hang".into(), msg: format!("case {i} of {unit} (seed {seed}) did not end within {HANG_LIMIT} s") };
                    let path = write_replay(id, unit, &[], &f, &format!("{} one {id} {unit} {i}", exe.display()));
                    println!("{}", f.msg);
                    println!("VIOLATION property={id} replay={path}");
                    verdict = Some(1);
                    break;
                }
            }
        }
        if verdict.is_some() {
            let _ = ch.kill();
            break ch.wait().expect("wait");
        }
    };
    let code = match (st.code(), st.signal()) {
        _ if verdict.is_some() => verdict.unwrap(),
        (Some(c), _) => c,
        (None, Some(sig)) if sig == libc::SIGKILL || sig == libc::SIGTERM => {
            eprintln!("check {id}: search process ended by signal {sig} (resources), no verdict");
            3
        }
        (None, sig) => {
            let mut code = 3;
            for t in 0..THREADS {
                let (u, i) = (sh.get(t * 2), sh.get(t * 2 + 1));
                if u == 0 { continue; }
                let unit = &p.units[(u - 1) as usize];
                let s = std::process::Command::new(&exe).args(["one", id, unit.name, &i.to_string()]).status().expect("spawn");
                if s.signal().is_some() {
                    let seed = env_u64("VERIF_SEED", 1);
                    let f = Fail { sig: "abort".into(), msg: format!("process aborted with signal {:?} in case {i} of {} (seed {seed})", sig, unit.name) };
                    let path = write_replay(id, unit.name, &[], &f, &format!("{} one {id} {} {i}", exe.display(), unit.name));
                    println!("{}", f.msg);
                    println!("VIOLATION property={id} replay={path}");
                    code = 1;
                    break;
                }
            }
            if code != 1 { eprintln!("check {id}: search process died with signal {sig:?} and no single case reproduces it"); }
            code
        }
    };
    let _ = std::fs::remove_file(&prog);
    code
}

fn one(props: &[Prop], id: &str, unit: &str, i: u64) -> i32 {
    install_hook();
    let p = find(props, id);
    let u = p.units.iter().find(|u| u.name == unit).expect("unit");
    let seed = case_seed(env_u64("VERIF_SEED", 1), id, unit, i);
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || {
            let mut ctx = Ctx { verbose: true, ..Default::default() };
            let r = run_case(u, &mut Src::random(seed), &mut ctx);
            println!("{r:?}\n{}", ctx.case_desc.unwrap_or_default());
        }).unwrap();
    });
    0
}

fn replay(props: &[Prop], file: &str) -> i32 {
    install_hook();
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
    let p = find(props, j["property"].as_str().unwrap());
    let u = p.units.iter().find(|u| u.name == j["unit"].as_str().unwrap()).expect("unit");
    let choices: Vec<u64> = j["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
    let mut code = 0;
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || {
            let mut ctx = Ctx { verbose: true, ..Default::default() };
            let r = run_case(u, &mut Src::replay(choices), &mut ctx);
            println!("case: {}", ctx.case_desc.unwrap_or_default());
            match r {
                Ok(()) => println!("passes"),
                Err(f) => {
                    println!("FAILS sig={} {}", f.sig, f.msg);
                    code = 1;
                }
            }
        }).unwrap();
    });
    code
}

/// How often a quick run does the work its units name, so that it takes about half a minute.
fn boost(id: &str) -> u64 {
    match id {
        "C14" => 1,
        "C31" => 3,
        "C03" | "C07" | "C11" | "C25" | "C27" => 4,
        "C20" | "C24" | "C28" | "C18" => 5,
        "C02" | "C06" | "C13" | "C16" | "C17" | "C30" => 16,
        "C09" | "C21" | "C29" => 24,
        "C04" | "C10" | "C19" | "C26" | "C33" => 32,
        "C22" | "C23" | "C32" => 48,
        _ => 8,
    }
}

fn child(props: &[Prop], id: &str, prog: &str) -> i32 {
    install_hook();
    let p = find(props, id);
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let scale = env_u64("VERIF_SCALE", 100);
    let only = std::env::var("VERIF_UNIT").ok();
    // Fixed work; the deadline is only a safety net far beyond the normal run time.
    let deadline = env_u64("VERIF_DEADLINE", if tier == "quick" { 500 } else { 3 * 3600 }) as f64;
    let t0 = clock::real_now();
    let known = load_known(&root());
    let shared = Shared::open(prog);
    let mut evaluations = 0u64;
    let mut total = Ctx::default();
    let mut per_unit = serde_json::Map::new();
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut known_hits: BTreeMap<String, (String, u64)> = BTreeMap::new();
    let mut violation: Option<(String, Vec<u64>, Fail)> = None;
    let mut truncated = false;

    for (ui, u) in p.units.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != u.name) { continue; }
        let n = (if tier == "quick" { u.quick * boost(p.id) } else { u.thorough }).saturating_mul(scale) / 100;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let first_fail: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
        let merged: Mutex<(Ctx, u64, bool)> = Mutex::new((Ctx::default(), 0, false));
        let kh: Mutex<BTreeMap<String, (String, u64)>> = Mutex::new(BTreeMap::new());
        let tu = clock::real_now();
        std::thread::scope(|s| {
            for t in 0..THREADS {
                let (next, stop, first_fail, merged, kh, known, shared) = (&next, &stop, &first_fail, &merged, &kh, &known, &shared);
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                    let mut ctx = Ctx::default();
                    let mut count = 0u64;
                    let mut late = false;
                    let chunk = 16u64.min((n / (THREADS as u64 * 4)).max(1));
                    'outer: loop {
                        let base = next.fetch_add(chunk, Ordering::Relaxed);
                        if base >= n { break; }
                        for i in base..(base + chunk).min(n) {
                            if stop.load(Ordering::Relaxed) { break 'outer; }
                            if clock::real_now() - t0 > deadline { late = true; break 'outer; }
                            shared.set(t * 2 + 1, i);
                            shared.set(t * 2, ui as u64 + 1);
                            let mut src = Src::random(case_seed(seed, p.id, u.name, i));
                            let r = run_case(u, &mut src, &mut ctx);
                            count += 1;
                            ctx.end(u.name);
                            if let Err(f) = r {
                                if let Some(k) = known.iter().find(|k| k.prop == p.id && k.sig == f.sig) {
                                    kh.lock().unwrap().entry(k.sig.clone()).or_insert((k.what.clone(), 0)).1 += 1;
                                    continue;
                                }
                                let mut ff = first_fail.lock().unwrap();
                                if ff.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                    *ff = Some((i, src.choices.clone(), f));
                                }
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    shared.set(t * 2, 0);
                    let mut m = merged.lock().unwrap();
                    m.1 += count;
                    m.2 |= late;
                    m.0.nontrivial.extend(ctx.nontrivial);
                    for (k, v) in ctx.labels { *m.0.labels.entry(k).or_insert(0) += v; }
                    m.0.samples.extend(ctx.samples);
                }).unwrap();
            }
        });
        let (c, count, late) = merged.into_inner().unwrap();
        truncated |= late;
        evaluations += count;
        let nt = c.nontrivial.len();
        for h in &c.nontrivial {
            total.nontrivial.insert(h ^ hash_str(u.name));
        }
        let classes: serde_json::Map<String, serde_json::Value> = c.labels.iter()
            .map(|(k, v)| (k.split_once('/').map(|x| x.1).unwrap_or(k).to_string(), (*v).into())).collect();
        per_unit.insert(u.name.into(), serde_json::json!({"cases": count, "distinct_nontrivial": nt, "classes": classes,
            "wall_s": ((clock::real_now() - tu) * 100.0).round() / 100.0}));
        let mut ss = c.samples;
        ss.sort_by_key(|(_, d)| hash_str(d));
        for (un, d) in ss.into_iter().take(3) {
            samples.push(serde_json::json!({"unit": un, "case": clip(&d, 700)}));
        }
        for (k, v) in kh.into_inner().unwrap() {
            known_hits.entry(k).or_insert((v.0, 0)).1 += v.1;
        }
        if let Some((_, choices, f)) = first_fail.into_inner().unwrap() {
            // the supervisor reports the unshrunk case should shrinking not come to an end
            write_replay(id, u.name, &choices, &f, "(not shrunk)");
            println!("unit {}: before shrinking: [{}] {}", u.name, f.sig, clip(&f.msg, 1500));
            shared.set(PHASE, ui as u64 + 1);
            // shrink on a thread with the same stack size
            let (ch, f) = std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || shrink(u, choices, f)).unwrap().join().unwrap()
            });
            violation = Some((u.name.to_string(), ch, f));
            break;
        }
    }
    for (sig, (what, n)) in &known_hits {
        println!("KNOWN-FINDING: property={id} {what} [{sig}; {n} cases]");
    }
    let wall = clock::real_now() - t0;
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": total.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "units": per_unit,
            "truncated_by_deadline": truncated,
            "known_finding_cases": known_hits.iter().map(|(k, v)| (k.clone(), v.1.into())).collect::<serde_json::Map<String, serde_json::Value>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!("{id} {tier} seed={seed}: {evaluations} cases, {} distinct non-trivial, {:.1}s", total.nontrivial.len(), wall);
    if let Some((unit, choices, f)) = violation {
        let u = p.units.iter().find(|u| u.name == unit).unwrap();
        let desc = std::thread::scope(|s| {
            let ch = choices.clone();
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || describe(u, &ch)).unwrap().join().unwrap()
        });
        let path = write_replay(id, &unit, &choices, &f, &desc);
        println!("unit {unit}: [{}] {}", f.sig, f.msg);
        println!("case: {}", clip(&desc, 4000));
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    0
}

pub type FailMsg = Fail;
