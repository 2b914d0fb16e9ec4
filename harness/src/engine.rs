//! Choice-tape property engine: deterministic generation, integrated
//! shrinking, replay files, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub sig: String,
    pub detail: String,
}

pub type CaseResult = Result<(), Failure>;

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Failure> {
    Err(Failure {
        sig: sig.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr) => {
        if !($cond) {
            return $crate::engine::fail($sig, String::new());
        }
    };
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

/// One test case: the source of choices plus what the case reports.
pub struct Case {
    tape: Vec<u64>,
    pos: usize,
    replay: bool,
    guided: bool,
    state: u64,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub thorough: bool,
    pub key: u64,
    pub want_sample: bool,
}

impl Case {
    pub fn random(seed: u64, thorough: bool) -> Case {
        Case {
            tape: Vec::new(),
            pos: 0,
            replay: false,
            guided: false,
            state: seed,
            labels: Vec::new(),
            nontrivial: false,
            sample: None,
            thorough,
            key: 0,
            want_sample: false,
        }
    }
    pub fn replay(tape: Vec<u64>, thorough: bool) -> Case {
        let mut c = Case::random(0, thorough);
        c.tape = tape;
        c.replay = true;
        c.want_sample = true;
        c
    }
    /// Follows the tape as far as it goes, then chooses at random.
    pub fn guided(tape: Vec<u64>, seed: u64, thorough: bool) -> Case {
        let mut c = Case::random(seed, thorough);
        c.tape = tape;
        c.guided = true;
        c
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n >= 1). 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.replay {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            let v = if v >= n { v % n } else { v };
            return v;
        }
        if self.guided && self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            let v = if v >= n { v % n } else { v };
            self.tape[self.pos] = v;
            self.pos += 1;
            return v;
        }
        let r = self.raw();
        let v = ((r as u128 * n as u128) >> 64) as u64;
        self.tape.push(v);
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        if self.replay {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            return v;
        }
        if self.guided && self.pos < self.tape.len() {
            self.pos += 1;
            return self.tape[self.pos - 1];
        }
        let v = self.raw();
        self.tape.push(v);
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range, lo simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simple outcome
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.usize(xs.len());
        xs[i].clone()
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        0
    }
    pub fn vec(&mut self, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len);
        while v.len() < len {
            if len - v.len() >= 8 && len > 24 {
                let x = self.u64();
                v.extend_from_slice(&x.to_le_bytes());
            } else {
                v.push(self.byte());
            }
        }
        v
    }
    /// Long content from one choice (seed 0 => all zero).
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let s = self.below(1 << 32);
        expand(s, len)
    }
    /// A length biased to boundaries.
    pub fn len_biased(&mut self, max: usize) -> usize {
        match self.weighted(&[3, 3, 3, 1]) {
            0 => self.range(0, max.min(8)),
            1 => self.range(0, max.min(80)),
            2 => self.range(0, max),
            _ => max - self.usize(max.min(4) + 1),
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn taken(&self) -> &[u64] {
        if self.replay {
            &self.tape
        } else {
            &self.tape[..self.pos]
        }
    }
    /// Where the choices stand, for `span`.
    pub fn mark(&self) -> usize {
        self.pos
    }
    /// A case that makes the choices made since `mark` again.
    pub fn span(&self, mark: usize) -> Case {
        let t: Vec<u64> = (mark..self.pos)
            .map(|i| self.tape.get(i).copied().unwrap_or(0))
            .collect();
        Case::replay(t, self.thorough)
    }
}

pub fn expand(seed: u64, len: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; len];
    }
    let mut v = Vec::with_capacity(len + 8);
    let mut i = 0u64;
    while v.len() < len {
        v.extend_from_slice(&mix(seed, i).to_le_bytes());
        i += 1;
    }
    v.truncate(len);
    v
}

pub type CaseFn = fn(&mut Case) -> CaseResult;

pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("PBT_TRACE").is_some() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/repo/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_else(|| "?".into());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn run_one(f: CaseFn, c: &mut Case) -> CaseResult {
    crate::toy::reset();
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| f(c)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            let file = loc.rsplitn(2, ':').last().unwrap_or("?").to_string();
            let short: String = msg
                .chars()
                .map(|ch| {
                    if ch.is_ascii_digit() {
                        '#'
                    } else if ch == '\n' {
                        ' '
                    } else {
                        ch
                    }
                })
                .take(100)
                .collect();
            let mut m = String::new();
            for ch in short.chars() {
                if ch == '#' && m.ends_with('#') {
                    continue;
                }
                m.push(ch);
            }
            fail(
                format!("panic@{}: {}", file, m),
                format!("panicked at {}: {}", loc, msg),
            )
        }
    }
}

/// Shrink a failing tape; any failure with the same signature counts.
pub fn shrink(
    f: CaseFn,
    tape: Vec<u64>,
    sig: &str,
    thorough: bool,
    budget_ms: u128,
) -> (Vec<u64>, String) {
    let t0 = std::time::Instant::now();
    let mut best = tape;
    let mut detail = String::new();
    let try_ = |t: &Vec<u64>| -> Option<String> {
        let mut c = Case::replay(t.clone(), thorough);
        match run_one(f, &mut c) {
            Err(e) if e.sig == sig => Some(e.detail),
            _ => None,
        }
    };
    let mut improved = true;
    while improved && t0.elapsed().as_millis() < budget_ms {
        improved = false;
        // drop trailing
        let mut k = best.len();
        while k > 0 {
            let cut = best[..best.len() - k.min(best.len())].to_vec();
            if cut.len() < best.len() {
                if let Some(d) = try_(&cut) {
                    best = cut;
                    detail = d;
                    improved = true;
                    k = best.len();
                    continue;
                }
            }
            k /= 2;
            if t0.elapsed().as_millis() > budget_ms {
                break;
            }
        }
        // delete chunks
        for size in [64usize, 16, 8, 4, 2, 1].iter() {
            let mut i = 0;
            while i + size <= best.len() {
                if t0.elapsed().as_millis() > budget_ms {
                    break;
                }
                let mut t = best.clone();
                t.drain(i..i + size);
                if let Some(d) = try_(&t) {
                    best = t;
                    detail = d;
                    improved = true;
                } else {
                    i += size.max(&1);
                }
            }
        }
        // zero / lower
        for i in 0..best.len() {
            if t0.elapsed().as_millis() > budget_ms {
                break;
            }
            if best[i] == 0 {
                continue;
            }
            let mut t = best.clone();
            t[i] = 0;
            if let Some(d) = try_(&t) {
                best = t;
                detail = d;
                improved = true;
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while hi - lo > 1 && t0.elapsed().as_millis() < budget_ms {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if let Some(d) = try_(&t) {
                    hi = mid;
                    best = t;
                    detail = d;
                    improved = true;
                } else {
                    lo = mid;
                }
            }
        }
    }
    if detail.is_empty() {
        if let Some(d) = try_(&best) {
            detail = d;
        }
    }
    (best, detail)
}

pub struct SubStats {
    pub name: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<(u64, Vec<u64>, Failure)>,
    pub wall: f64,
}

/// Which case a thread is working on, visible to the supervisor after a crash.
pub struct Progress {
    file: Option<std::fs::File>,
    path: Option<String>,
}
impl Progress {
    pub fn open(path: Option<&str>) -> Progress {
        Progress {
            file: path.and_then(|p| {
                std::fs::OpenOptions::new()
                    .create(true)
                    .write(true)
                    .open(p)
                    .ok()
            }),
            path: path.map(|p| p.to_string()),
        }
    }
    /// The choices a guided case starts from, which its number alone does
    /// not give.
    fn tape(&self, thread: usize, tape: &[u64]) {
        if let (true, Some(p)) = (cfg!(feature = "cov"), &self.path) {
            let mut b = Vec::with_capacity(tape.len() * 8);
            for x in tape {
                b.extend_from_slice(&x.to_le_bytes());
            }
            let _ = std::fs::write(format!("{}.t{}", p, thread), b);
        }
    }
    pub fn tape_of(path: &str, thread: usize) -> Vec<u64> {
        std::fs::read(format!("{}.t{}", path, thread))
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|c| {
                let mut d = [0u8; 8];
                d.copy_from_slice(c);
                u64::from_le_bytes(d)
            })
            .collect()
    }
    fn set(&self, thread: usize, sub: u64, idx: u64) {
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&sub.to_le_bytes());
            b[8..].copy_from_slice(&(idx + 1).to_le_bytes());
            let _ = f.write_at(&b, thread as u64 * 16);
        }
    }
}

/// Coverage guidance: which edges of the code under test a case reached, in
/// builds that have it compiled in (variant `cov`, thorough tier).
pub mod cov {
    #[cfg(feature = "cov")]
    mod imp {
        use std::cell::{Cell, UnsafeCell};
        use std::sync::atomic::{AtomicU32, AtomicU8, Ordering};
        use std::sync::Mutex;
        const N: usize = 1 << 16;
        struct Map(UnsafeCell<[u8; N]>);
        thread_local! {
            static ON: Cell<bool> = Cell::new(false);
            static MAP: Map = Map(UnsafeCell::new([0; N]));
        }
        static NEXT: AtomicU32 = AtomicU32::new(1);
        // hit-count buckets seen at each edge
        static SEEN: [AtomicU8; N] = {
            const Z: AtomicU8 = AtomicU8::new(0);
            [Z; N]
        };
        static CORPUS: Mutex<Vec<Vec<u64>>> = Mutex::new(Vec::new());
        #[no_mangle]
        pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
            if a == b || *a != 0 {
                return;
            }
            while a < b {
                *a = NEXT.fetch_add(1, Ordering::Relaxed);
                a = a.add(1);
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
            let i = *g as usize % N;
            let _ = ON.try_with(|on| {
                if on.get() {
                    let _ = MAP.try_with(|m| {
                        let p = &mut (*m.0.get())[i];
                        *p = p.saturating_add(1);
                    });
                }
            });
        }
        pub fn reset() {
            CORPUS.lock().unwrap().clear();
            for x in SEEN.iter() {
                x.store(0, Ordering::Relaxed);
            }
        }
        pub fn size() -> (usize, usize) {
            let e = SEEN
                .iter()
                .filter(|x| x.load(Ordering::Relaxed) != 0)
                .count();
            (CORPUS.lock().unwrap().len(), e)
        }
        pub struct Guide {
            r: super::super::Case,
        }
        impl Guide {
            pub fn new(seed: u64) -> Guide {
                Guide {
                    r: super::super::Case::random(seed, false),
                }
            }
            /// A changed corpus tape three times out of four.
            pub fn next(&mut self) -> Option<Vec<u64>> {
                self.r.tape.clear();
                self.r.pos = 0;
                if !self.r.chance(3, 4) {
                    return None;
                }
                let (mut t, o) = {
                    let k = CORPUS.lock().unwrap();
                    if k.is_empty() {
                        return None;
                    }
                    // recent finds more often
                    let n = k.len();
                    let i = if self.r.bool() {
                        self.r.usize(n)
                    } else {
                        n - 1 - self.r.usize(n.min(16))
                    };
                    let j = self.r.usize(n);
                    (k[i].clone(), k[j].clone())
                };
                for _ in 0..self.r.range(1, 4) {
                    let n = t.len();
                    if n == 0 {
                        break;
                    }
                    let i = self.r.usize(n);
                    match self.r.below(8) {
                        0 | 1 => t[i] = self.r.u64(),
                        2 => t[i] = self.r.below(8),
                        3 => t[i] = t[i].wrapping_add(1),
                        4 => {
                            let k = self.r.usize(8.min(n - i)) + 1;
                            t.drain(i..i + k.min(n - i));
                        }
                        5 => {
                            let k = (self.r.usize(12) + 1).min(n - i);
                            let x = t[i..i + k].to_vec();
                            t.splice(i..i, x);
                        }
                        6 => t.truncate(i),
                        _ => {
                            if !o.is_empty() {
                                let a = self.r.usize(o.len());
                                t.truncate(i);
                                t.extend_from_slice(&o[a..]);
                            }
                        }
                    }
                }
                t.truncate(1 << 16);
                Some(t)
            }
            pub fn start(&mut self) {
                MAP.with(|m| unsafe { (*m.0.get()).fill(0) });
                ON.with(|o| o.set(true));
            }
            pub fn done(&mut self, tape: &[u64]) {
                ON.with(|o| o.set(false));
                let mut new = false;
                MAP.with(|m| {
                    let m = unsafe { &*m.0.get() };
                    for (i, x) in m.iter().enumerate() {
                        if *x == 0 {
                            continue;
                        }
                        let b = 1u8
                            << match *x {
                                1 => 0,
                                2 => 1,
                                3 => 2,
                                4..=7 => 3,
                                8..=15 => 4,
                                16..=31 => 5,
                                32..=127 => 6,
                                _ => 7,
                            };
                        if SEEN[i].load(Ordering::Relaxed) & b == 0
                            && SEEN[i].fetch_or(b, Ordering::Relaxed) & b == 0
                        {
                            new = true;
                        }
                    }
                });
                if new {
                    CORPUS.lock().unwrap().push(tape.to_vec());
                }
            }
        }
    }
    #[cfg(not(feature = "cov"))]
    mod imp {
        pub struct Guide;
        impl Guide {
            pub fn new(_seed: u64) -> Guide {
                Guide
            }
            pub fn next(&mut self) -> Option<Vec<u64>> {
                None
            }
            pub fn start(&mut self) {}
            pub fn done(&mut self, _tape: &[u64]) {}
        }
        pub fn reset() {}
        pub fn size() -> (usize, usize) {
            (0, 0)
        }
    }
    pub use imp::*;
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(
        mix(seed, fnv(prop.as_bytes())),
        mix(fnv(sub.as_bytes()), idx),
    )
}

pub fn run_sub(
    prop: &Prop,
    sub_no: usize,
    seed: u64,
    thorough: bool,
    count: u64,
    known: &dyn Fn(&str) -> bool,
    progress: &Progress,
    threads: usize,
    deadline: std::time::Instant,
) -> SubStats {
    let sub = &prop.subs[sub_no];
    cov::reset();
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let best: Mutex<Option<(u64, Vec<u64>, Failure)>> = Mutex::new(None);
    let agg: Mutex<(
        u64,
        HashSet<u64>,
        BTreeMap<&'static str, u64>,
        Vec<(u64, String)>,
        BTreeMap<String, u64>,
    )> = Mutex::new((
        0,
        HashSet::new(),
        BTreeMap::new(),
        Vec::new(),
        BTreeMap::new(),
    ));
    struct Sync2<'a>(&'a dyn Fn(&str) -> bool);
    unsafe impl<'a> Sync for Sync2<'a> {}
    unsafe impl<'a> Send for Sync2<'a> {}
    let known = Sync2(known);
    std::thread::scope(|s| {
        for t in 0..threads {
            let next = &next;
            let stop = &stop;
            let best = &best;
            let agg = &agg;
            let known = &known;
            let f = sub.f;
            std::thread::Builder::new()
                .stack_size(48 << 20)
                .spawn_scoped(s, move || {
                    let mut evals = 0;
                    let mut nts: HashSet<u64> = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples: Vec<(u64, String)> = Vec::new();
                    let mut kn: BTreeMap<String, u64> = BTreeMap::new();
                    let mut guide = cov::Guide::new(mix(seed, t as u64));
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= count
                            || stop.load(Ordering::SeqCst)
                            || std::time::Instant::now() > deadline
                        {
                            break;
                        }
                        progress.set(t, sub_no as u64, i);
                        let s = case_seed(seed, prop.id, sub.name, i);
                        let mut c = match guide.next() {
                            Some(tape) => {
                                progress.tape(t, &tape);
                                Case::guided(tape, s, thorough)
                            }
                            None => {
                                progress.tape(t, &[]);
                                Case::random(s, thorough)
                            }
                        };
                        c.want_sample = samples.len() < 3;
                        guide.start();
                        let r = run_one(f, &mut c);
                        c.tape.truncate(c.pos);
                        guide.done(&c.tape);
                        evals += 1;
                        for l in &c.labels {
                            *labels.entry(l).or_insert(0) += 1;
                        }
                        if c.nontrivial {
                            let mut b = Vec::with_capacity(c.tape.len() * 8);
                            for x in &c.tape {
                                b.extend_from_slice(&x.to_le_bytes());
                            }
                            nts.insert(fnv(&b));
                            if let Some(s) = c.sample.take() {
                                if samples.len() < 3 {
                                    samples.push((i, s));
                                }
                            }
                        }
                        if let Err(e) = r {
                            if (known.0)(&e.sig) {
                                *kn.entry(e.sig).or_insert(0) += 1;
                            } else {
                                let mut b = best.lock().unwrap();
                                let better = match &*b {
                                    None => true,
                                    Some((j, _, _)) => i < *j,
                                };
                                if better {
                                    *b = Some((i, c.tape.clone(), e));
                                }
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    let mut a = agg.lock().unwrap();
                    a.0 += evals;
                    a.1.extend(nts);
                    for (k, v) in labels {
                        *a.2.entry(k).or_insert(0) += v;
                    }
                    a.3.extend(samples);
                    for (k, v) in kn {
                        *a.4.entry(k).or_insert(0) += v;
                    }
                    progress.set(t, u64::MAX, 0);
                })
                .unwrap();
        }
    });
    let (evals, nts, labels, mut samples, kn) = agg.into_inner().unwrap();
    samples.sort();
    SubStats {
        name: sub.name.to_string(),
        evals,
        nontrivial: nts.len() as u64,
        labels,
        samples: samples.into_iter().take(3).map(|x| x.1).collect(),
        known: kn,
        failure: best.into_inner().unwrap(),
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
