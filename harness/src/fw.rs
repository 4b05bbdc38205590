//! Workload runner: sections, per-case seeds, panics as observations, counters.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng {
    s: u64,
    pub trace: u64,
    draws: u64,
    /// the last values drawn from a range: now and then one comes again, so that inputs coincide
    last: [f64; 4],
    /// (number of the draw to change, its replacement's salt)
    twist: (u64, u64),
}
#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix(seed ^ 0x5ca1ab1e), trace: 0, draws: 0, last: [0.0; 4], twist: (0, 0) }
    }
    /// the same stream with one draw replaced: inputs equal to another case's in all but one choice
    fn twisted(seed: u64, at: u64, salt: u64) -> Self {
        Rng { twist: (at, salt), ..Rng::new(seed) }
    }
    #[inline]
    pub fn raw(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        self.draws += 1;
        if self.draws == self.twist.0 {
            return mix(self.s ^ self.twist.1);
        }
        mix(self.s)
    }
    /// fold a generated value into the case's identity
    #[inline]
    pub fn fold(&mut self, v: u64) {
        self.trace = mix(self.trace ^ v.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(1));
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        let v = ((self.raw() as u128 * n as u128) >> 64) as u64;
        self.fold(v);
        v
    }
    #[inline]
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    #[inline]
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    #[inline]
    pub fn unit(&mut self) -> f64 {
        let v = (self.raw() >> 11) as f64 / (1u64 << 53) as f64;
        self.fold(v.to_bits());
        v
    }
    /// uniform in [lo, hi], now and then an end point, zero, an integer or a simple fraction, or plus or
    /// minus a value drawn before
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        let r = self.raw();
        let v = lo + (hi - lo) * ((r >> 11) as f64 / (1u64 << 53) as f64);
        let v = self.special(r & 0x7ff, v, lo, hi);
        self.last[(r >> 60) as usize & 3] = v;
        self.fold(v.to_bits());
        v
    }
    fn special(&self, bits: u64, v: f64, lo: f64, hi: f64) -> f64 {
        if bits & 7 != 0 {
            return v;
        }
        let w = match bits >> 3 {
            0..=7 => 0.0,
            8..=11 => lo,
            12..=15 => hi,
            16..=31 => v.round(),
            32..=39 => (v * 4.0).round() / 4.0,
            40..=55 => self.last[bits as usize >> 3 & 3],
            56..=71 => -self.last[bits as usize >> 3 & 3],
            72..=79 => v.signum(),
            _ => v,
        };
        if w >= lo && w <= hi && w.is_finite() {
            w
        } else {
            v
        }
    }
    #[inline]
    pub fn sign(&mut self) -> f64 {
        if self.raw() & 1 == 0 {
            self.fold(7);
            1.0
        } else {
            self.fold(8);
            -1.0
        }
    }
    /// log-uniform in [lo, hi], now and then a power of two, an integer or a value drawn before
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        let r = self.raw();
        let u = (r >> 11) as f64 / (1u64 << 53) as f64;
        let v = (lo.ln() + (hi.ln() - lo.ln()) * u).exp().clamp(lo, hi);
        let w = match r & 0x3f {
            0 => v.log2().round().exp2(),
            1 => v.round(),
            2 => self.last[(r >> 6) as usize & 3].abs(),
            3 => 1.0,
            _ => v,
        };
        let v = if w >= lo && w <= hi { w } else { v };
        self.last[(r >> 60) as usize & 3] = v;
        self.fold(v.to_bits());
        v
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.us(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.us(i + 1);
            xs.swap(i, j);
        }
    }
}

pub struct Fail {
    pub section: &'static str,
    pub index: u64,
    pub key: String,
    pub msg: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub index: u64,
    pub section: &'static str,
    pub decided: u64,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub undecided: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub fails: Vec<Fail>,
}
impl Ctx {
    /// a decided observation of kind `name`
    #[inline]
    pub fn ev(&mut self, name: &'static str) {
        self.decided += 1;
        *self.counters.entry(name).or_insert(0) += 1;
    }
    #[inline]
    pub fn evn(&mut self, name: &'static str, n: u64) {
        self.decided += n;
        *self.counters.entry(name).or_insert(0) += n;
    }
    #[inline]
    pub fn und(&mut self, name: &'static str) {
        *self.undecided.entry(name).or_insert(0) += 1;
    }
    pub fn fail(&mut self, key: &str, msg: String) {
        if self.fails.len() < 20 {
            self.fails.push(Fail { section: self.section, index: self.index, key: key.to_string(), msg });
        }
    }
    /// observation plus verdict
    #[inline]
    pub fn check(&mut self, name: &'static str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.ev(name);
        if !ok {
            let m = msg();
            self.fail(name, m);
        }
        ok
    }
    /// a listed, recorded defect was observed (see known_findings.json)
    pub fn known(&mut self, key: &'static str, msg: impl FnOnce() -> String) {
        let e = self.known.entry(key).or_insert_with(|| (0, String::new()));
        if e.0 == 0 {
            e.1 = msg();
        }
        e.0 += 1;
    }
    #[inline]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub struct Section {
    pub name: &'static str,
    pub rule: &'static str,
    /// cases in the quick tier / thorough tier (per profile)
    pub quick: u64,
    pub thorough: u64,
    /// the case index enumerates a finite space of this size completely
    pub exhaustive: bool,
    /// events that must have been observed for the run to mean anything
    pub need: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

#[derive(Default)]
pub struct SectionReport {
    pub name: &'static str,
    pub rule: &'static str,
    pub exhaustive: bool,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub distinct_capped: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub undecided: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub missing: Vec<&'static str>,
    pub wall: f64,
    /// the time budget ended the section before all its cases were drawn
    pub cut: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub static HARNESS_ERROR: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
/// Some(value) or None if the library panicked
pub fn try_call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (l, m) = last_panic();
            Err(format!("panicked at {l}: {m}"))
        }
    }
}

fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

pub fn case_seed(seed: u64, section: &str, index: u64) -> u64 {
    let mut h = mix(seed.wrapping_add(0x1234567));
    for b in section.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(index.wrapping_add(99)))
}

pub struct Opts<'a> {
    pub seed: u64,
    pub threads: usize,
    /// run this one case
    pub only: Option<u64>,
    pub crumbs: Option<&'a Crumbs>,
    pub section_no: u64,
    /// a case that takes longer than this (seconds) is reported as stuck; 0 = never
    pub stuck_after: f64,
    /// another property's workload, watched for panics, aborts and hangs but not judged
    pub panics_only: bool,
    /// stop drawing cases (of sections that are not exhaustive) after this many seconds
    pub budget: f64,
}

/// (section, case) each thread is in, in a file mapped into memory: it survives the process
pub struct Crumbs {
    at: *mut u64,
    threads: usize,
}
unsafe impl Sync for Crumbs {}
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
impl Crumbs {
    pub fn new(path: &str, threads: usize) -> Option<Crumbs> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(path).ok()?;
        f.set_len(threads as u64 * 16).ok()?;
        // PROT_READ|PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), threads * 16, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return None;
        }
        Some(Crumbs { at: p as *mut u64, threads })
    }
    /// section + 1 (0: idle), case
    #[inline]
    fn put(&self, thread: usize, section: u64, case: u64) {
        if thread < self.threads {
            unsafe {
                self.at.add(2 * thread + 1).write_volatile(case);
                self.at.add(2 * thread).write_volatile(section);
            }
        }
    }
}

pub fn run_section(s: &Section, n: u64, o: &Opts) -> SectionReport {
    let Opts { seed, threads, only, crumbs, section_no, stuck_after, panics_only, budget } = *o;
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let nfail = AtomicU64::new(0);
    const CAP: usize = 400_000;
    let chunk: u64 = (n / (threads as u64 * 64)).clamp(1, 4096);
    let global: Mutex<SectionReport> = Mutex::new(SectionReport { name: s.name, rule: s.rule, exhaustive: s.exhaustive && n == s.thorough, ..Default::default() });
    let hashes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    // per thread: (cases begun, current index); the watchdog looks for a case that never ends
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let running = AtomicU64::new(threads as u64);
    std::thread::scope(|sc| {
        if stuck_after > 0.0 && !cfg!(miri) {
            let (slots, running) = (&slots, &running);
            sc.spawn(move || {
                let mut seen: Vec<(u64, std::time::Instant)> = slots.iter().map(|_| (0, std::time::Instant::now())).collect();
                while running.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    for (k, sl) in slots.iter().enumerate() {
                        let c = sl.0.load(Ordering::Relaxed);
                        if c != seen[k].0 {
                            seen[k] = (c, std::time::Instant::now());
                        } else if c != 0 && c != u64::MAX && seen[k].1.elapsed().as_secs_f64() > stuck_after {
                            println!("STUCK {} {}", s.name, sl.1.load(Ordering::Relaxed));
                            std::process::exit(7);
                        }
                    }
                }
            });
        }
        for th in 0..threads {
            let (slots, running) = (&slots, &running);
            let (next, stop, nfail, global, hashes) = (&next, &stop, &nfail, &global, &hashes);
            sc.spawn(move || {
                let mut rep = SectionReport::default();
                let mut local: HashSet<u64> = HashSet::new();
                let mut capped = false;
                let mut cx = Ctx {
                    rng: Rng::new(0),
                    index: 0,
                    section: s.name,
                    decided: 0,
                    want_sample: false,
                    sample: None,
                    counters: BTreeMap::new(),
                    undecided: BTreeMap::new(),
                    known: BTreeMap::new(),
                    fails: vec![],
                };
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if !s.exhaustive && t0.elapsed().as_secs_f64() > budget {
                        rep.cut = true;
                        break;
                    }
                    let start = next.fetch_add(chunk, Ordering::Relaxed);
                    if start >= n {
                        break;
                    }
                    for i in start..(start + chunk).min(n) {
                        let idx = only.unwrap_or(i);
                        let cs = case_seed(seed, s.name, idx);
                        cx.rng = Rng::new(cs);
                        cx.index = idx;
                        cx.decided = 0;
                        cx.want_sample = idx < 2 || only.is_some();
                        cx.sample = None;
                        slots[th].1.store(idx, Ordering::Relaxed);
                        slots[th].0.fetch_add(1, Ordering::Relaxed);
                        if let Some(c) = crumbs {
                            c.put(th, section_no + 1, idx);
                        }
                        let before = cx.fails.len();
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            (s.run)(&mut cx);
                            // every fourth case is followed, in the same thread, by near copies of itself that differ
                            // in one random choice: results kept from an earlier call under too coarse a key show here
                            let (n, trace) = (cx.rng.draws, cx.rng.trace);
                            if !s.exhaustive && n > 0 && cs & 3 == 0 {
                                for k in 0..2 {
                                    let h = mix(cs ^ (0x7715 + k));
                                    cx.rng = Rng::twisted(cs, 1 + h % n, mix(h) | 1);
                                    (s.run)(&mut cx);
                                    *cx.counters.entry("near-copy").or_insert(0) += 1;
                                }
                                cx.rng.trace = trace;
                            }
                        }));
                        if r.is_err() {
                            let (loc, msg) = last_panic();
                            if is_harness_loc(&loc) {
                                *HARNESS_ERROR.lock().unwrap() = Some(format!("{} case {}: harness panic at {}: {}", s.name, idx, loc, msg));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            cx.decided += 1;
                            cx.fail("panic", format!("library panicked on a valid input at {loc}: {msg}"));
                        }
                        if panics_only {
                            cx.fails.retain(|f| f.key == "panic");
                            cx.known.clear();
                            cx.undecided.clear();
                        }
                        rep.evaluations += 1;
                        if cx.decided > 0 {
                            rep.nontrivial += 1;
                            if local.len() < CAP / threads {
                                let h = if s.exhaustive { mix(idx + 1) } else { cx.rng.trace };
                                local.insert(h);
                            } else {
                                capped = true;
                            }
                        }
                        if let Some(x) = cx.sample.take() {
                            rep.samples.push(x);
                        }
                        if cx.fails.len() > before {
                            let k = nfail.fetch_add((cx.fails.len() - before) as u64, Ordering::Relaxed);
                            if k > 40 {
                                stop.store(true, Ordering::Relaxed);
                            }
                            if cx.fails.len() > 40 {
                                rep.fails.append(&mut cx.fails);
                                stop.store(true, Ordering::Relaxed);
                            }
                            rep.fails.append(&mut cx.fails);
                        }
                    }
                }
                slots[th].0.store(u64::MAX, Ordering::Relaxed);
                if let Some(c) = crumbs {
                    c.put(th, 0, 0);
                }
                running.fetch_sub(1, Ordering::Relaxed);
                rep.fails.append(&mut cx.fails);
                let mut g = global.lock().unwrap();
                g.evaluations += rep.evaluations;
                g.nontrivial += rep.nontrivial;
                g.cut |= rep.cut;
                g.distinct_capped |= capped;
                if panics_only {
                    let n = cx.counters.values().sum();
                    cx.counters = BTreeMap::from([("swept-observations", n)]);
                }
                for (k, v) in cx.counters {
                    *g.counters.entry(k).or_insert(0) += v;
                }
                for (k, v) in cx.undecided {
                    *g.undecided.entry(k).or_insert(0) += v;
                }
                for (k, v) in cx.known {
                    let e = g.known.entry(k).or_insert((0, v.1));
                    e.0 += v.0;
                }
                g.samples.append(&mut rep.samples);
                g.fails.append(&mut rep.fails);
                drop(g);
                hashes.lock().unwrap().extend(local);
            });
        }
    });
    let mut g = global.into_inner().unwrap();
    g.distinct = hashes.into_inner().unwrap().len() as u64;
    g.wall = t0.elapsed().as_secs_f64();
    g.fails.sort_by_key(|f| f.index);
    if only.is_none() {
        for e in s.need {
            if !g.counters.contains_key(e) {
                g.missing.push(e);
            }
        }
    }
    g
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
pub fn to_json(reps: &[SectionReport]) -> String {
    let mut out = vec![];
    for r in reps {
        let fails: Vec<String> = r
            .fails
            .iter()
            .take(10)
            .map(|f| format!("{{\"section\":{},\"index\":{},\"key\":{},\"msg\":{}}}", esc(f.section), f.index, esc(&f.key), esc(&f.msg)))
            .collect();
        let samples: Vec<String> = r.samples.iter().take(2).map(|s| esc(s)).collect();
        let known: Vec<String> = r.known.iter().map(|(k, v)| format!("{}:{{\"count\":{},\"example\":{}}}", esc(k), v.0, esc(&v.1))).collect();
        let missing: Vec<String> = r.missing.iter().map(|s| esc(s)).collect();
        out.push(format!(
            "{{\"name\":{},\"rule\":{},\"exhaustive\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"distinct_capped\":{},\"observed\":{},\"undecided\":{},\"known\":{{{}}},\"missing\":[{}],\"samples\":[{}],\"fails\":[{}],\"nfails\":{},\"cut\":{},\"wall\":{:.3}}}",
            esc(r.name), esc(r.rule), r.exhaustive, r.evaluations, r.nontrivial, r.distinct, r.distinct_capped, jmap(&r.counters), jmap(&r.undecided),
            known.join(","), missing.join(","), samples.join(","), fails.join(","), r.fails.len(), r.cut, r.wall
        ));
    }
    let he = HARNESS_ERROR.lock().unwrap().clone();
    format!("{{\"sections\":[{}],\"harness_error\":{}}}", out.join(",\n"), he.map(|s| esc(&s)).unwrap_or("null".into()))
}
