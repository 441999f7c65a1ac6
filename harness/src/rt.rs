//! Monitoring runtime: coverage and compare callbacks, counting allocator, guarded input buffers,
//! crash-isolated worker processes, evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub use crate::rng::{hash64, Rng};

// ---------------------------------------------------------------- coverage monitor
const MAXG: usize = 1 << 17;
#[allow(clippy::declare_interior_mutable_const)]
const Z8: AtomicU8 = AtomicU8::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z32: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z64: AtomicU64 = AtomicU64::new(0);
static COV: [AtomicU8; MAXG] = [Z8; MAXG];
static SEEN: [AtomicU8; MAXG] = [Z8; MAXG];
static TOUCH: [AtomicU32; MAXG] = [Z32; MAXG];
static NTOUCH: AtomicUsize = AtomicUsize::new(0);
static NGUARDS: AtomicU32 = AtomicU32::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

const DSZ: usize = 8192;
static DICT: [AtomicU64; DSZ] = [Z64; DSZ];
static DICT_N: AtomicUsize = AtomicUsize::new(0);
const RSZ: usize = 256;
static RECENT_A: [AtomicU64; RSZ] = [Z64; RSZ];
static RECENT_B: [AtomicU64; RSZ] = [Z64; RSZ];
static RECENT_I: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        let mut id = NGUARDS.load(Relaxed);
        while p < stop {
            id += 1;
            *p = if (id as usize) < MAXG { id } else { 0 };
            p = p.add(1);
        }
        NGUARDS.store(id, Relaxed);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = unsafe { *g } as usize;
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if s > STEP_LIMIT.load(Relaxed) {
        die("STEP-LIMIT: the operation executed more basic blocks than any correct run needs\n");
    }
    let c = COV[id].load(Relaxed);
    if c == 0 {
        let n = NTOUCH.load(Relaxed);
        if n < MAXG {
            TOUCH[n].store(id as u32, Relaxed);
            NTOUCH.store(n + 1, Relaxed);
        }
    }
    if c < 255 {
        COV[id].store(c + 1, Relaxed);
    }
}
fn die(msg: &str) -> ! {
    let _ = std::io::stderr().write_all(msg.as_bytes());
    std::process::abort();
}
fn dict_add(v: u64) {
    if v == 0 || DICT_N.load(Relaxed) > DSZ / 2 {
        return;
    }
    let mut i = (v.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize % DSZ;
    loop {
        let c = DICT[i].load(Relaxed);
        if c == v {
            return;
        }
        if c == 0 {
            DICT[i].store(v, Relaxed);
            DICT_N.fetch_add(1, Relaxed);
            return;
        }
        i = (i + 1) % DSZ;
    }
}
fn recent(a: u64, b: u64) {
    if a == b {
        return;
    }
    let i = RECENT_I.load(Relaxed);
    RECENT_I.store(i + 1, Relaxed);
    RECENT_A[i % RSZ].store(a, Relaxed);
    RECENT_B[i % RSZ].store(b, Relaxed);
}
macro_rules! cmps {
    ($($n:ident $c:ident $t:ty),*) => {$(
        #[no_mangle] pub extern "C" fn $n(a: $t, b: $t) { recent(a as u64, b as u64); }
        #[no_mangle] pub extern "C" fn $c(a: $t, b: $t) { dict_add(a as u64); recent(b as u64, a as u64); }
    )*}
}
cmps!(
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8,
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64
);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(v: u64, c: *const u64) {
    unsafe {
        let n = *c as usize;
        for k in 0..n.min(64) {
            let cv = *c.add(2 + k);
            dict_add(cv);
            if n <= 4 {
                recent(v, cv);
            }
        }
    }
}
/// Constants the code under test compared against so far.
pub fn dict_values() -> Vec<u64> {
    DICT.iter().map(|a| a.load(Relaxed)).filter(|&v| v != 0).collect()
}
pub fn dict_len() -> usize {
    DICT_N.load(Relaxed)
}
pub fn recent_pairs() -> Vec<(u64, u64)> {
    let n = RECENT_I.load(Relaxed).min(RSZ);
    (0..n).map(|i| (RECENT_A[i].load(Relaxed), RECENT_B[i].load(Relaxed))).collect()
}
fn cov_reset() {
    let n = NTOUCH.load(Relaxed);
    for t in &TOUCH[..n] {
        COV[t.load(Relaxed) as usize].store(0, Relaxed);
    }
    NTOUCH.store(0, Relaxed);
}
/// New (edge, hit-count bucket) pairs since the last reset.
fn cov_new() -> usize {
    let n = NTOUCH.load(Relaxed);
    let mut new = 0;
    for t in &TOUCH[..n] {
        let i = t.load(Relaxed) as usize;
        let c = COV[i].load(Relaxed);
        let b = match c {
            0 => continue,
            1 => 1u8,
            2 => 2,
            3 => 4,
            4..=7 => 8,
            8..=15 => 16,
            16..=63 => 32,
            64..=254 => 64,
            255 => 128,
        };
        let s = SEEN[i].load(Relaxed);
        if s & b == 0 {
            SEEN[i].store(s | b, Relaxed);
            new += 1;
        }
    }
    new
}
pub fn set_step_limit(n: u64) {
    STEP_LIMIT.store(n, Relaxed);
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

// ---------------------------------------------------------------- allocation monitor
pub struct CountAlloc;
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
const ALLOC_LIMIT: u64 = 3 << 30;
unsafe impl GlobalAlloc for CountAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size() as u64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size() as u64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        note_alloc(n as u64);
        System.realloc(p, l, n)
    }
}
fn note_alloc(n: u64) {
    TOTAL.fetch_add(n, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    if live > ALLOC_LIMIT {
        die("ALLOC-LIMIT: more than 3 GiB of live memory requested\n");
    }
}
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}
/// live bytes more after f than before
pub fn kept_by<T>(f: impl FnOnce() -> T) -> u64 {
    let l0 = live();
    drop(f());
    live().saturating_sub(l0)
}
/// (total bytes requested, peak live increase) while running f
pub fn alloc_of<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let t0 = TOTAL.load(Relaxed);
    let l0 = LIVE.load(Relaxed);
    PEAK.store(l0, Relaxed);
    let r = f();
    let t1 = TOTAL.load(Relaxed);
    let p = PEAK.load(Relaxed);
    (r, t1 - t0, p.saturating_sub(l0))
}

// ---------------------------------------------------------------- guarded buffers
extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, prot: i32) -> i32;
}
const GCAP: usize = 96 << 20;
struct Slot(*mut u8);
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}
static SLOTS: std::sync::OnceLock<Vec<Slot>> = std::sync::OnceLock::new();
fn slots() -> &'static Vec<Slot> {
    SLOTS.get_or_init(|| {
        (0..6)
            .map(|_| unsafe {
                let p = mmap(std::ptr::null_mut(), GCAP + 4096, 3, 0x22 | 0x4000, -1, 0);
                assert!(p as isize != -1);
                assert!(mprotect(p.add(GCAP), 4096, 0) == 0);
                Slot(p)
            })
            .collect()
    })
}
/// Copy `data` so that it ends exactly at an inaccessible page: any read past the end faults.
/// The previous content of the slot is invalidated.
pub fn place(slot: usize, data: &[u8]) -> &'static [u8] {
    if cfg!(miri) || data.len() > GCAP {
        return Box::leak(data.to_vec().into_boxed_slice());
    }
    unsafe {
        let p = slots()[slot].0.add(GCAP - data.len());
        std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
        std::slice::from_raw_parts(p, data.len())
    }
}

// ---------------------------------------------------------------- cases and checks
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub input: Vec<u8>,
    pub param: u64,
}
impl Case {
    pub fn new(input: Vec<u8>, param: u64) -> Case {
        Case { input, param }
    }
    pub fn hash(&self) -> u64 {
        hash64(&[&self.input, &self.param.to_le_bytes()])
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.param ^ 0xabcd_ef01)
    }
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub sets: BTreeMap<&'static str, HashSet<u64>>,
    nontrivial: bool,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub sample_note: String,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    /// Count distinct values of something observed
    pub fn distinct(&mut self, k: &'static str, h: u64) {
        let s = self.sets.entry(k).or_default();
        if s.len() < 200_000 {
            s.insert(h);
        }
    }
    /// The current case exercised the property for real.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    /// Deterministic cases, all run on every execution
    fn fixed(&self, _tier: Tier, _emit: &mut dyn FnMut(Case)) {}
    fn gen(&self, g: &mut crate::gen::Gen) -> Case;
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String>;
    fn secs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 20,
            Tier::Thorough => 240,
        }
    }
    /// Largest of the big inputs that every check of elements gets (0: none)
    fn big(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            300_000
        } else {
            1 << 20
        }
    }
    /// Largest input the byte mutator may produce
    fn max_input(&self) -> usize {
        1 << 20
    }
    fn mutable(&self) -> bool {
        true
    }
    fn stack(&self) -> usize {
        8 << 20
    }
    fn step_limit(&self) -> u64 {
        4_000_000_000
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// Further stages, run by the parent when the exploration was silent
    fn after(&self, _a: &RunArgs, _rep: &mut Report) {}
}

// ---------------------------------------------------------------- current-case record (survives a crash)
struct CurFile {
    p: *mut u8,
    cap: usize,
}
impl CurFile {
    fn open(path: &Path) -> CurFile {
        use std::os::fd::AsRawFd;
        let cap = 100 << 20;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("cur file");
        f.set_len(cap as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), cap, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        CurFile { p, cap }
    }
    fn set(&self, c: &Case, n: u64) {
        let l = c.input.len().min(self.cap - 24);
        unsafe {
            (self.p as *mut u64).write_volatile(l as u64);
            (self.p as *mut u64).add(1).write_volatile(c.param);
            (self.p as *mut u64).add(2).write_volatile(n);
            std::ptr::copy_nonoverlapping(c.input.as_ptr(), self.p.add(24), l);
        }
    }
    fn read(path: &Path) -> Option<(Case, u64)> {
        use std::io::Read;
        let mut f = std::fs::File::open(path).ok()?;
        let mut h = [0u8; 24];
        f.read_exact(&mut h).ok()?;
        let l = u64::from_le_bytes(h[..8].try_into().unwrap()) as usize;
        let param = u64::from_le_bytes(h[8..16].try_into().unwrap());
        let n = u64::from_le_bytes(h[16..24].try_into().unwrap());
        let mut input = vec![0; l];
        f.read_exact(&mut input).ok()?;
        Some((Case { input, param }, n))
    }
}

// ---------------------------------------------------------------- running one case
thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
thread_local! { static IN_LIB: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// A library operation whose panics are reported at the place of the call (track_caller)
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            IN_LIB.with(|x| x.set(x.get() - 1));
        }
    }
    IN_LIB.with(|x| x.set(x.get() + 1));
    let _d = D;
    f()
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if loc.starts_with("src/") && IN_LIB.with(|x| x.get()) == 0 {
            // a failure of the monitor itself is no verdict
            eprintln!("MONITOR-ERROR at {loc}: {msg}");
            std::process::exit(70);
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}
fn run_case(ck: &dyn Check, c: &Case, st: &mut Stats) -> Result<(), String> {
    st.nontrivial = false;
    st.evals += 1;
    cov_reset();
    STEPS.store(0, Relaxed);
    let t = Instant::now();
    let r = no_panic(|| ck.run(c, st));
    st.max("case_ms", t.elapsed().as_millis() as u64);
    if st.nontrivial {
        if st.distinct.len() < 1_500_000 {
            st.distinct.insert(c.hash());
        }
        if st.samples.len() < 4 && st.evals % 97 == 1 {
            let n = std::mem::take(&mut st.sample_note);
            st.samples.push(format!("param={:#x} input[{}]={}{}{}", c.param, c.input.len(), hex(&c.input[..c.input.len().min(48)]),
                if c.input.len() > 48 { ".." } else { "" }, if n.is_empty() { String::new() } else { format!(" -> {n}") }));
        }
    }
    match r {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks_exact(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

pub fn write_replay(path: &Path, id: &str, c: &Case, msg: &str) {
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let s = format!("property {id}\nparam {}\ninput {}\nmessage {}\n", c.param, hex(&c.input), msg.replace('\n', " | "));
    std::fs::write(path, s).expect("replay file");
}
pub fn read_replay(path: &Path) -> Case {
    let s = std::fs::read_to_string(path).expect("replay file");
    let mut c = Case::new(vec![], 0);
    for l in s.lines() {
        if let Some(p) = l.strip_prefix("param ") {
            c.param = p.trim().parse().unwrap();
        }
        if let Some(p) = l.strip_prefix("input ") {
            c.input = unhex(p);
        }
    }
    c
}

pub fn on_stack<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(stack).spawn_scoped(s, f).unwrap().join().expect("worker thread"))
}

/// Child: run one case from a replay file. Exit 0: held, 3: violated.
pub fn main_one(ck: &'static dyn Check, path: &Path) -> i32 {
    let c = read_replay(path);
    set_step_limit(ck.step_limit());
    install_panic_hook();
    let r = on_stack(ck.stack(), || run_case(ck, &c, &mut Stats::default()));
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("violated: {}", m.chars().take(2000).collect::<String>());
            3
        }
    }
}

pub struct WorkerArgs {
    pub shard: usize,
    pub nshards: usize,
    pub seed: u64,
    pub tier: Tier,
    pub secs: u64,
    pub dir: PathBuf,
}

/// Child: run this shard's fixed cases, then generated ones until the time is used up.
pub fn main_worker(ck: &'static dyn Check, a: WorkerArgs) -> i32 {
    install_panic_hook();
    set_step_limit(ck.step_limit());
    on_stack(ck.stack(), move || worker_loop(ck, &a))
}
fn worker_loop(ck: &dyn Check, a: &WorkerArgs) -> i32 {
    let cur = CurFile::open(&a.dir.join(format!("cur{}", a.shard)));
    let mut st = Stats::default();
    let start = Instant::now();
    let mut viol: Option<(Case, String)> = None;
    let mut corpus: Vec<Case> = Vec::new();
    let mut n: u64 = 0;
    let mut idx = 0usize;
    let mut fixed_done = 0u64;
    let mut each = |c: Case| {
        let mine = idx % a.nshards == a.shard;
        idx += 1;
        if !mine || viol.is_some() {
            return;
        }
        n += 1;
        fixed_done += 1;
        cur.set(&c, n);
        match run_case(ck, &c, &mut st) {
            Err(m) => viol = Some((c, m.chars().take(4000).collect())),
            Ok(()) => {
                if cov_new() > 0 && c.input.len() < 20_000 {
                    corpus.push(c)
                }
            }
        }
    };
    ck.fixed(a.tier, &mut each);
    crate::gen::big_cases(ck.big(a.tier), &mut each);
    let mut g = crate::gen::Gen::new(a.seed.wrapping_mul(1_000_003) ^ ((a.shard as u64 + 1) << 40) ^ hash64(&[ck.id().as_bytes()]));
    let t0 = Instant::now();
    let budget = Duration::from_secs(a.secs);
    let mut novel = 0u64;
    while viol.is_none() && t0.elapsed() < budget {
        if n % 256 == 0 {
            g.refresh_dict();
        }
        let c = if ck.mutable() && !corpus.is_empty() && g.r.chance(2, 5) {
            let k = g.r.below(corpus.len());
            let k2 = g.r.below(corpus.len());
            let mut c = corpus[k].clone();
            let other = corpus[k2].input.clone();
            if g.r.chance(1, 4) {
                c.param = if g.r.chance(1, 2) { g.r.u64() } else { corpus[k2].param };
            }
            crate::gen::mutate(&mut g, &mut c.input, &other, ck.max_input());
            c
        } else {
            ck.gen(&mut g)
        };
        n += 1;
        cur.set(&c, n);
        match run_case(ck, &c, &mut st) {
            Err(m) => viol = Some((c, m)),
            Ok(()) => {
                if cov_new() > 0 && c.input.len() < 20_000 {
                    novel += 1;
                    if corpus.len() < 5000 {
                        corpus.push(c)
                    } else {
                        let k = g.r.below(corpus.len());
                        corpus[k] = c;
                    }
                }
            }
        }
    }
    // results
    let mut out = String::new();
    out += &format!("evals {}\nfixed {}\nnovel {}\ncorpus {}\ndict {}\nguards {}\nms {}\n", st.evals, fixed_done, novel, corpus.len(), dict_len(), NGUARDS.load(Relaxed), start.elapsed().as_millis());
    for (k, v) in &st.counts {
        out += &format!("c {k} {v}\n");
    }
    for (k, v) in &st.maxes {
        out += &format!("m {k} {v}\n");
    }
    for (k, v) in &st.sets {
        let p = a.dir.join(format!("set-{}-{}", k, a.shard));
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(p, b).unwrap();
        out += &format!("s {k}\n");
    }
    for s in &st.samples {
        out += &format!("x {s}\n");
    }
    let b: Vec<u8> = st.distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(a.dir.join(format!("distinct{}", a.shard)), b).unwrap();
    let seen: Vec<u8> = SEEN[..(NGUARDS.load(Relaxed) as usize + 1).min(MAXG)].iter().map(|x| x.load(Relaxed)).collect();
    std::fs::write(a.dir.join(format!("seen{}", a.shard)), seen).unwrap();
    std::fs::write(a.dir.join(format!("res{}", a.shard)), out).unwrap();
    if let Some((c, m)) = viol {
        write_replay(&a.dir.join(format!("viol{}", a.shard)), ck.id(), &c, &m);
        return 3;
    }
    0
}

// ---------------------------------------------------------------- parent
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct RunArgs {
    pub seed: u64,
    pub tier: Tier,
    pub secs: Option<u64>,
    pub workers: usize,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub scratch: PathBuf,
    pub label: String,
}

/// Everything measured by one run of a check.
#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct: u64,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violation: Option<PathBuf>,
    pub message: String,
    pub inconclusive: Option<String>,
}

fn merge_u64_files(dir: &Path, prefix: &str, n: usize) -> HashSet<u64> {
    let mut all = HashSet::new();
    for i in 0..n {
        if let Ok(b) = std::fs::read(dir.join(format!("{prefix}{i}"))) {
            for c in b.chunks_exact(8) {
                all.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    all
}

fn spawn_one(exe: &Path, id: &str, file: &Path) -> (Option<i32>, String) {
    use std::process::{Command, Stdio};
    let mut ch = Command::new(exe).arg("one").arg(id).arg(file).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(_) => break,
            None if t0.elapsed() > Duration::from_secs(180) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return (Some(124), "timeout".into());
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
    let o = ch.wait_with_output().unwrap();
    let mut s = String::from_utf8_lossy(&o.stdout).to_string();
    s += &String::from_utf8_lossy(&o.stderr);
    (o.status.code(), s)
}

/// Processor time no single case needs: the slowest ones take a few seconds
const CPU_LIMIT: u64 = 140;
/// Does this case alone use up the processor time? (the load of the machine does not matter)
fn out_of_time(exe: &Path, id: &str, file: &Path) -> bool {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -t {CPU_LIMIT}; exec \"$@\"")).arg("sh").arg(exe).arg("one").arg(id).arg(file);
    let Ok(mut ch) = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else { return false };
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(300) {
        if let Ok(Some(s)) = ch.try_wait() {
            // SIGXCPU, or SIGKILL at the hard limit
            return matches!(s.signal(), Some(24 | 9)) && t0.elapsed() > Duration::from_secs(CPU_LIMIT / 2);
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let _ = ch.kill();
    let _ = ch.wait();
    false
}

pub fn run_parallel(ck: &'static dyn Check, a: &RunArgs) -> Report {
    use std::os::unix::process::ExitStatusExt;
    use std::process::*;
    let exe = std::env::current_exe().unwrap();
    let dir = a.scratch.join(format!("{}-{}-{}", ck.id(), a.label, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let secs = a.secs.unwrap_or_else(|| ck.secs(a.tier));
    let tier = if a.tier == Tier::Quick { "quick" } else { "thorough" };
    let mut kids: Vec<Option<Child>> = (0..a.workers)
        .map(|i| {
            let err = std::fs::File::create(dir.join(format!("err{i}"))).unwrap();
            Some(
                Command::new(&exe)
                    .args(["worker", ck.id(), &i.to_string(), &a.workers.to_string(), &a.seed.to_string(), tier, &secs.to_string()])
                    .arg(&dir)
                    .stdout(Stdio::null())
                    .stderr(err)
                    .spawn()
                    .expect("spawn worker"),
            )
        })
        .collect();
    let mut rep = Report::default();
    let t0 = Instant::now();
    let hard = Duration::from_secs(secs * 2 + 400);
    let mut progress: Vec<(u64, Instant)> = vec![(0, Instant::now()); a.workers];
    let mut first_bad: Option<(usize, ExitStatus)> = None;
    let mut hung: Option<usize> = None;
    while kids.iter().any(|k| k.is_some()) {
        for i in 0..a.workers {
            let Some(k) = kids[i].as_mut() else { continue };
            match k.try_wait().unwrap() {
                Some(s) => {
                    kids[i] = None;
                    if !s.success() && first_bad.is_none() {
                        first_bad = Some((i, s));
                    }
                }
                None => {
                    if let Some(n) = std::fs::File::open(dir.join(format!("cur{i}"))).ok().and_then(|mut f| {
                        use std::io::Read;
                        let mut h = [0u8; 24];
                        f.read_exact(&mut h).ok()?;
                        Some(u64::from_le_bytes(h[16..24].try_into().unwrap()))
                    }) {
                        if n != progress[i].0 {
                            progress[i] = (n, Instant::now());
                        }
                    }
                    if progress[i].1.elapsed() > Duration::from_secs(200) || t0.elapsed() > hard {
                        let _ = k.kill();
                        let _ = k.wait();
                        kids[i] = None;
                        hung = Some(i);
                    }
                }
            }
        }
        if first_bad.is_some() || hung.is_some() {
            for k in kids.iter_mut() {
                if let Some(mut c) = k.take() {
                    // let the others finish writing what they observed only if they are done already
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let replay = a.replays.join(format!("{}-seed{}{}.txt", ck.id(), a.seed, if a.label.is_empty() { String::new() } else { format!("-{}", a.label) }));
    if let Some((i, s)) = first_bad {
        let err = std::fs::read(dir.join(format!("err{i}"))).map(|b| String::from_utf8_lossy(&b[..b.len().min(6000)]).to_string()).unwrap_or_default();
        if s.code() == Some(3) {
            let vf = dir.join(format!("viol{i}"));
            let txt = std::fs::read_to_string(&vf).unwrap_or_default();
            rep.message = txt.lines().find_map(|l| l.strip_prefix("message ")).unwrap_or("").to_string();
            let _ = std::fs::create_dir_all(&a.replays);
            let _ = std::fs::copy(&vf, &replay);
            let (code, _) = spawn_one(&exe, ck.id(), &replay);
            if code == Some(0) {
                rep.message += " [observed in a run with earlier cases; the case alone does not show it: depends on history]";
                let mut t = txt;
                t += &format!("history worker shard {i} of {} seed {} tier {tier}\n", a.workers, a.seed);
                let _ = std::fs::write(&replay, t);
            }
            rep.violation = Some(replay);
        } else if let Some((c, _)) = CurFile::read(&dir.join(format!("cur{i}"))) {
            // the worker died: signal, abort, stack overflow, sanitizer report
            let why = match s.signal() {
                Some(sig) => format!("worker ended by signal {sig}"),
                None => format!("worker exit code {:?}", s.code()),
            };
            write_replay(&replay, ck.id(), &c, &format!("{why}: {}", err.chars().take(3000).collect::<String>()));
            let (code, out) = spawn_one(&exe, ck.id(), &replay);
            if s.code() == Some(70) || code == Some(70) {
                rep.inconclusive = Some(format!("monitor error: {err}"));
            } else if code != Some(0) && code != Some(124) {
                rep.message = format!("{why}; reproduced alone (exit {code:?}): {}", out.lines().take(4).collect::<Vec<_>>().join(" | "));
                rep.violation = Some(replay);
            } else if matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11)) || err.contains("ERROR: AddressSanitizer") || err.contains("ThreadSanitizer") {
                rep.message = format!("{why} (depends on earlier cases): {}", err.lines().take(4).collect::<Vec<_>>().join(" | "));
                rep.violation = Some(replay);
            } else {
                rep.inconclusive = Some(format!("{why}, not reproduced; stderr: {}", err.lines().take(4).collect::<Vec<_>>().join(" | ")));
            }
        } else {
            rep.inconclusive = Some(format!("worker failed before its first case: {err}"));
        }
    } else if let Some(i) = hung {
        let mut used_up = false;
        if let Some((c, _)) = CurFile::read(&dir.join(format!("cur{i}"))) {
            write_replay(&replay, ck.id(), &c, "no answer within the processor time limit");
            used_up = out_of_time(&exe, ck.id(), &replay);
        }
        if used_up {
            rep.message = format!("no answer within {CPU_LIMIT} s of processor time, alone in a fresh process");
            rep.violation = Some(replay);
        } else {
            rep.inconclusive = Some(format!("worker {i} made no progress for too long; case saved in {}", replay.display()));
        }
    }
    // merge
    let mut sets: HashSet<String> = HashSet::new();
    let mut guards = 0;
    for i in 0..a.workers {
        let Ok(t) = std::fs::read_to_string(dir.join(format!("res{i}"))) else { continue };
        for l in t.lines() {
            let mut p = l.splitn(3, ' ');
            let (k, b, v) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
            match k {
                "evals" => rep.evals += b.parse::<u64>().unwrap(),
                "fixed" => *rep.counts.entry("fixed_cases".into()).or_insert(0) += b.parse::<u64>().unwrap(),
                "novel" => *rep.counts.entry("coverage_increasing_cases".into()).or_insert(0) += b.parse::<u64>().unwrap(),
                "dict" => {
                    let e = rep.counts.entry("compare_constants_harvested".into()).or_insert(0);
                    *e = (*e).max(b.parse().unwrap());
                }
                "guards" => guards = b.parse().unwrap(),
                "c" => *rep.counts.entry(b.into()).or_insert(0) += v.parse::<u64>().unwrap(),
                "m" => {
                    let e = rep.counts.entry(format!("max_{b}")).or_insert(0);
                    *e = (*e).max(v.parse().unwrap());
                }
                "s" => {
                    sets.insert(b.into());
                }
                "x" => {
                    if rep.samples.len() < 8 {
                        rep.samples.push(l[2..].to_string());
                    }
                }
                _ => (),
            }
        }
    }
    for s in sets {
        let n = merge_u64_files(&dir, &format!("set-{s}-"), a.workers).len() as u64;
        rep.counts.insert(format!("distinct_{s}"), n);
    }
    let mut seen = vec![0u8; guards + 1];
    for i in 0..a.workers {
        if let Ok(b) = std::fs::read(dir.join(format!("seen{i}"))) {
            for (x, y) in seen.iter_mut().zip(b) {
                *x |= y;
            }
        }
    }
    rep.counts.insert("edges_instrumented".into(), guards as u64);
    rep.counts.insert("edges_covered".into(), seen.iter().filter(|&&x| x != 0).count() as u64);
    rep.counts.insert("worker_processes".into(), a.workers as u64);
    rep.distinct = merge_u64_files(&dir, "distinct", a.workers).len() as u64;
    let _ = std::fs::remove_dir_all(&dir);
    rep
}

pub fn write_evidence(id: &str, rule: &str, a: &RunArgs, rep: &Report, wall: f64, assumptions: &[&str]) {
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(id), if a.tier == Tier::Quick { "quick" } else { "thorough" }, a.seed);
    s += " \"coverage\": {\n";
    s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}]", rep.evals, rep.distinct, jstr(rule), rep.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "));
    for (k, v) in &rep.counts {
        s += &format!(",\n  {}: {}", jstr(k), v);
    }
    s += "\n },\n";
    s += &format!(" \"assumptions\": [{}],\n", assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, rep.violation.is_some() as u32);
    if let Some(p) = a.evidence.parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(&a.evidence, s).expect("evidence");
}
