//! Per-case context: what the monitors observed, plus the allocator and CPU instruments.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub type R = Result<(), String>;

/// Observations of one worker thread; merged at the end of a run.
pub struct Cx {
    pub seed: u64,
    pub tier_thorough: bool,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    /// description of the case under way, for the replay file
    pub input: String,
    pub replaying: bool,
}
impl Cx {
    pub fn new(seed: u64, thorough: bool) -> Cx {
        Cx { seed, tier_thorough: thorough, counters: BTreeMap::new(), distinct: HashSet::new(), samples: vec![], evals: 0, input: String::new(), replaying: false }
    }
    /// counts one observed event of a kind
    pub fn hit(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) { *v += n; } else { self.counters.insert(k.to_string(), n); }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max {}", k)).or_insert(0);
        if n > *e { *e = n; }
    }
    /// one evaluation of the property's oracle on a nontrivial, distinguishable situation
    pub fn seen<T: Hash + ?Sized>(&mut self, x: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < 4 {
            let mut t: String = s.chars().take(240).collect();
            if t.len() < s.len() { t.push('…'); }
            if !self.samples.contains(&t) { self.samples.push(t); }
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ---- allocation instrument -------------------------------------------------------------------
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
/// bytes one thread may hold before the run is aborted (a runaway parse must not take the machine)
const CAP: i64 = 3 << 30;

pub struct Counting;
fn up(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        if v > CAP { unsafe { write(2, b"vmon: heap cap exceeded\n".as_ptr(), 24); abort(); } }
    });
}
fn down(n: i64) { let _ = LIVE.try_with(|l| l.set(l.get() - n)); }
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn abort() -> !;
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { up(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { down(l.size() as i64); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { up(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        up(n as i64); down(l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Heap { pub live: i64, pub peak: i64, pub count: u64 }
/// resets the peak to the current level and returns the current numbers of this thread
pub fn heap_mark() -> Heap {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    Heap { live, peak: live, count: COUNT.with(|c| c.get()) }
}
pub fn heap_now() -> Heap { Heap { live: LIVE.with(|l| l.get()), peak: PEAK.with(|p| p.get()), count: COUNT.with(|c| c.get()) } }

// ---- CPU clock of a thread -------------------------------------------------------------------
#[repr(C)]
pub struct Timespec { s: i64, n: i64 }
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
}
pub fn my_clock() -> i32 { let mut c = 0; unsafe { pthread_getcpuclockid(pthread_self(), &mut c); } c }
pub fn clock_ms(c: i32) -> Option<u64> {
    let mut t = Timespec { s: 0, n: 0 };
    if unsafe { clock_gettime(c, &mut t) } != 0 { return None; }
    Some(t.s as u64 * 1000 + t.n as u64 / 1_000_000)
}
