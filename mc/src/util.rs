//! Shared plumbing: panic capture, allocation accounting, breadcrumbs, hashing, threads.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};

// ---------------------------------------------------------------- allocation

/// Counts allocations per thread and parks a guarded call that eats memory without bound.
pub struct CountingAlloc;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static NET_LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// Bytes a single guarded call into the crate under test may hold on top of what it started with.
const CALL_MEM_LIMIT: i64 = 1 << 30;

#[inline]
fn account(bytes: i64, is_alloc: bool) {
    let _ = ALLOCS.try_with(|c| {
        if is_alloc {
            c.set(c.get() + 1)
        }
    });
    let over = NET
        .try_with(|c| {
            let v = c.get() + bytes;
            c.set(v);
            v
        })
        .map(|v| v > NET_LIMIT.try_with(Cell::get).unwrap_or(i64::MAX))
        .unwrap_or(false);
    if over {
        // A runaway call: stop it here; the watchdog sees a call that does not return.
        loop {
            std::thread::sleep(std::time::Duration::from_secs(3600));
        }
    }
}

#[cfg(feature = "cost")]
extern "C" {
    fn treena_mc_add_steps(n: u64);
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64, true);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64), false);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64, true);
        #[cfg(feature = "cost")]
        treena_mc_add_steps(l.size() as u64 / 8);
        System.realloc(p, l, n)
    }
}

/// Number of allocations this thread has made so far.
pub fn alloc_count() -> u64 {
    ALLOCS.with(Cell::get)
}

// -------------------------------------------------------------------- panics

/// Payload of the panics the harness raises from inside callbacks.
pub struct UserPanic;

/// Raises a harness-made panic without running the panic hook.
pub fn user_panic() -> ! {
    std::panic::resume_unwind(Box::new(UserPanic))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Panicked {
    /// Panic message of the code under test (empty for a harness-made panic).
    pub msg: String,
    /// Whether the harness raised it itself from a callback.
    pub user: bool,
}

impl Panicked {
    pub fn is_precondition(&self) -> bool {
        self.msg.contains("[precondition]")
    }
}

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<Option<(String, bool, String)>> = const { RefCell::new(None) };
}

fn own_dir() -> &'static str {
    let f = file!();
    &f[..f.len() - "util.rs".len()]
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !GUARDED.with(Cell::get) {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".to_owned()
        };
        let (own, loc) = match info.location() {
            Some(l) => (l.file().starts_with(own_dir()), l.to_string()),
            None => (false, String::new()),
        };
        LAST.with(|l| *l.borrow_mut() = Some((msg, own, loc)));
    }));
}

/// Runs a call into the code under test, catching its panics.
///
/// A panic raised by the harness's own source is a harness bug: it ends the process with an
/// error, it never becomes a verdict.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    let was = GUARDED.with(|g| g.replace(true));
    let old_limit = NET_LIMIT.with(|l| {
        let old = l.get();
        if old == i64::MAX {
            l.set(NET.with(Cell::get).saturating_add(CALL_MEM_LIMIT));
        }
        old
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    NET_LIMIT.with(|l| l.set(old_limit));
    GUARDED.with(|g| g.set(was));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<UserPanic>() {
                return Err(Panicked { msg: String::new(), user: true });
            }
            let (msg, own, loc) = LAST
                .with(|l| l.borrow_mut().take())
                .unwrap_or_else(|| ("<no message>".into(), false, String::new()));
            if own {
                harness_error(&format!("harness panic at {loc}: {msg}"));
            }
            Err(Panicked { msg, user: false })
        }
    }
}

/// Ends the process with the exit code that means "error of the check", never a verdict.
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(3)
}

// --------------------------------------------------------------- breadcrumbs

/// Longest history a breadcrumb can hold.
pub const CRUMB_OPS: usize = 150_000;
const SLOTS: usize = 64;

/// What one worker is doing at the moment. Lives in a shared file mapping, so that it survives
/// a crash of the process.
#[repr(C)]
pub struct Crumb {
    /// Watchdog tick at which the current call began; 0 when idle.
    pub since: AtomicU64,
    /// Number of operations in `ops`.
    pub len: AtomicU64,
    /// The call in flight (packed `Op` or state check code).
    pub cur: AtomicU64,
    /// Serial number of the call in flight.
    pub serial: AtomicU64,
    /// The history that leads to the state the call starts from.
    pub ops: [AtomicU64; CRUMB_OPS],
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// The clocks of the workers' processor time.
static CLOCKS: [AtomicI32; SLOTS] = [const { AtomicI32::new(0) }; SLOTS];
static CRUMBS: AtomicUsize = AtomicUsize::new(0);
static TICK: AtomicU64 = AtomicU64::new(1);
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn crumbs_init(path: Option<&str>) {
    let size = std::mem::size_of::<Crumb>() * SLOTS;
    let p = match path {
        Some(path) => {
            use std::os::fd::AsRawFd;
            let f = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
                .unwrap_or_else(|e| harness_error(&format!("open {path}: {e}")));
            f.set_len(size as u64).expect("set_len");
            unsafe { mmap(std::ptr::null_mut(), size, 3, 1, f.as_raw_fd(), 0) }
        }
        // Private anonymous mapping.
        None => unsafe { mmap(std::ptr::null_mut(), size, 3, 0x22, -1, 0) },
    };
    if p as isize == -1 {
        harness_error("mmap failed");
    }
    CRUMBS.store(p as usize, Ordering::SeqCst);
}

fn crumb(i: usize) -> &'static Crumb {
    let base = CRUMBS.load(Ordering::Relaxed) as *const Crumb;
    unsafe { &*base.add(i) }
}

fn my_crumb() -> &'static Crumb {
    let i = MY_SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % SLOTS);
            keep_clock(s.get());
        }
        s.get()
    });
    crumb(i)
}

/// Gives the crumb slots back; to be called between parallel phases.
pub fn crumb_reset_slots() {
    NEXT_SLOT.store(1, Ordering::Relaxed);
    MY_SLOT.with(|s| s.set(0));
    keep_clock(0);
}

fn keep_clock(slot: usize) {
    let mut clock = 0;
    if unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) } == 0 {
        CLOCKS[slot].store(clock, Ordering::Relaxed);
    }
}

/// Seconds of processor time the thread of this slot has taken.
fn cpu_of(slot: usize) -> u64 {
    let mut t = [0i64; 2];
    match CLOCKS[slot].load(Ordering::Relaxed) {
        0 => 0,
        c if unsafe { clock_gettime(c, &mut t) } == 0 => t[0] as u64,
        _ => 0,
    }
}

/// Records the history of the state that the next calls start from.
pub fn crumb_state(ops: &[u64]) {
    let c = my_crumb();
    c.since.store(0, Ordering::Relaxed);
    let n = ops.len().min(CRUMB_OPS);
    for (i, o) in ops[..n].iter().enumerate() {
        c.ops[i].store(*o, Ordering::Relaxed);
    }
    c.len.store(n as u64, Ordering::Relaxed);
}

/// Records the call that starts now.
#[inline]
pub fn crumb_call(cur: u64) {
    let c = my_crumb();
    c.cur.store(cur, Ordering::Relaxed);
    c.serial.store(c.serial.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
    c.since.store(TICK.load(Ordering::Relaxed), Ordering::Relaxed);
}

#[inline]
pub fn crumb_idle() {
    my_crumb().since.store(0, Ordering::Relaxed);
}

/// Seconds of processor time after which a single call counts as not returning. (Not of time on
/// the clock, since the machine may be busy with something else.)
pub const HANG_SECS: u64 = 15;
/// As many of a check that makes many calls.
pub const HANG_SECS_CHECK: u64 = 45;
/// As many on the clock, for a call that waits for what never comes.
const HANG_SECS_WAITING: u64 = 200;

/// Starts the watchdog; `report` gets the history and the call of the first call that hangs.
pub fn start_watchdog(many: fn(u64) -> bool, report: Box<dyn Fn(Vec<u64>, u64) + Send>) {
    std::thread::spawn(move || {
        // Serial number, tick and processor time at which the call was first seen.
        let mut seen = vec![(0u64, 0u64, 0u64); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = TICK.fetch_add(1, Ordering::Relaxed) + 1;
            for (i, seen) in seen.iter_mut().enumerate() {
                let c = crumb(i);
                let since = c.since.load(Ordering::Relaxed);
                let serial = c.serial.load(Ordering::Relaxed);
                if since == 0 || serial != seen.0 {
                    *seen = (serial, now, cpu_of(i));
                    continue;
                }
                let cur = c.cur.load(Ordering::Relaxed);
                let most = if many(cur) { HANG_SECS_CHECK } else { HANG_SECS };
                if cpu_of(i).saturating_sub(seen.2) >= most || now.saturating_sub(seen.1) >= HANG_SECS_WAITING {
                    let n = c.len.load(Ordering::Relaxed) as usize;
                    let ops = (0..n).map(|k| c.ops[k].load(Ordering::Relaxed)).collect();
                    report(ops, cur);
                    *seen = (serial, u64::MAX / 2, u64::MAX / 2);
                }
            }
        }
    });
}

/// Reads the calls in flight out of a crumb file left by a crashed process.
pub fn read_crumbs(path: &str) -> Vec<(Vec<u64>, u64)> {
    let bytes = std::fs::read(path).unwrap_or_default();
    let sz = std::mem::size_of::<Crumb>();
    let mut out = Vec::new();
    for rec in bytes.chunks_exact(sz) {
        let w = |i: usize| {
            let mut b = [0u8; 8];
            b.copy_from_slice(&rec[i * 8..i * 8 + 8]);
            u64::from_le_bytes(b)
        };
        if w(0) == 0 {
            continue;
        }
        let n = (w(1) as usize).min(CRUMB_OPS);
        out.push(((0..n).map(|k| w(4 + k)).collect(), w(2)));
    }
    out
}

// ------------------------------------------------------------------- hashing

#[derive(Clone, Copy)]
pub struct Hash128 {
    a: u64,
    b: u64,
}

impl Default for Hash128 {
    fn default() -> Self {
        Hash128 { a: 0x9E37_79B9_7F4A_7C15, b: 0xC2B2_AE3D_27D4_EB4F }
    }
}

impl Hash128 {
    #[inline]
    pub fn u64(&mut self, v: u64) {
        let m = (self.a ^ v) as u128 * 0xA076_1D64_78BD_642F_u128;
        self.a = (m as u64) ^ ((m >> 64) as u64);
        let m = (self.b.rotate_left(23) ^ v.wrapping_add(0x2545_F491_4F6C_DD1D)) as u128
            * 0xE703_7ED1_A0B4_28DB_u128;
        self.b = (m as u64) ^ ((m >> 64) as u64) ^ self.b.rotate_left(7);
    }
    pub fn bytes(&mut self, s: &[u8]) {
        let mut it = s.chunks_exact(8);
        for c in &mut it {
            let mut b = [0u8; 8];
            b.copy_from_slice(c);
            self.u64(u64::from_le_bytes(b));
        }
        let r = it.remainder();
        let mut b = [0u8; 8];
        b[..r.len()].copy_from_slice(r);
        self.u64(u64::from_le_bytes(b) ^ ((s.len() as u64) << 56));
    }
    pub fn finish(&self) -> u128 {
        ((self.a as u128) << 64) | self.b as u128
    }
}

/// A fast hasher for tables of ids.
#[derive(Clone, Copy, Default)]
pub struct CheapHash;
pub struct CheapHasher(u64);

impl std::hash::BuildHasher for CheapHash {
    type Hasher = CheapHasher;
    fn build_hasher(&self) -> CheapHasher {
        CheapHasher(0)
    }
}

impl std::hash::Hasher for CheapHasher {
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(b)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
    }
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
}

/// Buffers formatter pieces so that the hash does not depend on how the text was split.
pub struct HashWriter {
    pub h: Hash128,
    buf: [u8; 64],
    n: usize,
}

impl HashWriter {
    pub fn new(h: Hash128) -> Self {
        HashWriter { h, buf: [0; 64], n: 0 }
    }
    pub fn done(mut self) -> Hash128 {
        let n = self.n;
        self.h.bytes(&self.buf[..n]);
        self.h
    }
}

impl fmt::Write for HashWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let k = b.len().min(64 - self.n);
            self.buf[self.n..self.n + k].copy_from_slice(&b[..k]);
            self.n += k;
            b = &b[k..];
            if self.n == 64 {
                self.h.bytes(&self.buf);
                self.n = 0;
            }
        }
        Ok(())
    }
}

/// Hash of the `Debug` output of a value.
pub fn debug_hash<T: fmt::Debug>(v: &T) -> u128 {
    let mut w = HashWriter::new(Hash128::default());
    let _ = write!(w, "{v:?}");
    w.done().finish()
}

// ------------------------------------------------------------------- threads

struct Probe<T>(std::marker::PhantomData<T>);
trait NotThreadSafe {
    const YES: bool = false;
}
impl<T> NotThreadSafe for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const YES: bool = true;
}

pub fn workers() -> usize {
    if !Probe::<treena::dynamic::Forest<treena::dynamic::NodeIdUsize, u32>>::YES {
        return 1;
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

static STOP: AtomicBool = AtomicBool::new(false);

/// Asks all workers to stop (a violation was found, or the time budget is used up).
pub fn request_stop() {
    STOP.store(true, Ordering::SeqCst)
}

#[inline]
pub fn stopping() -> bool {
    STOP.load(Ordering::Relaxed)
}

/// Stack of the threads the explored calls run on: what Rust gives a thread, so that a call that
/// recurses over a deep tree overflows it.
pub const STACK: usize = 2 << 20;
/// Stack for programs with closures nested as deep as the tree they build.
pub const DEEP_STACK: usize = 64 << 20;

/// Runs `f(worker state, index)` for every index below `n` on all workers; returns the states.
pub fn par_for<S: Send>(stack: usize, n: usize, mk: impl Fn() -> S + Sync, f: impl Fn(&mut S, usize) + Sync) -> Vec<S> {
    let next = AtomicUsize::new(0);
    let chunk = (n / (workers() * 16)).clamp(1, 64);
    crumb_reset_slots();
    let res = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers())
            .map(|_| {
                let (next, mk, f) = (&next, &mk, &f);
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(sc, move || {
                        let mut s = mk();
                        loop {
                            let i0 = next.fetch_add(chunk, Ordering::Relaxed);
                            if i0 >= n {
                                break;
                            }
                            for i in i0..(i0 + chunk).min(n) {
                                if stopping() {
                                    return s;
                                }
                                f(&mut s, i);
                            }
                        }
                        crumb_idle();
                        s
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(s) => s,
                Err(_) => harness_error("worker panicked"),
            })
            .collect()
    });
    crumb_reset_slots();
    res
}

// ---------------------------------------------------------------------- json

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
