//! Rust side of the simulator: FFI, the choice stream, oracle scopes, tracked payloads.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;

pub const TAPE_MAX: usize = 1 << 18;
pub const LOG_MAX: usize = 1 << 14;
pub const NCOUNT: usize = 64;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct LogEnt {
    pub step: u32,
    pub tid: u16,
    pub op: u16,
    pub a: u64,
    pub b: u64,
}
#[repr(C)]
pub struct Shm {
    pub seed: u64,
    pub replay: u32,
    pub replay_len: u32,
    pub trace: u32,
    pub pad0: u32,
    pub used: u32,
    pub episode_start: u32,
    pub status: u32,
    pub tape_len: u32,
    pub tape_overflow: u32,
    pub log_len: u32,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub now_ns: u64,
    pub threads: u64,
    pub runs_done: u64,
    pub live_leak: u64,
    pub live_bytes: u64,
    pub counters: [u64; NCOUNT],
    pub cls: [u8; 160],
    pub msg: [u8; 3072],
    pub tape: [u32; TAPE_MAX],
    pub log: [LogEnt; LOG_MAX],
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Config {
    pub track: u32,
    pub stale_budget: u32,
    pub allow_threadfail: u32,
    pub p_spurious: u32,
    pub soft_limit: u32,
    pub hard_limit: u32,
    pub strategy: u32,
    pub p_switch: u32,
    pub pct_d: u32,
    pub pct_k: u32,
}

extern "C" {
    pub fn simrt_set_shm(p: *mut Shm);
    pub fn simrt_shm_size() -> usize;
    pub fn simrt_init_process();
    pub fn simrt_install_handlers();
    pub fn simrt_run(
        entry: extern "C" fn(*mut std::ffi::c_void) -> *mut std::ffi::c_void,
        arg: *mut std::ffi::c_void,
        cfg: *const Config,
        seed: u64,
    );
    fn simrt_choose(n: u32, kind: u32, p0: u32) -> u32;
    fn simrt_count(id: u32, d: u64);
    fn simrt_seq() -> u64;
    fn simrt_tid() -> u32;
    fn simrt_event(code: u32, a: u64, b: u64);
    fn simrt_ignore(d: i32);
    fn simrt_yield();
    fn simrt_live() -> u64;
    fn simrt_fail(cls: *const u8, msg: *const u8) -> !;
    fn simrt_alloc(n: usize, al: usize, zero: i32) -> *mut u8;
    fn simrt_free(p: *mut u8, n: usize, al: usize);
    fn simrt_realloc(p: *mut u8, n: usize, al: usize, nn: usize) -> *mut u8;
    fn simrt_stop_faults();
    fn simrt_threadfail(v: i32);
    fn simrt_episode();
    fn simrt_stamp() -> u64;
    fn simrt_hb(s: u64) -> u32;
    fn simrt_sc_mode() -> u32;
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        simrt_alloc(l.size(), l.align(), 0)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        simrt_alloc(l.size(), l.align(), 1)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        simrt_free(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        simrt_realloc(p, l.size(), l.align(), n)
    }
}

// fault / probe counter ids (0..15 are the runtime's own)
pub const FAULTS: &[(u32, &str)] = &[
    (0, "stale_atomic_load"),
    (1, "spurious_futex_wakeup"),
    (2, "futex_wake_reordered"),
    (3, "thread_create_failure"),
    (4, "preemption"),
    (5, "thread_blocked"),
    (16, "spurious_poll"),
    (17, "waker_replaced"),
    (18, "cancelled_mid_flight"),
    (19, "injected_panic"),
    (20, "stale_waker_fired"),
    (21, "injected_pending"),
    (22, "self_wake_during_poll"),
    (23, "short_io"),
    (24, "io_interrupted"),
    (25, "io_error"),
    (26, "early_close_or_drop"),
    (27, "injected_stream_or_sink_error"),
    (28, "delayed_event_reordered"),
    (29, "foreign_thread_wake"),
    (30, "duplicate_wake"),
    (31, "io_would_block"),
    (32, "io_zero_or_eof"),
    (33, "reentrant_wake_or_drop"),
];
pub const F_SPURIOUS_POLL: u32 = 16;
pub const F_WAKER_SWAP: u32 = 17;
pub const F_CANCEL: u32 = 18;
pub const F_PANIC: u32 = 19;
pub const F_STALE_WAKER: u32 = 20;
pub const F_PENDING: u32 = 21;
pub const F_SELF_WAKE: u32 = 22;
pub const F_SHORT_IO: u32 = 23;
pub const F_INTR: u32 = 24;
pub const F_IOERR: u32 = 25;
pub const F_CLOSE: u32 = 26;
pub const F_ERR: u32 = 27;
pub const F_REORDER: u32 = 28;
pub const F_FOREIGN: u32 = 29;
pub const F_DUPWAKE: u32 = 30;
pub const F_WOULDBLOCK: u32 = 31;
pub const F_EOF: u32 = 32;
pub const F_REENTRANT: u32 = 33;
/// Probes: "this rare condition was reached".
pub const P0: u32 = 48;

pub fn count(id: u32) {
    unsafe { simrt_count(id, 1) }
}
/// Uniform choice in 0..n, recorded on the tape.
pub fn choose(n: usize) -> usize {
    unsafe { simrt_choose(n as u32, 8, 0) as usize }
}
/// Choice in 0..n in which 0 ("nothing unusual") has probability `p0` percent.
pub fn choose_w(n: usize, p0: u32) -> usize {
    unsafe { simrt_choose(n as u32, 9, (p0 * 65536 / 100).clamp(1, 65535)) as usize }
}
/// True with `p` percent probability; false is the minimiser's preferred value.
pub fn chance(p: u32) -> bool {
    if p == 0 {
        return false;
    }
    choose_w(2, 100 - p) == 1
}
/// A chance that also counts a fault when it fires.
pub fn fault(p: u32, id: u32) -> bool {
    let r = chance(p);
    if r {
        count(id)
    }
    r
}
pub fn seq() -> u64 {
    unsafe { simrt_seq() }
}
pub fn tid() -> u32 {
    unsafe { simrt_tid() }
}
pub fn event(code: u32, a: u64, b: u64) {
    unsafe { simrt_event(code, a, b) }
}
pub fn yield_now() {
    unsafe { simrt_yield() }
}
/// Bytes of simulated heap in use.
pub fn live_bytes() -> u64 {
    unsafe { simrt_live() }
}
pub fn stop_faults() {
    unsafe { simrt_stop_faults() }
}
/// Lets thread creation fail (or not) from here on.
pub fn threadfail(v: bool) {
    unsafe { simrt_threadfail(v as i32) }
}
pub fn episode() {
    unsafe { simrt_episode() }
}

pub struct OobGuard(());
impl OobGuard {
    pub fn new() -> Self {
        unsafe { simrt_ignore(1) };
        OobGuard(())
    }
}
impl Drop for OobGuard {
    fn drop(&mut self) {
        unsafe { simrt_ignore(-1) }
    }
}
/// Runs `f` outside the simulation: no scheduling points, no happens-before
/// edges, no shadow-memory tracking.  Used for all oracle bookkeeping, so that
/// recording a history never perturbs the execution being recorded.
pub fn oob<R>(f: impl FnOnce() -> R) -> R {
    let _g = OobGuard::new();
    f()
}

pub fn fail(cls: &str, msg: &str) -> ! {
    oob(|| {
        let c = format!("{cls}\0");
        let m = format!("{msg}\0");
        unsafe { simrt_fail(c.as_ptr(), m.as_ptr()) }
    })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $cls:expr, $($f:tt)*) => {
        if !$c { $crate::rt::oob(|| $crate::rt::fail($cls, &format!($($f)*))) }
    };
}

/// A cell for oracle state shared by simulated threads.  Only one simulated
/// thread runs at a time and every access is inside `oob`.
pub struct Ora<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Ora<T> {}
unsafe impl<T> Send for Ora<T> {}
impl<T> Ora<T> {
    pub const fn new(t: T) -> Self {
        Ora(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        oob(|| f(unsafe { &mut *self.0.get() }))
    }
}
/// Leaked oracle state: one process per run, so leaking is free.
pub fn ora<T>(t: impl FnOnce() -> T) -> &'static Ora<T> {
    oob(|| {
        let b: &'static Ora<T> = Box::leak(Box::new(Ora::new(t())));
        b
    })
}

// ------------------------------------------------------------ panics
static EXPECT: Ora<[u32; 32]> = Ora::new([0; 32]);
pub struct Injected;
/// Unwinds without going through the panic hook (an injected fault).
pub fn inject_panic() -> ! {
    count(F_PANIC);
    std::panic::resume_unwind(oob(|| Box::new(Injected)))
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let expected = oob(|| EXPECT.with(|e| e[(tid() as usize).min(31)] > 0));
        if !expected {
            oob(|| {
                let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "<non-string payload>".into()
                };
                let loc = info.location().map(|l| {
                    let f = l.file();
                    let f = f.rsplit("/repo/").next().unwrap_or(f);
                    format!("{}:{}", f, l.line())
                });
                fail("unexpected-panic", &format!("{} at {}", m, loc.unwrap_or_default()))
            })
        }
    }));
}
/// Runs `f` where a panic is legitimate; Err if it panicked.
pub fn allow_panic<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    let t = (tid() as usize).min(31);
    EXPECT.with(|e| e[t] += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    EXPECT.with(|e| e[t] -= 1);
    r
}
/// catch_unwind for injected panics only (anything else trips the hook).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}

static LETGO: Ora<Option<bool>> = Ora::new(None);
/// Drops its argument; in some runs its owner may panic instead, and it is dropped while unwinding.
pub fn let_go<T>(x: T) {
    let on = match LETGO.with(|l| *l) {
        Some(b) => b,
        None => {
            let b = chance(20);
            LETGO.with(|l| *l = Some(b));
            b
        }
    };
    if on && !std::thread::panicking() && chance(60) {
        let Err(_) = catch(move || {
            let _x = x;
            inject_panic()
        });
    } else {
        drop(x)
    }
}

/// What unwinds a whole episode: nothing, a cancellation (everything is dropped
/// where it stands, between two polls) or a panic of user code called by the library.
static UNWIND: Ora<(u8, u32)> = Ora::new((0, 0));
pub const U_NONE: u8 = 0;
pub const U_CANCEL: u8 = 1;
pub const U_PANIC: u8 = 2;
/// Arms it to strike at the `n`th point (from 1).
pub fn arm_unwind(kind: u8, n: u32) {
    UNWIND.with(|u| *u = (kind, n));
}
/// True if it struck.
pub fn disarm_unwind() -> bool {
    UNWIND.with(|u| std::mem::replace(u, (0, 0)) == (3, 0))
}
#[inline]
pub fn unwind_point(kind: u8) {
    let hit = UNWIND.with(|u| {
        if u.0 != kind || std::thread::panicking() {
            return false;
        }
        u.1 -= 1;
        if u.1 == 0 {
            *u = (3, 0);
        }
        u.1 == 0
    });
    if hit {
        if kind == U_CANCEL {
            count(F_CANCEL);
            std::panic::resume_unwind(oob(|| Box::new(Injected)))
        }
        inject_panic();
    }
}

// ------------------------------------------------------------ tracked payloads
#[derive(Default)]
struct Reg {
    st: Vec<(u8, u32)>, // 1 live, 2 dropped ; tag
}
static REG: Ora<Reg> = Ora::new(Reg { st: Vec::new() });
/// A payload whose construction and destruction are recorded; double drops
/// fail at once, `leaks()` lists what was never dropped.
pub struct Tracked {
    id: usize,
    pub tag: u32,
    heap: Box<u32>, // so that a duplicated or torn value shows as a memory error
}
impl Tracked {
    pub fn new(tag: u32) -> Self {
        unwind_point(U_PANIC);
        let id = REG.with(|r| {
            r.st.push((1, tag));
            r.st.len() - 1
        });
        Tracked { id, tag, heap: Box::new(tag ^ 0x5aa5_0000) }
    }
    pub fn get(&self) -> u32 {
        let h = *self.heap;
        ensure!(h == self.tag ^ 0x5aa5_0000, "corrupt-payload", "payload {} corrupted", self.tag);
        self.tag
    }
    pub fn id(&self) -> usize {
        self.id
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let t = self.get();
        let id = self.id;
        REG.with(|r| {
            if r.st[id].0 != 1 {
                fail("double-drop", &format!("payload {t} dropped twice"));
            }
            r.st[id].0 = 2;
        });
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.get())
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.tag)
    }
}
pub fn tracked_live(id: usize) -> bool {
    REG.with(|r| r.st[id].0 == 1)
}
pub fn check_leaks(what: &str) {
    REG.with(|r| {
        let l: Vec<u32> = r.st.iter().filter(|x| x.0 == 1).map(|x| x.1).collect();
        if !l.is_empty() {
            fail("leak", &format!("{what}: payloads never dropped: {l:?}"));
        }
    })
}
static LEAKS_OK: Ora<bool> = Ora::new(false);
/// What this run left unfreed is not judged (a destructor panicked).
pub fn leaks_ok() {
    LEAKS_OK.with(|l| *l = true)
}
pub fn leaks_allowed() -> bool {
    LEAKS_OK.with(|l| *l)
}
pub fn reset_tracked() {
    REG.with(|r| r.st.clear())
}

// ------------------------------------------------------------ ordering of operations
/// A point in the history.  `seen()` asks whether that point is ordered before
/// the current one: by happens-before, or, in runs without stale loads (where
/// the execution is sequentially consistent), by real time.
#[derive(Clone, Copy, Debug)]
pub struct Stamp {
    pub seq: u64,
    hb: u64,
}
pub fn stamp() -> Stamp {
    unsafe { Stamp { seq: simrt_seq(), hb: simrt_stamp() } }
}
impl Stamp {
    pub fn seen(&self) -> bool {
        unsafe { simrt_sc_mode() != 0 || simrt_hb(self.hb) != 0 }
    }
}
pub trait SeenOpt {
    fn seen(&self) -> bool;
}
impl SeenOpt for Option<Stamp> {
    fn seen(&self) -> bool {
        self.map_or(false, |s| s.seen())
    }
}
