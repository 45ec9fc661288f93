//! Executors that hold code to the strict waker contract: a task is polled
//! again only after the waker handed to its *latest* poll was woken (or when a
//! spurious poll is injected).  `th` blocks simulated threads; `sg` drives one
//! task on one thread against an environment of pending events.
use crate::rt::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub mod th {
    use super::*;
    use std::thread::Thread;

    /// Waker of one poll; waking it releases the parked simulated thread.
    pub struct TW {
        flag: AtomicBool,
        th: Thread,
    }
    impl Wake for TW {
        fn wake(self: Arc<Self>) {
            self.wake_by_ref()
        }
        fn wake_by_ref(self: &Arc<Self>) {
            // read-modify-writes, so that a wake-up merged with an earlier one is ordered before the poll too
            self.flag.swap(true, Ordering::AcqRel);
            self.th.unpark();
        }
    }
    #[derive(Clone, Copy)]
    pub struct Faults {
        pub spurious: u32,
        pub swap: u32,
    }
    pub fn faults() -> Faults {
        // swarm: most runs have none or one of the two
        match choose(4) {
            0 => Faults { spurious: 0, swap: 0 },
            1 => Faults { spurious: 25, swap: 0 },
            2 => Faults { spurious: 0, swap: 60 },
            _ => Faults { spurious: 20, swap: 50 },
        }
    }
    pub struct Task {
        cur: Arc<TW>,
        pub f: Faults,
        pub polls: u32,
    }
    impl Task {
        pub fn new(f: Faults) -> Self {
            Task { cur: Self::mk(), f, polls: 0 }
        }
        fn mk() -> Arc<TW> {
            Arc::new(TW { flag: AtomicBool::new(false), th: std::thread::current() })
        }
        /// Polls once with the current (possibly replaced) waker.
        pub fn poll<T>(&mut self, p: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
            if self.polls > 0 && self.f.swap > 0 && fault(self.f.swap, F_WAKER_SWAP) {
                self.cur = Self::mk();
            }
            self.polls += 1;
            ensure!(self.polls < 5000, "livelock", "a task was polled 5000 times without completing");
            self.cur.flag.swap(false, Ordering::AcqRel);
            let w = Waker::from(self.cur.clone());
            p(&mut Context::from_waker(&w))
        }
        /// Blocks until the latest waker is woken, or an injected spurious poll.
        pub fn wait(&mut self) {
            if self.f.spurious > 0 && fault(self.f.spurious, F_SPURIOUS_POLL) {
                return;
            }
            while !self.cur.flag.load(Ordering::Acquire) {
                std::thread::park();
            }
        }
        pub fn woken(&self) -> bool {
            self.cur.flag.load(Ordering::Acquire)
        }
        pub fn block_on_with<T>(&mut self, mut p: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
            loop {
                if let Poll::Ready(v) = self.poll(&mut p) {
                    return v;
                }
                self.wait();
            }
        }
        pub fn block_on<F: Future>(&mut self, f: F) -> F::Output {
            let mut f = Box::pin(f);
            self.block_on_with(|cx| f.as_mut().poll(cx))
        }
        /// Polls at most `n` times (waiting in between); None = still pending (about to be cancelled).
        pub fn poll_n<T>(&mut self, n: u32, mut p: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Option<T> {
            for i in 0..n {
                if let Poll::Ready(v) = self.poll(&mut p) {
                    return Some(v);
                }
                if i + 1 < n {
                    self.wait();
                }
            }
            None
        }
    }
    pub fn block_on<F: Future>(f: F) -> F::Output {
        Task::new(Faults { spurious: 0, swap: 0 }).block_on(f)
    }
    /// Lets other threads run for a while.
    pub fn dawdle(max: usize) {
        for _ in 0..choose(max + 1) {
            yield_now();
        }
    }

    /// An environment thread that wakes the wakers posted to it after
    /// arbitrary delays, in arbitrary order, sometimes twice.
    struct AlarmIn {
        q: std::sync::Mutex<(Vec<(Waker, Option<Arc<AtomicBool>>)>, bool)>,
        cv: std::sync::Condvar,
    }
    #[derive(Clone)]
    pub struct Alarm(Arc<AlarmIn>);
    impl Alarm {
        pub fn start() -> (Alarm, std::thread::JoinHandle<()>) {
            let a = Alarm(Arc::new(AlarmIn { q: Default::default(), cv: Default::default() }));
            let b = a.clone();
            let dup = [0, 0, 30][choose(3)];
            let j = std::thread::spawn(move || loop {
                let (w, flag) = {
                    let mut g = b.0.q.lock().unwrap();
                    while g.0.is_empty() && !g.1 {
                        g = b.0.cv.wait(g).unwrap();
                    }
                    if g.0.is_empty() {
                        return;
                    }
                    let i = choose(g.0.len());
                    if i > 0 {
                        count(F_REORDER);
                    }
                    g.0.remove(i)
                };
                dawdle(2);
                count(F_FOREIGN);
                if dup > 0 && fault(dup, F_DUPWAKE) {
                    w.wake_by_ref();
                }
                if let Some(f) = flag {
                    // only the wake-up orders this before the next poll
                    f.store(true, Ordering::Relaxed);
                }
                match choose(3) {
                    0 => w.wake(),
                    1 => w.wake_by_ref(),
                    _ => {
                        let c = w.clone();
                        drop(w);
                        c.wake();
                    }
                }
            });
            (a, j)
        }
        pub fn post(&self, w: Waker) {
            self.post_flag(w, None)
        }
        /// Sets the flag, then wakes.
        pub fn post_flag(&self, w: Waker, f: Option<Arc<AtomicBool>>) {
            self.0.q.lock().unwrap().0.push((w, f));
            self.0.cv.notify_one();
        }
        /// Everything posted before is still delivered.
        pub fn stop(&self) {
            self.0.q.lock().unwrap().1 = true;
            self.0.cv.notify_one();
        }
    }
    /// Readiness of a leaf in multi-threaded scenarios: `left` more Pendings,
    /// each followed by a wake-up from the alarm thread or from inside the poll.
    pub struct Leaf {
        left: usize,
        alarm: Alarm,
        ev: Event,
    }
    /// Waits for a condition that the alarm thread establishes and then signals.
    #[derive(Default)]
    pub struct Event(Option<(Arc<AtomicBool>, Waker)>);
    impl Event {
        /// True while the condition is not met; `mk` builds the waker to signal from the task's.
        pub fn waiting(&mut self, al: &Alarm, cx: &Context<'_>, mk: impl FnOnce() -> Waker) -> bool {
            let Some((f, w)) = &mut self.0 else { return false };
            if f.load(Ordering::Relaxed) {
                self.0 = None;
                return false;
            }
            if !w.will_wake(cx.waker()) {
                *w = cx.waker().clone();
                al.post_flag(mk(), Some(f.clone()));
            }
            true
        }
        pub fn arm(&mut self, al: &Alarm, cx: &Context<'_>, w: Waker) {
            let f = Arc::new(AtomicBool::new(false));
            self.0 = Some((f.clone(), cx.waker().clone()));
            al.post_flag(w, Some(f));
        }
    }
    impl Leaf {
        pub fn new(alarm: &Alarm, max: usize) -> Leaf {
            Leaf { left: choose(max + 1), alarm: alarm.clone(), ev: Event::default() }
        }
        pub fn rearm(&mut self, max: usize) {
            self.left = choose(max + 1);
        }
        pub fn poll(&mut self, cx: &mut Context<'_>) -> bool {
            if self.ev.waiting(&self.alarm, cx, || cx.waker().clone()) {
                return false;
            }
            if self.left == 0 {
                return true;
            }
            count(F_PENDING);
            self.left -= 1;
            match choose(5) {
                2 | 3 => self.ev.arm(&self.alarm, cx, cx.waker().clone()),
                0 => {
                    count(F_SELF_WAKE);
                    cx.waker().wake_by_ref();
                }
                1 => {
                    count(F_SELF_WAKE);
                    cx.waker().clone().wake();
                }
                _ => self.alarm.post(cx.waker().clone()),
            }
            false
        }
    }
}

pub mod sg {
    use super::*;
    use std::cell::RefCell;
    use std::rc::Rc;

    pub trait Ev {
        fn fire(&self);
    }
    static EVENTS: Ora<Vec<Rc<dyn Ev>>> = Ora::new(Vec::new());
    static CFG: Ora<GCfg> = Ora::new(GCfg { self_wake: 0, max_pend: 0, dup: 0, stale: 0 });
    #[derive(Clone, Copy)]
    pub struct GCfg {
        pub self_wake: u32, // % of pendings that wake during the poll
        pub max_pend: usize,
        pub dup: u32,   // % of events that wake twice
        pub stale: u32, // % of re-polls after which the replaced waker is also woken
    }
    /// Draws the readiness profile of an episode.
    pub fn begin() {
        episode();
        EVENTS.with(|e| e.clear());
        let c = GCfg {
            self_wake: [0, 0, 20, 60][choose(4)],
            max_pend: [0, 1, 1, 2][choose(4)],
            dup: [0, 0, 30][choose(3)],
            stale: [0, 0, 40][choose(3)],
        };
        CFG.with(|g| *g = c);
    }
    pub fn cfg() -> GCfg {
        CFG.with(|g| *g)
    }
    pub fn post(e: Rc<dyn Ev>) {
        EVENTS.with(|v| v.push(e))
    }
    /// Forgets all outstanding events.
    pub fn clear_events() {
        loop {
            let e = EVENTS.with(|e| e.pop());
            if e.is_none() {
                break;
            }
        }
    }
    pub fn pending_events() -> usize {
        EVENTS.with(|v| v.len())
    }
    /// Fires one pending event (in a chosen order); false if there is none.
    pub fn step() -> bool {
        let n = pending_events();
        if n == 0 {
            return false;
        }
        let i = choose(n);
        if i > 0 {
            count(F_REORDER);
        }
        let e = EVENTS.with(|v| v.remove(i));
        e.fire();
        true
    }

    /// Readiness of one leaf: how many more Pending results it gives before the
    /// next operation may proceed.
    struct GateIn {
        left: usize,
        out: bool,
        waker: Option<Waker>,
        closed: bool,
    }
    #[derive(Clone)]
    pub struct Gate(Rc<RefCell<GateIn>>);
    impl Ev for RefCell<GateIn> {
        fn fire(&self) {
            let w = {
                let mut g = self.borrow_mut();
                g.out = false;
                g.left = g.left.saturating_sub(1);
                g.waker.take()
            };
            if let Some(w) = w {
                if cfg().dup > 0 && fault(cfg().dup, F_DUPWAKE) {
                    w.wake_by_ref();
                }
                w.wake();
            }
        }
    }
    impl Gate {
        pub fn new() -> Self {
            Gate(Rc::new(RefCell::new(GateIn { left: choose(cfg().max_pend + 1), out: false, waker: None, closed: false })))
        }
        pub fn with(n: usize) -> Self {
            Gate(Rc::new(RefCell::new(GateIn { left: n, out: false, waker: None, closed: false })))
        }
        /// Draws the number of Pendings before the next operation.
        pub fn rearm(&self) {
            let n = choose(cfg().max_pend + 1);
            self.0.borrow_mut().left = n;
        }
        /// Is the leaf currently waiting for an event, i.e. owes a wake-up?
        pub fn waiting(&self) -> bool {
            self.0.borrow().waker.is_some()
        }
        /// True = ready.  Otherwise the latest waker is registered and an event is outstanding.
        pub fn poll(&self, cx: &mut Context<'_>) -> bool {
            unwind_point(U_PANIC);
            let mut g = self.0.borrow_mut();
            if g.left == 0 {
                return true;
            }
            count(F_PENDING);
            if g.out {
                let old = g.waker.replace(cx.waker().clone());
                drop(g);
                if let Some(o) = old {
                    if cfg().stale > 0 && !o.will_wake(cx.waker()) && fault(cfg().stale, F_STALE_WAKER) {
                        o.wake();
                    }
                }
                return false;
            }
            if cfg().self_wake > 0 && fault(cfg().self_wake, F_SELF_WAKE) {
                g.left -= 1;
                drop(g);
                if chance(50) {
                    cx.waker().wake_by_ref();
                } else {
                    cx.waker().clone().wake();
                }
                return false;
            }
            g.out = true;
            g.waker = Some(cx.waker().clone());
            drop(g);
            post(self.0.clone());
            false
        }
    }

    pub struct FW {
        flag: AtomicBool,
        id: u32,
    }
    static WAKES: AtomicU32 = AtomicU32::new(0);
    impl Wake for FW {
        fn wake(self: Arc<Self>) {
            self.wake_by_ref()
        }
        fn wake_by_ref(self: &Arc<Self>) {
            unwind_point(U_PANIC);
            self.flag.store(true, Ordering::SeqCst);
            WAKES.fetch_add(1, Ordering::Relaxed);
        }
    }
    /// Drives one task strictly.
    pub struct Task {
        cur: Arc<FW>,
        pub spurious: u32,
        pub swap: u32,
        pub polls: u32,
        pub limit: u32,
    }
    impl Task {
        pub fn new() -> Self {
            let (spurious, swap) = [(0, 0), (15, 0), (0, 60), (15, 50)][choose(4)];
            Task { cur: Arc::new(FW { flag: AtomicBool::new(true), id: 0 }), spurious, swap, polls: 0, limit: 3000 }
        }
        pub fn quiet() -> Self {
            Task { cur: Arc::new(FW { flag: AtomicBool::new(true), id: 0 }), spurious: 0, swap: 0, polls: 0, limit: 3000 }
        }
        pub fn poll<T>(&mut self, p: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
            unwind_point(U_CANCEL);
            if self.polls > 0 && self.swap > 0 && fault(self.swap, F_WAKER_SWAP) {
                self.cur = Arc::new(FW { flag: AtomicBool::new(false), id: self.polls });
            }
            self.polls += 1;
            ensure!(self.polls < self.limit, "livelock", "a task was polled {} times without completing", self.limit);
            self.cur.flag.store(false, Ordering::SeqCst);
            let w = Waker::from(self.cur.clone());
            let r = p(&mut Context::from_waker(&w));
            event(1, self.polls as u64, r.is_ready() as u64);
            r
        }
        pub fn woken(&self) -> bool {
            self.cur.flag.load(Ordering::SeqCst)
        }
        pub fn waker(&self) -> Waker {
            Waker::from(self.cur.clone())
        }
        /// Advances the environment until the task may be polled again.
        /// `idle` is called when nothing is left to happen: it may create more
        /// work (true) or admit that the task is stuck (false => lost wake-up).
        pub fn wait_or(&mut self, mut idle: impl FnMut() -> bool) {
            loop {
                if self.woken() {
                    // usually poll at once, sometimes let more events happen first
                    if pending_events() > 0 && chance(30) {
                        step();
                        continue;
                    }
                    return;
                }
                if self.spurious > 0 && fault(self.spurious, F_SPURIOUS_POLL) {
                    return;
                }
                if step() {
                    continue;
                }
                if !idle() {
                    fail("lost-wakeup", "the task returned Pending, its latest waker was never woken and nothing is left to happen");
                }
            }
        }
        pub fn wait(&mut self) {
            self.wait_or(|| false)
        }
        pub fn block_on_with<T>(&mut self, mut p: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
            loop {
                if let Poll::Ready(v) = self.poll(&mut p) {
                    return v;
                }
                self.wait();
            }
        }
        pub fn block_on<F: Future + ?Sized>(&mut self, mut f: Pin<&mut F>) -> F::Output {
            self.block_on_with(|cx| f.as_mut().poll(cx))
        }
        /// Runs until completion or until it has been pending `n` times (cancellation point).
        pub fn poll_n<T>(&mut self, n: u32, mut p: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Option<T> {
            for i in 0..n {
                if let Poll::Ready(v) = self.poll(&mut p) {
                    return Some(v);
                }
                if i + 1 < n {
                    self.wait();
                }
            }
            None
        }
    }
}
