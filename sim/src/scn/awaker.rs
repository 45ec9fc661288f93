//! AtomicWaker: register/check against set/wake.
use crate::ex::th;
use crate::rt::*;
use futures::task::AtomicWaker;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};
use std::sync::Arc;
use std::task::{Poll, Wake, Waker};
use std::thread;

/// A waker that only sets a relaxed flag: it adds no ordering of its own.
struct Rw {
    flag: AtomicBool,
    _t: Tracked,
}
impl Wake for Rw {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.store(true, Relaxed);
    }
}
struct Sh {
    aw: AtomicWaker,
    n: AtomicU32,
    data: std::cell::UnsafeCell<u64>,
}
unsafe impl Sync for Sh {}
unsafe impl Send for Sh {}

pub fn run() {
    let nw = 1 + choose(3);
    let sh = Arc::new(Sh { aw: AtomicWaker::new(), n: AtomicU32::new(0), data: std::cell::UnsafeCell::new(0) });
    let mut js = vec![];
    let style = choose(3);
    let per = 1 + choose(2);
    let plain = nw == 1 && per == 1 && chance(50);
    for _ in 0..nw {
        let s = sh.clone();
        js.push(thread::spawn(move || {
            for _ in 0..per {
                th::dawdle(2);
                if plain {
                    unsafe { *s.data.get() = 42 };
                }
                s.n.fetch_add(1, Relaxed);
                match style {
                    0 => s.aw.wake(),
                    1 => {
                        if let Some(w) = s.aw.take() {
                            if chance(50) {
                                yield_now();
                            }
                            w.wake()
                        }
                    }
                    _ => {
                        if chance(50) {
                            s.aw.wake()
                        } else if let Some(w) = s.aw.take() {
                            w.wake_by_ref()
                        }
                    }
                }
            }
        }));
    }
    let total = (nw * per) as u32;
    if choose(5) == 0 {
        // several threads registering at once: no promise about who is woken,
        // but nothing may be corrupted or leaked
        for _ in 0..1 + choose(2) {
            let s = sh.clone();
            js.push(thread::spawn(move || {
                for i in 0..3 {
                    let w = Waker::from(Arc::new(Rw { flag: AtomicBool::new(false), _t: Tracked::new(i) }));
                    s.aw.register(&w);
                }
            }));
        }
        for i in 0..3 {
            let w = Waker::from(Arc::new(Rw { flag: AtomicBool::new(false), _t: Tracked::new(i) }));
            sh.aw.register(&w);
            if chance(30) {
                drop(sh.aw.take());
            }
        }
    } else if chance(50) {
        let mut t = th::Task::new(th::faults());
        t.block_on_with(|cx| {
            sh.aw.register(cx.waker());
            if sh.n.load(Relaxed) >= total {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        });
        // seeing the relaxed counter orders nothing; having been woken does
        if plain && t.polls > 1 && t.f.spurious == 0 {
            let v = unsafe { *sh.data.get() };
            ensure!(v == 42, "awaker-data", "data published before wake not visible");
        }
    } else {
        // relaxed wakers, and a flag that is re-checked only when woken
        let mut seen = 0;
        let mut cur = Arc::new(Rw { flag: AtomicBool::new(false), _t: Tracked::new(0) });
        let swap = chance(50);
        let mut polls = 0;
        loop {
            if swap && chance(50) {
                count(F_WAKER_SWAP);
                cur = Arc::new(Rw { flag: AtomicBool::new(false), _t: Tracked::new(0) });
            }
            cur.flag.store(false, Relaxed);
            let w = Waker::from(cur.clone());
            sh.aw.register(&w);
            drop(w);
            let v = sh.n.load(Relaxed);
            ensure!(v >= seen, "awaker-backwards", "counter went backwards");
            seen = v;
            polls += 1;
            if v >= total {
                break;
            }
            while !cur.flag.load(Relaxed) {
                // a lost wake-up shows as all other threads finished and this one yielding forever
                yield_now();
            }
        }
        if plain && polls > 1 {
            let v = unsafe { *sh.data.get() };
            ensure!(v == 42, "awaker-data", "data published before wake not visible");
        }
    }
    for j in js {
        j.join().unwrap();
    }
    if chance(30) {
        let w = Waker::from(Arc::new(Rw { flag: AtomicBool::new(false), _t: Tracked::new(9) }));
        sh.aw.register(&w);
        if chance(50) {
            let r = Arc::new(Rw { flag: AtomicBool::new(false), _t: Tracked::new(10) });
            sh.aw.register(&Waker::from(r.clone()));
            sh.aw.wake();
            ensure!(r.flag.load(Relaxed), "awaker-lost", "wake did not reach the latest registered waker");
        }
        if chance(50) {
            let r = Arc::new(Rw { flag: AtomicBool::new(false), _t: Tracked::new(11) });
            sh.aw.register(&Waker::from(r.clone()));
            if let Some(t) = sh.aw.take() {
                t.wake();
            }
            ensure!(r.flag.load(Relaxed), "awaker-take", "take did not return the registered waker");
            ensure!(sh.aw.take().is_none(), "awaker-take", "take returned a waker twice");
        }
    }
    drop(sh);
    check_leaks("atomic waker");
}
