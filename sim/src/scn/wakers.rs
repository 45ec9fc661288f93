//! Wakers made from Arcs, and type-erased futures.
use crate::ex::th;
use crate::rt::*;
use futures::task::{noop_waker, noop_waker_ref, waker, waker_ref, ArcWake, FutureObj, LocalFutureObj, UnsafeFutureObj};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::thread;

#[derive(Default)]
struct H {
    wakes: Vec<u32>, // per handle, delivered
    sent: Vec<u32>,  // and requested
    by_val: u32,
    sent_val: u32, // of these, those that give their waker away
    drops: Vec<u32>,
    live: Vec<i64>, // wakers + arcs we own
}
type O = &'static Ora<H>;
struct W {
    id: usize,
    data: u64,
    boom: bool,
    o: O,
    _t: Tracked,
}
impl ArcWake for W {
    fn wake_by_ref(a: &Arc<Self>) {
        let (id, d) = (a.id, a.data);
        ensure!(d == 0xfeed + id as u64, "waker-data", "wake reached a corrupted handle");
        a.o.with(|o| o.wakes[id] += 1);
        if chance(20) {
            // the handle may be shared again from inside the wake-up
            drop(waker(a.clone()));
        }
        a.boom();
    }
}
/// One that overrides `wake`.
struct W2(W);
impl ArcWake for W2 {
    fn wake(self: Arc<Self>) {
        let id = self.0.id;
        self.0.o.with(|o| {
            o.by_val += 1;
            o.wakes[id] += 1
        });
        self.0.boom();
    }
    fn wake_by_ref(a: &Arc<Self>) {
        let id = a.0.id;
        a.0.o.with(|o| o.wakes[id] += 1);
        a.0.boom();
    }
}
impl W {
    /// A wake-up that panics must leave the references balanced.
    fn boom(&self) {
        if self.boom && chance(30) {
            inject_panic();
        }
    }
}
impl Drop for W {
    fn drop(&mut self) {
        ensure!(self.data == 0xfeed + self.id as u64, "waker-data", "dropping a corrupted handle");
        self.data = 0;
        let id = self.id;
        self.o.with(|o| {
            o.drops[id] += 1;
            ensure!(o.drops[id] == 1, "waker-double-drop", "handle dropped twice");
            ensure!(o.live[id] <= 0, "waker-early-drop", "handle dropped while {} wakers are alive", o.live[id]);
        });
    }
}
fn mk(o: O) -> W {
    let id = o.with(|o| {
        o.wakes.push(0);
        o.sent.push(0);
        o.drops.push(0);
        o.live.push(0);
        o.wakes.len() - 1
    });
    W { id, data: 0xfeed + id as u64, boom: chance(30), o, _t: Tracked::new(id as u32) }
}
fn live(o: O, id: usize, d: i64) {
    o.with(|o| o.live[id] += d)
}
fn ops(mut ws: Vec<Waker>, id: usize, o: O, n: usize) {
    for _ in 0..n {
        if ws.is_empty() {
            break;
        }
        let i = choose(ws.len());
        match choose(7) {
            0 => {
                let c = ws[i].clone();
                live(o, id, 1);
                ws.push(c);
            }
            1 | 2 => {
                o.with(|o| o.sent[id] += 1);
                let _ = catch(|| ws[i].wake_by_ref());
            }
            3 => {
                o.with(|o| {
                    o.sent[id] += 1;
                    o.sent_val += 1;
                });
                let w = ws.swap_remove(i);
                live(o, id, -1);
                let _ = catch(|| w.wake());
            }
            4 => {
                let w = ws.swap_remove(i);
                live(o, id, -1);
                drop(w);
            }
            5 => {
                let mut cx = Context::from_waker(&ws[i]);
                let w = cx.waker().clone();
                live(o, id, 1);
                let _ = &mut cx;
                ws.push(w);
            }
            _ => {
                if ws.len() > 1 {
                    let j = (i + 1) % ws.len();
                    let c = ws[j].clone();
                    ws[i].clone_from(&c);
                }
                ensure!(!ws[i].will_wake(noop_waker_ref()), "waker-will-wake", "a real waker equals the no-op waker");
            }
        }
    }
    live(o, id, -(ws.len() as i64));
    drop(ws);
}
pub fn arc_wake() {
    let o = ora(H::default);
    let nth = 1 + choose(2);
    let n = 1 + choose(5);
    let two = chance(30);
    macro_rules! go {
        ($a:expr, $id:expr) => {{
            let a = $a;
            let id = $id;
            live(o, id, 1);
            let mut js = vec![];
            for _ in 0..nth {
                let ws: Vec<Waker> = (0..1 + choose(2))
                    .map(|_| {
                        live(o, id, 1);
                        waker(a.clone())
                    })
                    .collect();
                js.push(thread::spawn(move || ops(ws, id, o, n)));
            }
            // borrowed waker: no reference of its own, clones are owned
            {
                let r = waker_ref(&a);
                let mut extra = vec![];
                for _ in 0..choose(4) {
                    match choose(3) {
                        0 => {
                            o.with(|o| o.sent[id] += 1);
                            let _ = catch(|| r.wake_by_ref());
                        }
                        1 => {
                            live(o, id, 1);
                            extra.push((*r).clone());
                        }
                        _ => {
                            // will_wake is best effort: true only promises the same handle
                            let other = waker(Arc::new(mk(o)));
                            ensure!(!r.will_wake(&other) && !other.will_wake(&r), "waker-will-wake", "wakers of two handles are equal");
                        }
                    }
                }
                if let Some(e) = extra.pop() {
                    let mut cx = Context::from_waker(&e);
                    let _ = cx.waker();
                    let _ = &mut cx;
                    extra.push(e);
                }
                ops(extra, id, o, choose(3));
            }
            let keep = chance(50);
            if keep {
                for j in js {
                    j.join().unwrap();
                }
                let c = Arc::strong_count(&a);
                ensure!(c == 1, "waker-count", "{} references left after all wakers are gone", c - 1);
                ensure!(o.with(|o| o.drops[id]) == 0, "waker-early-drop", "handle dropped while a reference is alive");
                live(o, id, -1);
                drop(a);
            } else {
                live(o, id, -1);
                drop(a);
                for j in js {
                    j.join().unwrap();
                }
            }
        }};
    }
    let h = mk(o);
    let id = h.id;
    if two {
        go!(Arc::new(W2(h)), id);
    } else {
        go!(Arc::new(h), id);
    }
    o.with(|o| {
        let want = if two { o.sent_val } else { 0 };
        ensure!(o.by_val == want, "waker-by-value", "the handle's own wake(self) ran {} times for {want} wake-ups that gave their waker away", o.by_val);
        for i in 0..o.wakes.len() {
            ensure!(o.wakes[i] == o.sent[i], "waker-wakes", "handle {i} was woken {} times for {} wake-ups", o.wakes[i], o.sent[i]);
            ensure!(o.drops[i] == 1, "waker-leak", "handle {i} dropped {} times", o.drops[i]);
        }
    });
    let nw = noop_waker();
    nw.wake_by_ref();
    drop(nw);
    check_leaks("wakers");
}

// ------------------------------------------------------------ type-erased futures
struct F {
    id: usize,
    left: usize,
    o: &'static Ora<Vec<(u32, u32)>>, // polls, drops
    _t: Tracked,
    pad: [u64; 5],
}
impl Future for F {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
        let id = self.id;
        ensure!(self.pad == [id as u64; 5], "obj-corrupt", "future {id} corrupted");
        self.o.with(|o| {
            ensure!(o[id].1 == 0, "obj-polled-dropped", "future {id} polled after drop");
            o[id].0 += 1;
        });
        if self.left == 0 {
            return Poll::Ready(id as u32);
        }
        self.left -= 1;
        Poll::Pending
    }
}
impl Drop for F {
    fn drop(&mut self) {
        let id = self.id;
        self.o.with(|o| {
            o[id].1 += 1;
            ensure!(o[id].1 == 1, "obj-double-drop", "future {id} dropped twice");
        });
    }
}
struct Custom(Box<F>);
unsafe impl UnsafeFutureObj<'static, u32> for Custom {
    fn into_raw(self) -> *mut (dyn Future<Output = u32> + 'static) {
        Box::into_raw(self.0)
    }
    unsafe fn drop(ptr: *mut (dyn Future<Output = u32> + 'static)) {
        drop(Box::from_raw(ptr as *mut F))
    }
}
pub fn future_obj() {
    let o = ora(Vec::new);
    let mkf = |left: usize| {
        let id = o.with(|o: &mut Vec<(u32, u32)>| {
            o.push((0, 0));
            o.len() - 1
        });
        F { id, left, o, _t: Tracked::new(id as u32), pad: [id as u64; 5] }
    };
    let mut js = vec![];
    for _ in 0..1 + choose(3) {
        let left = choose(3);
        let f = mkf(left);
        let id = f.id;
        let polls = choose(4);
        let run = move |obj: FutureObj<'static, u32>| {
            let mut obj = obj;
            let mut n = 0;
            let mut done = false;
            let mut t = th::Task::new(th::faults());
            for k in 0..polls {
                n += 1;
                match t.poll(|cx| Pin::new(&mut obj).poll(cx)) {
                    Poll::Ready(v) => {
                        ensure!(v == id as u32 && k == left, "obj-value", "wrong result or too early");
                        done = true;
                        break;
                    }
                    Poll::Pending => ensure!(k < left, "obj-value", "pending although the future is ready"),
                }
            }
            let _ = done;
            o.with(|o| ensure!(o[id].0 == n as u32, "obj-polls", "{n} polls became {}", o[id].0));
            if chance(50) {
                let_go(obj);
            } else {
                let mut l: LocalFutureObj<'static, u32> = obj.into();
                if chance(30) && !done {
                    let _ = t.poll(|cx| Pin::new(&mut l).poll(cx));
                }
                if chance(50) {
                    drop(unsafe { l.into_future_obj() });
                } else {
                    let_go(l);
                }
            }
            o.with(|o| ensure!(o[id].1 == 1, "obj-leak", "future {id} dropped {} times", o[id].1));
        };
        match choose(5) {
            4 => {
                // borrowed: the object must not drop the future
                let mut f = f;
                {
                    let mut obj = LocalFutureObj::new(&mut f);
                    let mut t = th::Task::new(th::faults());
                    for _ in 0..polls.min(left + 1) {
                        let _ = t.poll(|cx| Pin::new(&mut obj).poll(cx));
                    }
                    if chance(30) {
                        let o2 = LocalFutureObj::new(Box::new(obj));
                        drop(o2);
                    }
                }
                o.with(|o| ensure!(o[id].1 == 0, "obj-borrow-dropped", "a borrowed future was dropped"));
                drop(f);
                o.with(|o| ensure!(o[id].1 == 1, "obj-leak", "future dropped {} times", o[id].1));
            }
            k => {
                let obj = match k {
                    0 => FutureObj::new(Box::new(f)),
                    1 => FutureObj::new(Box::pin(f)),
                    2 => {
                        let b: Pin<Box<dyn Future<Output = u32> + Send>> = Box::pin(f);
                        FutureObj::new(b)
                    }
                    _ => FutureObj::new(Custom(Box::new(f))),
                };
                js.push(thread::spawn(move || run(obj)));
            }
        }
    }
    for j in js {
        j.join().unwrap();
    }
    check_leaks("future objects");
}
