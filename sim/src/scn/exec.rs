//! Executors: block_on, LocalPool, ThreadPool.
use crate::ex::th;
use crate::rt::*;
use futures::executor::{block_on, block_on_stream, LocalPool, LocalSpawner, ThreadPool};
use futures::future::{FutureExt, RemoteHandle};
use futures::stream::{Stream, StreamExt};
use futures::task::{FutureObj, LocalFutureObj, LocalSpawn, LocalSpawnExt, Spawn, SpawnError, SpawnExt};
use std::rc::Rc;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// A task object from every kind of owning pointer.
fn fobj<F: Future<Output = ()> + Send + 'static>(f: F) -> FutureObj<'static, ()> {
    match choose(6) {
        0 => Box::new(f).into(),
        1 => Box::pin(f).into(),
        2 => (Box::new(f) as Box<dyn Future<Output = ()> + Send>).into(),
        3 => (Box::pin(f) as Pin<Box<dyn Future<Output = ()> + Send>>).into(),
        4 => FutureObj::new(Box::pin(FutureObj::new(Box::new(f)))),
        _ => unsafe { LocalFutureObj::new(Box::pin(f)).into_future_obj() },
    }
}
fn lobj<F: Future<Output = ()> + 'static>(f: F) -> LocalFutureObj<'static, ()> {
    match choose(5) {
        0 => Box::new(f).into(),
        1 => Box::pin(f).into(),
        2 => (Box::new(f) as Box<dyn Future<Output = ()>>).into(),
        3 => (Box::pin(f) as Pin<Box<dyn Future<Output = ()>>>).into(),
        _ => LocalFutureObj::new(Box::pin(LocalFutureObj::new(Box::new(f)))),
    }
}
/// Spawning through every kind of pointer to a spawner.
fn via<S: Spawn + Clone + 'static>(s: &S, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
    fn go<S: Spawn>(s: S, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        s.status()?;
        s.spawn_obj(f)
    }
    match choose(7) {
        0 => go(s, f),
        1 => go(&mut s.clone(), f),
        2 => go(Box::new(s.clone()), f),
        3 => go(Rc::new(s.clone()), f),
        4 => go(Arc::new(s.clone()), f),
        5 => go(Box::new(s.clone()) as Box<dyn Spawn>, f),
        _ => go(s.clone(), f),
    }
}
fn lvia<S: LocalSpawn + Clone + 'static>(s: &S, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
    fn go<S: LocalSpawn>(s: S, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        s.status_local()?;
        s.spawn_local_obj(f)
    }
    match choose(7) {
        0 => go(s, f),
        1 => go(&mut s.clone(), f),
        2 => go(Box::new(s.clone()), f),
        3 => go(Rc::new(s.clone()), f),
        4 => go(Arc::new(s.clone()), f),
        5 => go(Rc::new(s.clone()) as Rc<dyn LocalSpawn>, f),
        _ => go(s.clone(), f),
    }
}
#[derive(Default, Clone)]
struct Tk {
    polls: u32,
    wakes: u64,        // wake-ups begun
    wakes_done: Vec<Stamp>, // and finished
    consumed: u64,     // wake-ups finished when the last poll began
    in_poll: bool,
    done: bool,
    dropped: bool,
}
#[derive(Default)]
struct H {
    t: Vec<Tk>,
    exec_tid: Option<u32>,
    done: u32,
}
type O = &'static Ora<H>;
struct Sig {
    w: Waker,
    id: usize,
    o: O,
}
impl Wake for Sig {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.o.with(|o| o.t[self.id].wakes += 1);
        if chance(50) {
            self.w.wake_by_ref();
        } else {
            self.w.clone().wake();
        }
        self.o.with(|o| o.t[self.id].wakes_done.push(stamp()));
    }
}
fn new_id(o: O) -> usize {
    o.with(|o| {
        o.t.push(Tk::default());
        o.t.len() - 1
    })
}
/// Lets tasks of a local pool own its spawner; they never leave its thread, which `exec_tid` checks.
#[derive(Clone)]
struct Here(LocalSpawner);
unsafe impl Send for Here {}
#[derive(Clone)]
enum Spawner {
    None,
    Local(Here),
    Pool(ThreadPool),
}
struct Fu {
    id: usize,
    left: usize,
    never: bool,
    boom: bool,
    keep: Option<Waker>,
    cnt: u64,
    ev: th::Event,
    al: th::Alarm,
    sp: Spawner,
    depth: u32,
    o: O,
    done: Option<Arc<(Mutex<u32>, Condvar)>>,
    _t: Tracked,
}
impl Fu {
    fn new(al: &th::Alarm, sp: Spawner, depth: u32, o: O) -> Fu {
        Fu { id: new_id(o), left: choose(4), never: false, boom: false, keep: None, cnt: 0, ev: Default::default(), al: al.clone(), sp, depth, o, done: None, _t: Tracked::new(0) }
    }
    fn sig(&self, cx: &Context<'_>) -> Waker {
        Waker::from(Arc::new(Sig { w: cx.waker().clone(), id: self.id, o: self.o }))
    }
    fn spawn_child(&mut self) {
        if self.depth == 0 || matches!(self.sp, Spawner::None) || !chance(40) {
            return;
        }
        let mut c = Fu::new(&self.al, self.sp.clone(), self.depth - 1, self.o);
        c.done = self.done.clone();
        let r = match &self.sp {
            Spawner::Local(s) => {
                if chance(50) {
                    s.0.spawn_local(c)
                } else {
                    s.0.spawn(c)
                }
            }
            Spawner::Pool(p) => p.spawn(c),
            _ => Ok(()),
        };
        ensure!(r.is_ok(), "exec-spawn", "spawning from a running task failed");
    }
}
impl Future for Fu {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let id = self.id;
        self.o.with(|o| {
            if let Some(t) = o.exec_tid {
                ensure!(t == tid(), "exec-thread", "task {id} polled by another thread");
            }
            let t = &mut o.t[id];
            ensure!(!t.in_poll, "exec-overlap", "task {id} polled by two threads at once");
            ensure!(!t.done && !t.dropped, "exec-polled-done", "task {id} polled after completing");
            t.in_poll = true;
            t.polls += 1;
            t.consumed = t.wakes;
        });
        self.cnt += 1;
        if chance(20) {
            yield_now();
        }
        self.spawn_child();
        if self.never {
            self.keep = Some(cx.waker().clone());
            self.o.with(|o| o.t[id].in_poll = false);
            return Poll::Pending;
        }
        if chance(10) {
            count(F_STALE_WAKER);
            let s = self.sig(cx);
            self.al.post(s);
        }
        let al = self.al.clone();
        let mut ev = std::mem::take(&mut self.ev);
        let wait = ev.waiting(&al, cx, || self.sig(cx));
        self.ev = ev;
        if wait {
            self.o.with(|o| o.t[id].in_poll = false);
            return Poll::Pending;
        }
        if self.left > 0 {
            self.left -= 1;
            count(F_PENDING);
            match choose(6) {
                1..=3 => {
                    let s = self.sig(cx);
                    self.ev.arm(&al, cx, s);
                }
                0 => {
                    count(F_SELF_WAKE);
                    let s = self.sig(cx);
                    s.wake();
                }
                _ => {
                    let s = self.sig(cx);
                    self.al.post(s);
                }
            }
            if chance(30) {
                yield_now();
            }
            self.cnt += 1;
            self.o.with(|o| o.t[id].in_poll = false);
            return Poll::Pending;
        }
        if self.boom {
            self.o.with(|o| {
                o.t[id].in_poll = false;
                o.t[id].done = true;
            });
            inject_panic();
        }
        self.o.with(|o| {
            o.t[id].in_poll = false;
            o.t[id].done = true;
            o.done += 1;
        });
        Poll::Ready(())
    }
}
impl Drop for Fu {
    fn drop(&mut self) {
        self.cnt += 1;
        let id = self.id;
        self.o.with(|o| {
            ensure!(!o.t[id].dropped, "exec-double-drop", "task {id} dropped twice");
            o.t[id].dropped = true;
        });
        if let Some(d) = self.done.take() {
            *d.0.lock().unwrap() += 1;
            d.1.notify_all();
        }
    }
}
/// Finished wake-ups of unfinished tasks that are visible here. A wake-up may be merged into one
/// that is still under way on another thread and take effect with it, so tasks with one do not count.
fn owed(o: O) -> Vec<(usize, u64)> {
    o.with(|o| o.t.iter().enumerate().filter(|(_, t)| !t.done && !t.dropped).map(|(i, t)| (i, if t.polls == 0 { u64::MAX } else if t.wakes != t.wakes_done.len() as u64 { 0 } else { t.wakes_done.iter().filter(|s| s.seen()).count() as u64 })).collect())
}
fn undone(o: O) -> usize {
    o.with(|o| o.t.iter().filter(|t| !t.done && !t.dropped).count())
}
struct Count {
    left: usize,
    n: u32,
    i: u32,
    al: th::Alarm,
}
impl Stream for Count {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        if self.left > 0 {
            self.left -= 1;
            self.al.post(cx.waker().clone());
            return Poll::Pending;
        }
        self.left = choose(3);
        if self.i < self.n {
            self.i += 1;
            Poll::Ready(Some(self.i - 1))
        } else {
            Poll::Ready(None)
        }
    }
}

pub fn local() {
    let o = ora(H::default);
    o.with(|o| o.exec_tid = Some(tid()));
    let (al, aj) = th::Alarm::start();
    for _ in 0..1 + choose(2) {
        match choose(5) {
            0 => {
                let f = Fu::new(&al, Spawner::None, 0, o);
                let id = f.id;
                block_on(f);
                ensure!(o.with(|o| o.t[id].done), "exec-early", "block_on returned before its future completed");
            }
            1 => {
                let n = choose(4) as u32;
                let mut s = block_on_stream(Count { left: choose(3), n, i: 0, al: al.clone() });
                let k = choose(n as usize + 1) as u32;
                let mut v: Vec<u32> = s.by_ref().take(k as usize).collect();
                ensure!(s.i == k, "exec-stream", "block_on_stream took {} items to yield {k}", s.i);
                if chance(30) {
                    // what was not asked for is still in the stream
                    s.left = 0;
                    let rest = s.into_inner();
                    v.extend(block_on(rest.collect::<Vec<_>>()));
                } else {
                    v.extend(s);
                }
                ensure!(v == (0..n).collect::<Vec<_>>(), "exec-stream", "block_on_stream yielded {v:?} of {n}");
            }
            _ => pool(&al, o),
        }
    }
    if chance(10) {
        // executors do not nest, and the refusal leaves the outer one usable
        let f = Fu::new(&al, Spawner::None, 0, o);
        block_on(async {
            let r = allow_panic(|| block_on(async {}));
            ensure!(r.is_err(), "exec-nested", "a nested block_on was accepted");
            f.await
        });
        block_on(async {});
    }
    al.stop();
    aj.join().unwrap();
    drop(al);
    check_leaks("local executors");
}
fn pool(al: &th::Alarm, o: O) {
    let mut p = if chance(50) { LocalPool::new() } else { LocalPool::default() };
    let sp = p.spawner();
    ensure!(sp.status().is_ok() && sp.status_local().is_ok(), "exec-shutdown", "the spawner of a live pool says it is gone");
    let spawn = |p: &LocalPool| {
        let f = Fu::new(al, Spawner::Local(Here(sp.clone())), 2, o);
        let s = p.spawner();
        let r = if chance(50) { lvia(&s, lobj(f)) } else { via(&s, fobj(f)) };
        ensure!(r.is_ok(), "exec-spawn", "spawn failed on a live pool");
    };
    for _ in 0..choose(3) {
        spawn(&p);
    }
    for _ in 0..1 + choose(3) {
        match choose(6) {
            0 => {
                p.run();
                let u = undone(o);
                ensure!(u == 0, "exec-run", "run returned with {u} tasks unfinished");
            }
            1 => {
                let mut f = Fu::new(al, Spawner::Local(Here(sp.clone())), 1, o);
                f.depth = 1;
                let id = f.id;
                match choose(5) {
                    0 => p.run_until(lobj(f)),
                    1 => p.run_until(fobj(f)),
                    2 => {
                        let mut f = std::pin::pin!(f);
                        match choose(3) {
                            0 => p.run_until(FutureObj::new(f.as_mut())),
                            1 => p.run_until(LocalFutureObj::new(f.as_mut() as Pin<&mut (dyn Future<Output = ()> + '_)>)),
                            _ => p.run_until(f.as_mut()),
                        }
                    }
                    3 => {
                        let mut f = Box::pin(f);
                        match choose(3) {
                            0 => p.run_until(FutureObj::new(&mut f)),
                            1 => p.run_until(LocalFutureObj::new(&mut f as &mut (dyn Future<Output = ()> + Unpin + '_))),
                            _ => p.run_until(&mut f),
                        }
                    }
                    _ => p.run_until(f),
                }
                ensure!(o.with(|o| o.t[id].done), "exec-early", "run_until returned before its future completed");
            }
            2 => {
                // the handle resolves although the task is only run by the pool
                let f = Fu::new(al, Spawner::Local(Here(sp.clone())), 1, o);
                let id = f.id;
                let h: RemoteHandle<u32> = sp.spawn_local_with_handle(f.map(|_| 4)).unwrap();
                let v = p.run_until(h);
                ensure!(v == 4 && o.with(|o| o.t[id].done), "exec-handle", "wrong result from a spawned handle");
            }
            3 => {
                let before = owed(o);
                p.run_until_stalled();
                stalled(o, &before, "run_until_stalled");
            }
            4 => {
                let before = owed(o);
                let d0 = o.with(|o| o.done);
                let r = p.try_run_one();
                let d1 = o.with(|o| o.done);
                ensure!(d1 - d0 == r as u32, "exec-run-one", "try_run_one returned {r} but {} tasks completed", d1 - d0);
                if !r {
                    stalled(o, &before, "try_run_one");
                }
            }
            _ => spawn(&p),
        }
    }
    if chance(50) {
        p.run();
        let u = undone(o);
        ensure!(u == 0, "exec-run", "run returned with {u} tasks unfinished");
    } else if undone(o) > 0 {
        count(F_CANCEL);
    }
    let_go(p);
    let u = undone(o);
    ensure!(u == 0, "exec-drop", "{u} tasks outlive the pool");
    ensure!(sp.status().is_err() && sp.status_local().is_err(), "exec-shutdown", "spawner does not notice that the pool is gone");
    let f = Fu::new(al, Spawner::None, 0, o);
    let id = f.id;
    let r = if chance(50) { lvia(&sp, lobj(f)) } else { via(&sp, fobj(f)) };
    ensure!(r.is_err(), "exec-shutdown", "spawn on a dropped pool succeeded");
    ensure!(o.with(|o| o.t[id].dropped), "exec-drop", "a refused task was not dropped");
}
/// After a non-blocking run: everything runnable at its start has been polled,
/// and so has everything woken or spawned by the tasks themselves meanwhile.
fn stalled(o: O, before: &[(usize, u64)], what: &str) {
    o.with(|o| {
        for &(i, w) in before {
            let t = &o.t[i];
            if t.done || t.dropped {
                continue;
            }
            ensure!(t.polls > 0, "exec-stalled", "{what} returned without polling new task {i}");
            if w != u64::MAX {
                ensure!(t.consumed >= w, "exec-stalled", "{what} returned although task {i} had been woken before");
            }
        }
        for (i, t) in o.t.iter().enumerate() {
            ensure!(t.done || t.dropped || t.polls > 0, "exec-stalled", "{what} returned without polling task {i} spawned meanwhile");
        }
    })
}

pub fn thread_pool() {
    pooled(false)
}
/// Panicking tasks do not keep the pool from running the others.
pub fn thread_pool_panics() {
    pooled(true)
}
/// A task that panics inside a local pool: the panic reaches the caller and the pool keeps the others.
pub fn local_panics() {
    let o = ora(H::default);
    o.with(|o| o.exec_tid = Some(tid()));
    let (al, aj) = th::Alarm::start();
    let mut p = LocalPool::new();
    let sp = p.spawner();
    let n = 1 + choose(4);
    let mut bad = 0;
    for _ in 0..n {
        let mut f = Fu::new(&al, Spawner::Local(Here(sp.clone())), 1, o);
        f.boom = chance(50);
        bad += f.boom as u32;
        sp.spawn_local(f).unwrap();
    }
    let cancel = chance(30);
    let mut seen = 0;
    loop {
        let r = match choose(3) {
            0 => catch(|| p.run_until_stalled()).map(|_| false),
            1 => catch(|| p.try_run_one()).map(|_| false),
            _ => catch(|| p.run()).map(|_| true),
        };
        match r {
            Ok(true) => break,
            Ok(false) => th::dawdle(2),
            Err(e) => {
                ensure!(e.downcast_ref::<Injected>().is_some(), "exec-panic", "the pool raised a panic of its own");
                seen += 1;
            }
        }
        if cancel && chance(30) {
            break;
        }
    }
    if !cancel {
        let u = undone(o);
        ensure!(u == 0, "exec-run", "run returned with {u} tasks unfinished");
        ensure!(seen == bad, "exec-panic", "{bad} tasks panicked, {seen} panics were reported");
    }
    // the executor state of the thread is usable again
    block_on(async {});
    let_go(p);
    let u = undone(o);
    ensure!(u == 0, "exec-drop", "{u} tasks outlive the pool");
    drop(sp);
    al.stop();
    aj.join().unwrap();
    drop(al);
    check_leaks("local pool");
}
fn pooled(panics: bool) {
    let o = ora(H::default);
    let size = 1 + choose(2);
    let fail = chance(12);
    let gate = Arc::new((Mutex::new(0u32), Condvar::new()));
    let stops = Arc::new((Mutex::new(0u32), Condvar::new()));
    let st2 = stops.clone();
    let started = Arc::new(AtomicU32::new(0));
    let started2 = started.clone();
    threadfail(fail);
    let r = ThreadPool::builder()
        .pool_size(size)
        .name_prefix("w")
        .stack_size(if chance(50) { 0 } else { 1 << 20 })
        .after_start(move |i| {
            ensure!(i < size, "pool-hook", "after_start index {i}");
            started2.fetch_add(1, Ordering::SeqCst);
        })
        .before_stop(move |i| {
            ensure!(i < size, "pool-hook", "before_stop index {i}");
            *st2.0.lock().unwrap() += 1;
            st2.1.notify_all();
        })
        .create();
    threadfail(false);
    let p = match r {
        Ok(p) => p,
        Err(_) => {
            ensure!(fail, "pool-create", "creating the pool failed although every thread could be created");
            // the workers that were created must exit; the simulator reports them as a deadlock otherwise
            return;
        }
    };
    let (al, aj) = th::Alarm::start();
    // one client, or two that use the same handle
    let p = Arc::new(p);
    let work = {
        let (al, gate) = (al.clone(), gate.clone());
        move |p: &ThreadPool, n: usize| {
            let mut handles = vec![];
            for _ in 0..n {
                let sp = if chance(60) { Spawner::Pool(p.clone()) } else { Spawner::None };
                let mut f = Fu::new(&al, sp, 1, o);
                f.done = Some(gate.clone());
                f.boom = panics && chance(40);
                match choose(3) {
                    0 => p.spawn_ok(f),
                    1 => via(p, fobj(f)).unwrap(),
                    _ => {
                        let boom = f.boom;
                        handles.push((boom, p.spawn_with_handle(f.map(|_| 9u32)).unwrap()))
                    }
                }
                th::dawdle(1);
            }
            for (boom, h) in handles {
                match catch(|| th::Task::new(th::faults()).block_on(h)) {
                    Ok(v) => ensure!(v == 9 && !boom, "pool-handle", "wrong result"),
                    Err(e) => ensure!(boom && e.downcast_ref::<Injected>().is_some(), "pool-handle", "the handle raised a panic its task did not"),
                }
            }
        }
    };
    let second = chance(30).then(|| {
        let (p, work) = (p.clone(), work.clone());
        std::thread::spawn(move || work(&p, 1 + choose(2)))
    });
    work(&p, choose(4));
    drop(work);
    if let Some(j) = second {
        j.join().unwrap();
    }
    if chance(40) {
        // work must finish even if our handle goes first
        let_go(p);
        wait_all(&gate, o);
    } else {
        wait_all(&gate, o);
        let_go(p);
    }
    let u = undone(o);
    ensure!(u == 0, "pool-lost", "{u} tasks were dropped without completing");
    o.with(|o| {
        for (i, t) in o.t.iter().enumerate() {
            ensure!(t.done, "pool-lost", "task {i} was dropped without completing");
        }
    });
    al.stop();
    aj.join().unwrap();
    drop(al);
    let mut g = stops.0.lock().unwrap();
    while *g < size as u32 {
        g = stops.1.wait(g).unwrap();
    }
    drop(g);
    let s = started.load(Ordering::SeqCst);
    ensure!(s == size as u32, "pool-hook", "after_start ran {s} times for {size} workers");
    check_leaks("thread pool");
}
fn wait_all(gate: &Arc<(Mutex<u32>, Condvar)>, o: O) {
    let mut g = gate.0.lock().unwrap();
    while undone(o) > 0 {
        g = gate.1.wait(g).unwrap();
    }
}
