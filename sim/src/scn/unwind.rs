//! Episodes of the other scenarios, cut short: by dropping everything between
//! two polls, or by a panic in a leaf, closure, clone or waker.  Whatever the
//! library owned must be dropped, once.
use super::*;
use crate::ex::sg::*;
use crate::leaf::*;
use crate::rt::*;
use futures::future::FutureExt;
use futures::io::{AsyncBufReadExt, AsyncReadExt};
use futures::stream::{self, FusedStream, Stream, StreamExt};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::task::{Context, Poll};

fn cut(f: fn()) {
    let (k, n) = if chance(40) { (U_CANCEL, 1 + choose(10) as u32) } else { (U_PANIC, 1 + choose([6, 30, 80][choose(3)]) as u32) };
    arm_unwind(k, n);
    let r = catch(f);
    let struck = disarm_unwind();
    clear_events();
    if let Err(e) = r {
        ensure!(struck && e.is::<Injected>(), "unexpected-panic", "the library replaced the panic of user code");
        oob(|| drop(e));
        check_leaks("after unwinding");
    }
}
pub fn combos() {
    cut([combo::joins, combo::try_joins, combo::selects, combo::macros, futs::run, futs::run][choose(6)])
}
pub fn strs() {
    cut([streams::adapters, streams::consumers, streams::try_adapters, streams::try_consumers, streams::take_until][choose(5)])
}
pub fn merges() {
    cut([conc::buffers, conc::ordered, merge::fixed, merge::growing, merge::flatten][choose(5)])
}
pub fn ios() {
    cut([ioread::readers, ioread::seeks, iowrite::writers, iowrite::sinks, sinks::adapters, compat::values][choose(6)])
}
struct Us<S>(S);
impl<S> std::panic::UnwindSafe for Us<S> {}
impl<S: Stream + Unpin> Stream for Us<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        self.0.poll_next_unpin(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<S: FusedStream + Unpin> FusedStream for Us<S> {
    fn is_terminated(&self) -> bool {
        self.0.is_terminated()
    }
}
/// A panic caught by the library's own adapters is handed over, once.
pub fn caught() {
    match choose(4) {
        0 => buffers(),
        1 => go_on(),
        _ => caught_(),
    }
}
/// A source panics in the middle of a read: the caller's buffer is left as by a cancelled read.
fn buffers() {
    begin();
    let evs = ioread::contents(40, 0);
    let bytes: Vec<u8> = evs.iter().map(|e| if let ioread::Ev::B(b) = e { *b } else { unreachable!() }).collect();
    let mut r = ioread::Rd::new(evs);
    let mut t = Task::new();
    let old = b"xyz";
    let n = 1 + choose(6) as u32;
    match choose(3) {
        0 | 1 => {
            let until = chance(40);
            let mut buf = old.to_vec();
            if chance(50) {
                buf.reserve(choose(64));
            }
            arm_unwind(U_PANIC, n);
            let x = catch(|| if until { t.block_on(Pin::new(&mut r.read_until(b'\n', &mut buf))) } else { t.block_on(Pin::new(&mut r.read_to_end(&mut buf))) });
            disarm_unwind();
            let took = bytes.len() - r.left();
            ensure!(buf.starts_with(old) && buf[3..] == bytes[..took], "buffer", "the source gave {took} bytes ({:?}), the buffer is {:?}", &bytes[..took], &buf);
            ensure!(x.is_err() || matches!(x, Ok(Ok(m)) if m == took), "count", "wrong number of bytes");
        }
        _ => {
            let mut buf = "xyz".to_string();
            arm_unwind(U_PANIC, n);
            let x = catch(|| t.block_on(Pin::new(&mut r.read_line(&mut buf))));
            disarm_unwind();
            let took = bytes.len() - r.left();
            match x {
                Ok(Ok(m)) => ensure!(m == took && buf.as_bytes()[3..] == bytes[..took], "buffer", "read_line of {:?} left {:?}", &bytes[..took], &buf),
                Ok(Err(_)) => ensure!(buf == "xyz", "buffer", "a failed read_line left {buf:?}"),
                Err(_) => ensure!(buf == "xyz", "buffer", "read_line was cut short by a panic and left {buf:?}"),
            }
        }
    }
    clear_events();
}
/// One member of a set panics; the others are still there.
fn go_on() {
    begin();
    let n = 1 + choose(3);
    let bad = choose(n);
    let lens: Vec<u32> = (0..n).map(|_| choose(4) as u32).collect();
    let p = 1 + choose(5);
    let mk = |i: usize| {
        let s = Src::new((0..lens[i]).map(move |k| v(i as u32 * 10 + k)));
        if i == bad { s.panic_in(p) } else { s }
    };
    let srcs: Vec<_> = (0..n).map(mk).collect();
    let kind = choose(3);
    let mut s: Pin<Box<dyn Stream<Item = V>>> = match kind {
        0 => Box::pin(stream::iter(srcs).flatten_unordered(if chance(50) { None } else { Some(1 + choose(2)) })),
        1 => Box::pin(stream::select_all(srcs)),
        _ => {
            drop(srcs);
            let m = 1 + choose(3);
            Box::pin(stream::iter((0..n).map(|i| if i == bad { Fut::new(v(i as u32 * 10)).panic_in(p) } else { Fut::new(v(i as u32 * 10)) })).buffer_unordered(m))
        }
    };
    let mut got = vec![0u32; n];
    let mut died = false;
    let mut t = Task::new();
    loop {
        match catch(|| t.block_on_with(|cx| s.poll_next_unpin(cx))) {
            Err(_) => {
                ensure!(!died, "panicked-twice", "one panic was raised twice");
                died = true;
            }
            Ok(Some(x)) => {
                let (i, k) = ((x.get() / 10) as usize, x.get() % 10);
                ensure!(i < n && k == got[i], "wrong-items", "input {i} yielded item {k} instead of {}", got[i]);
                got[i] += 1;
            }
            Ok(None) => break,
        }
    }
    for i in 0..n {
        let want = if kind == 2 { 1 } else { lens[i] };
        ensure!(got[i] == want || died && i == bad, "lost-items", "after {}, input {i} yielded {} of {want} items", if died { "the panic of another" } else { "no panic" }, got[i]);
    }
    drop(s);
    clear_events();
    check_leaks("after a panic");
}
fn caught_() {
    begin();
    let mut t = Task::new();
    if chance(40) {
        let p = choose(4);
        let mut f = AssertUnwindSafe(Fut::new(v(7)).panic_in(p)).catch_unwind();
        let r = if chance(15) {
            count(F_CANCEL);
            t.poll_n(1, |cx| f.poll_unpin(cx))
        } else {
            Some(t.block_on(Pin::new(&mut f)))
        };
        match r {
            None => {}
            Some(Ok(x)) => ensure!(x.get() == 7, "wrong-output", "catch_unwind changed the output"),
            Some(Err(e)) => ensure!(p > 0 && e.is::<Injected>(), "wrong-panic", "catch_unwind reported a panic that did not happen"),
        }
    } else {
        let n = choose(5);
        let p = choose(8);
        let src = Src::new((0..n as u32).map(v)).panic_in(p);
        let mut s = Us(src.map(|x| v(x.get()))).catch_unwind();
        let mut got = 0;
        loop {
            let (lo, hi) = s.size_hint();
            let r = t.block_on_with(|cx| s.poll_next_unpin(cx));
            match r {
                Some(Ok(x)) => {
                    ensure!(x.get() == got, "wrong-items", "catch_unwind yielded {} instead of {got}", x.get());
                    ensure!(hi != Some(0), "size-hint", "catch_unwind announced the end before an item");
                    got += 1;
                }
                Some(Err(e)) => {
                    ensure!(p > 0 && e.is::<Injected>(), "wrong-panic", "catch_unwind reported a panic that did not happen");
                    // the wrapped stream objects to being polled again
                    ensure!(s.is_terminated(), "terminated", "a stream whose panic was caught does not report termination");
                    ensure!(matches!(t.poll(|cx| s.poll_next_unpin(cx)), Poll::Ready(None)), "panicked-on", "a stream went on after its panic was caught");
                    ensure!(s.size_hint() == (0, Some(0)), "size-hint", "a stream whose panic was caught announces items");
                    break;
                }
                None => {
                    ensure!(lo == 0 && got == n as u32, "wrong-items", "catch_unwind ended after {got} of {n} items");
                    break;
                }
            }
            if chance(10) {
                count(F_CANCEL);
                break;
            }
        }
    }
    clear_events();
    check_leaks("catch_unwind");
}
