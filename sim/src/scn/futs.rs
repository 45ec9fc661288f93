//! Future combinators: a random expression of combinators over leaves whose
//! readiness the environment decides, against the value it denotes.
use crate::ex::sg::*;
use crate::leaf::*;
use crate::rt::*;
use futures::future::{self, Either, FutureExt, TryFutureExt};
use futures::stream::{self, StreamExt, TryStreamExt};
use futures::task::LocalFutureObj;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::task::{Context, Poll};

type BF = Pin<Box<dyn Future<Output = V>>>;
type BT = Pin<Box<dyn Future<Output = Result<V, V>>>>;

#[derive(Default)]
struct G {
    calls: Vec<u32>, // closures called so far
    ids: u32,
    pend: u32,  // not-ready results of leaves in the current poll
    yields: u32, // deliberate yields in the current poll
    polls: u32, // polls of leaves so far
}
static G: Ora<G> = Ora::new(G { calls: Vec::new(), ids: 0, pend: 0, yields: 0, polls: 0 });
fn call(k: u32) {
    unwind_point(U_PANIC);
    G.with(|g| g.calls.push(k))
}
fn id() -> u32 {
    G.with(|g| {
        g.ids += 1;
        g.ids
    })
}
/// What the closure with number `k` makes of `x`.
fn h(k: u32, x: u32) -> u32 {
    (x * 5 + k) % 61
}

struct Leaf<T>(Fut<T>);
impl<T> Future for Leaf<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let r = Pin::new(&mut self.0).poll(cx);
        G.with(|g| {
            g.polls += 1;
            g.pend += r.is_pending() as u32
        });
        r
    }
}
/// A converted value.
struct W(V);
impl From<V> for W {
    fn from(x: V) -> W {
        call(9000 + x.get());
        W(x)
    }
}
fn yielded(cx: &mut Context<'_>) -> Poll<()> {
    cx.waker().wake_by_ref();
    G.with(|g| g.yields += 1);
    Poll::Ready(())
}

struct P {
    f: BF,
    w: u32,
    c: Vec<u32>,
    d: String,
}
struct T {
    f: BT,
    w: Result<u32, u32>,
    c: Vec<u32>,
    d: String,
}
fn p(f: impl Future<Output = V> + 'static, w: u32, c: Vec<u32>, d: String) -> P {
    P { f: Box::pin(f), w, c, d }
}
fn t(f: impl Future<Output = Result<V, V>> + 'static, w: Result<u32, u32>, c: Vec<u32>, d: String) -> T {
    T { f: Box::pin(f), w, c, d }
}
fn rv(w: Result<u32, u32>) -> Result<V, V> {
    w.map(v).map_err(v)
}
fn plus(mut a: Vec<u32>, k: u32) -> Vec<u32> {
    a.push(k);
    a
}
fn cat(mut a: Vec<u32>, k: u32, b: &[u32]) -> Vec<u32> {
    a.push(k);
    a.extend_from_slice(b);
    a
}

fn plain(depth: usize) -> P {
    if depth == 0 || chance(15) {
        let x = choose(8) as u32;
        let k = id();
        return match choose(8) {
            0 => p(future::ready(v(x)), x, vec![], format!("ready({x})")),
            1 => p(
                future::lazy(move |_| {
                    call(k);
                    v(x)
                }),
                x,
                vec![k],
                format!("lazy({x})"),
            ),
            2 => p(
                future::always_ready(move || {
                    call(k);
                    v(x)
                }),
                x,
                vec![k],
                format!("always_ready({x})"),
            ),
            _ => p(Leaf(Fut::new(v(x))), x, vec![], format!("leaf({x})")),
        };
    }
    if chance(30) {
        return untry(depth);
    }
    let P { f, w, c, d } = plain(depth - 1);
    let k = id();
    match choose(36) {
        0 | 1 => p(
            f.map(move |x| {
                call(k);
                v(h(k, x.get()))
            }),
            h(k, w),
            plus(c, k),
            d + ".map",
        ),
        2 => p(f.map_into::<W>().map(|x| x.0), w, plus(c, 9000 + w), d + ".map_into"),
        3 | 4 | 5 => {
            let q = plain(depth - 1);
            p(
                f.then(move |_| {
                    call(k);
                    q.f
                }),
                q.w,
                cat(c, k, &q.c),
                format!("{d}.then({})", q.d),
            )
        }
        6 | 7 => {
            let q = plain(depth - 1);
            p(
                f.map(move |_| {
                    call(k);
                    q.f
                })
                .flatten(),
                q.w,
                cat(c, k, &q.c),
                format!("{d}.flatten({})", q.d),
            )
        }
        8 => p(f.fuse(), w, c, d + ".fuse"),
        9 | 10 => p(
            f.inspect(move |x| {
                call(k);
                ensure!(x.get() == w, "wrong-output", "inspect saw {} instead of {w}", x.get());
            }),
            w,
            plus(c, k),
            d + ".inspect",
        ),
        11 => p(f.boxed_local(), w, c, d + ".boxed_local"),
        12 => p(f.left_future::<future::Pending<V>>(), w, c, d + ".left_future"),
        13 => p(f.right_future::<future::Ready<V>>(), w, c, d + ".right_future"),
        14 => p(f.into_stream().into_future().map(|(x, _)| x.unwrap()), w, c, d + ".into_stream.into_future"),
        15 => p(
            f.into_stream().collect::<Vec<_>>().map(|mut x| {
                ensure!(x.len() == 1, "wrong-output", "into_stream gave {} items", x.len());
                x.pop().unwrap()
            }),
            w,
            c,
            d + ".into_stream.collect",
        ),
        16 => p(AssertUnwindSafe(f).catch_unwind().map(|r| r.unwrap_or_else(|e| std::panic::resume_unwind(e))), w, c, d + ".catch_unwind"),
        17 => {
            let s = f.map(|x| x.get()).shared();
            let e = if chance(50) { Some(s.clone()) } else { None };
            p(
                s.map(move |x| {
                    if let Some(e) = e {
                        ensure!(e.peek() == Some(&x), "wrong-output", "shared: peek is {:?} after {x}", e.peek());
                    }
                    v(x)
                }),
                w,
                c,
                d + ".shared",
            )
        }
        18 => p(
            future::OptionFuture::from(Some(f)).map(|x| x.unwrap_or_else(|| fail("wrong-output", "OptionFuture of a future gave None"))),
            w,
            c,
            d + ".option",
        ),
        19 => p(
            f.then(|x| {
                let o: future::OptionFuture<BF> = if chance(50) { None.into() } else { Default::default() };
                o.map(move |n| {
                    ensure!(n.is_none(), "wrong-output", "OptionFuture of nothing gave a value");
                    x
                })
            }),
            w,
            c,
            d + ".then(none)",
        ),
        20 => {
            let mut m = Box::pin(future::maybe_done(f));
            p(
                future::poll_fn(move |cx| {
                    ensure!(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "wrong-output", "maybe_done has an output before it completed");
                    if m.as_mut().poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                    let n = m.as_mut().output_mut().map(|x| x.get());
                    let x = m.as_mut().take_output();
                    ensure!(n.is_some() && n == x.as_ref().map(|x| x.get()), "wrong-output", "maybe_done: output {n:?} became {:?}", x.as_ref().map(|x| x.get()));
                    ensure!(m.as_mut().take_output().is_none() && m.as_mut().output_mut().is_none(), "wrong-output", "maybe_done gave its output twice");
                    Poll::Ready(x.unwrap())
                }),
                w,
                c,
                d + ".maybe_done",
            )
        }
        21 => p(async move { f.await }, w, c, format!("async({d})")),
        22 => p(
            async move {
                let a = chance(50);
                let f = if a { Err(f) } else { Ok(f.await) };
                future::poll_fn(yielded).await;
                futures::pending!();
                match f {
                    Ok(x) => x,
                    Err(f) => f.await,
                }
            },
            w,
            c,
            format!("async({d}; pending)"),
        ),
        23 => {
            let mut f = f;
            p(
                async move {
                    loop {
                        match futures::poll!(&mut f) {
                            Poll::Ready(x) => break x,
                            Poll::Pending => futures::pending!(),
                        }
                    }
                },
                w,
                c,
                d + ".poll!",
            )
        }
        24 => {
            let mut f = Box::pin(future::poll_immediate(f));
            p(
                future::poll_fn(move |cx| match f.as_mut().poll(cx) {
                    Poll::Ready(Some(x)) => Poll::Ready(x),
                    Poll::Ready(None) => Poll::Pending,
                    Poll::Pending => fail("pending", "poll_immediate returned Pending"),
                }),
                w,
                c,
                d + ".poll_immediate",
            )
        }
        25 => {
            let mut f = Box::pin(future::poll_immediate(f));
            let mut got = None;
            p(
                future::poll_fn(move |cx| loop {
                    match futures::stream::Stream::poll_next(f.as_mut(), cx) {
                        Poll::Ready(Some(Poll::Ready(x))) => {
                            ensure!(got.is_none(), "wrong-output", "poll_immediate as a stream gave two values");
                            got = Some(x)
                        }
                        Poll::Ready(Some(Poll::Pending)) => {
                            ensure!(got.is_none(), "wrong-output", "poll_immediate as a stream is not ready after its value");
                            return Poll::Pending;
                        }
                        Poll::Ready(None) => return Poll::Ready(got.take().unwrap_or_else(|| fail("wrong-output", "poll_immediate as a stream ended without a value"))),
                        Poll::Pending => fail("pending", "poll_immediate returned Pending"),
                    }
                }),
                w,
                c,
                d + ".poll_immediate(stream)",
            )
        }
        26 => p(future::select(f, future::pending::<V>()).map(|e| e.map_either()), w, c, d + ".select(pending)"),
        27 => p(future::select(future::pending::<V>(), f).map(|e| e.factor_first().0), w, c, d + ".select'(pending)"),
        28 => p(future::join(f, future::ready(())).map(|(x, ())| x), w, c, d + ".join(ready)"),
        29 => {
            let (f, hd) = future::abortable(f);
            p(
                f.map(move |r| {
                    ensure!(!hd.is_aborted(), "wrong-output", "aborted by itself");
                    r.unwrap_or_else(|_| fail("wrong-output", "reported as aborted"))
                }),
                w,
                c,
                d + ".abortable",
            )
        }
        30 => {
            let (r, hd) = f.remote_handle();
            p(future::join(r, hd).map(|((), x)| x), w, c, d + ".remote_handle")
        }
        31 => match choose(4) {
            0 => p(LocalFutureObj::new(Box::new(f)), w, c, d + ".obj"),
            1 => p(LocalFutureObj::new(f), w, c, d + ".obj(pin box dyn)"),
            2 => p(LocalFutureObj::new(Box::new(f) as Box<dyn Future<Output = V>>), w, c, d + ".obj(box dyn)"),
            _ => p(LocalFutureObj::new(Box::pin(f)), w, c, d + ".obj(pin box)"),
        },
        32 => p(f.map(|x| stream::iter([x])).flatten_stream().into_future().map(|(x, _)| x.unwrap()), w, c, d + ".flatten_stream"),
        33 => {
            let mut f = f;
            p(future::poll_fn(move |cx| f.poll_unpin(cx)), w, c, d + ".poll_fn")
        }
        34 => p(Box::new(f), w, c, format!("box({d})")),
        _ => {
            let e: Either<BF, BF> = if chance(50) { Either::Left(f) } else { Either::Right(f) };
            let mut e = Box::pin(e);
            p(
                future::poll_fn(move |cx| match e.as_mut().as_pin_mut() {
                    Either::Left(f) => f.poll(cx),
                    Either::Right(f) => f.poll(cx),
                }),
                w,
                c,
                d + ".as_pin_mut",
            )
        }
    }
}
trait MapEither {
    fn map_either(self) -> V;
}
impl<A, B> MapEither for Either<(V, A), (V, B)> {
    fn map_either(self) -> V {
        match chance(50) {
            true => self.factor_first().0,
            _ => {
                let e: Either<(A, V), (B, V)> = match self {
                    Either::Left((x, a)) => Either::Left((a, x)),
                    Either::Right((x, b)) => Either::Right((b, x)),
                };
                e.factor_second().1
            }
        }
    }
}
fn untry(depth: usize) -> P {
    let T { f, w, c, d } = fallible(depth - 1);
    let k = id();
    match choose(5) {
        0 | 1 => {
            let k2 = id();
            let (x, kk) = match w {
                Ok(x) => (h(k2, x), k2),
                Err(x) => (h(k, x), k),
            };
            p(
                f.map_ok_or_else(
                    move |e| {
                        call(k);
                        v(h(k, e.get()))
                    },
                    move |x| {
                        call(k2);
                        v(h(k2, x.get()))
                    },
                ),
                x,
                plus(c, kk),
                d + ".map_ok_or_else",
            )
        }
        2 | 3 => {
            let (x, c) = match w {
                Ok(x) => (x, c),
                Err(e) => (h(k, e), plus(c, k)),
            };
            p(
                f.unwrap_or_else(move |e| {
                    call(k);
                    v(h(k, e.get()))
                }),
                x,
                c,
                d + ".unwrap_or_else",
            )
        }
        _ => {
            let e = w.unwrap_or_else(|e| e);
            p(
                f.map(|r| match r {
                    Ok(x) => Either::<V, V>::Left(x).into_inner(),
                    Err(x) => Either::<V, V>::Right(x).into_inner(),
                }),
                e,
                c,
                d + ".either",
            )
        }
    }
}
fn fallible(depth: usize) -> T {
    if depth == 0 || chance(15) {
        let x = choose(8) as u32;
        let w = if chance(60) { Ok(x) } else { Err(x) };
        return match (choose(6), w) {
            (0, Ok(x)) => t(future::ok(v(x)), w, vec![], format!("ok({x})")),
            (0, Err(x)) => t(future::err(v(x)), w, vec![], format!("err({x})")),
            (1, _) => t(future::ready(rv(w)), w, vec![], format!("ready({w:?})")),
            _ => t(Leaf(Fut::new(rv(w))), w, vec![], format!("leaf({w:?})")),
        };
    }
    let k = id();
    if chance(25) {
        let P { f, w, c, d } = plain(depth - 1);
        return match choose(4) {
            0 => t(f.unit_error().map(|r| r.map_err(|()| v(0))), Ok(w), c, d + ".unit_error"),
            1 => t(f.never_error().map(|r| r.map_err(|e| match e {})), Ok(w), c, d + ".never_error"),
            _ => {
                let bad = chance(50);
                let r = if bad { Err(w) } else { Ok(w) };
                t(f.map(move |x| if bad { Err(x) } else { Ok(x) }), r, c, format!("{d}.map(bad={bad})"))
            }
        };
    }
    let T { f, w, c, d } = fallible(depth - 1);
    let mok = |c: Vec<u32>| if w.is_ok() { plus(c, k) } else { c };
    let merr = |c: Vec<u32>| if w.is_err() { plus(c, k) } else { c };
    match choose(34) {
        0 | 1 => t(
            f.map_ok(move |x| {
                call(k);
                v(h(k, x.get()))
            }),
            w.map(|x| h(k, x)),
            mok(c),
            d + ".map_ok",
        ),
        2 | 3 => t(
            f.map_err(move |x| {
                call(k);
                v(h(k, x.get()))
            }),
            w.map_err(|x| h(k, x)),
            merr(c),
            d + ".map_err",
        ),
        4 => {
            let c = if let Err(e) = w { plus(c, 9000 + e) } else { c };
            t(f.err_into::<W>().map(|r| r.map_err(|x| x.0)), w, c, d + ".err_into")
        }
        5 => {
            let c = if let Ok(e) = w { plus(c, 9000 + e) } else { c };
            t(f.ok_into::<W>().map(|r| r.map(|x| x.0)), w, c, d + ".ok_into")
        }
        6..=9 => {
            let q = fallible(depth - 1);
            let (r, c) = match w {
                Ok(_) => (q.w, cat(c, k, &q.c)),
                Err(e) => (Err(e), c),
            };
            t(
                f.and_then(move |_| {
                    call(k);
                    q.f
                }),
                r,
                c,
                format!("{d}.and_then({})", q.d),
            )
        }
        10..=13 => {
            let q = fallible(depth - 1);
            let (r, c) = match w {
                Ok(x) => (Ok(x), c),
                Err(_) => (q.w, cat(c, k, &q.c)),
            };
            t(
                f.or_else(move |_| {
                    call(k);
                    q.f
                }),
                r,
                c,
                format!("{d}.or_else({})", q.d),
            )
        }
        14 => t(
            f.inspect_ok(move |x| {
                call(k);
                ensure!(Ok(x.get()) == w, "wrong-output", "inspect_ok saw {} of {w:?}", x.get());
            }),
            w,
            mok(c),
            d + ".inspect_ok",
        ),
        15 => t(
            f.inspect_err(move |x| {
                call(k);
                ensure!(Err(x.get()) == w, "wrong-output", "inspect_err saw {} of {w:?}", x.get());
            }),
            w,
            merr(c),
            d + ".inspect_err",
        ),
        16 | 17 => {
            let q = fallible(depth - 1);
            let (r, c) = match w {
                Ok(_) => (q.w, cat(c, k, &q.c)),
                Err(e) => (Err(e), c),
            };
            t(
                f.map_ok(move |_| {
                    call(k);
                    q.f
                })
                .try_flatten(),
                r,
                c,
                format!("{d}.try_flatten({})", q.d),
            )
        }
        18 => {
            let q = fallible(depth - 1);
            let (r, c) = match w {
                Ok(_) => (q.w, cat(c, k, &q.c)),
                Err(e) => (Err(e), c),
            };
            // a future of a future, flattened through the futures' own results
            t(
                async move {
                    f.await?;
                    call(k);
                    q.f.await
                },
                r,
                c,
                format!("async({d}?; {})", q.d),
            )
        }
        19 => t(f.into_future(), w, c, d + ".into_future"),
        20 => t(
            f.map_ok(|x| stream::iter([Ok::<V, V>(x)])).try_flatten_stream().try_collect::<Vec<V>>().map_ok(|mut x| {
                ensure!(x.len() == 1, "wrong-output", "try_flatten_stream gave {} items", x.len());
                x.pop().unwrap()
            }),
            w,
            c,
            d + ".try_flatten_stream",
        ),
        21 => {
            let mut m = Box::pin(future::try_maybe_done(f));
            t(
                future::poll_fn(move |cx| {
                    ensure!(m.as_mut().output_mut().is_none() && m.as_mut().take_output().is_none(), "wrong-output", "try_maybe_done has an output before it completed");
                    match m.as_mut().poll(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(e)) => {
                            ensure!(m.as_mut().take_output().is_none(), "wrong-output", "try_maybe_done has an output after an error");
                            return Poll::Ready(Err(e));
                        }
                        Poll::Ready(Ok(())) => {}
                    }
                    let n = m.as_mut().output_mut().map(|x| x.get());
                    let x = m.as_mut().take_output();
                    ensure!(n.is_some() && n == x.as_ref().map(|x| x.get()), "wrong-output", "try_maybe_done: output {n:?} became {:?}", x.as_ref().map(|x| x.get()));
                    ensure!(m.as_mut().take_output().is_none() && m.as_mut().output_mut().is_none(), "wrong-output", "try_maybe_done gave its output twice");
                    Poll::Ready(Ok(x.unwrap()))
                }),
                w,
                c,
                d + ".try_maybe_done",
            )
        }
        22 => t(future::try_join(f, future::ok::<(), V>(())).map_ok(|(x, ())| x), w, c, d + ".try_join(ok)"),
        23 => t(
            future::try_select(f, future::pending::<Result<V, V>>()).map(|r| match r {
                Ok(e) => Ok(e.factor_first().0),
                Err(e) => Err(e.factor_first().0),
            }),
            w,
            c,
            d + ".try_select(pending)",
        ),
        24 => t(f.boxed_local(), w, c, d + ".boxed_local"),
        25 => t(future::select_ok([f]).map_ok(|(x, _)| x), w, c, d + ".select_ok"),
        26 => t(
            f.into_stream().into_future().map(|(x, _)| x.unwrap_or_else(|| fail("wrong-output", "into_stream is empty"))),
            w,
            c,
            d + ".into_stream",
        ),
        27 => {
            let mut s = f.into_stream();
            t(
                async move {
                    let x = s.try_next().await?;
                    Ok(x.unwrap_or_else(|| fail("wrong-output", "into_stream is empty")))
                },
                w,
                c,
                d + ".into_stream.try_next",
            )
        }
        28 => {
            let mut f = f;
            t(future::poll_fn(move |cx| f.try_poll_unpin(cx)), w, c, d + ".try_poll")
        }
        29 => {
            let s = f.map(|r| r.map(|x| x.get()).map_err(|x| x.get())).shared();
            t(s.map(rv), w, c, d + ".shared")
        }
        30 => t(future::try_join_all([f]).map_ok(|mut x| x.pop().unwrap()), w, c, d + ".try_join_all"),
        31 => t(
            f.map(move |r| {
                call(k);
                match r {
                    Ok(x) => Err(x),
                    Err(x) => Ok(x),
                }
            }),
            match w {
                Ok(x) => Err(x),
                Err(x) => Ok(x),
            },
            plus(c, k),
            d + ".swap",
        ),
        _ => t(
            f.and_then(future::ok).or_else(future::err),
            w,
            c,
            d + ".and_then(ok).or_else(err)",
        ),
    }
}

/// What a run observes of an expression.
fn drive<O>(d: &str, mut f: Pin<Box<dyn Future<Output = O>>>, c: &[u32], eq: impl Fn(&O) -> Option<String>) {
    G.with(|g| {
        ensure!(g.calls.is_empty() && g.polls == 0, "eager", "{d}: did something before it was polled");
        g.pend = 0;
        g.yields = 0;
    });
    let check = |out: Option<&O>| {
        let calls = G.with(|g| g.calls.clone());
        match out {
            Some(o) => {
                if let Some(e) = eq(o) {
                    fail("wrong-output", &format!("{d}: {e}"));
                }
                ensure!(calls == c, "side-effects", "{d}: closures were called as {calls:?}, expected {c:?}");
            }
            None => ensure!(calls.len() <= c.len() && calls[..] == c[..calls.len()], "side-effects", "{d}: closures were called as {calls:?}, expected {c:?}"),
        }
    };
    let settled = |ready: bool| {
        let (pend, yields) = G.with(|g| (std::mem::take(&mut g.pend), std::mem::take(&mut g.yields)));
        ensure!(pend + yields <= 1, "polled-again", "{d}: something that was not ready was polled again in the same poll");
        ensure!(ready || pend + yields == 1, "slow", "{d}: not ready although nothing in it is not ready");
        ensure!(!ready || pend + yields == 0, "skipped", "{d}: completed although a step is not ready");
    };
    if chance(8) {
        // asked once, by someone who will not wait
        let r = f.now_or_never();
        settled(r.is_some());
        check(r.as_ref());
        return;
    }
    let mut t = Task::new();
    let cancel = if chance(12) { 1 + choose(4) } else { usize::MAX };
    let mut n = 0;
    loop {
        let r = t.poll(|cx| f.as_mut().poll(cx));
        settled(r.is_ready());
        match r {
            Poll::Ready(x) => {
                check(Some(&x));
                break;
            }
            Poll::Pending => {
                check(None);
                n += 1;
                if n >= cancel {
                    count(F_CANCEL);
                    break;
                }
                t.wait();
            }
        }
    }
}
pub fn run() {
    begin();
    G.with(|g| *g = G::default());
    let depth = 1 + choose(4);
    if chance(50) {
        let P { f, w, c, d } = plain(depth);
        drive(&d, f, &c, |o| (o.get() != w).then(|| format!("the output is {}, expected {w}", o.get())));
    } else {
        let T { f, w, c, d } = fallible(depth);
        drive(&d, f, &c, |o| {
            let o = o.as_ref().map(|x| x.get()).map_err(|x| x.get());
            (o != w).then(|| format!("the output is {o:?}, expected {w:?}"))
        });
    }
    G.with(|g| *g = G::default());
    check_leaks("future combinators");
}
