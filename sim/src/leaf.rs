//! Leaves of single-thread scenarios: streams and futures whose readiness the
//! simulated environment decides, and that object to being misused.
use crate::ex::sg::*;
use crate::rt::*;
use futures::future::FusedFuture;
use futures::stream::{FusedStream, Stream};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type V = Tracked;
pub fn v(tag: u32) -> V {
    Tracked::new(tag)
}
/// Side effects of closures, compared with those of the reference.
pub type Log = Rc<RefCell<Vec<u64>>>;
pub fn log() -> Log {
    Default::default()
}

/// Counts objects in progress.
#[derive(Clone, Default)]
pub struct Meter(pub Rc<Cell<(usize, usize)>>); // now, max
impl Meter {
    pub fn add(&self) {
        let (n, m) = self.0.get();
        self.0.set((n + 1, m.max(n + 1)));
    }
    pub fn sub(&self) {
        let (n, m) = self.0.get();
        self.0.set((n - 1, m));
    }
    pub fn now(&self) -> usize {
        self.0.get().0
    }
    pub fn max(&self) -> usize {
        self.0.get().1
    }
}

/// A stream of given items; each item and the end may be preceded by Pendings.
pub struct Src<T> {
    pub items: VecDeque<T>,
    gate: Gate,
    ended: bool,
    hint: usize,
    meter: Option<Meter>,
    panic_in: usize, // 0 = never
    slack: bool,     // may be polled after the end
    _t: Tracked,
}
impl<T> Unpin for Src<T> {}
impl<T> Src<T> {
    pub fn new(items: impl IntoIterator<Item = T>) -> Self {
        Src { items: items.into_iter().collect(), gate: Gate::new(), ended: false, hint: choose(3), meter: None, panic_in: 0, slack: false, _t: Tracked::new(90_000) }
    }
    pub fn metered(mut self, m: &Meter) -> Self {
        m.add();
        self.meter = Some(m.clone());
        self
    }
    pub fn panic_in(mut self, n: usize) -> Self {
        self.panic_in = n;
        self
    }
    pub fn slack(mut self) -> Self {
        self.slack = true;
        self
    }
    pub fn ended(&self) -> bool {
        self.ended
    }
    fn unmeter(&mut self) {
        if let Some(m) = self.meter.take() {
            m.sub();
        }
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        self.unmeter();
    }
}
impl<T> Stream for Src<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        if self.ended && self.slack {
            return Poll::Ready(None);
        }
        ensure!(!self.ended, "polled-after-end", "an input stream was polled after it ended");
        if self.panic_in > 0 {
            self.panic_in -= 1;
            if self.panic_in == 0 {
                self.ended = true;
                self.unmeter();
                inject_panic();
            }
        }
        if !self.gate.poll(cx) {
            return Poll::Pending;
        }
        self.gate.rearm();
        match self.items.pop_front() {
            Some(t) => Poll::Ready(Some(t)),
            None => {
                self.ended = true;
                self.unmeter();
                Poll::Ready(None)
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (n / 2, Some(n + 2)),
            _ => (0, None),
        }
    }
}
impl<T> FusedStream for Src<T> {
    fn is_terminated(&self) -> bool {
        self.ended
    }
}

/// A future with a given output.
pub struct Fut<T> {
    gate: Gate,
    val: Option<T>,
    meter: Option<Meter>,
    panic_in: usize,
    pub never: bool,
    _t: Tracked,
}
impl<T> Unpin for Fut<T> {}
impl<T> Fut<T> {
    pub fn new(t: T) -> Self {
        Fut { gate: Gate::new(), val: Some(t), meter: None, panic_in: 0, never: false, _t: Tracked::new(91_000) }
    }
    pub fn metered(mut self, m: &Meter) -> Self {
        m.add();
        self.meter = Some(m.clone());
        self
    }
    pub fn panic_in(mut self, n: usize) -> Self {
        self.panic_in = n;
        self
    }
    pub fn never(mut self, n: bool) -> Self {
        self.never = n;
        self
    }
    pub fn done(&self) -> bool {
        self.val.is_none()
    }
}
impl<T> Drop for Fut<T> {
    fn drop(&mut self) {
        if let Some(m) = self.meter.take() {
            m.sub();
        }
    }
}
impl<T> Future for Fut<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        ensure!(self.val.is_some(), "polled-after-completion", "a future was polled after it completed");
        if self.panic_in > 0 {
            self.panic_in -= 1;
            if self.panic_in == 0 {
                self.val = None;
                inject_panic();
            }
        }
        if self.never || !self.gate.poll(cx) {
            return Poll::Pending;
        }
        if let Some(m) = self.meter.take() {
            m.sub();
        }
        Poll::Ready(self.val.take().unwrap())
    }
}
impl<T> FusedFuture for Fut<T> {
    fn is_terminated(&self) -> bool {
        self.val.is_none()
    }
}

/// Values with small tags, so that predicates hit both ways.
pub fn tags(max: usize) -> Vec<u32> {
    (0..choose(max + 1)).map(|_| choose(8) as u32).collect()
}
