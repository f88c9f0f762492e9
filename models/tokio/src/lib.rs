//! tokio of the model: tasks, time and sockets run on the `vx` scheduler; sync and
//! io primitives are tokio's own.
pub use tokio_real::{join, pin, select, try_join};
pub use task::spawn;

mod pipe;
pub mod io { pub use tokio_real::io::*; pub use super::pipe::{duplex, DuplexStream, vx_cut, vx_pipes}; }

pub mod sync {
    pub use tokio_real::sync::*;
    use tokio_real::sync as real;
    /// tokio's own lock; acquiring it is a possible preemption point
    #[derive(Debug, Default)]
    pub struct RwLock<T>(real::RwLock<T>);
    impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { Self::new(t) } }
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self { Self(real::RwLock::new(t)) }
        pub fn into_inner(self) -> T { self.0.into_inner() }
        pub fn get_mut(&mut self) -> &mut T { self.0.get_mut() }
        pub async fn read(&self) -> real::RwLockReadGuard<'_, T> { vx::rt::preempt(); self.0.read().await }
        pub async fn write(&self) -> real::RwLockWriteGuard<'_, T> { vx::rt::preempt(); self.0.write().await }
        pub fn try_read(&self) -> Result<real::RwLockReadGuard<'_, T>, real::TryLockError> { vx::rt::preempt(); self.0.try_read() }
        pub fn try_write(&self) -> Result<real::RwLockWriteGuard<'_, T>, real::TryLockError> { vx::rt::preempt(); self.0.try_write() }
    }
}

pub mod task {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};
    use vx::rt::{Outcome, Task};

    struct Join<T> { r: Option<Result<T, JoinError>>, w: Option<Waker> }
    pub struct JoinHandle<T> { j: Arc<Mutex<Join<T>>>, t: Arc<Task> }
    unsafe impl<T: Send> Send for JoinHandle<T> {}
    unsafe impl<T: Send> Sync for JoinHandle<T> {}
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle") } }
    #[derive(Clone)]
    pub struct AbortHandle { t: Arc<Task> }
    unsafe impl Send for AbortHandle {}
    unsafe impl Sync for AbortHandle {}
    impl std::fmt::Debug for AbortHandle { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("AbortHandle") } }
    #[derive(Debug)]
    pub struct JoinError(());
    impl JoinError { pub fn is_cancelled(&self) -> bool { true } pub fn is_panic(&self) -> bool { false } }
    impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task was cancelled") } }
    impl std::error::Error for JoinError {}

    impl AbortHandle { pub fn abort(&self) { self.t.abort(); } pub fn is_finished(&self) -> bool { self.t.is_done() } }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) { self.t.abort(); }
        pub fn abort_handle(&self) -> AbortHandle { AbortHandle { t: self.t.clone() } }
        pub fn is_finished(&self) -> bool { self.t.is_done() }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut j = self.j.lock().unwrap();
            if let Some(r) = j.r.take() { return Poll::Ready(r); }
            j.w = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    fn spawn_any<F>(fut: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static {
        let j = Arc::new(Mutex::new(Join { r: None, w: None }));
        let j2 = j.clone();
        let t = vx::rt::spawn(fut, move |o| {
            let w = { let mut g = j2.lock().unwrap(); g.r = Some(match o { Outcome::Done(v) => Ok(v), Outcome::Cancelled => Err(JoinError(())) }); g.w.take() };
            if let Some(w) = w { w.wake(); }
        });
        JoinHandle { j, t }
    }
    pub fn spawn<F>(fut: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { spawn_any(fut) }
    pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static { spawn_any(fut) }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static { spawn_any(async move { f() }) }
    /// Tasks that are aborted along with the set.
    pub struct JoinSet<T> { v: Vec<JoinHandle<T>> }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self { Self { v: Vec::new() } }
        pub fn len(&self) -> usize { self.v.len() }
        pub fn is_empty(&self) -> bool { self.v.is_empty() }
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle where F: Future<Output = T> + Send + 'static, T: Send { let h = spawn_any(f); let a = h.abort_handle(); self.v.push(h); a }
        pub fn abort_all(&mut self) { for h in &self.v { h.abort(); } }
        pub fn detach_all(&mut self) { self.v.clear(); }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| {
                if self.v.is_empty() { return Poll::Ready(None); }
                for i in 0..self.v.len() { if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) { drop(self.v.remove(i)); return Poll::Ready(Some(r)); } }
                Poll::Pending
            }).await
        }
        pub async fn join_all(mut self) -> Vec<T> { let mut o = Vec::new(); while let Some(r) = self.join_next().await { if let Ok(r) = r { o.push(r); } } o }
        pub async fn shutdown(&mut self) { self.abort_all(); while self.join_next().await.is_some() {} }
    }
    impl<T: 'static> Default for JoinSet<T> { fn default() -> Self { Self::new() } }
    impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in &self.v { h.abort(); } } }
    pub async fn yield_now() { vx::rt::yield_now().await }
}

pub mod time {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;
    fn ns(d: Duration) -> u64 { d.as_secs().saturating_mul(1_000_000_000).saturating_add(u64::from(d.subsec_nanos())) }
    pub struct Sleep { deadline: u64, seq: Option<u64> }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if vx::clock::now_ns() >= self.deadline { return Poll::Ready(()); }
            if let Some(s) = self.seq.take() { vx::rt::del_timer(s); }
            self.seq = Some(vx::rt::add_timer(self.deadline, cx.waker().clone()));
            Poll::Pending
        }
    }
    impl Drop for Sleep { fn drop(&mut self) { if let Some(s) = self.seq { vx::rt::del_timer(s); } } }
    pub fn sleep(d: Duration) -> Sleep { Sleep { deadline: vx::clock::now_ns().saturating_add(ns(d)), seq: None } }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } }
        impl std::error::Error for Elapsed {}
    }
    pub struct Timeout<F> { f: Pin<Box<F>>, s: Sleep }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            // (the task may lose the processor between the end of what was waited for and what follows)
            if let Poll::Ready(v) = self.f.as_mut().poll(cx) { vx::rt::preempt(); return Poll::Ready(Ok(v)); }
            match Pin::new(&mut self.s).poll(cx) { Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))), Poll::Pending => Poll::Pending }
        }
    }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> { Timeout { f: Box::pin(f), s: sleep(d) } }

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    pub struct Instant(u64);
    impl Instant {
        pub fn now() -> Self { Self(vx::clock::now_ns()) }
        pub fn elapsed(&self) -> Duration { Duration::from_nanos(vx::clock::now_ns().saturating_sub(self.0)) }
        pub fn duration_since(&self, o: Self) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
        pub fn saturating_duration_since(&self, o: Self) -> Duration { self.duration_since(o) }
        pub fn checked_duration_since(&self, o: Self) -> Option<Duration> { self.0.checked_sub(o.0).map(Duration::from_nanos) }
        pub fn checked_add(&self, d: Duration) -> Option<Self> { self.0.checked_add(ns(d)).map(Self) }
        pub fn checked_sub(&self, d: Duration) -> Option<Self> { self.0.checked_sub(ns(d)).map(Self) }
    }
    impl std::ops::Add<Duration> for Instant { type Output = Self; fn add(self, d: Duration) -> Self { Self(self.0.saturating_add(ns(d))) } }
    impl std::ops::AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
    impl std::ops::Sub<Duration> for Instant { type Output = Self; fn sub(self, d: Duration) -> Self { Self(self.0 - ns(d)) } }
    impl std::ops::Sub for Instant { type Output = Duration; fn sub(self, o: Self) -> Duration { self.duration_since(o) } }
    pub fn sleep_until(i: Instant) -> Sleep { Sleep { deadline: i.0, seq: None } }
    pub fn timeout_at<F: Future>(i: Instant, f: F) -> Timeout<F> { Timeout { f: Box::pin(f), s: sleep_until(i) } }
    impl Sleep {
        pub fn deadline(&self) -> Instant { Instant(self.deadline) }
        pub fn is_elapsed(&self) -> bool { vx::clock::now_ns() >= self.deadline }
        pub fn reset(mut self: Pin<&mut Self>, i: Instant) { if let Some(s) = self.seq.take() { vx::rt::del_timer(s); } self.deadline = i.0; }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub enum MissedTickBehavior { #[default] Burst, Delay, Skip }
    /// ticks at `next`, then as the behaviour for missed ticks says
    pub struct Interval { p: u64, next: u64, b: MissedTickBehavior }
    pub fn interval(p: Duration) -> Interval { Interval { p: ns(p), next: vx::clock::now_ns(), b: MissedTickBehavior::Burst } }
    pub fn interval_at(i: Instant, p: Duration) -> Interval { Interval { p: ns(p), next: i.0, b: MissedTickBehavior::Burst } }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let at = self.next;
            sleep_until(Instant(at)).await;
            let now = vx::clock::now_ns();
            self.next = match self.b {
                _ if now <= at.saturating_add(5_000_000) => at + self.p,
                MissedTickBehavior::Burst => at + self.p,
                MissedTickBehavior::Delay => now + self.p,
                MissedTickBehavior::Skip => at + self.p * ((now - at) / self.p + 1),
            };
            Instant(at)
        }
        pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) { self.b = b }
        pub fn reset(&mut self) { self.next = vx::clock::now_ns() + self.p }
        pub fn reset_immediately(&mut self) { self.next = vx::clock::now_ns() }
        pub fn period(&self) -> Duration { Duration::from_nanos(self.p) }
    }
}

pub mod net;
