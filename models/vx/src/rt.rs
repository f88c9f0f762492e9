//! Deterministic task scheduler with symbolic choices: every task is a coroutine,
//! context switches happen at `await`s that are not ready and (within the
//! preemption budget) before lock acquisitions.
use crate::Global;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Task {
    pub id: usize,
    st: Global<TaskSt>,
}
struct TaskSt { co: u64, queued: bool, in_poll: bool, notified: bool, done: bool, aborted: bool }

pub struct Rt {
    runq: VecDeque<Arc<Task>>,
    timers: Vec<(u64, u64, Waker)>,
    seq: u64,
    cur: Option<Arc<Task>>,
    idle: Vec<(Waker, Arc<Global<bool>>)>,
    lock_wait: Vec<Arc<Task>>,
    stalled: Vec<Arc<Task>>,
    next_id: usize,
    /// how many times the scheduler may depart from FIFO order
    pub sched_budget: u32,
    /// how many times a timer may fire although tasks are still runnable
    pub timer_budget: u32,
    /// how many times a task may be preempted at a lock acquisition
    pub preempt_budget: u32,
    /// how many times a task (about to run, or about to take a lock) may be held back until
    /// nothing else can run
    pub stall_budget: u32,
    /// virtual time after which the run stops (nanoseconds)
    pub horizon: u64,
}
static RT: Global<Option<Rt>> = Global::new(None);
pub fn rt() -> &'static mut Rt {
    RT.get().get_or_insert_with(|| Rt { runq: VecDeque::new(), timers: Vec::new(), seq: 0, cur: None, idle: Vec::new(), lock_wait: Vec::new(), stalled: Vec::new(), stall_budget: 0, next_id: 0,
        sched_budget: 0, timer_budget: 0, preempt_budget: 0, horizon: u64::MAX })
}

impl Wake for Task {
    fn wake(self: Arc<Self>) { Task::make_ready(self) }
    fn wake_by_ref(self: &Arc<Self>) { Task::make_ready(self.clone()) }
}
impl Task {
    fn make_ready(t: Arc<Task>) {
        let s = t.st.get();
        if s.done { return; }
        if s.in_poll { s.notified = true; return; }
        Task::enqueue(t);
    }
    fn enqueue(t: Arc<Task>) {
        let s = t.st.get();
        if s.queued { return; }
        s.queued = true;
        rt().runq.push_back(t);
    }
    pub fn abort(self: &Arc<Self>) { if !self.st.get().done { self.st.get().aborted = true; Task::make_ready(self.clone()); } }
    pub fn is_done(&self) -> bool { self.st.get().done }
    pub fn is_aborted(&self) -> bool { self.st.get().aborted }
}

extern "C" fn entry(p: *mut u8) {
    let f: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(p.cast()) };
    f();
}

pub enum Outcome<T> { Done(T), Cancelled }

/// Spawn a future; `on_end` runs in the task when it completes or is cancelled.
pub fn spawn<F, T>(fut: F, on_end: impl FnOnce(Outcome<T>) + 'static) -> Arc<Task>
where F: Future<Output = T> + 'static, T: 'static {
    let id = rt().next_id;
    rt().next_id += 1;
    let task = Arc::new(Task { id, st: Global::new(TaskSt { co: u64::MAX, queued: false, in_poll: false, notified: false, done: false, aborted: false }) });
    let t2 = task.clone();
    let body: Box<dyn FnOnce()> = Box::new(move || {
        let mut fut: Option<Pin<Box<F>>> = Some(Box::pin(fut));
        let waker = Waker::from(t2.clone());
        let mut cx = Context::from_waker(&waker);
        let out = loop {
            if t2.st.get().aborted { break Outcome::Cancelled; }
            t2.st.get().in_poll = true;
            t2.st.get().notified = false;
            let r = fut.as_mut().unwrap().as_mut().poll(&mut cx);
            t2.st.get().in_poll = false;
            match r {
                Poll::Ready(v) => break Outcome::Done(v),
                Poll::Pending => {
                    if t2.st.get().notified { Task::enqueue(t2.clone()); }
                    crate::co_suspend();
                }
            }
        };
        fut = None;
        drop(fut);
        t2.st.get().done = true;
        on_end(out);
    });
    let p = Box::into_raw(Box::new(body)).cast();
    task.st.get().co = crate::co_new(entry, p);
    Task::make_ready(task.clone());
    task
}

fn fire_next_timer() -> bool {
    let r = rt();
    let mut best: Option<usize> = None;
    for (i, t) in r.timers.iter().enumerate() {
        if best.map_or(true, |b| (t.0, t.1) < (r.timers[b].0, r.timers[b].1)) { best = Some(i); }
    }
    let Some(b) = best else { return false };
    let (d, _, w) = r.timers.remove(b);
    if d > r.horizon { return false; }
    if d > crate::clock::now_ns() { crate::clock::set_ns(d); }
    w.wake();
    true
}

/// One scheduling step; false when nothing can ever run again.
fn step() -> bool {
    if !rt().timers.is_empty() && !rt().runq.is_empty() && rt().timer_budget > 0 && crate::bool() {
        rt().timer_budget -= 1;
        fire_next_timer();
        return true;
    }
    let n = rt().runq.len();
    if n == 0 {
        let stalled = std::mem::take(&mut rt().stalled);
        if !stalled.is_empty() { for t in stalled { rt().runq.push_back(t); } return true; }
        let idle = std::mem::take(&mut rt().idle);
        if !idle.is_empty() { for (w, f) in idle { *f.get() = true; w.wake(); } return true; }
        if fire_next_timer() { return true; }
        if !rt().lock_wait.is_empty() { crate::fail("deadlock"); }
        return false;
    }
    let i = if n > 1 && rt().sched_budget > 0 { crate::choose(n) } else { 0 };
    if i != 0 { rt().sched_budget -= 1; }
    let t = rt().runq.remove(i).unwrap();
    if n > 1 && rt().stall_budget > 0 && crate::bool() {
        rt().stall_budget -= 1;
        rt().stalled.push(t); // stays `queued`
        return true;
    }
    t.st.get().queued = false;
    if t.st.get().done { return true; }
    rt().cur = Some(t.clone());
    let co = t.st.get().co;
    crate::co_resume(co);
    rt().cur = None;
    true
}

/// Run `fut` to completion; None when the system is stuck before that.
pub fn block_on<F: Future>(fut: F) -> Option<F::Output> where F::Output: 'static {
    let slot: std::rc::Rc<std::cell::RefCell<Option<F::Output>>> = Default::default();
    let s2 = slot.clone();
    let fut: Pin<Box<dyn Future<Output = F::Output>>> = unsafe { std::mem::transmute::<Pin<Box<dyn Future<Output = F::Output> + '_>>, _>(Box::pin(fut) as Pin<Box<dyn Future<Output = F::Output>>>) };
    let t = spawn(fut, move |o| if let Outcome::Done(v) = o { *s2.borrow_mut() = Some(v) });
    while !t.is_done() { if !step() { break; } }
    let r = slot.borrow_mut().take();
    r
}

/// Possible context switch before a lock acquisition.
pub fn preempt() {
    let r = rt();
    if r.preempt_budget > 0 && !r.runq.is_empty() {
        if let Some(t) = r.cur.clone() {
            if crate::bool() {
                r.preempt_budget -= 1;
                Task::enqueue(t);
                crate::co_suspend();
                return;
            }
        }
    }
    if r.stall_budget > 0 && !r.runq.is_empty() {
        if let Some(t) = r.cur.clone() {
            if crate::bool() {
                r.stall_budget -= 1;
                t.st.get().queued = true;
                r.stalled.push(t);
                crate::co_suspend();
            }
        }
    }
}
/// Block the current task until some lock is released.
pub fn lock_block() {
    let t = rt().cur.clone();
    match t {
        Some(t) => { rt().lock_wait.push(t); crate::co_suspend(); }
        None => crate::fail("deadlock"),
    }
}
pub fn lock_released() {
    if rt().lock_wait.is_empty() { return; }
    for t in std::mem::take(&mut rt().lock_wait) { Task::enqueue(t); }
}

pub fn add_timer(deadline: u64, w: Waker) -> u64 { let r = rt(); r.seq += 1; let s = r.seq; r.timers.push((deadline, s, w)); s }
pub fn del_timer(seq: u64) { rt().timers.retain(|t| t.1 != seq) }

/// Completes when no other task can run without time passing.
pub fn idle() -> impl Future<Output = ()> { Idle(None) }
struct Idle(Option<Arc<Global<bool>>>);
impl Future for Idle {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(f) = &self.0 { return if *f.get() { Poll::Ready(()) } else { Poll::Pending }; }
        let f = Arc::new(Global::new(false));
        rt().idle.push((cx.waker().clone(), f.clone()));
        self.0 = Some(f);
        Poll::Pending
    }
}
/// Give every other runnable task a turn.
pub fn yield_now() -> impl Future<Output = ()> { Yield(false) }
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 { return Poll::Ready(()); }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
