//! Harness API.  Under `--cfg vx_sym` every primitive is an extern function the
//! symbolic executor implements; otherwise (counterexample replay) the same
//! primitives read the solver's values from a file and run natively.
pub mod clock;
pub mod rt;

#[cfg(vx_sym)]
mod imp {
    extern "C" {
        pub fn __vx_nd(bits: u32) -> u64;
        pub fn __vx_assume(c: bool);
        pub fn __vx_assert(c: bool, p: *const u8, n: usize);
        pub fn __vx_fail(p: *const u8, n: usize) -> !;
        pub fn __vx_cover(p: *const u8, n: usize);
        pub fn __vx_end() -> !;
        pub fn __vx_conc(v: u64) -> u64;
        pub fn __vx_note(p: *const u8, n: usize, v: u64);
        pub fn __vx_co_new(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
        pub fn __vx_co_resume(id: u64) -> bool;
        pub fn __vx_co_suspend();
    }
    pub fn nd(bits: u32) -> u64 { unsafe { __vx_nd(bits) } }
    pub fn assume(c: bool) { unsafe { __vx_assume(c) } }
    pub fn check(c: bool, id: &str) { unsafe { __vx_assert(c, id.as_ptr(), id.len()) } }
    pub fn fail(id: &str) -> ! { unsafe { __vx_fail(id.as_ptr(), id.len()) } }
    pub fn cover(id: &str) { unsafe { __vx_cover(id.as_ptr(), id.len()) } }
    pub fn end() -> ! { unsafe { __vx_end() } }
    pub fn conc(v: u64) -> u64 { unsafe { __vx_conc(v) } }
    pub fn note(id: &str, v: u64) { unsafe { __vx_note(id.as_ptr(), id.len(), v) } }
    pub fn co_new(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 { unsafe { __vx_co_new(f, arg) } }
    pub fn co_resume(id: u64) -> bool { unsafe { __vx_co_resume(id) } }
    pub fn co_suspend() { unsafe { __vx_co_suspend() } }
}

#[cfg(not(vx_sym))]
mod imp {
    use std::sync::{Arc, Condvar, Mutex};
    struct In { v: Vec<u64>, i: usize, loaded: bool }
    static IN: Mutex<In> = Mutex::new(In { v: Vec::new(), i: 0, loaded: false });
    pub fn nd(bits: u32) -> u64 {
        let mut g = IN.lock().unwrap();
        if !g.loaded {
            g.loaded = true;
            if let Ok(p) = std::env::var("VX_INPUTS") {
                g.v = std::fs::read_to_string(p).expect("inputs").split_whitespace().map(|x| x.parse().expect("number")).collect();
            }
        }
        let x = g.v.get(g.i).copied().unwrap_or(0);
        g.i += 1;
        if bits >= 64 { x } else { x & ((1u64 << bits) - 1) }
    }
    pub fn assume(c: bool) { if !c { eprintln!("VX-ASSUME-FALSE"); std::process::exit(77) } }
    pub fn check(c: bool, id: &str) { if !c { fail(id) } }
    pub fn fail(id: &str) -> ! { println!("VX-FAILED {id}"); eprintln!("VX-FAILED {id}"); std::process::exit(42) }
    pub fn cover(_id: &str) {}
    pub fn end() -> ! { println!("VX-END"); std::process::exit(0) }
    pub fn conc(v: u64) -> u64 { v }
    pub fn note(id: &str, v: u64) { eprintln!("note: {id} {v}") }

    // coroutines as threads passing a baton
    #[derive(PartialEq, Clone, Copy)]
    enum Turn { Parent, Child, Done }
    struct Co { m: Mutex<Turn>, c: Condvar, entry: Mutex<Option<(extern "C" fn(*mut u8), usize)>> }
    static COS: Mutex<Vec<Arc<Co>>> = Mutex::new(Vec::new());
    thread_local! { static CUR: std::cell::RefCell<Option<Arc<Co>>> = const { std::cell::RefCell::new(None) }; }
    pub fn co_new(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 {
        let mut g = COS.lock().unwrap();
        g.push(Arc::new(Co { m: Mutex::new(Turn::Parent), c: Condvar::new(), entry: Mutex::new(Some((f, arg as usize))) }));
        (g.len() - 1) as u64
    }
    pub fn co_resume(id: u64) -> bool {
        let co = COS.lock().unwrap()[id as usize].clone();
        let entry = co.entry.lock().unwrap().take();
        let mut t = co.m.lock().unwrap();
        *t = Turn::Child;
        if let Some((f, a)) = entry {
            let c2 = co.clone();
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                CUR.with(|c| *c.borrow_mut() = Some(c2.clone()));
                { let mut t = c2.m.lock().unwrap(); while *t != Turn::Child { t = c2.c.wait(t).unwrap(); } }
                let r = std::panic::catch_unwind(|| f(a as *mut u8));
                if r.is_err() { println!("VX-FAILED panic"); std::process::exit(43); }
                *c2.m.lock().unwrap() = Turn::Done;
                c2.c.notify_all();
            }).expect("thread");
        } else { co.c.notify_all(); }
        while *t == Turn::Child { t = co.c.wait(t).unwrap(); }
        *t == Turn::Done
    }
    pub fn co_suspend() {
        let co = CUR.with(|c| c.borrow().clone()).expect("suspend outside coroutine");
        let mut t = co.m.lock().unwrap();
        *t = Turn::Parent;
        co.c.notify_all();
        while *t != Turn::Child { t = co.c.wait(t).unwrap(); }
    }
}

pub use imp::{assume, check, co_new, co_resume, co_suspend, conc, cover, end, fail, note};

pub fn u8() -> u8 { imp::nd(8) as u8 }
pub fn u16() -> u16 { imp::nd(16) as u16 }
pub fn u32() -> u32 { imp::nd(32) as u32 }
pub fn u64() -> u64 { imp::nd(64) }
pub fn bool() -> bool { imp::nd(1) == 1 }
/// symbolic value below n (n small)
pub fn below(n: u64) -> u64 {
    if n <= 1 { return 0; }
    let bits = 64 - (n - 1).leading_zeros();
    let x = imp::nd(bits);
    assume(x < n);
    x
}
/// like `below`, then split into one path per value
pub fn choose(n: usize) -> usize { conc(below(n as u64)) as usize }
pub fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| u8()).collect() }
/// conjunction/disjunction without branching
pub fn and(a: bool, b: bool) -> bool { a & b }

/// A global only ever touched by the thread holding the baton.
pub struct Global<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new(t: T) -> Self { Self(std::cell::UnsafeCell::new(t)) }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T { unsafe { &mut *self.0.get() } }
}
/// For values shared between tasks of one (cooperative) scheduler.
pub struct AssertSend<T>(pub T);
unsafe impl<T> Send for AssertSend<T> {}
unsafe impl<T> Sync for AssertSend<T> {}
