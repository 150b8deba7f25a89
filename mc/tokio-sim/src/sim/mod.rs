//! Controlled execution. Not part of tokio: added by the checks in /verif.
//!
//! A thread that calls [`install`] hands every scheduling decision of its current-thread runtime to
//! a chooser; answer 0 is always what plain tokio would do. All state is thread local.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub mod net;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// which runnable task next; n = runnable + 2 holds (+ 1 stop)
    Task,
    /// first branch polled by a select!
    Select,
    /// a lock or permit is about to be taken: go on / to the back of the queue / hold / hold longer
    Lock,
    /// a lock or permit has just been taken: as Lock
    Held,
    /// a socket write is about to happen: as Lock
    Write,
}

pub type Chooser = Box<dyn FnMut(Kind, u32, &[u64]) -> u32>;

struct State {
    chooser: Option<Chooser>,
    held_wakers: Vec<(u8, Waker)>,
    root: Option<Waker>,
}
thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static ST: RefCell<State> = const { RefCell::new(State { chooser: None, held_wakers: Vec::new(), root: None }) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static IN_TASK: Cell<u64> = const { Cell::new(0) };
    static WAIT_IDLE: Cell<bool> = const { Cell::new(false) };
    static CAN_STOP: Cell<bool> = const { Cell::new(false) };
    static REACHED: Cell<u8> = const { Cell::new(0) };
    static POLLS: Cell<u64> = const { Cell::new(0) };
    static SPIN: Cell<u32> = const { Cell::new(0) };
    static ALL_POLLS: Cell<u64> = const { Cell::new(0) };
    static RUN_POLLS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(20_000) };
}

pub fn install(c: Chooser) {
    ST.with(|s| s.borrow_mut().chooser = Some(c));
    ACTIVE.set(true);
}
pub fn uninstall() {
    ACTIVE.set(false);
    let (c, w) = ST.with(|s| {
        let mut s = s.borrow_mut();
        (s.chooser.take(), std::mem::take(&mut s.held_wakers))
    });
    drop(c);
    drop(w);
}
pub(crate) fn next_id() -> u64 {
    NEXT.set(NEXT.get() + 1);
    NEXT.get()
}
pub fn active() -> bool {
    ACTIVE.get()
}
/// task polls since the thread started
pub fn polls() -> u64 {
    POLLS.get()
}
pub fn set_poll_limit(n: u64) {
    LIMIT.set(n)
}

/// Milliseconds until the next timer may fire.
pub fn next_timer(h: &crate::runtime::Handle) -> Option<u64> {
    let d = h.inner.driver();
    d.time().sim_next(d.clock())
}

pub(crate) fn choose(kind: Kind, n: u32, ids: &[u64]) -> u32 {
    if !ACTIVE.get() || n < 2 {
        return 0;
    }
    // the chooser is taken out so that a nested decision (there is none today) cannot alias it
    let c = ST.with(|s| s.borrow_mut().chooser.take());
    match c {
        None => 0,
        Some(mut c) => {
            let r = c(kind, n, ids);
            ST.with(|s| s.borrow_mut().chooser = Some(c));
            assert!(r < n, "choice out of range");
            r
        }
    }
}

/// A point at which the running task may be made to wait although it could go on.
pub(crate) fn preempt(kind: Kind, cx: &mut Context<'_>) -> bool {
    if !ACTIVE.get() || IN_TASK.get() == 0 {
        return false;
    }
    match choose(kind, 4, &[IN_TASK.get()]) {
        0 => false,
        1 => {
            cx.waker().wake_by_ref();
            true
        }
        k => {
            let w = cx.waker().clone();
            ST.with(|s| s.borrow_mut().held_wakers.push((k as u8 - 2, w)));
            true
        }
    }
}

/// the task being polled, 0 outside of all
pub fn in_task() -> u64 {
    IN_TASK.get()
}
pub(crate) fn enter_task(id: u64) {
    IN_TASK.set(id);
    POLLS.set(POLLS.get() + 1);
    RUN_POLLS.set(RUN_POLLS.get() + 1);
}
pub(crate) fn leave_task() {
    IN_TASK.set(0)
}
pub(crate) fn waiting_idle() -> bool {
    WAIT_IDLE.get()
}
pub(crate) fn can_stop() -> bool {
    WAIT_IDLE.get() && CAN_STOP.get()
}
pub(crate) fn over_limit() -> bool {
    WAIT_IDLE.get() && (RUN_POLLS.get() > LIMIT.get() || ALL_POLLS.get() + RUN_POLLS.get() > 100 * LIMIT.get())
}
/// Bytes have moved: what happens is not idle spinning, unless it goes on for ever.
pub(crate) fn progress() {
    ALL_POLLS.set(ALL_POLLS.get() + RUN_POLLS.get());
    RUN_POLLS.set(0);
    SPIN.set(0);
}
pub(crate) fn spin_round() -> u32 {
    SPIN.set(SPIN.get() + 1);
    SPIN.get()
}
pub(crate) fn release_wakers() -> bool {
    let v: Vec<Waker> = ST.with(|s| {
        let mut s = s.borrow_mut();
        let mut out = Vec::new();
        let mut i = 0;
        while i < s.held_wakers.len() {
            if s.held_wakers[i].0 == 0 {
                out.push(s.held_wakers.remove(i).1)
            } else {
                i += 1
            }
        }
        out
    });
    let any = !v.is_empty();
    for w in v {
        w.wake()
    }
    any
}
fn age_wakers() {
    ST.with(|s| {
        for w in s.borrow_mut().held_wakers.iter_mut() {
            w.0 = 0
        }
    })
}
pub(crate) fn reached(how: u8) {
    REACHED.set(how);
    let w = ST.with(|s| s.borrow_mut().root.take());
    if let Some(w) = w {
        w.wake()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reached {
    /// nothing is runnable
    Idle,
    /// only tasks that wake themselves are runnable
    Spinning,
    /// the chooser stopped the run early
    Stopped,
}

/// Root future: completes when the runtime has nothing left to run.
pub struct RunIdle(pub bool);
impl Future for RunIdle {
    type Output = Reached;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Reached> {
        match REACHED.replace(0) {
            0 => {
                if !WAIT_IDLE.get() {
                    SPIN.set(0);
                    ALL_POLLS.set(0);
                    RUN_POLLS.set(0);
                }
                WAIT_IDLE.set(true);
                CAN_STOP.set(self.0);
                ST.with(|s| s.borrow_mut().root = Some(cx.waker().clone()));
                Poll::Pending
            }
            r => {
                WAIT_IDLE.set(false);
                if r != 3 {
                    age_wakers()
                }
                Poll::Ready(match r {
                    1 => Reached::Idle,
                    2 => Reached::Spinning,
                    _ => Reached::Stopped,
                })
            }
        }
    }
}
