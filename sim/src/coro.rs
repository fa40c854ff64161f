//! Cooperative tasks on one OS thread. Every simulated system call, I/O operation and
//! instrumented atomic operation calls `step()`; the seeded scheduler decides there
//! whether another task runs next.

use crate::core::*;
use corosensei::{Coroutine, CoroutineResult, Yielder, stack::DefaultStack};
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Sleep(u64),
    Done,
}

struct Task {
    co: Option<Coroutine<(), (), ()>>,
    st: St,
    yielder: *const Yielder<(), ()>,
    killed: bool,
    /// Killed inside a system call: foreign frames cannot be unwound, so the task runs on
    /// as a ghost whose calls all fail and reach nothing.
    ghost: bool,
    ghost_steps: u64,
    kill_in: Option<u64>,
    stall: u64,
}

struct Sched {
    tasks: Vec<Task>,
    cur: Option<usize>,
    preempt_in: Option<u64>,
    bits: u64,
    running: bool,
    steps: u64,
    switches: u64,
}

thread_local! {
    static SCHED: RefCell<Option<Sched>> = const { RefCell::new(None) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

pub struct Exit {
    /// Panic of a task, if one panicked: (task, payload)
    pub panic: Option<(usize, Box<dyn std::any::Any + Send>)>,
    pub killed: Vec<bool>,
    pub finished: Vec<bool>,
}

pub fn in_task() -> bool {
    SCHED.with(|s| {
        s.try_borrow()
            .map(|s| s.as_ref().map(|s| s.cur.is_some()).unwrap_or(false))
            .unwrap_or(false)
    })
}

/// Id of the running task, or usize::MAX for code outside the tasks (setup, oracles).
pub fn current() -> usize {
    SCHED.with(|s| s.borrow().as_ref().and_then(|s| s.cur).unwrap_or(usize::MAX))
}

/// True once the running task was killed: it is only being unwound, and nothing it
/// does may reach the simulated world any more.
pub fn dead() -> bool {
    SCHED.with(|s| {
        s.borrow()
            .as_ref()
            .and_then(|s| s.cur.map(|c| s.tasks[c].killed))
            .unwrap_or(false)
    })
}

enum Next {
    Stay,
    Yield,
}

/// A scheduling point. May switch to another task, stall, or never return (kill).
pub fn step() {
    step_in(false)
}

/// The same below a foreign (libc) frame: returns even if the task was killed here.
pub fn step_ffi() {
    step_in(true)
}

fn step_in(ffi: bool) {
    let next = SCHED.with(|s| {
        let mut s = s.borrow_mut();
        let Some(s) = s.as_mut() else {
            return Next::Stay;
        };
        let Some(cur) = s.cur else { return Next::Stay };
        if s.tasks[cur].killed {
            s.tasks[cur].ghost_steps += 1;
            return if s.tasks[cur].ghost && s.tasks[cur].ghost_steps > 100_000 { Next::Yield } else { Next::Stay };
        }
        s.steps += 1;
        if let Some(k) = s.tasks[cur].kill_in {
            if k == 0 {
                s.tasks[cur].killed = true;
                s.tasks[cur].ghost = ffi;
                return Next::Yield;
            }
            s.tasks[cur].kill_in = Some(k - 1);
        }
        match s.preempt_in {
            None => Next::Stay,
            Some(0) => Next::Yield,
            Some(n) => {
                s.preempt_in = Some(n - 1);
                Next::Stay
            }
        }
    });
    if let Next::Yield = next {
        suspend();
    }
}

fn suspend() {
    let y = SCHED.with(|s| {
        let s = s.borrow();
        let s = s.as_ref().expect("scheduler");
        s.tasks[s.cur.expect("task")].yielder
    });
    // The yielder lives on the coroutine's stack for as long as the coroutine runs.
    unsafe { (*y).suspend(()) };
}

/// Virtual sleep of the running task; outside tasks it just moves the clock.
pub fn sleep(ns: u64) {
    if !in_task() {
        set_now(now() + ns);
        return;
    }
    if dead() {
        return;
    }
    let until = now().saturating_add(ns);
    SCHED.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().expect("scheduler");
        let c = s.cur.expect("task");
        let late = s.tasks[c].stall;
        s.tasks[c].st = St::Sleep(until.saturating_add(late));
    });
    suspend();
}

/// Give way unconditionally.
pub fn relax() {
    if in_task() && !dead() {
        suspend();
    }
}

/// Arrange for a task to be killed (process death) after a number of its own steps.
pub fn kill_after(task: usize, steps: u64) {
    SCHED.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(s) = s.as_mut() {
            s.tasks[task].kill_in = Some(steps);
        }
    })
}

/// Every sleep of the task overshoots by this much (a slow node / oversleeping timer).
pub fn stall(task: usize, ns: u64) {
    SCHED.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(s) = s.as_mut() {
            s.tasks[task].stall = ns;
        }
    })
}

pub struct Plan {
    /// Steps after which a task is killed.
    pub kills: Vec<(usize, u64)>,
    pub stalls: Vec<(usize, u64)>,
    /// Log2 bound of the distance between preemptions.
    pub bits: u64,
    /// Stop after this many scheduler rounds (the run is then "stuck").
    pub max_rounds: u64,
}

fn stack() -> DefaultStack {
    STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 * 1024).expect("stack"))
}

/// Run the tasks to completion under a seeded schedule.
pub fn run(tasks: Vec<Box<dyn FnOnce()>>, plan: Plan, mut on_kill: impl FnMut(usize)) -> Exit {
    let n = tasks.len();
    let bodies: Vec<Task> = tasks
        .into_iter()
        .map(|f| Task {
            co: Some(Coroutine::with_stack(stack(), move |y: &Yielder<(), ()>, ()| {
                SCHED.with(|s| {
                    let mut s = s.borrow_mut();
                    let s = s.as_mut().expect("scheduler");
                    let c = s.cur.expect("task");
                    s.tasks[c].yielder = y;
                });
                f();
            })),
            st: St::Ready,
            yielder: std::ptr::null(),
            killed: false,
            ghost: false,
            ghost_steps: 0,
            kill_in: None,
            stall: 0,
        })
        .collect();
    SCHED.with(|s| {
        *s.borrow_mut() = Some(Sched {
            tasks: bodies,
            cur: None,
            preempt_in: None,
            bits: plan.bits,
            running: true,
            steps: 0,
            switches: 0,
        })
    });
    for (t, k) in plan.kills {
        kill_after(t, k);
    }
    for (t, k) in plan.stalls {
        stall(t, k);
    }
    let mut panic = None;
    let mut last = usize::MAX;
    let mut rounds = 0;
    loop {
        rounds += 1;
        if rounds > plan.max_rounds {
            break;
        }
        // ready tasks, the previously running one first: staying is the simple choice
        let (mut ready, wake) = SCHED.with(|s| {
            let s = s.borrow();
            let s = s.as_ref().expect("scheduler");
            let t = now();
            let mut ready = Vec::new();
            let mut wake = None::<u64>;
            for (i, task) in s.tasks.iter().enumerate() {
                match task.st {
                    St::Ready => ready.push(i),
                    St::Sleep(u) if u <= t => ready.push(i),
                    St::Sleep(u) => wake = Some(wake.map_or(u, |w| w.min(u))),
                    St::Done => {}
                }
            }
            (ready, wake)
        });
        if ready.is_empty() {
            match wake {
                Some(w) => {
                    tick(w);
                    set_now(w);
                    continue;
                }
                None => break,
            }
        }
        if let Some(p) = ready.iter().position(|r| *r == last) {
            // rotate so that index 0 is "someone else" only when picked
            ready.remove(p);
            ready.insert(0, last);
        }
        let pickd = ready[pick(ready.len() as u64) as usize];
        if pickd != last {
            sched("run", pickd as u64, 0);
        }
        last = pickd;
        let co = SCHED.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.as_mut().expect("scheduler");
            s.cur = Some(pickd);
            s.tasks[pickd].st = St::Ready;
            s.switches += 1;
            s.tasks[pickd].co.take()
        });
        let g = gap(plan.bits);
        SCHED.with(|s| s.borrow_mut().as_mut().expect("scheduler").preempt_in = g);
        let mut co = co.expect("coroutine");
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| co.resume(())));
        let killed = SCHED.with(|s| {
            let s = s.borrow();
            s.as_ref().expect("scheduler").tasks[pickd].killed
        });
        let mut done = false;
        match res {
            Ok(CoroutineResult::Yield(())) => {
                if killed {
                    fault("process_kill", pickd as u64);
                    let ghost = SCHED.with(|s| {
                        let mut s = s.borrow_mut();
                        let s = s.as_mut().expect("scheduler");
                        s.cur = None;
                        s.tasks[pickd].ghost
                    });
                    if ghost {
                        on_kill(pickd);
                    }
                    SCHED.with(|s| s.borrow_mut().as_mut().expect("scheduler").cur = Some(pickd));
                    // clean up the task's frames; its calls reach nothing (see `dead`)
                    let gone = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        if ghost {
                            matches!(co.resume(()), CoroutineResult::Return(()))
                        } else {
                            co.force_unwind();
                            true
                        }
                    }));
                    match gone {
                        Ok(true) => STACKS.with(|s| s.borrow_mut().push(co.into_stack())),
                        Ok(false) => {
                            unsafe { co.force_reset() };
                            drop(co);
                        }
                        Err(_) => std::mem::forget(co),
                    }
                    done = true;
                    SCHED.with(|s| s.borrow_mut().as_mut().expect("scheduler").cur = None);
                    if !ghost {
                        on_kill(pickd);
                    }
                } else {
                    SCHED.with(|s| {
                        s.borrow_mut().as_mut().expect("scheduler").tasks[pickd].co = Some(co)
                    });
                }
            }
            Ok(CoroutineResult::Return(())) => {
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                done = true;
            }
            Err(p) => {
                done = true;
                if panic.is_none() {
                    panic = Some((pickd, p));
                }
                std::mem::forget(co);
            }
        }
        SCHED.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.as_mut().expect("scheduler");
            s.cur = None;
            if done {
                s.tasks[pickd].st = St::Done;
            }
        });
        if panic.is_some() {
            break;
        }
    }
    let mut s = SCHED.with(|s| s.borrow_mut().take().expect("scheduler"));
    let exit = Exit {
        panic,
        killed: s.tasks.iter().map(|t| t.killed).collect(),
        finished: s.tasks.iter().map(|t| t.st == St::Done).collect(),
    };
    // leftovers (only when the run was cut short): abandon them without running their frames
    for t in s.tasks.iter_mut() {
        if let Some(mut co) = t.co.take() {
            if co.started() && !co.done() {
                unsafe { co.force_reset() };
            }
            drop(co);
        }
    }
    let _ = (n, s.running, s.steps, s.switches, s.bits);
    exit
}
