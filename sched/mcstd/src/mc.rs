//! Exhaustive exploration of the interleavings of a few tasks.
//!
//! A task is a coroutine which suspends before every operation on a lock or an atomic. The explorer
//! decides who goes on: depth first over all choices, at most `bound` of which may be preemptions
//! (taking the turn from a task that could go on). Between two such operations a task touches only
//! data that it owns or that is protected by a lock it holds, so that nothing is lost by
//! interleaving at these points only.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Lock(usize),
    Read(usize),
    Try(usize),
    Atomic(usize),
    Release(usize),
    /// until the count at this address is positive
    Wait(usize),
    Yield,
}

thread_local! {
    static YIELDER: Cell<*const Yielder<(), Op>> = const { Cell::new(std::ptr::null()) };
    /// lock -> (writer, readers); tasks
    static OWNERS: RefCell<HashMap<usize, Vec<usize>>> = RefCell::new(HashMap::new());
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    /// tryable: a lock was tried, so that releases are visible
    static TRIED: Cell<bool> = const { Cell::new(false) };
    static RELEASES: Cell<bool> = const { Cell::new(false) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
}

/// Suspends the running task before `op`; false outside of an exploration.
pub fn point(op: Op) -> bool {
    let y = YIELDER.with(|y| y.get());
    if let Op::Try(_) = op {
        TRIED.with(|t| t.set(true));
    }
    if y.is_null() {
        return false;
    }
    if std::thread::panicking() {
        // destructors of a failing task
        return true;
    }
    let me = ME.with(|m| m.get());
    // the yielder lives on the coroutine's stack as long as the task runs
    unsafe { (*y).suspend(op) };
    YIELDER.with(|c| c.set(y));
    ME.with(|m| m.set(me));
    true
}
pub(crate) fn release_point(id: usize) {
    if RELEASES.with(|r| r.get()) {
        point(Op::Release(id));
    }
}
pub(crate) fn acquired(id: usize, shared: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    OWNERS.with(|o| {
        let mut o = o.borrow_mut();
        let v = o.entry(id).or_default();
        // a writer is held twice, so that it excludes readers
        v.push(me);
        if !shared {
            v.push(usize::MAX);
        }
    });
}
pub(crate) fn released(id: usize, shared: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    OWNERS.with(|o| {
        let mut o = o.borrow_mut();
        if let Some(v) = o.get_mut(&id) {
            if !shared {
                v.retain(|x| *x != usize::MAX);
            }
            if let Some(p) = v.iter().position(|x| *x == me) {
                v.remove(p);
            }
            if v.is_empty() {
                o.remove(&id);
            }
        }
    });
}
/// The running task
pub(crate) fn me() -> usize {
    ME.with(|m| m.get())
}
/// The number of scheduling steps made so far in this execution: orders calls and returns.
pub fn now() -> u64 {
    CLOCK.with(|c| {
        c.set(c.get() + 1);
        c.get()
    })
}

fn enabled(op: &Op) -> bool {
    match op {
        Op::Lock(id) => OWNERS.with(|o| !o.borrow().contains_key(id)),
        Op::Read(id) => OWNERS.with(|o| o.borrow().get(id).map_or(true, |v| !v.contains(&usize::MAX))),
        // the counter lives while its owner waits
        Op::Wait(at) => unsafe { (*(*at as *const std::sync::atomic::AtomicUsize)).load(std::sync::atomic::Ordering::SeqCst) > 0 },
        _ => true,
    }
}

#[derive(Clone, Copy, Debug)]
struct Choice {
    chosen: u8,
    /// alternatives not yet tried (bit mask)
    rest: u8,
}

#[derive(Debug, Default, Clone)]
pub struct Stats {
    pub executions: u64,
    /// scheduling points with more than one choice, each counted once
    pub states: u64,
    /// operations executed
    pub steps: u64,
    /// executions in which the bound cut off alternatives
    pub max_steps: u64,
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub what: String,
    /// task of every operation
    pub schedule: Vec<u8>,
    pub log: Vec<String>,
}

pub type Task = Box<dyn FnOnce()>;

pub struct Explorer {
    pub bound: usize,
    pub max_steps: usize,
    path: Vec<Choice>,
    pub stats: Stats,
}

fn text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "a panic".into()
    }
}

type Co = Coroutine<(), Op, Result<(), String>, DefaultStack>;

fn resume(i: usize, co: &mut Co) -> CoroutineResult<Op, Result<(), String>> {
    ME.with(|m| m.set(i));
    let r = co.resume(());
    ME.with(|m| m.set(usize::MAX));
    YIELDER.with(|y| y.set(std::ptr::null()));
    r
}

impl Explorer {
    pub fn new(bound: usize) -> Self {
        Explorer {
            bound,
            max_steps: 100_000,
            path: vec![],
            stats: Stats::default(),
        }
    }

    /// Runs every execution: `setup` gives the tasks and the check made after they have finished.
    pub fn run<F>(&mut self, mut setup: F) -> Result<(), Failure>
    where
        F: FnMut() -> (Vec<Task>, Box<dyn FnOnce() -> Result<(), String>>),
    {
        RELEASES.with(|r| r.set(false));
        TRIED.with(|r| r.set(false));
        loop {
            let r = self.execute(&mut setup, false);
            self.stats.executions += 1;
            r?;
            if TRIED.with(|t| t.get()) && !RELEASES.with(|r| r.get()) {
                // releases are visible to try_lock: start again with points there, too
                RELEASES.with(|r| r.set(true));
                self.path.clear();
                continue;
            }
            if !self.backtrack() {
                RELEASES.with(|r| r.set(false));
                return Ok(());
            }
        }
    }
    /// Runs one execution again, by the choices made in it.
    pub fn replay<F>(&mut self, choices: &[u8], releases: bool, mut setup: F) -> Result<(), Failure>
    where
        F: FnMut() -> (Vec<Task>, Box<dyn FnOnce() -> Result<(), String>>),
    {
        RELEASES.with(|r| r.set(releases));
        self.path = choices.iter().map(|c| Choice { chosen: *c, rest: 0 }).collect();
        let r = self.execute(&mut setup, true);
        RELEASES.with(|r| r.set(false));
        r
    }
    pub fn choices(&self) -> Vec<u8> {
        self.path.iter().map(|c| c.chosen).collect()
    }
    pub fn releases(&self) -> bool {
        RELEASES.with(|r| r.get())
    }

    fn backtrack(&mut self) -> bool {
        while let Some(c) = self.path.last_mut() {
            if c.rest != 0 {
                let n = c.rest.trailing_zeros() as u8;
                c.rest &= !(1 << n);
                c.chosen = n;
                return true;
            }
            self.path.pop();
        }
        false
    }

    fn execute<F>(&mut self, setup: &mut F, verbose: bool) -> Result<(), Failure>
    where
        F: FnMut() -> (Vec<Task>, Box<dyn FnOnce() -> Result<(), String>>),
    {
        OWNERS.with(|o| o.borrow_mut().clear());
        crate::local::clear();
        CLOCK.with(|c| c.set(0));
        let (tasks, check) = setup();
        let n = tasks.len();
        let mut cos: Vec<Option<Co>> = vec![];
        let mut pending: Vec<Option<Op>> = vec![None; n];
        let mut schedule = vec![];
        let mut log = vec![];
        let mut failed: Option<String> = None;
        let mut names: HashMap<usize, usize> = HashMap::new();
        for t in tasks {
            let stack = STACKS
                .with(|s| s.borrow_mut().pop())
                .unwrap_or_else(|| DefaultStack::new(1 << 20).expect("stack"));
            cos.push(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), Op>, _| {
                YIELDER.with(|c| c.set(y as *const _));
                // start is a point, too
                point(Op::Yield);
                let r = catch_unwind(AssertUnwindSafe(t)).map_err(|e| {
                    if e.is::<String>() || e.is::<&str>() {
                        text(&*e)
                    } else {
                        std::panic::resume_unwind(e)
                    }
                });
                YIELDER.with(|c| c.set(std::ptr::null()));
                r
            })));
        }
        for i in 0..n {
            match resume(i, cos[i].as_mut().unwrap()) {
                CoroutineResult::Yield(op) => pending[i] = Some(op),
                CoroutineResult::Return(_) => unreachable!(),
            }
        }
        let mut current: Option<usize> = None;
        let mut preemptions = 0;
        let mut depth = 0;
        loop {
            let ready: Vec<usize> = (0..n)
                .filter(|i| pending[*i].as_ref().map_or(false, enabled))
                .collect();
            if ready.is_empty() {
                if pending.iter().any(|p| p.is_some()) {
                    let who: Vec<String> = (0..n)
                        .filter_map(|i| pending[i].map(|p| format!("task {} waits for {}", i, show(&p, &mut names))))
                        .collect();
                    failed = Some(format!("deadlock: {}", who.join(", ")));
                }
                break;
            }
            // who may go on within the bound; a yielding task gives up its turn for free
            let (first, free) = match current {
                Some(c) if ready.contains(&c) => (c, pending[c] == Some(Op::Yield)),
                _ => (ready[0], true),
            };
            let allowed: Vec<usize> = if free {
                ready.clone()
            } else if preemptions < self.bound {
                ready.clone()
            } else {
                vec![first]
            };
            let next = if allowed.len() == 1 {
                allowed[0]
            } else {
                let c = if depth < self.path.len() {
                    let c = self.path[depth].chosen as usize;
                    if !allowed.contains(&c) {
                        return Err(Failure {
                            what: "harness: the execution is not reproducible".into(),
                            schedule,
                            log,
                        });
                    }
                    c
                } else {
                    let mut rest = 0u8;
                    for a in &allowed {
                        if *a != first {
                            rest |= 1 << a;
                        }
                    }
                    self.path.push(Choice { chosen: first as u8, rest });
                    self.stats.states += 1;
                    first
                };
                depth += 1;
                c
            };
            if !free && next != first {
                preemptions += 1;
            }
            current = Some(next);
            if verbose {
                let op = pending[next].unwrap();
                log.push(format!("task {}: {}", next, show(&op, &mut names)));
            }
            schedule.push(next as u8);
            self.stats.steps += 1;
            if schedule.len() > self.max_steps {
                failed = Some(format!("the tasks do not finish within {} steps", self.max_steps));
                break;
            }
            CLOCK.with(|c| c.set(c.get() + 1));
            match resume(next, cos[next].as_mut().unwrap()) {
                CoroutineResult::Yield(op) => pending[next] = Some(op),
                CoroutineResult::Return(r) => {
                    pending[next] = None;
                    let stack = cos[next].take().unwrap().into_stack();
                    STACKS.with(|s| s.borrow_mut().push(stack));
                    if let Err(e) = r {
                        failed = Some(format!("task {} panics: {}", next, e));
                        break;
                    }
                }
            }
        }
        self.stats.max_steps = self.stats.max_steps.max(schedule.len() as u64);
        // unwinds what has not finished
        for i in 0..n {
            if let Some(co) = cos[i].take() {
                ME.with(|m| m.set(i));
                drop(co);
                ME.with(|m| m.set(usize::MAX));
                YIELDER.with(|y| y.set(std::ptr::null()));
            }
        }
        OWNERS.with(|o| o.borrow_mut().clear());
        let r = match failed {
            Some(f) => {
                std::mem::forget(check);
                Err(f)
            }
            None => match catch_unwind(AssertUnwindSafe(check)) {
                Ok(r) => r,
                Err(e) => Err(format!("panic when the result is checked: {}", text(&*e))),
            },
        };
        r.map_err(|what| Failure { what, schedule, log })
    }
}

fn show(op: &Op, names: &mut HashMap<usize, usize>) -> String {
    let mut n = |a: &usize| {
        let k = names.len();
        *names.entry(*a).or_insert(k)
    };
    match op {
        Op::Lock(a) => format!("lock {}", n(a)),
        Op::Read(a) => format!("read lock {}", n(a)),
        Op::Try(a) => format!("try lock {}", n(a)),
        Op::Atomic(a) => format!("atomic {}", n(a)),
        Op::Release(a) => format!("release {}", n(a)),
        Op::Wait(a) => format!("wait {}", n(a)),
        Op::Yield => "start".into(),
    }
}
