//! Deterministic single-threaded scheduler. Every step picks one enabled actor (a woken task
//! or a movable link direction) with the case's random generator, so a case is replayed by
//! its seed. Quiescence (nothing woken, nothing movable) is observed, not guessed by a timer.
use crate::{clock, rng::Rng};
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc,
    },
    task::{Context, Poll},
};

pub trait Actor {
    fn enabled(&self) -> bool;
    fn step(&self, rng: &mut Rng);
}

struct Wake {
    flag: AtomicBool,
    outer: Arc<futures::task::AtomicWaker>,
}

impl futures::task::ArcWake for Wake {
    fn wake_by_ref(this: &Arc<Self>) {
        this.flag.store(true, Ordering::SeqCst);
        this.outer.wake();
    }
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    fut: Option<BoxFut>,
    wake: Arc<Wake>,
    prio: u64,
    name: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    Goal,
    Quiescent,
    Steps,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strategy {
    /// uniform choice among the enabled
    Uniform,
    /// highest priority first, priorities change at random points
    Priority,
    /// keep running the same actor while it is enabled
    Sticky,
    /// round robin
    Fair,
}

struct Inner {
    new: Vec<(String, BoxFut)>,
}

#[derive(Clone)]
pub struct Spawner(Rc<RefCell<Inner>>);

impl Spawner {
    pub fn spawn(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().new.push((name.into(), Box::pin(f)));
    }
}

pub struct Exec {
    tasks: Vec<Task>,
    actors: Vec<(Rc<dyn Actor>, u64)>,
    inner: Rc<RefCell<Inner>>,
    outer: Arc<futures::task::AtomicWaker>,
    pub rng: Rng,
    pub strategy: Strategy,
    last: usize,
    pub steps: u64,
    pub polls: u64,
    /// polled although nobody woke it (legal for futures); 1 in n steps, 0 = never
    pub spurious: u64,
    /// hash over the chosen actors: identifies the interleaving
    pub trace: u64,
}

thread_local! {
    static HEART: RefCell<Option<Arc<AtomicU64>>> = RefCell::new(None);
}

pub fn set_heart(h: Arc<AtomicU64>) {
    HEART.with(|x| *x.borrow_mut() = Some(h));
}

pub fn beat() {
    HEART.with(|x| {
        if let Some(h) = &*x.borrow() {
            h.fetch_add(1, Ordering::Relaxed);
        }
    });
}

impl Exec {
    pub fn new(mut rng: Rng) -> Exec {
        let strategy = *rng.pick(&[
            Strategy::Uniform,
            Strategy::Uniform,
            Strategy::Priority,
            Strategy::Sticky,
            Strategy::Fair,
        ]);
        Exec {
            tasks: Vec::new(),
            actors: Vec::new(),
            inner: Rc::new(RefCell::new(Inner { new: Vec::new() })),
            outer: Arc::new(futures::task::AtomicWaker::new()),
            rng,
            strategy,
            last: 0,
            steps: 0,
            polls: 0,
            spurious: 0,
            trace: 0,
        }
    }

    pub fn spawner(&self) -> Spawner {
        Spawner(self.inner.clone())
    }

    pub fn spawn(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) {
        self.spawner().spawn(name, f)
    }

    pub fn actor(&mut self, a: Rc<dyn Actor>) {
        let p = self.rng.next();
        self.actors.push((a, p));
    }

    fn absorb(&mut self) {
        loop {
            let new: Vec<_> = self.inner.borrow_mut().new.drain(..).collect();
            if new.is_empty() {
                break;
            }
            for (name, fut) in new {
                let prio = self.rng.next();
                self.tasks.push(Task {
                    fut: Some(fut),
                    wake: Arc::new(Wake {
                        flag: AtomicBool::new(true),
                        outer: self.outer.clone(),
                    }),
                    prio,
                    name,
                });
            }
        }
    }

    pub fn alive(&self) -> Vec<String> {
        self.tasks
            .iter()
            .filter(|t| t.fut.is_some())
            .map(|t| t.name.clone())
            .collect()
    }

    /// one step; false when nothing is enabled
    fn step(&mut self) -> bool {
        self.absorb();
        let nt = self.tasks.len();
        let mut en: Vec<usize> = Vec::with_capacity(nt + self.actors.len());
        for (i, t) in self.tasks.iter().enumerate() {
            if t.fut.is_some() && t.wake.flag.load(Ordering::SeqCst) {
                en.push(i);
            }
        }
        for (i, a) in self.actors.iter().enumerate() {
            if a.0.enabled() {
                en.push(nt + i);
            }
        }
        if en.is_empty() {
            return false;
        }
        self.steps += 1;
        if self.spurious > 0 && self.rng.chance(1, self.spurious) {
            let i = self.rng.us(nt);
            if self.tasks[i].fut.is_some() {
                self.poll_task(i);
                return true;
            }
        }
        let pr = |s: &Self, i: usize| {
            if i < nt {
                s.tasks[i].prio
            } else {
                s.actors[i - nt].1
            }
        };
        let c = match self.strategy {
            Strategy::Uniform => en[self.rng.us(en.len())],
            Strategy::Sticky => {
                if en.contains(&self.last) && !self.rng.chance(1, 12) {
                    self.last
                } else {
                    en[self.rng.us(en.len())]
                }
            }
            Strategy::Fair => *en.iter().find(|i| **i > self.last).unwrap_or(&en[0]),
            Strategy::Priority => {
                let c = *en.iter().max_by_key(|i| pr(self, **i)).unwrap();
                // a starved actor must run at some point: demote what ran
                if self.rng.chance(1, 20) {
                    let p = self.rng.next();
                    if c < nt {
                        self.tasks[c].prio = p;
                    } else {
                        self.actors[c - nt].1 = p;
                    }
                }
                c
            }
        };
        self.last = c;
        self.trace = crate::rng::mix(self.trace, c as u64);
        if c < nt {
            self.poll_task(c);
        } else {
            let a = self.actors[c - nt].0.clone();
            a.step(&mut self.rng);
        }
        true
    }

    fn poll_task(&mut self, i: usize) {
        self.polls += 1;
        let t = &mut self.tasks[i];
        t.wake.flag.store(false, Ordering::SeqCst);
        let waker = futures::task::waker(t.wake.clone());
        let mut cx = Context::from_waker(&waker);
        let done = match t.fut.as_mut() {
            Some(f) => f.as_mut().poll(&mut cx).is_ready(),
            None => false,
        };
        if done {
            t.fut = None;
        }
    }

    /// Run until the goal holds, nothing is enabled, or the step budget is used up.
    pub async fn run(&mut self, max_steps: u64, mut goal: impl FnMut() -> bool) -> Stop {
        let end = self.steps + max_steps;
        loop {
            for _ in 0..64 {
                if goal() {
                    return Stop::Goal;
                }
                if self.steps >= end {
                    return Stop::Steps;
                }
                if !self.step() {
                    // let the time driver run once: a timer may already be due
                    yield_now().await;
                    yield_now().await;
                    self.absorb();
                    if !self.any_enabled() {
                        return if goal() { Stop::Goal } else { Stop::Quiescent };
                    }
                }
            }
            beat();
            yield_now().await;
        }
    }

    fn any_enabled(&self) -> bool {
        self.tasks
            .iter()
            .any(|t| t.fut.is_some() && t.wake.flag.load(Ordering::SeqCst))
            || self.actors.iter().any(|a| a.0.enabled())
    }

    /// Move the virtual clock and let the timers fire.
    pub async fn advance(&mut self, ms: u64) {
        clock::advance_ms(ms);
        for _ in 0..3 {
            yield_now().await;
        }
    }

    /// Drop every task.
    pub fn clear(&mut self) {
        for t in self.tasks.iter_mut() {
            t.fut = None;
        }
        self.inner.borrow_mut().new.clear();
    }
}

pub async fn yield_now() {
    let mut done = false;
    futures::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

/// Run a case with frozen time and a tokio time driver on this thread.
pub fn with_runtime<R>(f: impl Future<Output = R>) -> R {
    clock::freeze();
    let mut rt = tokio::runtime::Builder::new()
        .basic_scheduler()
        .enable_time()
        .build()
        .expect("runtime");
    rt.block_on(f)
}
