//! A model of rayon's work stealing under the explorer's control. `join` pushes its second closure to
//! the deque of the calling worker; at every scheduling point the explorer may switch to another
//! worker's topmost task, or let an idle (or waiting) worker take a pending job: its own newest one
//! first, otherwise the oldest one of another worker. Switching away from a task that could go on is a
//! preemption and bounded. Every task runs on an OS thread of its own, but only the holder of the baton
//! runs.
use crate::engine::{choose, current, set_current, with, Ctx};
use std::collections::VecDeque;
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Runnable,
    Waiting(usize),
    Done,
}
struct Task {
    slot: usize,
    status: Status,
}
#[derive(Clone, Copy)]
struct JobPtr(*mut (dyn FnMut(bool) + Send));
unsafe impl Send for JobPtr {}
struct Job {
    id: usize,
    f: JobPtr,
}
struct Slot {
    stack: Vec<usize>,
    deque: VecDeque<Job>,
}
struct State {
    tasks: Vec<Task>,
    slots: Vec<Slot>,
    done: Vec<bool>, // by job id
    current: usize,
    preemptions: u32,
    free: bool,
    ticks: u64,
}
pub struct Sched {
    m: Mutex<State>,
    cv: Condvar,
    ctx: Mutex<()>,
}
#[derive(Clone, Copy)]
struct CtxPtr(*mut Ctx);
unsafe impl Send for CtxPtr {}

thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

type Work = Box<dyn FnOnce() + Send>;
static POOL: Mutex<Vec<Sender<Work>>> = Mutex::new(Vec::new());

fn on_pool_thread(w: Work) {
    let idle = POOL.lock().unwrap().pop();
    let tx = idle.unwrap_or_else(|| {
        let (tx, rx) = channel::<Work>();
        let tx2 = tx.clone();
        std::thread::spawn(move || {
            for w in rx {
                w();
                POOL.lock().unwrap().push(tx2.clone());
            }
        });
        tx
    });
    tx.send(w).unwrap();
}

enum Action {
    Stay,
    Switch(usize),
    /// slot, victim slot (the same slot: own newest job)
    Steal(usize, usize),
}

impl Sched {
    pub fn new(preemptions: u32) -> Arc<Self> {
        Arc::new(Sched {
            m: Mutex::new(State {
                tasks: vec![Task { slot: 0, status: Status::Runnable }],
                slots: vec![Slot { stack: vec![0], deque: VecDeque::new() }],
                done: Vec::new(),
                current: 0,
                preemptions,
                free: false,
                ticks: 0,
            }),
            cv: Condvar::new(),
            ctx: Mutex::new(()),
        })
    }
    pub fn ctx_lock(&self) -> MutexGuard<'_, ()> {
        self.ctx.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn was_free(&self) -> bool {
        self.m.lock().unwrap().free
    }
    fn me() -> usize {
        ME.with(|m| m.get())
    }

    fn fit(st: &mut State) {
        let w = with(|c| c.workers).max(1);
        while st.slots.len() < w {
            st.slots.push(Slot { stack: Vec::new(), deque: VecDeque::new() });
        }
    }

    fn actions(st: &State, me: Option<usize>) -> Vec<Action> {
        let mut a = Vec::new();
        if me.is_some() {
            a.push(Action::Stay);
        }
        let mut idle_seen = false;
        for (i, s) in st.slots.iter().enumerate() {
            let may_steal = match s.stack.last() {
                None => {
                    let first = !idle_seen;
                    idle_seen = true;
                    first
                }
                Some(&t) => match st.tasks[t].status {
                    Status::Runnable => {
                        if Some(t) != me {
                            a.push(Action::Switch(t));
                        }
                        false
                    }
                    Status::Waiting(j) if st.done[j] => {
                        a.push(Action::Switch(t));
                        false
                    }
                    Status::Waiting(_) => true,
                    Status::Done => false,
                },
            };
            if may_steal {
                if !s.deque.is_empty() {
                    a.push(Action::Steal(i, i));
                } else {
                    for (v, vs) in st.slots.iter().enumerate() {
                        if v != i && !vs.deque.is_empty() {
                            a.push(Action::Steal(i, v));
                        }
                    }
                }
            }
        }
        a
    }

    fn perform(self: &Arc<Self>, st: &mut State, a: Action) {
        match a {
            Action::Stay => {}
            Action::Switch(t) => {
                st.tasks[t].status = Status::Runnable;
                st.current = t;
            }
            Action::Steal(slot, victim) => {
                let job = if slot == victim {
                    st.slots[slot].deque.pop_back().unwrap()
                } else {
                    st.slots[victim].deque.pop_front().unwrap()
                };
                let t = st.tasks.len();
                st.tasks.push(Task { slot, status: Status::Runnable });
                st.slots[slot].stack.push(t);
                st.current = t;
                let me = self.clone();
                let ctx = CtxPtr(current());
                let f = job.f;
                let id = job.id;
                on_pool_thread(Box::new(move || {
                    let ctx = ctx;
                    let f = f;
                    ME.with(|m| m.set(t));
                    set_current(ctx.0);
                    me.wait_for_baton(t);
                    unsafe { (*f.0)(true) };
                    set_current(ctx.0);
                    me.finish(t, id);
                    set_current(std::ptr::null_mut());
                }));
            }
        }
        st.ticks += 1;
        self.cv.notify_all();
    }

    fn wait_for_baton(&self, t: usize) {
        let mut st = self.m.lock().unwrap();
        let mut seen = st.ticks;
        while st.current != t && !st.free {
            let (g, r) = self.cv.wait_timeout(st, Duration::from_secs(3)).unwrap();
            st = g;
            if r.timed_out() && st.ticks == seen && st.current != t {
                // The holder of the baton is blocked by something else: let everything run freely.
                st.free = true;
                self.cv.notify_all();
            }
            seen = st.ticks;
        }
    }

    /// A point at which the current task may be preempted.
    pub fn point(self: &Arc<Self>) {
        let me = Self::me();
        let mut st = self.m.lock().unwrap();
        if st.free || st.preemptions == 0 {
            st.ticks += 1;
            return;
        }
        Self::fit(&mut st);
        let mut acts = Self::actions(&st, Some(me));
        if acts.len() < 2 {
            st.ticks += 1;
            return;
        }
        let k = choose(acts.len());
        if k == 0 {
            st.ticks += 1;
            return;
        }
        st.preemptions -= 1;
        let a = acts.swap_remove(k);
        self.perform(&mut st, a);
        drop(st);
        self.wait_for_baton(me);
    }

    pub fn join(self: &Arc<Self>, a: &mut (dyn FnMut(bool) + Send), b: &mut (dyn FnMut(bool) + Send), outermost: bool) {
        let me = Self::me();
        let id;
        {
            let mut st = self.m.lock().unwrap();
            Self::fit(&mut st);
            if st.free {
                drop(st);
                a(outermost);
                b(outermost);
                return;
            }
            id = st.done.len();
            st.done.push(false);
            // The job outlives its use: this call does not return before it is done.
            let f: *mut (dyn FnMut(bool) + Send) = unsafe { std::mem::transmute(b as *mut (dyn FnMut(bool) + Send)) };
            let slot = st.tasks[me].slot;
            st.slots[slot].deque.push_back(Job { id, f: JobPtr(f) });
        }
        self.point();
        a(outermost);
        self.point();
        let mut st = self.m.lock().unwrap();
        let slot = st.tasks[me].slot;
        if let Some(pos) = st.slots[slot].deque.iter().position(|j| j.id == id) {
            let job = st.slots[slot].deque.remove(pos).unwrap();
            drop(st);
            unsafe { (*job.f.0)(outermost) };
            return;
        }
        while !st.done[id] {
            if st.free {
                st = self.cv.wait_timeout(st, Duration::from_secs(1)).unwrap().0;
                continue;
            }
            st.tasks[me].status = Status::Waiting(id);
            let mut acts = Self::actions(&st, None);
            if acts.is_empty() {
                // cannot happen: the stolen job is a task that can run or waits for one that can
                panic!("scheduler: no task can run");
            }
            let k = choose(acts.len());
            let act = acts.swap_remove(k);
            self.perform(&mut st, act);
            drop(st);
            self.wait_for_baton(me);
            st = self.m.lock().unwrap();
        }
        st.tasks[me].status = Status::Runnable;
        // the baton is held here (or everything is free)
    }

    fn finish(self: &Arc<Self>, t: usize, job: usize) {
        let mut st = self.m.lock().unwrap();
        st.tasks[t].status = Status::Done;
        st.done[job] = true;
        let slot = st.tasks[t].slot;
        if let Some(p) = st.slots[slot].stack.iter().position(|&x| x == t) {
            st.slots[slot].stack.remove(p);
        }
        if st.free {
            st.ticks += 1;
            self.cv.notify_all();
            return;
        }
        let mut acts = Self::actions(&st, None);
        if acts.is_empty() {
            st.free = true;
            self.cv.notify_all();
            return;
        }
        let k = choose(acts.len());
        let act = acts.swap_remove(k);
        self.perform(&mut st, act);
    }

    pub fn worker_index(&self) -> usize {
        let st = self.m.lock().unwrap();
        st.tasks[Self::me()].slot
    }
}

pub fn reset_thread() {
    ME.with(|m| m.set(0));
}
