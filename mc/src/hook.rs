//! Connects the vendored crates with the explorer.
use crate::engine::*;
use mc_hook::Hook;
use rand::{Error, RngCore};

pub struct McHook;
pub static HOOK: McHook = McHook;

impl Hook for McHook {
    fn active(&self) -> bool {
        controlled()
    }
    fn num_threads(&self) -> usize {
        with(|c| c.workers).max(1)
    }
    fn thread_index(&self) -> Option<usize> {
        let (depth, sched) = with(|c| (c.join_depth, c.sched.clone()));
        match sched {
            Some(s) if depth > 0 => Some(s.worker_index()),
            None if depth > 0 => Some(0),
            _ => None,
        }
    }
    fn join(&self, a: &mut (dyn FnMut(bool) + Send), b: &mut (dyn FnMut(bool) + Send)) {
        let (order, migrated, depth, sched) = with(|c| {
            c.join_depth += 1;
            (c.join_order, c.migrated, c.join_depth, c.sched.clone())
        });
        match sched {
            Some(s) => s.join(a, b, depth == 1),
            None if with(|c| c.reentries > 0 || !c.pending.is_empty()) => reentrant_join(a, b, depth == 1, migrated),
            None if order == 0 => {
                a(depth == 1);
                b(depth == 1 || migrated);
            }
            None => {
                b(true);
                a(depth == 1);
            }
        }
        with(|c| c.join_depth -= 1);
    }
    fn point(&self) {
        yield_point()
    }
    fn small_int(&self, n: u128) -> Option<u128> {
        if with(|c| c.small_rng) {
            Some(draw_int(n))
        } else {
            None
        }
    }
    fn small_unit(&self) -> Option<f64> {
        if with(|c| c.small_rng) {
            Some(draw_unit())
        } else {
            None
        }
    }
}

/// A worker that waits for a stolen part of a nested `join` takes any other job meanwhile, so a callback that
/// uses rayon can be interrupted by any pending job, on the same thread and as often as there are jobs.
fn reentrant_join(a: &mut (dyn FnMut(bool) + Send), b: &mut (dyn FnMut(bool) + Send), outermost: bool, migrated: bool) {
    let f: *mut (dyn FnMut(bool) + Send) = unsafe { std::mem::transmute(&mut *b as *mut (dyn FnMut(bool) + Send)) };
    let own = with(|c| {
        c.pending.push(Pending { f, done: false });
        c.pending.len() - 1
    });
    a(outermost);
    // the nested join's own second part is run elsewhere; meanwhile:
    while with(|c| c.reentries > 0) {
        let open: Vec<usize> = with(|c| (0..own).filter(|&i| !c.pending[i].done).collect());
        if open.is_empty() {
            break;
        }
        let k = match with(|c| c.reentry_rule) {
            0 => choose(open.len() + 1),
            1 => open.len(),
            2 => 1,
            _ => open.len() * (open.len() % 2),
        };
        if k == 0 {
            break;
        }
        let i = open[k - 1];
        let f = with(|c| {
            c.reentries -= 1;
            c.pending[i].done = true;
            c.pending[i].f
        });
        // the frame that owns the closure is below on this thread's stack and leaves it alone once it is done
        unsafe { (*f)(true) };
    }
    let mine = with(|c| c.pending.pop().unwrap());
    if !mine.done {
        b(outermost || migrated);
    }
}

pub fn yield_point() {
    // the scheduler of an execution stays the same while other tasks run
    if controlled() && unsafe { (*current()).sched.is_some() } {
        if let Some(s) = with(|c| c.sched.clone()) {
            s.point()
        }
    }
}

/// The generator whose draws are answered by the explorer.
pub struct McRng {
    pub id: u32,
}
impl McRng {
    pub fn new() -> Self {
        McRng {
            id: with(|c| {
                c.rngs += 1;
                c.rngs
            }),
        }
    }
}
impl RngCore for McRng {
    fn next_u32(&mut self) -> u32 {
        (draw_raw() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        draw_raw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let b = draw_raw().to_be_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&b[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
    fn mc_int(&mut self, n: u128) -> Option<u128> {
        yield_point();
        Some(draw_int(n))
    }
    fn mc_unit(&mut self) -> Option<f64> {
        yield_point();
        Some(draw_unit())
    }
}
