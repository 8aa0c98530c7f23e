//! Exploration of task schedules of the (simulated) rayon thread pool: all schedules that deviate from the
//! default one (tasks run in spawn order when their scope waits for them) in at most `budget` decisions.

use crate::Ctx;
use std::cell::Cell;

struct Uninstall;
impl Drop for Uninstall {
    fn drop(&mut self) {
        rayon_core::verif::set_chooser(None);
        rayon_core::verif::set_num_threads(2);
    }
}

/// run `f` with the given number of worker threads, the schedule is chosen by the explorer
pub fn with_schedule<R>(ctx: &mut Ctx, threads: usize, budget: usize, f: impl FnOnce() -> R) -> R {
    let ptr = ctx as *mut Ctx;
    let left = Cell::new(budget);
    rayon_core::verif::set_num_threads(threads);
    let _u = Uninstall;
    rayon_core::verif::set_chooser(Some(Box::new(move |_d, n| {
        if left.get() == 0 {
            return 0;
        }
        // the context is not used by anybody else while `f` runs
        let c = unsafe { (*ptr).pick(n) };
        if c > 0 {
            left.set(left.get() - 1);
        }
        c
    })));
    f()
}

/// run `f` with the default schedule
pub fn default_schedule<R>(threads: usize, f: impl FnOnce() -> R) -> R {
    rayon_core::verif::set_num_threads(threads);
    let _u = Uninstall;
    f()
}
