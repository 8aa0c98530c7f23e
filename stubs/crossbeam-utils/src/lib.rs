//! Stands in for the part of crossbeam-utils the server uses. Scoped threads wait at gates (before they start and when a
//! customization is finished) until they are let through, so that a check can try every order.

pub mod gates {
    use std::cell::Cell;
    use std::sync::{Condvar, Mutex};
    use std::time::{Duration, Instant};

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum At {
        Gate,
        Running,
        Done,
    }

    struct State {
        threads: Vec<At>,
        free: bool,
    }

    static STATE: Mutex<State> = Mutex::new(State { threads: Vec::new(), free: false });
    static CHANGED: Condvar = Condvar::new();

    thread_local! {
        static ME: Cell<Option<usize>> = Cell::new(None);
    }

    pub(crate) fn register() -> usize {
        let mut s = STATE.lock().unwrap();
        s.threads.push(At::Running);
        s.threads.len() - 1
    }

    pub(crate) fn enter(me: usize) {
        ME.with(|m| m.set(Some(me)));
        rust_road_router::verif_atomic::set_pause(gate);
        gate();
    }

    pub(crate) fn leave(me: usize) {
        STATE.lock().unwrap().threads[me] = At::Done;
        CHANGED.notify_all();
    }

    fn gate() {
        let me = match ME.with(|m| m.get()) {
            Some(me) => me,
            None => return,
        };
        let mut s = STATE.lock().unwrap();
        if s.free {
            return;
        }
        s.threads[me] = At::Gate;
        CHANGED.notify_all();
        while s.threads[me] == At::Gate && !s.free {
            s = CHANGED.wait(s).unwrap();
        }
        s.threads[me] = At::Running;
    }

    /// Let thread i through the gate it is waiting at or about to get to, and wait until it is at the next one or done, or makes no progress.
    pub fn step(i: usize, patience: Duration) -> Option<At> {
        let end = Instant::now() + patience;
        let mut s = STATE.lock().unwrap();
        loop {
            match s.threads.get(i) {
                Some(At::Gate) => break,
                Some(At::Done) => return Some(At::Done),
                _ => (),
            }
            let now = Instant::now();
            if now >= end {
                return s.threads.get(i).copied();
            }
            s = CHANGED.wait_timeout(s, end - now).unwrap().0;
        }
        s.threads[i] = At::Running;
        CHANGED.notify_all();
        let end = Instant::now() + patience;
        while s.threads[i] == At::Running {
            let now = Instant::now();
            if now >= end {
                break;
            }
            s = CHANGED.wait_timeout(s, end - now).unwrap().0;
        }
        Some(s.threads[i])
    }

    pub fn states() -> Vec<At> {
        STATE.lock().unwrap().threads.clone()
    }

    /// no thread waits anymore
    pub fn open() {
        STATE.lock().unwrap().free = true;
        CHANGED.notify_all();
    }
}

pub mod thread {
    pub struct Scope<'scope, 'env: 'scope>(&'scope std::thread::Scope<'scope, 'env>);

    pub struct ScopedJoinHandle<'scope, T>(std::thread::ScopedJoinHandle<'scope, T>);

    impl<'scope, T> ScopedJoinHandle<'scope, T> {
        pub fn join(self) -> std::thread::Result<T> {
            self.0.join()
        }
    }

    struct Leave(usize);
    impl Drop for Leave {
        fn drop(&mut self) {
            crate::gates::leave(self.0)
        }
    }

    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: for<'a> FnOnce(&'a Scope<'scope, 'env>) -> T + Send + 'scope,
            T: Send + 'scope,
        {
            let inner = self.0;
            let me = crate::gates::register();
            ScopedJoinHandle(inner.spawn(move || {
                let _leave = Leave(me);
                crate::gates::enter(me);
                f(&Scope(inner))
            }))
        }
    }

    pub fn scope<'env, F, R>(f: F) -> std::thread::Result<R>
    where
        F: for<'scope> FnOnce(&Scope<'scope, 'env>) -> R,
    {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::thread::scope(|s| f(&Scope(s)))))
    }
}
