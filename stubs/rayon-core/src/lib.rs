//! Deterministic stand-in for `rayon-core`: same API, but every task runs on the calling OS thread, and
//! the order in which tasks run is decided by a chooser the verification harness installs (default: in
//! spawn order). The parallel iterators of the real `rayon` crate run unchanged on top of it.
//!
//! A schedule is a sequence of decisions:
//!  * `join`: which of the two closures runs first;
//!  * `spawn`: whether the task is executed by "another worker" right away, or left pending;
//!  * `join`, between the halves: whether the waiting worker executes one of the pending tasks;
//!  * waiting for a scope: which of the pending tasks (of any enclosing scope, too: a waiting worker
//!    steals whatever it finds) runs next.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;

/// The interface to the verification harness.
pub mod verif {
    use super::*;

    pub type JoinExec = fn(&mut (dyn FnMut() + Send), &mut (dyn FnMut() + Send));

    thread_local! {
        pub(crate) static THREADS: Cell<usize> = Cell::new(2);
        pub(crate) static INSTALLED: Cell<usize> = Cell::new(0);
        pub(crate) static CHOOSER: RefCell<Option<Box<dyn FnMut(Decision, usize) -> usize>>> = RefCell::new(None);
        pub(crate) static POOL_JOIN: Cell<Option<JoinExec>> = Cell::new(None);
        pub(crate) static STATS: Cell<(u64, u64, u64)> = Cell::new((0, 0, 0));
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Decision {
        Join,
        Spawn,
        Pick,
        Steal,
    }

    /// Number of worker threads that pools (and the global pool) pretend to have.
    pub fn set_num_threads(n: usize) {
        THREADS.with(|t| t.set(n))
    }
    /// Install (or remove) the scheduler for the current OS thread. It gets the number of options (>= 2).
    pub fn set_chooser(c: Option<Box<dyn FnMut(Decision, usize) -> usize>>) {
        CHOOSER.with(|s| *s.borrow_mut() = c)
    }
    /// Executor used for `ThreadPool::join` (real two-thread executions under a controlled scheduler).
    pub fn set_pool_join(e: Option<JoinExec>) {
        POOL_JOIN.with(|p| p.set(e))
    }
    /// (joins, spawned tasks, scheduling decisions) since the last call.
    pub fn take_stats() -> (u64, u64, u64) {
        STATS.with(|s| s.replace((0, 0, 0)))
    }

    pub(crate) fn choose(d: Decision, n: usize) -> usize {
        if n < 2 {
            return 0;
        }
        // the chooser may itself run code (never tasks), so take it out while calling it
        let c = CHOOSER.with(|s| s.borrow_mut().take());
        if let Some(mut c) = c {
            STATS.with(|s| {
                let mut v = s.get();
                v.2 += 1;
                s.set(v)
            });
            struct PutBack(Option<Box<dyn FnMut(Decision, usize) -> usize>>);
            impl Drop for PutBack {
                fn drop(&mut self) {
                    let c = self.0.take();
                    CHOOSER.with(|s| *s.borrow_mut() = c);
                }
            }
            let r = c(d, n);
            let _p = PutBack(Some(c));
            r
        } else {
            0
        }
    }
}

use verif::{choose, Decision};

fn bump_join() {
    verif::STATS.with(|s| {
        let mut v = s.get();
        v.0 += 1;
        s.set(v)
    });
}
fn bump_spawn() {
    verif::STATS.with(|s| {
        let mut v = s.get();
        v.1 += 1;
        s.set(v)
    });
}

pub fn max_num_threads() -> usize {
    255
}

pub fn current_num_threads() -> usize {
    let i = verif::INSTALLED.with(|i| i.get());
    if i > 0 {
        i
    } else {
        verif::THREADS.with(|t| t.get())
    }
}

pub fn current_thread_index() -> Option<usize> {
    if verif::INSTALLED.with(|i| i.get()) > 0 {
        Some(0)
    } else {
        None
    }
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| PENDING.with(|p| !p.borrow().is_empty()))
}

fn with_installed<R>(n: usize, f: impl FnOnce() -> R) -> R {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            verif::INSTALLED.with(|i| i.set(self.0))
        }
    }
    let _r = Reset(verif::INSTALLED.with(|i| i.replace(n)));
    f()
}

// ---------------------------------------------------------------- join

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    bump_join();
    let ctx = || FnContext {
        migrated: false,
        _marker: PhantomData,
    };
    if choose(Decision::Join, 2) == 0 {
        let a = oper_a(ctx());
        // a worker whose second half was taken by somebody else executes other tasks while it waits
        steal();
        let b = oper_b(ctx());
        (a, b)
    } else {
        let b = oper_b(ctx());
        let a = oper_a(ctx());
        (a, b)
    }
}

fn steal() {
    let n = PENDING.with(|p| p.borrow().len());
    if n > 0 {
        let c = choose(Decision::Steal, n + 1);
        if c > 0 {
            let task = PENDING.with(|p| p.borrow_mut().remove(c - 1).1);
            task();
        }
    }
}

// ---------------------------------------------------------------- scopes

type Task = Box<dyn FnOnce()>;

thread_local! {
    static PENDING: RefCell<Vec<(Rc<Cell<usize>>, Task)>> = RefCell::new(Vec::new());
}

pub struct Scope<'scope> {
    open: Rc<Cell<usize>>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub struct ScopeFifo<'scope> {
    inner: Scope<'scope>,
}
// the real types are Sync (tasks receive `&Scope` on other threads); here everything stays on one thread
unsafe impl<'scope> Sync for Scope<'scope> {}
unsafe impl<'scope> Send for Scope<'scope> {}
unsafe impl<'scope> Sync for ScopeFifo<'scope> {}
unsafe impl<'scope> Send for ScopeFifo<'scope> {}

impl<'scope> fmt::Debug for Scope<'scope> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
impl<'scope> fmt::Debug for ScopeFifo<'scope> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ScopeFifo")
    }
}

impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope {
            open: Rc::new(Cell::new(0)),
            marker: PhantomData,
        }
    }

    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.push(move |s| body(s));
    }

    fn push(&self, body: impl FnOnce(&Scope<'scope>) + 'scope) {
        bump_spawn();
        let open = self.open.clone();
        open.set(open.get() + 1);
        let task: Box<dyn FnOnce() + 'scope> = Box::new(move || {
            let scope = Scope::<'scope> { open, marker: PhantomData };
            body(&scope);
            scope.open.set(scope.open.get() - 1);
        });
        if choose(Decision::Spawn, 2) == 1 {
            task();
            return;
        }
        // the scope does not return before all of its tasks are gone (run, or dropped by `Cleanup`)
        let task: Task = unsafe { std::mem::transmute::<Box<dyn FnOnce() + 'scope>, Task>(task) };
        PENDING.with(|p| p.borrow_mut().push((self.open.clone(), task)));
    }

    fn complete(&self) {
        let has_chooser = verif::CHOOSER.with(|c| c.borrow().is_some());
        while self.open.get() > 0 {
            let task = PENDING.with(|p| {
                let n = p.borrow().len();
                let own: Option<usize> = p.borrow().iter().position(|(o, _)| Rc::ptr_eq(o, &self.open));
                let idx = if has_chooser {
                    if n == 0 {
                        None
                    } else {
                        // option 0 is the oldest own task, then the others in spawn order
                        let first = own.unwrap_or(0);
                        let c = choose(Decision::Pick, n);
                        Some(if c == 0 {
                            first
                        } else if c <= first {
                            c - 1
                        } else {
                            c
                        })
                    }
                } else {
                    own
                };
                idx.map(|i| p.borrow_mut().remove(i).1)
            });
            match task {
                Some(t) => t(),
                None => panic!("simulated rayon: a scope waits for a task that is suspended below it on the same thread"),
            }
        }
    }
}

impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        self.inner.push(move |s| {
            let f = ScopeFifo {
                inner: Scope {
                    open: s.open.clone(),
                    marker: PhantomData,
                },
            };
            body(&f)
        });
    }
}

struct Cleanup(Rc<Cell<usize>>);
impl Drop for Cleanup {
    fn drop(&mut self) {
        // only does something when unwinding
        let dead: Vec<_> = PENDING.with(|p| {
            let mut p = p.borrow_mut();
            let (dead, keep): (Vec<_>, Vec<_>) = p.drain(..).partition(|(o, _)| Rc::ptr_eq(o, &self.0));
            *p = keep;
            dead
        });
        drop(dead);
    }
}

fn run_scope<'scope, R>(op: impl FnOnce(&Scope<'scope>) -> R) -> R {
    let scope = Scope::<'scope>::new();
    let _c = Cleanup(scope.open.clone());
    let r = op(&scope);
    scope.complete();
    r
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    run_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    run_scope(op)
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    run_scope(move |s: &Scope<'scope>| {
        let f = ScopeFifo {
            inner: Scope {
                open: s.open.clone(),
                marker: PhantomData,
            },
        };
        op(&f)
    })
}

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    bump_spawn();
    func()
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}

// ---------------------------------------------------------------- pools

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("simulated rayon")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder<'r> {
    index: usize,
    name: Option<String>,
    stack_size: Option<usize>,
    run: Box<dyn FnOnce() + 'r>,
}
// the real type is Send; the simulation never moves it to another thread
unsafe impl<'r> Send for ThreadBuilder<'r> {}
impl<'r> ThreadBuilder<'r> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn stack_size(&self) -> Option<usize> {
        self.stack_size
    }
    pub fn run(self) {
        (self.run)()
    }
}
impl<'r> fmt::Debug for ThreadBuilder<'r> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}

#[derive(Default)]
pub struct ThreadPoolBuilder {
    num_threads: usize,
    stack_size: Option<usize>,
    name: Option<Box<dyn FnMut(usize) -> String>>,
}

pub struct ThreadPool {
    num_threads: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    fn resolve(&self) -> usize {
        if self.num_threads > 0 {
            self.num_threads
        } else {
            verif::THREADS.with(|t| t.get())
        }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { num_threads: self.resolve() })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    /// All workers are simulated by the calling thread. The wrapper is therefore entered once, and the
    /// pool is used inside of it, so that whatever the wrapper sets up for its thread is in place.
    pub fn build_scoped<W, F, R>(mut self, wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder<'_>) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        let pool = ThreadPool { num_threads: self.resolve() };
        let mut result = None;
        {
            let (pool, result) = (&pool, &mut result);
            let name = self.name.as_mut().map(|f| f(0));
            let thread = ThreadBuilder {
                index: 0,
                name,
                stack_size: self.stack_size,
                run: Box::new(move || *result = Some(with_pool(pool))),
            };
            wrapper(thread);
        }
        Ok(result.expect("simulated rayon: the wrapper of a scoped pool never ran its thread (a real pool would wait forever)"))
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.num_threads = n;
        self
    }
    pub fn thread_name<F>(mut self, f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self.name = Some(Box::new(f));
        self
    }
    pub fn stack_size(mut self, s: usize) -> Self {
        self.stack_size = Some(s);
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
}

impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        with_installed(self.num_threads, op)
    }
    pub fn current_num_threads(&self) -> usize {
        self.num_threads
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, oper_a: A, oper_b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        match verif::POOL_JOIN.with(|p| p.get()) {
            Some(exec) => {
                let (mut a, mut b) = (Some(oper_a), Some(oper_b));
                let (mut ra, mut rb) = (None, None);
                exec(&mut || ra = Some((a.take().unwrap())()), &mut || rb = Some((b.take().unwrap())()));
                (ra.unwrap(), rb.unwrap())
            }
            None => self.install(|| join(oper_a, oper_b)),
        }
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        with_installed(self.num_threads, || in_place_scope(op))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        with_installed(self.num_threads, || in_place_scope_fifo(op))
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        with_installed(self.num_threads, || spawn(op))
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.spawn(op)
    }
}
