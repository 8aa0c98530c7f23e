//! Controlled two-thread executions: the two closures of `ThreadPool::join` run as coroutines, every
//! shared memory access (instrumented atomics of the code under test) is a scheduling point, and all
//! interleavings are explored by depth first search over schedules with a cache of visited states.
//!
//! A state is (what each thread has read so far, memory, store buffers): the code is deterministic, so
//! this determines everything that can still happen. Accesses that cannot conflict with the other thread
//! (locations which, in all executions explored, the other thread never touches, or never writes in case
//! of reads) are not scheduling points; when an execution contradicts this, the search starts over.
//!
//! Memory models: sequential consistency, and TSO (x86: stores wait in a FIFO buffer per thread, buffers
//! are written back at any time; read-modify-write and SeqCst accesses drain the own buffer first).

use crate::guarded;
use rust_road_router::verif_atomic::{set_memory, Loc, Memory, Ordering};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, VecDeque};

core::arch::global_asm!(
    ".global vh_switch",
    "vh_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    fn vh_switch(save: *mut usize, to: usize);
}

const STACK: usize = 1 << 20;

struct Machine {
    stacks: [Vec<u8>; 2],
    sp: [Cell<usize>; 2],
    main_sp: Cell<usize>,
    current: Cell<usize>, // 0, 1: threads, 2: scheduler
    bodies: [Cell<*mut (dyn FnMut() + Send + 'static)>; 2],
    done: [Cell<bool>; 2],
    panics: RefCell<Vec<String>>,
    st: RefCell<State>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Model {
    Sc,
    Tso,
}

struct Buffered {
    loc: Loc<'static>,
    val: u64,
}

struct State {
    active: bool,
    model: Model,
    history: [u64; 2],
    buffers: [VecDeque<Buffered>; 2],
    memory: u64,
    // learned per case: (accessed, written) per thread and location
    touched: [HashSet<u64>; 2],
    written: [HashSet<u64>; 2],
    // this execution: locations accessed without a scheduling point
    hidden_read: [HashSet<u64>; 2],
    hidden_write: [HashSet<u64>; 2],
    learned: bool,
    ops: u64,
    // search
    path: Vec<(u8, u8)>,
    depth: usize,
    visited: HashMap<u64, u8>,
    transitions: u64,
    hung: bool,
    /// the next operation is a store which may wait in the buffer
    pending_store: [bool; 2],
    /// it should
    defer: bool,
    bound: u8,
    burst: u64,
    last: [(Option<u64>, u64); 2],
    repeated: [u64; 2],
}

thread_local! {
    static MACHINE: &'static Machine = Box::leak(Box::new(Machine::new()));
}

fn machine() -> &'static Machine {
    MACHINE.with(|m| *m)
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

fn cell(id: u64, val: u64) -> u64 {
    mix(mix(0x1234_5678_9abc_def1, id), val)
}

const SOFT_LIMIT: u64 = 1_500;
const HARD_LIMIT: u64 = 15_000;

impl Machine {
    fn new() -> Self {
        fn nop() -> *mut (dyn FnMut() + Send) {
            Box::into_raw(Box::new(|| ()))
        }
        Machine {
            stacks: [vec![0; STACK], vec![0; STACK]],
            sp: [Cell::new(0), Cell::new(0)],
            main_sp: Cell::new(0),
            current: Cell::new(2),
            bodies: [Cell::new(nop()), Cell::new(nop())],
            done: [Cell::new(true), Cell::new(true)],
            panics: RefCell::new(vec![]),
            st: RefCell::new(State {
                active: false,
                model: Model::Sc,
                history: [0; 2],
                buffers: [VecDeque::new(), VecDeque::new()],
                memory: 0,
                touched: Default::default(),
                written: Default::default(),
                hidden_read: Default::default(),
                hidden_write: Default::default(),
                learned: false,
                ops: 0,
                path: vec![],
                depth: 0,
                visited: HashMap::new(),
                transitions: 0,
                hung: false,
                pending_store: [false; 2],
                defer: false,
                bound: u8::MAX,
                burst: 0,
                last: [(None, 0); 2],
                repeated: [0; 2],
            }),
        }
    }

    fn start(&'static self, t: usize) {
        let base = self.stacks[t].as_ptr() as usize + STACK;
        let top = (base & !15) - 64;
        unsafe {
            // layout popped by vh_switch: r15 r14 r13 r12 rbx rbp, return address; rsp % 16 == 8 afterwards
            let ret = (top - 16) as *mut usize;
            *ret = entry as *const () as usize;
            let mut p = ret;
            for _ in 0..6 {
                p = p.sub(1);
                *p = 0;
            }
            self.sp[t].set(p as usize);
        }
        self.done[t].set(false);
    }

    fn resume(&'static self, t: usize) {
        self.current.set(t);
        unsafe { vh_switch(self.main_sp.as_ptr(), self.sp[t].get()) };
        self.current.set(2);
    }

    fn yield_now(&'static self) {
        let t = self.current.get();
        unsafe { vh_switch(self.sp[t].as_ptr(), self.main_sp.get()) };
    }

    fn drain(st: &mut State, t: usize) {
        while Self::flush_one(st, t) {}
    }

    fn flush_one(st: &mut State, t: usize) -> bool {
        match st.buffers[t].pop_front() {
            Some(b) => {
                Self::write(st, b.loc, b.val);
                true
            }
            None => false,
        }
    }

    fn write(st: &mut State, loc: Loc, val: u64) {
        let old = loc.read();
        loc.write(val);
        let new = loc.read();
        st.memory ^= cell(loc.id(), old) ^ cell(loc.id(), new);
    }

    /// is the access a scheduling point, given what is known about the other thread?
    fn visible(st: &mut State, t: usize, id: u64, writes: bool) -> bool {
        st.touched[t].insert(id);
        if writes {
            st.written[t].insert(id);
        }
        let o = 1 - t;
        let vis = if writes { st.touched[o].contains(&id) } else { st.written[o].contains(&id) };
        if !vis {
            if writes {
                st.hidden_write[t].insert(id);
            } else {
                st.hidden_read[t].insert(id);
            }
        }
        // does this access conflict with something the other one did unnoticed?
        if st.hidden_write[o].contains(&id) || (writes && st.hidden_read[o].contains(&id)) {
            st.learned = true;
        }
        // do not let a thread that polls memory run forever
        st.burst += 1;
        vis || st.burst % 1000 == 0
    }
}

extern "C" fn entry() -> ! {
    let m = machine();
    let t = m.current.get();
    let body = m.bodies[t].get();
    if let Err(e) = guarded(|| unsafe { (*body)() }) {
        m.panics.borrow_mut().push(format!("thread {}: {}", t, e));
    }
    m.done[t].set(true);
    loop {
        m.yield_now();
    }
}

impl Machine {
    fn thread(&self) -> Option<usize> {
        let t = self.current.get();
        if t < 2 && self.st.borrow().active {
            Some(t)
        } else {
            None
        }
    }
}

struct Controlled;

/// `id` is the location, in case of a load
fn observe(st: &mut State, t: usize, v: u64, id: Option<u64>) {
    // polling: the same value from the same location over and over again, and nothing else
    if id.is_some() && st.last[t] == (id, v) {
        st.repeated[t] += 1;
    } else {
        st.repeated[t] = 0;
    }
    st.last[t] = (id, v);
    if st.repeated[t] < 4 {
        st.history[t] = mix(st.history[t].wrapping_add(1), v);
    }
}

impl Memory for Controlled {
    fn load(&self, loc: Loc, _order: Ordering) -> u64 {
        let m = machine();
        if let Some(t) = m.thread() {
            let vis = Machine::visible(&mut m.st.borrow_mut(), t, loc.id(), false);
            if vis {
                m.yield_now();
            }
            let st = &mut *m.st.borrow_mut();
            let own = st.buffers[t].iter().rev().find(|b| b.loc.id() == loc.id()).map(|b| b.val);
            let v = own.unwrap_or_else(|| loc.read());
            observe(st, t, v, Some(loc.id()));
            v
        } else {
            loc.read()
        }
    }

    fn store(&self, loc: Loc, val: u64, order: Ordering) {
        let m = machine();
        if let Some(t) = m.thread() {
            let tso = m.st.borrow().model == Model::Tso && order != Ordering::SeqCst;
            let vis = Machine::visible(&mut m.st.borrow_mut(), t, loc.id(), true);
            if vis {
                m.st.borrow_mut().pending_store[t] = tso;
                m.yield_now();
            }
            let st = &mut *m.st.borrow_mut();
            if vis && std::mem::take(&mut st.defer) {
                // the atomic outlives the execution of both threads, at the end of which the buffer is empty
                let loc: Loc<'static> = unsafe { std::mem::transmute(loc) };
                st.buffers[t].push_back(Buffered { loc, val });
            } else {
                if vis {
                    Machine::drain(st, t);
                }
                Machine::write(st, loc, val);
            }
            observe(st, t, 0, None);
        } else {
            loc.write(val)
        }
    }

    fn rmw(&self, loc: Loc, f: &mut dyn FnMut(u64) -> Option<u64>, _order: Ordering) -> u64 {
        let m = machine();
        if let Some(t) = m.thread() {
            let vis = Machine::visible(&mut m.st.borrow_mut(), t, loc.id(), true);
            let buffered = !m.st.borrow().buffers[t].is_empty();
            if vis || buffered {
                m.yield_now();
            }
            let st = &mut *m.st.borrow_mut();
            Machine::drain(st, t);
            let v = loc.read();
            if let Some(n) = f(v) {
                Machine::write(st, loc, n);
            }
            observe(st, t, v, None);
            v
        } else {
            let v = loc.read();
            if let Some(n) = f(v) {
                loc.write(n)
            }
            v
        }
    }
}

static CONTROLLED: Controlled = Controlled;

/// executor for `ThreadPool::join`
fn join_exec(a: &mut (dyn FnMut() + Send), b: &mut (dyn FnMut() + Send)) {
    let m = machine();
    if !m.st.borrow().active || m.current.get() != 2 {
        a();
        b();
        return;
    }
    unsafe {
        m.bodies[0].set(std::mem::transmute(a as *mut (dyn FnMut() + Send)));
        m.bodies[1].set(std::mem::transmute(b as *mut (dyn FnMut() + Send)));
    }
    m.start(0);
    m.start(1);
    // run both up to their first scheduling point (what they do before is independent of each other)
    m.resume(0);
    m.resume(1);
    let mut last = 0usize;
    let mut branching = true;
    let mut first = true;
    // preemptions left
    let mut left = m.st.borrow().bound;
    loop {
        // thread, what (0: go on, 1: go on and buffer the store, 2: write back the oldest store), preemptions
        let mut options = [(0usize, 0u8, 0u8); 6];
        let mut n = 0;
        {
            let st = m.st.borrow();
            let mut add = |t: usize, what: u8, cost: u8| {
                if cost <= left {
                    options[n] = (t, what, cost);
                    n += 1;
                }
            };
            for k in 0..2 {
                let t = (last + k) % 2;
                if !m.done[t].get() {
                    let cost = (k == 1 && !first && branching && !m.done[last].get()) as u8;
                    add(t, 0, cost);
                    if st.pending_store[t] && branching {
                        add(t, 1, cost + 1);
                    }
                }
            }
            for t in 0..2 {
                if !st.buffers[t].is_empty() {
                    add(t, 2, 0);
                }
            }
        }
        if n == 0 {
            break;
        }
        let mut st = m.st.borrow_mut();
        st.transitions += 1;
        st.ops += 1;
        if st.ops > SOFT_LIMIT {
            branching = false;
        }
        if st.ops > HARD_LIMIT {
            st.hung = true;
            break;
        }
        // fair choice when nothing is to be explored: alternate
        let other = (0..n).find(|&i| options[i].0 != last && options[i].1 == 0).unwrap_or(0);
        let choice = if n == 1 {
            0
        } else if st.depth < st.path.len() {
            let d = st.depth;
            st.depth += 1;
            st.path[d].0 as usize
        } else if branching {
            let mut h = mix(st.history[0], st.history[1] ^ 0x5555);
            h = mix(h, st.memory);
            for t in 0..2 {
                h = mix(h, 77 + t as u64 + 2 * m.done[t].get() as u64);
                for b in &st.buffers[t] {
                    h = mix(h, cell(b.loc.id(), b.val));
                }
            }
            if left < u8::MAX {
                h = mix(h, 1000 + last as u64 + 2 * first as u64);
            }
            let seen = st.visited.get(&h).map_or(false, |&l| l >= left);
            if !seen {
                st.visited.insert(h, left);
                st.path.push((0, n as u8));
                st.depth += 1;
                0
            } else {
                branching = false; // everything from here on has been explored already
                other
            }
        } else {
            other
        };
        let (t, what, cost) = options[choice];
        if left < u8::MAX {
            left -= cost;
        }
        if what == 2 {
            Machine::flush_one(&mut st, t);
        } else {
            st.burst = 0;
            st.pending_store[t] = false;
            st.defer = what == 1;
            drop(st);
            first = false;
            last = t;
            m.resume(t);
        }
    }
    // if the threads hang they are abandoned (the caller must not use what they worked on)
    if m.st.borrow().hung {
        std::panic::resume_unwind(Box::new("threads do not terminate under a fair schedule".to_string()));
    }
    let p = m.panics.borrow_mut().drain(..).collect::<Vec<_>>();
    if !p.is_empty() {
        std::panic::resume_unwind(Box::new(p.join("; ")));
    }
}

pub struct Explored {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
}

/// Run `setup` (which prepares everything anew) and, under every schedule, `run`.
pub fn explore<S>(model: Model, preemptions: Option<u8>, mut setup: impl FnMut() -> S, mut run: impl FnMut(S) -> Result<(), String>) -> Result<Explored, String> {
    let m = machine();
    let mut executions = 0;
    {
        let st = &mut *m.st.borrow_mut();
        st.model = model;
        st.bound = preemptions.unwrap_or(u8::MAX);
        st.path.clear();
        st.visited.clear();
        st.transitions = 0;
        for t in 0..2 {
            st.touched[t].clear();
            st.written[t].clear();
        }
    }
    rayon_core::verif::set_pool_join(Some(join_exec));
    set_memory(Some(&CONTROLLED));
    let mut result = Ok(());
    loop {
        {
            let st = &mut *m.st.borrow_mut();
            st.active = false;
            st.depth = 0;
            st.history = [0; 2];
            st.memory = 0;
            st.ops = 0;
            st.learned = false;
            st.hung = false;
            st.pending_store = [false; 2];
            st.defer = false;
            st.burst = 0;
            st.last = [(None, 0); 2];
            st.repeated = [0; 2];
            for t in 0..2 {
                st.buffers[t].clear();
                st.hidden_read[t].clear();
                st.hidden_write[t].clear();
            }
        }
        rust_road_router::verif_atomic::reset_ids();
        let s = setup();
        m.st.borrow_mut().active = true;
        let r = guarded(|| run(s)).and_then(|r| r);
        executions += 1;
        let st = &mut *m.st.borrow_mut();
        st.active = false;
        if let Err(e) = r {
            let sched: String = st.path.iter().take(st.depth).map(|c| char::from(b'0' + c.0)).collect();
            result = Err(format!("{} (memory model {:?}, choices {})", e, model, sched));
            break;
        }
        if st.learned {
            // a conflict was not seen as such: start over with what is known now
            st.path.clear();
            st.visited.clear();
            continue;
        }
        while let Some((c, n)) = st.path.pop() {
            if c + 1 < n {
                st.path.push((c + 1, n));
                break;
            }
        }
        if st.path.is_empty() {
            break;
        }
    }
    set_memory(None);
    rayon_core::verif::set_pool_join(None);
    let st = m.st.borrow();
    result.map(|_| Explored {
        executions,
        states: st.visited.len() as u64,
        transitions: st.transitions,
    })
}
