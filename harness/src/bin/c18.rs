//! C18: priority queues and resettable vectors behave like their textbook models under every operation sequence.
use rust_road_router::datastr::clearlist_vector::ClearlistVector;
use rust_road_router::datastr::heap::Heap;
use rust_road_router::datastr::index_heap::*;
use rust_road_router::datastr::timestamped_vector::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use vharness::oracle::INF;
use vharness::*;

/// only the key is compared: equal keys are ties, whatever the id
#[derive(Clone, Copy, Debug)]
struct E {
    key: u32,
    id: usize,
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.key == o.key
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}
impl Indexing for E {
    fn as_index(&self) -> usize {
        self.id
    }
}

type Model = BTreeMap<usize, u32>;

#[derive(Clone, Copy, Debug)]
enum Op {
    Push(usize, u32),
    PushUnless(usize, u32),
    Pop,
    Update(usize, u32),
    Decrease(usize, u32),
    Increase(usize, u32),
    Clear,
    Drain,
    DrainPart(usize),
}

fn check_queue(h: &IndexdMinHeap<E>, m: &Model, ids: usize) -> Result<(), String> {
    ensure!(h.len() == m.len() && h.is_empty() == m.is_empty(), "len {} is_empty {} but {} elements are in the queue", h.len(), h.is_empty(), m.len());
    ensure!(h.elements().len() == m.len(), "elements() has {} entries for {} elements", h.elements().len(), m.len());
    for id in 0..ids {
        ensure!(h.contains_index(id) == m.contains_key(&id), "contains_index({}) = {}, in the queue: {}", id, h.contains_index(id), m.contains_key(&id));
        let got = h.get(id).map(|e| (e.id, e.key));
        let want = m.get(&id).map(|&k| (id, k));
        ensure!(got == want, "get({}) = {:?}, expected {:?}", id, got, want);
    }
    let min = m.values().min().copied();
    let peek = h.peek().map(|e| e.key);
    ensure!(peek == min, "peek key {:?}, smallest key {:?}", peek, min);
    if let Some(p) = h.peek() {
        ensure!(m.get(&p.id) == Some(&p.key), "peek returned an element that is not in the queue: {:?}", p);
    }
    let mut seen = Model::new();
    for e in h.elements() {
        seen.insert(e.id, e.key);
    }
    ensure!(&seen == m, "elements() are {:?}, expected {:?}", seen, m);
    Ok(())
}

fn apply(h: &mut IndexdMinHeap<E>, m: &mut Model, op: Op) -> Result<(), String> {
    match op {
        Op::Push(id, key) => {
            h.push(E { key, id });
            m.insert(id, key);
        }
        Op::PushUnless(id, key) => {
            h.push_unless_contained(E { key, id });
            m.entry(id).or_insert(key);
        }
        Op::Pop => {
            let got = h.pop();
            let min = m.values().min().copied();
            ensure!(got.map(|e| e.key) == min, "pop returned {:?}, smallest key {:?}", got, min);
            if let Some(e) = got {
                ensure!(m.remove(&e.id) == Some(e.key), "pop returned {:?}, which is not in the queue", e);
            }
        }
        Op::Update(id, key) => {
            h.update_key(E { key, id });
            m.insert(id, key);
        }
        Op::Decrease(id, key) => {
            h.decrease_key(E { key, id });
            m.insert(id, key);
        }
        Op::Increase(id, key) => {
            h.increase_key(E { key, id });
            m.insert(id, key);
        }
        Op::Clear => {
            h.clear();
            m.clear();
        }
        Op::DrainPart(k) => {
            {
                let mut it = h.drain();
                for _ in 0..k {
                    if let Some(e) = it.next() {
                        ensure!(m.get(&e.id) == Some(&e.key), "drain yielded {:?}, which is not in the queue", e);
                    }
                }
            }
            m.clear();
        }
        Op::Drain => {
            let got: Model = h.drain().map(|e| (e.id, e.key)).collect();
            ensure!(&got == m, "drain yielded {:?}, expected {:?}", got, m);
            m.clear();
        }
    }
    Ok(())
}

fn m_half(m: &Model) -> usize {
    m.len() / 2
}

fn ops(m: &Model, ids: usize, keys: u32) -> Vec<Op> {
    let mut v = vec![Op::Pop, Op::Clear, Op::Drain, Op::DrainPart(0), Op::DrainPart(1)];
    for id in 0..ids {
        for key in 0..keys {
            v.push(Op::PushUnless(id, key));
            match m.get(&id) {
                None => v.push(Op::Push(id, key)),
                Some(&old) => {
                    v.push(Op::Update(id, key));
                    if key <= old {
                        v.push(Op::Decrease(id, key));
                    }
                    if key >= old {
                        v.push(Op::Increase(id, key));
                    }
                }
            }
        }
    }
    v
}

/// breadth first search over the real queue's reachable states (its array is the state)
fn queue_bfs(ctx: &mut Ctx, ids: usize, keys: u32) -> Result<(), String> {
    let canon = |h: &IndexdMinHeap<E>| -> Vec<(u8, u8)> { h.elements().iter().map(|e| (e.id as u8, e.key as u8)).collect() };
    let mut parent: HashMap<Vec<(u8, u8)>, (Vec<(u8, u8)>, String)> = HashMap::new();
    let init = IndexdMinHeap::<E>::new(ids);
    let mut seen: HashSet<Vec<(u8, u8)>> = HashSet::new();
    seen.insert(canon(&init));
    let mut queue = VecDeque::new();
    queue.push_back((init, Model::new()));
    while let Some((h, m)) = queue.pop_front() {
        ctx.state();
        for op in ops(&m, ids, keys) {
            ctx.step();
            let mut h2 = h.clone();
            let mut m2 = m.clone();
            let r = match guarded(|| apply(&mut h2, &mut m2, op)) {
                Ok(r) => r.and_then(|_| check_queue(&h2, &m2, ids)),
                Err(p) => Err(p),
            };
            if let Err(e) = r {
                let mut hist = vec![format!("{:?}", op)];
                let mut c = canon(&h);
                while let Some((p, o)) = parent.get(&c) {
                    hist.push(o.clone());
                    c = p.clone();
                }
                hist.reverse();
                return Err(format!("queue of {} ids after {:?}: {}", ids, hist, e));
            }
            let c = canon(&h2);
            if seen.insert(c.clone()) {
                ctx.outcome(&m2);
                parent.insert(c, (canon(&h), format!("{:?}", op)));
                queue.push_back((h2, m2));
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C18");
    let thorough = r.thorough();
    r.assume("the queue's push is only used for ids that are not queued, decrease/increase only with keys not larger/smaller (their contracts)");
    let bounds: Vec<(usize, u32)> = if thorough { vec![(2, 4), (3, 4), (4, 4), (5, 3), (6, 3), (7, 2)] } else { vec![(2, 4), (3, 4), (4, 4), (5, 3), (6, 2)] };
    r.scenario("queue-states", "addressable queue: every reachable state with (ids, keys) in (2,4) (3,4) (4,4) (5,3) (6,2), thorough up to (7,2), and every operation in every state", |ctx| {
        let (ids, keys) = bounds[ctx.pick(bounds.len())];
        queue_bfs(ctx, ids, keys)
    });
    r.scenario("queue-big-reuse", "addressable queue with 7..=80 ids filled with 1..=n elements in 3 key orders: 0, 1, half or all but one popped, then cleared / drained / drained in part / popped empty, then used again: each id is free, every subset pattern of 3 is pushed and popped in key order", |ctx| {
        let n = 7 + ctx.pick(if thorough { 130 } else { 74 });
        let fill = n - ctx.pick(n);
        let pat = ctx.pick(3);
        let key = |i: usize| -> u32 { [i as u32, (n - i) as u32, (i * 7 % 11) as u32][pat] };
        let mut h = IndexdMinHeap::new(n);
        let mut m = Model::new();
        for i in 0..fill {
            apply(&mut h, &mut m, Op::Push(i, key(i)))?;
        }
        check_queue(&h, &m, n)?;
        let pops = [0, 1, fill / 2, fill - 1][ctx.pick(4)];
        for _ in 0..pops {
            apply(&mut h, &mut m, Op::Pop)?;
        }
        check_queue(&h, &m, n)?;
        let end = ctx.pick(5);
        ctx.note(|| format!("n={} filled={} pattern={} pops={} end={}", n, fill, pat, pops, end));
        match end {
            0 => apply(&mut h, &mut m, Op::Clear)?,
            1 => apply(&mut h, &mut m, Op::Drain)?,
            2 => { let k = m_half(&m); apply(&mut h, &mut m, Op::DrainPart(k))? },
            3 => {
                while !m.is_empty() {
                    apply(&mut h, &mut m, Op::Pop)?;
                }
            }
            _ => {}
        }
        check_queue(&h, &m, n)?;
        for i in (0..n).rev() {
            let op = match m.get(&i) {
                None if (i + end) % 3 != 0 => Op::Push(i, key(i)),
                None => Op::PushUnless(i, key(i) / 2),
                Some(_) => Op::Update(i, key(i) / 3),
            };
            apply(&mut h, &mut m, op)?;
            ctx.step();
        }
        check_queue(&h, &m, n)?;
        for i in 0..n {
            { let k = (m[&i] + i as u32 * 13) % 37; apply(&mut h, &mut m, Op::Update(i, k))? }
        }
        check_queue(&h, &m, n)?;
        while !m.is_empty() {
            apply(&mut h, &mut m, Op::Pop)?;
            ctx.step();
        }
        check_queue(&h, &m, n)?;
        ctx.state();
        Ok(())
    });
    r.scenario("queue-big", "addressable queue with 7..=24 ids: every key pattern of 12 structured ones, every single update at every point, then popped empty", |ctx| {
        let n = 7 + ctx.pick(18);
        let pat = ctx.pick(12);
        let key = |i: usize| -> u32 {
            match pat {
                0 => i as u32,
                1 => (n - i) as u32,
                2 => (i * 7 % n) as u32,
                3 => (i * 5 % n) as u32,
                4 => (i % 2) as u32 * 50 + i as u32,
                5 => 10,
                6 => (i % 3) as u32,
                7 => (i * i % 11) as u32,
                8 => (i * 11 % 23) as u32,
                9 => 100 - (i % 5) as u32,
                10 => (i / 4) as u32,
                _ => (i ^ 5) as u32,
            }
        };
        let mut h = IndexdMinHeap::new(n);
        let mut m = Model::new();
        ctx.note(|| format!("n={} pattern={}", n, pat));
        for i in 0..n {
            apply(&mut h, &mut m, Op::Push(i, key(i)))?;
        }
        let pops = ctx.pick(n);
        for _ in 0..pops {
            apply(&mut h, &mut m, Op::Pop)?;
        }
        let id = ctx.pick(n);
        let k = ctx.pick_from(&[0u32, 5, 12, 1000]);
        let op = match m.get(&id) {
            None => Op::Push(id, k),
            Some(_) => Op::Update(id, k),
        };
        ctx.note(|| format!("{} pops, then {:?}", pops, op));
        apply(&mut h, &mut m, op)?;
        check_queue(&h, &m, n)?;
        let mut left = m.len();
        while left > 0 {
            apply(&mut h, &mut m, Op::Pop)?;
            check_queue(&h, &m, n)?;
            left -= 1;
            ctx.step();
        }
        ctx.state();
        Ok(())
    });
    r.scenario("label-heap", "queue with popped area: all sequences of 7 (thorough 9) operations push(3 keys)/pop/retain(3 predicates)/clear", |ctx| {
        let mut h: Heap<(u32, u32)> = Heap::new();
        let mut open: Vec<(u32, u32)> = vec![];
        let mut popped: Vec<(u32, u32)> = vec![];
        let mut serial = 0;
        for _ in 0..if thorough { 9 } else { 7 } {
            let op = ctx.pick(8);
            ctx.step();
            match op {
                0 | 1 | 2 => {
                    serial += 1;
                    // only the first component decides in this model check: make all elements distinct by serial
                    let e = (op as u32, serial);
                    ctx.note(|| format!("push {:?}", e));
                    h.push(e);
                    open.push(e);
                }
                3 => {
                    let want = open.iter().max().copied();
                    let got = h.pop().copied();
                    ctx.note(|| format!("pop -> {:?}", got));
                    ensure!(got == want, "pop returned {:?}, largest is {:?}", got, want);
                    if let Some(e) = got {
                        open.retain(|&x| x != e);
                        popped.push(e);
                    }
                }
                4 | 5 | 6 => {
                    let p = |e: &(u32, u32)| match op {
                        4 => e.1 % 2 == 0,
                        5 => e.0 != 1,
                        _ => e.1 != 2 && e.1 != 5,
                    };
                    ctx.note(|| format!("retain #{}", op - 4));
                    h.retain(p);
                    open.retain(p);
                    popped.retain(p);
                }
                _ => {
                    ctx.note(|| "clear".to_string());
                    h.clear();
                    open.clear();
                    popped.clear();
                }
            }
            let want = open.iter().max();
            ensure!(h.peek() == want, "peek {:?}, largest is {:?}", h.peek(), want);
            let mut a = h.popped().to_vec();
            a.sort();
            let mut b = popped.clone();
            b.sort();
            ensure!(a == b, "popped elements {:?}, expected {:?}", a, b);
        }
        ctx.state();
        ctx.outcome(&(&open, &popped));
        // finally pop everything
        while let Some(want) = open.iter().max().copied() {
            let got = h.pop().copied();
            ensure!(got == Some(want), "final pop returned {:?}, largest is {:?}", got, want);
            open.retain(|&x| x != want);
        }
        ensure!(h.pop().is_none() && h.peek().is_none(), "queue should be empty");
        Ok(())
    });
    r.scenario("label-heap-retain", "push every key sequence of length <= 7 over 3 keys, pop 0..2, keep any subset, push 0..1, pop all", |ctx| {
        let mut h: Heap<(u32, u32)> = Heap::new();
        let k = 1 + ctx.pick(if thorough { 8 } else { 7 });
        let mut open = vec![];
        for i in 0..k {
            let e = (ctx.pick(3) as u32, i as u32);
            h.push(e);
            open.push(e);
        }
        ctx.note(|| format!("pushed {:?}", open));
        for _ in 0..ctx.pick(3) {
            let e = h.pop().copied();
            ensure!(e == open.iter().max().copied(), "pop {:?}", e);
            open.retain(|&x| Some(x) != e);
        }
        let mask = ctx.pick(1 << k) as u32;
        ctx.note(|| format!("keep mask {:b}", mask));
        h.retain(|e| mask >> e.1 & 1 == 1);
        open.retain(|e| mask >> e.1 & 1 == 1);
        if ctx.flag() {
            h.push((1, 99));
            open.push((1, 99));
        }
        ctx.state();
        while let Some(want) = open.iter().max().copied() {
            ctx.step();
            let got = h.pop().copied();
            ensure!(got == Some(want), "pop after retain returned {:?}, largest is {:?}", got, want);
            open.retain(|&x| x != want);
        }
        ensure!(h.pop().is_none(), "queue should be empty");
        Ok(())
    });
    fn vec_ops(ctx: &mut Ctx, depth: usize) -> Vec<(usize, usize, u32)> {
        (0..depth).map(|_| (ctx.pick(6), 0, 0)).collect::<Vec<_>>().into_iter().map(|(o, _, _)| match o {
            0 => (0, 0, 0),
            1 => (1, 0, 5),
            2 => (1, 1, 6),
            3 => (2, 0, 7),
            4 => (2, 1, 8),
            _ => (3, 0, 0),
        }).collect()
    }
    r.scenario("resettable-vectors", "timestamped, clearlist and atomic distance vectors of 2 entries: all sequences of 6 (thorough 8) set/modify/read-through-mut/reset operations", |ctx| {
        let ops = vec_ops(ctx, if thorough { 8 } else { 6 });
        ctx.note(|| format!("ops {:?} (0 reset, 1 set, 2 index_mut, 3 read via index_mut)", ops));
        let mut t: TimestampedVector<u32> = TimestampedVector::new(2);
        let mut tv: TimestampedVector<Vec<u32>> = TimestampedVector::new(2);
        let mut tb: TimestampedVector<bool> = TimestampedVector::new(2);
        let mut c: ClearlistVector<u32> = ClearlistVector::new(2, 3);
        let mut a = AtomicDists::new(2);
        let mut m = [None; 2];
        let mut mc = [3u32; 2];
        for (o, i, v) in ops {
            ctx.step();
            match o {
                0 => {
                    t.reset();
                    tv.reset();
                    tb.reset();
                    c.reset();
                    a.reset();
                    m = [None; 2];
                    mc = [3; 2];
                }
                1 => {
                    t.set(i, v);
                    tv.set(i, vec![v]);
                    tb.set(i, true);
                    c[i] = v;
                    a.set(i, v);
                    m[i] = Some(v);
                    mc[i] = v;
                }
                2 => {
                    t[i] = v;
                    if tv[i].is_empty() {
                        tv[i].push(v)
                    } else {
                        tv[i][0] = v
                    }
                    tb[i] = true;
                    c[i] = v;
                    a.set(i, v);
                    m[i] = Some(v);
                    mc[i] = v;
                }
                _ => {
                    // mutable access without a change, and writing back the default
                    let x = *unsafe { t.get_unchecked_mut(i) };
                    ensure!(x == m[i].unwrap_or(INF), "timestamped vector entry {} is {} through mutable access, expected {:?}", i, x, m[i]);
                    let l = unsafe { tv.get_unchecked_mut(i) }.len();
                    ensure!(l == m[i].iter().count(), "timestamped list has {} entries", l);
                    let _ = &mut c[i];
                    c[i] = 3;
                    mc[i] = 3;
                }
            }
            for j in 0..2 {
                let want = m[j].unwrap_or(INF);
                ensure!(t[j] == want && unsafe { *t.get_unchecked(j) } == want, "timestamped vector entry {} is {}, expected {}", j, t[j], want);
                ensure!(a.get(j) == want, "atomic distances entry {} is {}, expected {}", j, a.get(j), want);
                ensure!(tv[j] == m[j].into_iter().collect::<Vec<_>>(), "timestamped list entry {} is {:?}, expected {:?}", j, tv[j], m[j]);
                ensure!(tb[j] == m[j].is_some(), "timestamped flag {} is {}", j, tb[j]);
                ensure!(c[j] == mc[j], "clearlist vector entry {} is {}, expected {}", j, c[j], mc[j]);
            }
            ensure!(t.len() == 2 && a.len() == 2 && !t.is_empty() && !a.is_empty(), "wrong length");
        }
        ctx.state();
        ctx.outcome(&m);
        Ok(())
    });
    r.scenario("reset-wraparound", "2^32 resets in a row: values written at any of the first 3 rounds never reappear in the rounds around the wrap", |ctx| {
        let kind = ctx.pick(2);
        let at = ctx.pick(3) as u64;
        ctx.note(|| format!("{} vector, written in round {}", ["timestamped", "atomic"][kind], at));
        ctx.state();
        let total = 1u64 << 32;
        if kind == 0 {
            let mut t: TimestampedVector<u32> = TimestampedVector::new(3);
            let mut round = 0u64;
            while round < at {
                t.reset();
                round += 1;
            }
            t[0] = 17;
            t.set(1, 18);
            while round < total + 5 {
                if round == 8 {
                    for _ in 0..64 {
                        for _ in 0..(total - 16) / 64 {
                            t.reset();
                        }
                        ctx.alive();
                    }
                    round += (total - 16) / 64 * 64;
                }
                t.reset();
                round += 1;
                if round >= total - 2 || round < 6 {
                    ctx.step();
                    ensure!(t[0] == INF && t[1] == INF && t[2] == INF, "round {}: values of round {} are back: {} {} {}", round, at, t[0], t[1], t[2]);
                }
            }
        } else {
            let mut t = AtomicDists::new(3);
            let mut round = 0u64;
            while round < at {
                t.reset();
                round += 1;
            }
            t.set(0, 17);
            while round < total + 5 {
                if round == 8 {
                    for _ in 0..64 {
                        for _ in 0..(total - 16) / 64 {
                            t.reset();
                        }
                        ctx.alive();
                    }
                    round += (total - 16) / 64 * 64;
                }
                t.reset();
                round += 1;
                if round >= total - 2 || round < 6 {
                    ctx.step();
                    ensure!(t.get(0) == INF && t.get(1) == INF, "round {}: the value of round {} is back: {}", round, at, t.get(0));
                }
            }
        }
        Ok(())
    });
    r.finish();
}
