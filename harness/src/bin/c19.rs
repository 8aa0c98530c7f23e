//! C19: bit vectors, rank/select id maps, link-to-tail maps and the small index utilities equal their set models.
use rust_road_router::datastr::graph::first_out_graph::*;
use rust_road_router::datastr::graph::link_id_to_tail_mapper::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::util::in_range_option::InRangeOption;
use rust_road_router::util::*;
use std::collections::BTreeSet;
use vharness::*;

fn check_map(ctx: &mut Ctx, size: usize, set: &BTreeSet<usize>) -> Result<(), String> {
    ctx.state();
    let mut bits = BitVec::new(size);
    for &i in set {
        bits.set(i);
    }
    ensure!(bits.len() == size && bits.count_ones() == set.len(), "{} ones in a bit vector with {} bits set", bits.count_ones(), set.len());
    for i in 0..size {
        ensure!(bits.get(i) == set.contains(&i), "bit {} is {}", i, bits.get(i));
    }
    let map = InvertableRankSelectMap::new(RankSelectMap::new(bits));
    ensure!(map.len() == set.len() && map.is_empty() == set.is_empty(), "map has {} entries, expected {}", map.len(), set.len());
    let mut rank = 0;
    for key in 0..size {
        ctx.step();
        let contained = set.contains(&key);
        let want = if contained { Some(rank) } else { None };
        ensure!(map.get(key) == want, "get({}) = {:?}, expected {:?}", key, map.get(key), want);
        if contained {
            ensure!(map.at(key) == rank, "at({}) = {}, expected {}", key, map.at(key), rank);
            ensure!(map.at_or_next_lower(key) == rank, "at_or_next_lower({}) = {}, expected {}", key, map.at_or_next_lower(key), rank);
            ensure!(map.inverse(rank) == key, "inverse({}) = {}, expected {}", rank, map.inverse(rank), key);
            rank += 1;
        } else if rank > 0 {
            ensure!(map.at_or_next_lower(key) == rank - 1, "at_or_next_lower({}) = {}, expected {}", key, map.at_or_next_lower(key), rank - 1);
        }
    }
    for key in [size, size + 1, size + 63, size + 64, size + 1000] {
        ensure!(map.get(key).is_none(), "get({}) behind the end = {:?}", key, map.get(key));
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C19");
    let thorough = r.thorough();
    r.scenario("bitvec-ops", "bit vectors of size 1, 63, 64, 65, 130: all sequences of 5 (thorough 6) operations over 3 boundary positions", |ctx| {
        let size = ctx.pick_from(&[1usize, 63, 64, 65, 130]);
        let mut b = BitVec::new(size);
        let mut m = BTreeSet::new();
        let pos = [0, size / 2, size - 1];
        for _ in 0..if thorough { 6 } else { 5 } {
            ctx.step();
            let op = ctx.pick(11);
            let p = pos[op % 3];
            match op {
                0..=2 => {
                    b.set(p);
                    m.insert(p);
                }
                3..=5 => {
                    b.unset(p);
                    m.remove(&p);
                }
                6..=8 => {
                    b.unset_all_around(p);
                    m.retain(|&x| x / 64 != p / 64);
                }
                9 => {
                    b.clear();
                    m.clear();
                }
                _ => {
                    b.set_all();
                    m = (0..size).collect();
                }
            }
            ctx.note(|| format!("size {} op {} at {}", size, op, p));
            ensure!(b.count_ones() == m.len(), "count_ones {} but {} bits are set", b.count_ones(), m.len());
            for i in [0, size / 3, size / 2, size.saturating_sub(2), size - 1] {
                ensure!(b.get(i) == m.contains(&i), "bit {} is {}", i, b.get(i));
            }
            ensure!(b.len() == size && !b.is_empty(), "len {}", b.len());
        }
        ctx.outcome(&m);
        ctx.state();
        Ok(())
    });
    r.scenario("fastclear-ops", "fast clear bit vector: all sequences of 7 (thorough 9) set/clear operations over positions 0, 1, 63, 64, 130", |ctx| {
        let mut b = FastClearBitVec::new(131);
        let mut m = BTreeSet::new();
        let pos = [0usize, 1, 63, 64, 130];
        for _ in 0..if thorough { 9 } else { 7 } {
            ctx.step();
            let op = ctx.pick(6);
            if op < 5 {
                b.set(pos[op]);
                m.insert(pos[op]);
            } else {
                b.clear();
                m.clear();
            }
            for p in pos {
                ensure!(b.get(p) == m.contains(&p), "bit {} is {}", p, b.get(p));
            }
            let mut it: Vec<usize> = b.set_bits_iter().collect();
            it.sort_unstable();
            ensure!(it == m.iter().copied().collect::<Vec<_>>(), "set bits {:?}, expected {:?}", it, m);
        }
        ctx.outcome(&m);
        ctx.state();
        Ok(())
    });
    r.scenario("ranks-small", "id maps of size 1..=12 (thorough 16): every subset", |ctx| {
        let size = 1 + ctx.pick(if thorough { 16 } else { 12 });
        let mask = ctx.pick(1 << size);
        let set: BTreeSet<usize> = (0..size).filter(|i| mask >> i & 1 == 1).collect();
        ctx.note(|| format!("size {} set {:?}", size, set));
        ctx.outcome(&set.len());
        check_map(ctx, size, &set)
    });
    r.scenario("ranks-boundaries", "id maps with sizes around word (64) and cache line (512) boundaries: every subset of the 13 boundary positions, on an empty, full or every-third background", |ctx| {
        let size = ctx.pick_from(&[63usize, 64, 65, 511, 512, 513, 576, 1023, 1024, 1025, 1537]);
        let cand: Vec<usize> = [0usize, 1, 62, 63, 64, 447, 448, 511, 512, 1023, 1024, size - 2, size - 1].iter().copied().filter(|&p| p < size).collect::<BTreeSet<_>>().into_iter().collect();
        let bg = ctx.pick(if thorough { 3 } else { 2 });
        let mask = ctx.pick(1 << cand.len());
        if !thorough && (mask % 8 > 2) && bg == 1 {
            return Ok(());
        }
        let mut set: BTreeSet<usize> = (0..size).filter(|i| [false, true, i % 3 == 0][bg]).collect();
        for (i, &p) in cand.iter().enumerate() {
            if mask >> i & 1 == 1 {
                set.insert(p);
            } else {
                set.remove(&p);
            }
        }
        ctx.note(|| format!("size {} background {} boundary mask {:b} of {:?}", size, bg, mask, cand));
        check_map(ctx, size, &set)
    });
    r.scenario("ranks-groups", "id maps up to 5000 ids made of runs: every combination of 4 run lengths (0,1,255,256,257,511,512,600) with gaps (0,1,64,512,1200)", |ctx| {
        let lens = [0usize, 1, 255, 256, 257, 511, 512, 600];
        let gaps = [0usize, 1, 64, 512, 1200];
        let mut set = BTreeSet::new();
        let mut pos = 0;
        let runs = if thorough { 4 } else { 3 };
        let stride = ctx.pick_from(&[1usize, 3]);
        for _ in 0..runs {
            pos += ctx.pick_from(&gaps);
            let l = ctx.pick_from(&lens);
            for _ in 0..l {
                set.insert(pos);
                pos += stride;
            }
        }
        let size = (pos + 1 + ctx.pick(2) * 100).max(1);
        ctx.note(|| format!("size {} with {} ids in runs", size, set.len()));
        ctx.outcome(&set.len());
        check_map(ctx, size, &set)
    });
    r.scenario("link-tails", "tail of every link: every degree sequence of up to 7 (thorough 8) nodes with degrees 0..3, and long ones", |ctx| {
        let n = 1 + ctx.pick(if thorough { 8 } else { 7 });
        let scale = ctx.pick_from(&[1usize, 100, 513]);
        let mut first_out = vec![0u32];
        let mut tails = vec![];
        let nd = if scale > 1 { 2 } else { 4 };
        if scale > 1 && n > 6 {
            return Ok(());
        }
        for v in 0..n {
            let d = ctx.pick(nd) * scale;
            for _ in 0..d {
                tails.push(v as u32);
            }
            first_out.push(tails.len() as u32);
        }
        ctx.note(|| format!("first_out {:?}", first_out));
        ctx.state();
        let g = OwnedGraph::new(first_out.clone(), vec![0; tails.len()], vec![1; tails.len()]);
        let mapper = LinkIdToTailMapper::new(&g);
        for (e, &t) in tails.iter().enumerate() {
            ctx.step();
            ensure!(mapper.link_id_to_tail(e as u32) == t, "mapper: tail of link {} is {}, expected {}", e, mapper.link_id_to_tail(e as u32), t);
            ensure!(link_id_to_tail(&first_out, e as u32) == t, "tail of link {} is {}, expected {}", e, link_id_to_tail(&first_out, e as u32), t);
        }
        let mut walked = vec![];
        (&g as &dyn Fn_).walk(&mut walked);
        ensure!(walked == tails, "iterating over tails yields {:?}", walked);
        Ok(())
    });
    r.scenario("node-orders", "every permutation of up to 6 nodes: order and ranks are inverse to each other, both constructors agree", |ctx| {
        let n = 1 + ctx.pick(6);
        let p = ctx.permutation(n);
        ctx.note(|| format!("{:?}", p));
        ctx.state();
        let o = NodeOrder::from_node_order(p.clone());
        let q = NodeOrder::from_ranks(p.clone());
        ensure!(o.order() == &p[..] && q.ranks() == &p[..] && o.len() == n && !o.is_empty(), "order not taken over");
        for i in 0..n as u32 {
            ctx.step();
            ensure!(o.node(i) == p[i as usize] && o.rank(o.node(i)) == i && o.ranks()[o.node(i) as usize] == i, "order: rank {} wrong", i);
            ensure!(q.rank(i) == p[i as usize] && q.node(q.rank(i)) == i && q.order()[q.rank(i) as usize] == i, "ranks: node {} wrong", i);
        }
        let id = NodeOrder::identity(n);
        ensure!((0..n as u32).all(|i| id.node(i) == i && id.rank(i) == i), "identity");
        Ok(())
    });
    r.scenario("utilities", "nested lists, sorted two-way sweeps and interleavings of all small lists; sentinel options", |ctx| {
        fn list(ctx: &mut Ctx, max: usize) -> Vec<u32> {
            let l = ctx.pick(max + 1);
            let mut v: Vec<u32> = vec![];
            for _ in 0..l {
                let base = v.last().map_or(0, |x| x + 1);
                v.push(base + ctx.pick(3) as u32);
            }
            v
        }
        let a = list(ctx, 3);
        let b = list(ctx, 3);
        ctx.note(|| format!("{:?} {:?}", a, b));
        ctx.state();
        // sweep: union in ascending order, matching elements together
        let got: Vec<_> = coordinated_sweep_iter(a.iter().copied(), b.iter().copied()).collect();
        let mut keys: Vec<u32> = a.iter().chain(&b).copied().collect();
        keys.sort_unstable();
        keys.dedup();
        let want: Vec<_> = keys.iter().map(|k| (a.contains(k).then(|| *k), b.contains(k).then(|| *k))).collect();
        ensure!(got == want, "sweep of {:?} and {:?} yields {:?}", a, b, got);
        let got: Vec<u32> = interleave(a.clone(), b.clone()).collect();
        let mut want: Vec<u32> = vec![];
        for i in 0..a.len().max(b.len()) {
            want.extend(a.get(i));
            want.extend(b.get(i));
        }
        ensure!(got == want, "interleaving of {:?} and {:?} yields {:?}", a, b, got);
        let lists = vec![a.clone(), vec![], b.clone()];
        let v = Vecs::from_iters(lists.iter().map(|l| l.iter().copied()));
        ensure!(v.iter().map(|s| s.to_vec()).collect::<Vec<_>>() == lists, "nested lists");
        use rayon::prelude::*;
        ensure!(v.par_iter().map(|s| s.to_vec()).collect::<Vec<_>>() == lists, "nested lists in parallel");
        ensure!(v[0] == a[..] && v[1].is_empty() && v[2] == b[..], "nested list access");
        for x in [0u32, 1, 77, u32::MAX - 1] {
            ensure!(InRangeOption::some(x).value() == Some(x) && InRangeOption::new(Some(x)).value() == Some(x), "option {}", x);
        }
        ensure!(InRangeOption::<u32>::NONE.value().is_none() && InRangeOption::<u32>::new(None).value().is_none() && InRangeOption::<u32>::default().value().is_none(), "none");
        ctx.outcome(&got);
        Ok(())
    });
    r.finish();
}

/// object safe view on the tail iteration of a graph
trait Fn_ {
    fn walk(&self, out: &mut Vec<u32>);
}
impl Fn_ for OwnedGraph {
    fn walk(&self, out: &mut Vec<u32>) {
        for v in 0..self.num_nodes() {
            for _ in self.neighbor_edge_indices(v as NodeId) {
                out.push(v as u32);
            }
        }
    }
}
