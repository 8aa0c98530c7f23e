//! C24: alternative routes of the penalty method are routes of the network which are hardly longer than the shortest one,
//! differ enough from it (and from the alternatives before), and do not depend on earlier queries.
use rust_road_router::algo::ch_potentials::{penalty::*, CCHPotData};
use rust_road_router::algo::customizable_contraction_hierarchy::CCH;
use rust_road_router::algo::*;
use rust_road_router::datastr::node_order::NodeOrder;
use std::collections::HashSet;
use vharness::conc::{explore, Model};
use vharness::gen::*;
use vharness::oracle::*;
use vharness::*;

type E = (u32, u32);

fn len_of(g: &G, p: &[u32]) -> Result<u32, String> {
    p.windows(2).map(|w| min_edge(g, w[0], w[1]).ok_or(format!("{:?} uses a link {}->{} which does not exist", p, w[0], w[1]))).sum()
}

fn edges_of(p: &[u32]) -> Vec<E> {
    p.windows(2).map(|w| (w[0], w[1])).collect()
}

/// all shortest paths (positive weights)
fn shortest_paths(g: &G, d: &[Vec<u32>], s: u32, t: u32) -> Vec<Vec<u32>> {
    if s == t {
        return vec![vec![s]];
    }
    let mut res = vec![];
    for e in g.out(s as usize) {
        let h = g.head[e];
        if d[h as usize][t as usize] < INF && g.weight[e] + d[h as usize][t as usize] == d[s as usize][t as usize] {
            for mut p in shortest_paths(g, d, h, t) {
                p.insert(0, s);
                res.push(p);
            }
        }
    }
    res
}

/// the part outside of `known` is longer than a fifth
fn differs(g: &G, p: &[u32], known: &HashSet<E>) -> bool {
    let l = |e: E| min_edge(g, e.0, e.1).unwrap();
    let total: u32 = edges_of(p).into_iter().map(l).sum();
    let new: u32 = edges_of(p).into_iter().filter(|e| !known.contains(e)).map(l).sum();
    new > total / 5
}

/// `paths` in the order they were found; endpoints may move to where the attached tree meets the rest
fn judge(g: &G, d: &[Vec<u32>], s: u32, t: u32, paths: &[Vec<u32>], core: &dyn Fn(u32) -> bool) -> Result<(), String> {
    for p in paths {
        ensure!(!p.is_empty() && p.iter().all(|&v| (v as usize) < g.n), "path {:?}", p);
        let (x, y) = (p[0] as usize, *p.last().unwrap() as usize);
        ensure!((!core(s) || x == s as usize) && (!core(t) || y == t as usize), "path {:?} does not lead from {} to {}", p, s, t);
        let (a, b, base) = (d[s as usize][x], d[y][t as usize], d[x][y]);
        // trees attached to the rest of the network are left out, whether or not their links lead the right way
        let direct = d[s as usize][t as usize];
        ensure!(direct == INF || (a < INF && b < INF && a + base + b == direct), "path {:?} for {} to {}", p, s, t);
        let l = len_of(g, p)?;
        ensure!(l as u64 * 4 <= base as u64 * 5, "path {:?} of length {} is more than a quarter longer than {}", p, l, base);
        let mut u = p.clone();
        u.sort_unstable();
        u.dedup();
        ensure!(u.len() == p.len(), "path {:?} visits a node twice", p);
        ensure!(p[0] == paths[0][0] && p.last() == paths[0].last(), "alternatives {:?} have different ends", paths);
    }
    if let Some(p) = paths.first() {
        let ok = shortest_paths(g, d, p[0], *p.last().unwrap()).into_iter().any(|sp| {
            let mut known: HashSet<E> = edges_of(&sp).into_iter().collect();
            paths.iter().all(|p| {
                let r = differs(g, p, &known);
                known.extend(edges_of(p));
                r
            })
        });
        ensure!(ok, "alternatives {:?} do not differ from the shortest path or each other", paths);
    }
    Ok(())
}

/// every node of the biggest part without articulation points (removal of one node keeps others connected)
fn biconnected(g: &G) -> bool {
    let n = g.n;
    (0..=n).all(|x| {
        let nodes: Vec<usize> = (0..n).filter(|&v| v != x).collect();
        let mut seen = vec![false; n];
        let mut st = vec![nodes[0]];
        seen[nodes[0]] = true;
        while let Some(v) = st.pop() {
            for &(a, b, _) in &g.edges() {
                for (a, b) in [(a as usize, b as usize), (b as usize, a as usize)] {
                    if a == v && b != x && !seen[b] {
                        seen[b] = true;
                        st.push(b);
                    }
                }
            }
        }
        nodes.iter().all(|&v| seen[v])
    })
}

struct Case {
    g: G,
    d: Vec<Vec<u32>>,
    bi: bool,
}

fn case(ctx: &mut Ctx, g: G) -> Case {
    ctx.note(|| format!("graph n={} edges={:?}", g.n, g.edges()));
    let d = dist_matrix(&g);
    let bi = biconnected(&g);
    Case { g, d, bi }
}

/// a sequence of queries on the same servers; the answers are those of new ones
fn queries(ctx: &mut Ctx, c: &Case, qs: &[(u32, u32)]) -> Result<(), String> {
    let (g, d) = (&c.g, &c.d);
    let og = g.owned();
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(nd_order(g)));
    let data = CCHPotData::new(&cch, &og);
    let mut it = PenaltyIterative::new(&og, &data);
    // one server for each method, and one for both in turn
    let mut pe = Penalty::new(&og, data.forward_potential(), data.backward_potential());
    let mut ps = Penalty::new(&og, data.forward_potential(), data.backward_potential());
    let mut pm = Penalty::new(&og, data.forward_potential(), data.backward_potential());
    let core = |_: u32| c.bi;
    for (i, &(s, t)) in qs.iter().enumerate() {
        ctx.step();
        ctx.alive();
        let q = Query { from: s, to: t };
        let one = it.alternatives(q);
        let all = pe.alternatives_iterative(q);
        let some = ps.alternatives(q);
        let mixed = if i % 3 == 2 { pm.alternatives(q).is_some() == some.is_some() } else { pm.alternatives_iterative(q) == all };
        ensure!(mixed, "{} -> {} after {:?}: a server used for both kinds of sets answers differently", s, t, &qs[..i]);
        ctx.outcome(&(&one, &all));
        if let Some(p) = &one {
            ctx.count("single_alternatives", 1);
            judge(g, d, s, t, std::slice::from_ref(p), &core).map_err(|e| format!("{} -> {}: {}", s, t, e))?;
        }
        let reach = d[s as usize][t as usize] < INF;
        if c.bi {
            ensure!(all.is_some() == reach && some.is_some() == reach, "{} -> {}: alternatives {:?}, graph {:?}, reachable {}", s, t, all, some, reach);
        }
        if let Some(a) = &all {
            ctx.count("sets_of_alternatives", (a.len() > 0) as u64);
            ensure!(a.len() <= 5, "{} alternatives", a.len());
            judge(g, d, s, t, a, &core).map_err(|e| format!("{} -> {} (set): {}", s, t, e))?;
        }
        if i > 0 {
            let one2 = PenaltyIterative::new(&og, &data).alternatives(q);
            let all2 = Penalty::new(&og, data.forward_potential(), data.backward_potential()).alternatives_iterative(q);
            ensure!(one == one2 && all == all2, "{} -> {} after {:?}: {:?} {:?} instead of {:?} {:?}", s, t, &qs[..i], one, all, one2, all2);
        }
    }
    Ok(())
}

fn all_pairs(ctx: &mut Ctx, c: &Case) -> Result<(), String> {
    ctx.state();
    let n = c.g.n as u32;
    // every query follows every other kind of query at least once: back and forth
    let mut qs: Vec<(u32, u32)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    let rev: Vec<_> = qs.iter().rev().copied().collect();
    qs.extend(rev);
    queries(ctx, c, &qs)
}

/// all interleavings of the two search threads
fn threads(ctx: &mut Ctx, c: &Case, s: u32, t: u32, set: bool, bound: u8) -> Result<(), String> {
    ctx.state();
    let og = c.g.owned();
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(nd_order(&c.g)));
    let data = CCHPotData::new(&cch, &og);
    let core = |_: u32| c.bi;
    let q = Query { from: s, to: t };
    let mut outcomes = HashSet::new();
    let ex = if set {
        explore(
            Model::Sc,
            Some(bound),
            || {
                ctx.alive();
                Penalty::new(&og, data.forward_potential(), data.backward_potential())
            },
            |mut p| {
                let a = p.alternatives_iterative(q).ok_or("nothing found")?;
                outcomes.insert(a.clone());
                judge(&c.g, &c.d, s, t, &a, &core)
            },
        )?
    } else {
        explore(
            Model::Sc,
            Some(bound),
            || {
                ctx.alive();
                PenaltyIterative::new(&og, &data)
            },
            |mut p| {
                if let Some(a) = p.alternatives(q) {
                    outcomes.insert(vec![a.clone()]);
                    judge(&c.g, &c.d, s, t, &[a], &core)?;
                }
                Ok(())
            },
        )?
    };
    ctx.count("schedules", ex.executions);
    ctx.steps(ex.transitions);
    for o in outcomes {
        ctx.outcome(&o);
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C24");
    let th = r.thorough();
    r.assume("positive weights, no parallel links; travel times are well below 2^31 / 11");
    r.scenario("n4", "n=4, every topology, 2 metrics, all pairs in sequence and back", |ctx| {
        let k = ctx.pick(2);
        let g = all_topologies(ctx, 4, |a, b| if k == 0 { 500 + ((a * 7 + b * 5) % 9) as u32 * 60 } else { 1 + ((a * 3 + b * 5) % 4) as u32 });
        let c = case(ctx, g);
        all_pairs(ctx, &c)
    });
    r.scenario("k4", "complete graph with 4 nodes, undirected weights from {1000, 1150, 1900, 2100}, all pairs in sequence and back", |ctx| {
        let mut e = vec![];
        for a in 0..4 {
            for b in a + 1..4 {
                let w = ctx.pick_from(&[1000, 1150, 1900, 2100]);
                e.extend([(a, b, w), (b, a, w)]);
            }
        }
        let g = G::from_edges(4, &e);
        let c = case(ctx, g);
        all_pairs(ctx, &c)
    });
    r.scenario("n5", "n=5, every undirected topology, asymmetric weights in 2 (6) ways, all pairs in sequence and back", |ctx| {
        let k = ctx.pick(if th { 6 } else { 2 });
        let g = all_undirected(ctx, 5, |a, b| 300 + ((a * 5 + b * 3 + a * b * k) % 7) as u32 * 45);
        let c = case(ctx, g);
        all_pairs(ctx, &c)
    });
    r.scenario("parallel-routes", "two to four routes with 1 to 3 links between two nodes, lengths around 100, 104, 110, 124, 126 percent, with cross links", |ctx| {
        let k = 2 + ctx.pick(3);
        let mut e = vec![];
        let mut n = 2u32;
        let mut mids = vec![];
        for i in 0..k {
            let total = 10_000 * ctx.pick_from(&[100, 104, 110, 124, 126]) / 100 + i as u32;
            let links = 1 + ctx.pick(if k < 4 { 3 } else { 2 });
            let mut at = 0;
            for j in 0..links {
                let to = if j + 1 == links { 1 } else { n };
                if to == n {
                    n += 1;
                    mids.push(to);
                }
                let w = total / links as u32;
                e.extend([(at, to, w), (to, at, w + 5)]);
                at = to;
            }
        }
        e.sort_unstable_by_key(|x| (x.0, x.1, x.2));
        e.dedup_by_key(|x| (x.0, x.1));
        if ctx.flag() {
            for w in mids.windows(2) {
                if !e.iter().any(|x| (x.0, x.1) == (w[0], w[1])) {
                    e.extend([(w[0], w[1], 1500), (w[1], w[0], 1500)]);
                }
            }
        }
        let g = G::from_edges(n as usize, &e);
        let c = case(ctx, g);
        ctx.state();
        queries(ctx, &c, &[(0, 1), (1, 0), (0, 1)])
    });
    r.scenario("disjoint-routes", "two to four (seven) disjoint routes with 2 or 3 links between two nodes, lengths 100, 102, 104 or 150 percent: all but the long ones are found", |ctx| {
        let k = 2 + ctx.pick(if th { 6 } else { 3 });
        let mut e = vec![];
        let mut n = 2u32;
        let mut good = vec![];
        for i in 0..k {
            let p = if i == 0 { 100 } else { ctx.pick_from(&[100, 102, 104, 150]) };
            let total = 100 * p + i as u32;
            let mut nodes = vec![0];
            let links = if k < 5 { 2 + ctx.pick(2) } else { 2 + i % 2 };
            for _ in 1..links {
                nodes.push(n);
                n += 1;
            }
            nodes.push(1);
            for (j, x) in nodes.windows(2).enumerate() {
                let w = total * (j as u32 + 1) / links as u32 - total * j as u32 / links as u32;
                e.extend([(x[0], x[1], w), (x[1], x[0], w)]);
            }
            if p < 150 {
                good.push(nodes);
            }
        }
        let g = G::from_edges(n as usize, &e);
        let c = case(ctx, g);
        ctx.state();
        let og = c.g.owned();
        let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(nd_order(&c.g)));
        let data = CCHPotData::new(&cch, &og);
        let mut it = PenaltyIterative::new(&og, &data);
        let mut pe = Penalty::new(&og, data.forward_potential(), data.backward_potential());
        for _ in 0..2 {
            ctx.steps(2);
            let one = it.alternatives(Query { from: 0, to: 1 });
            let all = pe.alternatives_iterative(Query { from: 0, to: 1 });
            ctx.outcome(&(&one, &all));
            let want = (good.len() - 1).min(5);
            ensure!(one.is_some() == (want > 0) && one.iter().all(|p| good.contains(p)), "alternative {:?} out of {:?}", one, good);
            let all = all.unwrap_or_default();
            ensure!(all.len() == want && all.iter().all(|p| good.contains(p)), "alternatives {:?} out of {:?}", all, good);
        }
        Ok(())
    });
    r.scenario("grids", "grids and road graphs with up to 20 nodes, metrics in 4 (10) ways, all pairs from 3 nodes", |ctx| {
        let k = ctx.pick(if th { 10 } else { 4 });
        let mut rng = Lcg(k as u64 + 1);
        let g = match ctx.pick(4) {
            0 => grid_graph(3, 3, |_, _| 0),
            1 => grid_graph(4, 5, |_, _| 0),
            2 => road_graph(4, 4, k as u64, 9),
            _ => complete_graph(7, |_, _| 0),
        };
        let w = g.head.iter().map(|_| 500 + rng.below(400)).collect();
        let g = g.with_weights(w);
        let c = case(ctx, g);
        ctx.state();
        let n = c.g.n as u32;
        let first = ctx.pick(4) as u32;
        let qs: Vec<(u32, u32)> = (0..n).flat_map(|t| [((first * 5) % n, t), (t, (first * 3 + 1) % n)]).collect();
        queries(ctx, &c, &qs)
    });
    r.scenario("histories", "grids with 5x5 to 6x7 nodes, links of 10000 to 14000 ms, 4 (16) metrics, histories of 60 queries between distant nodes", |ctx| {
        let k = ctx.pick(if th { 16 } else { 4 });
        let mut rng = Lcg(k as u64 + 77);
        let (a, b) = [(5, 5), (6, 6), (6, 7)][ctx.pick(3)];
        let g = grid_graph(a, b, |_, _| 0);
        let w = g.head.iter().map(|_| 10_000 + rng.below(4000)).collect();
        let c = case(ctx, g.with_weights(w));
        ctx.state();
        let n = (a * b) as u32;
        let mul = [7, 11, 13][ctx.pick(3)];
        let qs: Vec<(u32, u32)> = (0..60).map(|i| (i * mul % n, (i * (mul + 4) + n / 2) % n)).filter(|(s, t)| s != t).collect();
        queries(ctx, &c, &qs)
    });
    r.scenario("threads", "two and three routes between two nodes, all interleavings of the search threads with up to 1 preemption (sets of alternatives: none)", |ctx| {
        let k = ctx.pick(3);
        let g = match k {
            0 => G::from_edges(4, &[(0, 2, 500), (2, 1, 500), (0, 3, 520), (3, 1, 530), (2, 3, 90), (2, 0, 500), (1, 2, 500), (3, 0, 520), (1, 3, 530), (3, 2, 90)]),
            1 => G::from_edges(5, &[(0, 2, 500), (2, 1, 500), (0, 3, 520), (3, 1, 530), (0, 4, 550), (4, 1, 560), (2, 3, 90), (3, 4, 80), (2, 0, 500), (1, 2, 500), (3, 0, 520), (1, 3, 530), (4, 0, 550), (1, 4, 560), (3, 2, 90), (4, 3, 80)]),
            _ => {
                let mut rng = Lcg(k as u64);
                complete_graph(5, |_, _| 0).with_weights((0..20).map(|_| 800 + rng.below(300)).collect())
            }
        };
        let set = ctx.flag();
        let (s, t) = ctx.pick_from(&[(0, 1), (1, 0)]);
        let c = case(ctx, g);
        threads(ctx, &c, s, t, set, if !set { 1 } else { 0 })
    });
    r.finish()
}
