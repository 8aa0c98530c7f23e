//! C27: a customizable contraction hierarchy is exactly the chordal completion of the network under its order, its arcs
//! know their links, its elimination and separator trees separate, and reordering does not change the shortcuts.
use rust_road_router::algo::customizable_contraction_hierarchy::separator_decomposition::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::INF;
use vharness::*;

/// reach[a*n+b] (by rank): a path from a to b whose inner nodes are all below both of them
fn low_paths(n: usize, arcs: &[(usize, usize)]) -> Vec<bool> {
    let mut res = vec![false; n * n];
    for a in 0..n {
        for b in 0..n {
            if a == b {
                continue;
            }
            let lim = a.min(b);
            let mut seen = vec![false; n];
            let mut stack = vec![a];
            while let Some(v) = stack.pop() {
                for &(x, y) in arcs {
                    if x == v && !seen[y] && (y < lim || y == b) {
                        seen[y] = true;
                        if y != b {
                            stack.push(y);
                        }
                    }
                }
            }
            res[a * n + b] = seen[b];
        }
    }
    res
}

fn collect(t: &SeparatorTree, out: &mut Vec<u32>) {
    out.extend(t.nodes.iter());
    t.children.iter().for_each(|c| collect(c, out));
}

/// every node once, cells below their separator, no arcs between cells
fn tree(t: &SeparatorTree, arc: &dyn Fn(u32, u32) -> bool) -> Result<usize, String> {
    let own: Vec<u32> = t.nodes.iter().collect();
    ensure!(t.nodes.len() == own.len() && t.nodes.is_empty() == own.is_empty() && t.nodes.highest_ranked_node() == own.iter().max().copied(), "separator {:?} reports {} nodes, highest {:?}", own, t.nodes.len(), t.nodes.highest_ranked_node());
    let mut cells = vec![];
    let mut total = own.len();
    for c in &t.children {
        let mut v = vec![];
        collect(c, &mut v);
        ensure!(!v.is_empty(), "empty cell");
        ensure!(own.iter().all(|&s| v.iter().all(|&x| x < s)), "cell {:?} is not below its separator {:?}", v, own);
        total += tree(c, arc)?;
        cells.push(v);
    }
    for i in 0..cells.len() {
        for j in 0..i {
            for &a in &cells[i] {
                for &b in &cells[j] {
                    ensure!(a != b && !arc(a, b) && !arc(b, a), "cells {:?} and {:?} are not separated", cells[i], cells[j]);
                }
            }
        }
    }
    ensure!(total == t.num_nodes, "tree of {} nodes reports {}", total, t.num_nodes);
    Ok(total)
}

fn separators(n: usize, t: &SeparatorTree, arc: &dyn Fn(u32, u32) -> bool) -> Result<(), String> {
    let mut v = vec![];
    collect(t, &mut v);
    v.sort_unstable();
    ensure!(v == (0..n as u32).collect::<Vec<_>>(), "separator tree contains {:?}", v);
    tree(t, arc).map(|_| ())
}

fn inverted(what: &str, inv: &ReversedGraphWithEdgeIds, tail: &[u32], head: &[u32], n: usize) -> Result<(), String> {
    let mut seen = vec![false; head.len()];
    for v in 0..n as u32 {
        for (NodeIdT(t), Reversed(EdgeIdT(e))) in inv.link_iter(v) {
            ensure!(head[e as usize] == v && tail[e as usize] == t && !seen[e as usize], "{}: inverted arc {} -> {} with id {}", what, v, t, e);
            seen[e as usize] = true;
        }
    }
    ensure!(seen.iter().all(|&x| x), "{}: arcs missing in inverted graph", what);
    Ok(())
}

/// one direction: arcs are those of `want`, with tails and links
fn direction(what: &str, g: &G, c: &dyn Dir, want: &dyn Fn(usize, usize) -> bool, order: &[u32], up: bool) -> Result<Vec<(u32, u32)>, String> {
    let n = g.n;
    let (first, head, tail) = (c.first(), c.head(), c.tail());
    ensure!(first.len() == n + 1 && *first.last().unwrap() as usize == head.len() && tail.len() == head.len(), "{}: sizes", what);
    let edges = g.edges();
    let mut arcs = vec![];
    for v in 0..n {
        for e in first[v] as usize..first[v + 1] as usize {
            ensure!(tail[e] == v as u32, "{}: tail of {} is {} instead of {}", what, e, tail[e], v);
            arcs.push((v as u32, head[e]));
            let (a, b) = (order[v], order[head[e] as usize]);
            let (a, b) = if up { (a, b) } else { (b, a) };
            let mut links: Vec<u32> = c.links(e);
            links.sort_unstable();
            let w: Vec<u32> = (0..edges.len()).filter(|&i| edges[i].0 == a && edges[i].1 == b).map(|i| i as u32).collect();
            ensure!(links == w, "{}: arc {}-{} stands for links {:?} instead of {:?}", what, v, head[e], links, w);
        }
    }
    let mut w = vec![];
    for a in 0..n {
        for b in a + 1..n {
            if want(a, b) {
                w.push((a as u32, b as u32));
            }
        }
    }
    let mut sorted = arcs.clone();
    sorted.sort_unstable();
    ensure!(sorted == w, "{}: arcs {:?} instead of {:?}", what, sorted, w);
    inverted(what, c.inv(), tail, head, n)?;
    Ok(w)
}

trait Dir {
    fn first(&self) -> &[u32];
    fn head(&self) -> &[u32];
    fn tail(&self) -> &[u32];
    fn links(&self, e: usize) -> Vec<u32>;
    fn inv(&self) -> &ReversedGraphWithEdgeIds;
}
struct Fw<'a, C>(&'a C);
struct Bw<'a, C>(&'a C);
impl<C: CCHT> Dir for Fw<'_, C> {
    fn first(&self) -> &[u32] {
        self.0.forward_first_out()
    }
    fn head(&self) -> &[u32] {
        self.0.forward_head()
    }
    fn tail(&self) -> &[u32] {
        self.0.forward_tail()
    }
    fn links(&self, e: usize) -> Vec<u32> {
        self.0.forward_cch_edge_to_orig_arc()[e].iter().map(|i| i.0).collect()
    }
    fn inv(&self) -> &ReversedGraphWithEdgeIds {
        self.0.forward_inverted()
    }
}
impl<C: CCHT> Dir for Bw<'_, C> {
    fn first(&self) -> &[u32] {
        self.0.backward_first_out()
    }
    fn head(&self) -> &[u32] {
        self.0.backward_head()
    }
    fn tail(&self) -> &[u32] {
        self.0.backward_tail()
    }
    fn links(&self, e: usize) -> Vec<u32> {
        self.0.backward_cch_edge_to_orig_arc()[e].iter().map(|i| i.0).collect()
    }
    fn inv(&self) -> &ReversedGraphWithEdgeIds {
        self.0.backward_inverted()
    }
}

struct Paths {
    any: Vec<bool>,
    up: Vec<bool>,
    order: Vec<u32>,
}

fn paths(g: &G, order: &[u32]) -> Paths {
    let mut rank = vec![0; g.n];
    order.iter().enumerate().for_each(|(r, &v)| rank[v as usize] = r);
    let d: Vec<(usize, usize)> = g.edges().iter().map(|e| (rank[e.0 as usize], rank[e.1 as usize])).collect();
    let u: Vec<(usize, usize)> = d.iter().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
    Paths { any: low_paths(g.n, &u), up: low_paths(g.n, &d), order: order.to_vec() }
}

fn permutation(order: &[u32], n: usize) -> Result<(), String> {
    let mut o = order.to_vec();
    o.sort_unstable();
    ensure!(o == (0..n as u32).collect::<Vec<_>>(), "order {:?} is not a permutation", order);
    Ok(())
}

fn structure(what: &str, g: &G, cch: &CCH, p: &Paths) -> Result<Vec<(u32, u32)>, String> {
    let n = g.n;
    ensure!(cch.node_order().order() == p.order, "{}: node order {:?} instead of {:?}", what, cch.node_order().order(), p.order);
    ensure!(cch.num_nodes() == n && cch.num_cch_nodes() == n && cch.num_arcs() == cch.head().len(), "{}: counts", what);
    let any = |a: usize, b: usize| p.any[a * n + b];
    let arcs = direction(what, g, &Fw(cch), &any, &p.order, true)?;
    direction(what, g, &Bw(cch), &any, &p.order, false)?;
    for v in 0..n {
        let r = cch.neighbor_edge_indices_usize(v as u32);
        ensure!(cch.degree(v as u32) == r.len() && cch.neighbor_iter(v as u32).eq(cch.head()[r.clone()].iter().copied()), "{}: neighbors of {}", what, v);
        ensure!(r.into_iter().all(|e| cch.edge_id_to_tail(e as u32) == v as u32), "{}: tails of {}", what, v);
        let parent = arcs.iter().filter(|x| x.0 == v as u32).map(|x| x.1).min();
        ensure!(cch.elimination_tree()[v].value() == parent, "{}: parent of {} is {:?} instead of {:?}", what, v, cch.elimination_tree()[v].value(), parent);
    }
    separators(n, cch.separators(), &|a, b| arcs.contains(&(a, b)))?;
    Ok(arcs)
}

fn by_node(arcs: &[(u32, u32)], order: &[u32]) -> Vec<(u32, u32)> {
    let mut v: Vec<_> = arcs.iter().map(|&(a, b)| (order[a as usize], order[b as usize])).map(|(a, b)| (a.min(b), a.max(b))).collect();
    v.sort_unstable();
    v
}

fn hierarchy(ctx: &mut Ctx, g: &G, order: &[u32]) -> Result<(), String> {
    ctx.state();
    let og = g.owned();
    let n = g.n;
    ctx.note(|| format!("order {:?}", order));
    let p = paths(g, order);
    let cch = contract(&og, NodeOrder::from_node_order(order.to_vec()));
    let arcs = structure("hierarchy", g, &cch, &p)?;
    ctx.outcome(&(&arcs, n));
    ctx.steps(1);
    // other layouts
    let fixed = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(order.to_vec()));
    let o2 = fixed.node_order().order().to_vec();
    permutation(&o2, n)?;
    let p2 = paths(g, &o2);
    let a2 = structure("fixed order", g, &fixed, &p2)?;
    ensure!(by_node(&a2, &o2) == by_node(&arcs, order), "order {:?} was fixed to {:?}, which changes the shortcuts", order, o2);
    fixed.separators().validate_for_parallelization();
    // only arcs which may be used
    let up = |a: usize, b: usize| p2.up[a * n + b];
    let down = |a: usize, b: usize| p2.up[b * n + a];
    let red = fixed.remove_always_infinity();
    let used = |a: usize, b: usize| up(a, b) || down(a, b);
    direction("reduced", g, &Fw(&red), &used, &o2, true)?;
    direction("reduced", g, &Bw(&red), &used, &o2, false)?;
    let dir = fixed.to_directed_cch();
    direction("directed upward", g, &Fw(&dir), &up, &o2, true)?;
    direction("directed downward", g, &Bw(&dir), &down, &o2, false)?;
    for c in [red.elimination_tree(), dir.elimination_tree()] {
        // ancestors have to contain everything that is reachable upwards
        for a in 0..n {
            let mut anc = vec![];
            let mut v = c[a].value();
            while let Some(x) = v {
                anc.push(x as usize);
                v = c[x as usize].value();
            }
            ensure!((0..n).all(|b| b <= a || !used(a, b) || anc.contains(&b)), "node {} has ancestors {:?}", a, anc);
        }
    }
    ensure!(red.node_order().order() == o2 && dir.node_order().order() == o2, "orders of reduced hierarchies");
    let bfs = reorder_bfs(&cch);
    permutation(bfs.order(), n)?;
    let pb = paths(g, bfs.order());
    let ab: Vec<(u32, u32)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).filter(|&(a, b)| pb.any[a * n + b]).map(|(a, b)| (a as u32, b as u32)).collect();
    ensure!(by_node(&ab, bfs.order()) == by_node(&arcs, order), "breadth first order {:?} of {:?} changes the shortcuts", bfs.order(), order);
    let lat: Vec<f32> = (0..n).map(|v| ((v * 7) % 5) as f32).collect();
    let lng: Vec<f32> = (0..n).map(|v| ((v * 3) % 4) as f32).collect();
    let geo = reorder(&cch, &lat, &lng);
    permutation(geo.order(), n)?;
    // cells stay below their separators
    fn below(t: &SeparatorTree, cch: &CCH, geo: &NodeOrder) -> bool {
        let sep: Vec<u32> = t.nodes.iter().map(|r| geo.rank(cch.node_order().node(r))).collect();
        t.children.iter().all(|c| {
            let mut v = vec![];
            collect(c, &mut v);
            v.iter().all(|&r| sep.iter().all(|&s| geo.rank(cch.node_order().node(r)) < s)) && below(c, cch, geo)
        })
    }
    ensure!(below(cch.separators(), &cch, &geo), "geographic order {:?} of {:?} moves cells above separators", geo.order(), order);
    Ok(())
}

fn main() {
    let mut r = Report::new("C27");
    let th = r.thorough();
    r.assume("arcs which are always closed are removed on orders fixed by the library, as its customization demands");
    r.assume("orders are permutations; coordinates are numbers");
    r.scenario("n0-n2", "n<=2, all multigraphs with up to 4 links (loops, parallel links), both orders", |ctx| {
        let n = 1 + ctx.pick(2);
        let g = all_multigraphs(ctx, n, 4, true, &[1]);
        let o = ctx.permutation(n);
        hierarchy(ctx, &g, &o)
    });
    r.scenario("n3", "n=3, all digraphs with loops; multigraphs with up to 4 links; all 6 orders", |ctx| {
        let g = if ctx.flag() { all_digraphs(ctx, 3, true, &[1]) } else { all_multigraphs(ctx, 3, 4, false, &[1]) };
        let o = ctx.permutation(3);
        hierarchy(ctx, &g, &o)
    });
    r.scenario("n4", "n=4, every topology, all 24 orders", |ctx| {
        let g = all_topologies(ctx, 4, w_one);
        let o = ctx.permutation(4);
        hierarchy(ctx, &g, &o)
    });
    r.scenario("n5", "n=5, every graph where each pair of nodes has no link, both directions, or one direction by position; all 120 orders", |ctx| {
        let mut e = vec![];
        let oneway = ctx.flag();
        for a in 0..5u32 {
            for b in a + 1..5 {
                if ctx.flag() {
                    if !oneway || (a + b) % 2 == 0 {
                        e.push((a, b, 1));
                    }
                    if !oneway || (a + b) % 2 == 1 {
                        e.push((b, a, 1));
                    }
                }
            }
        }
        let g = G::from_edges(5, &e);
        ctx.note(|| format!("graph {:?}", g.edges()));
        let o = ctx.permutation(5);
        hierarchy(ctx, &g, &o)
    });
    r.scenario("n6", "n=6, every undirected graph, 12 (all 720) orders", |ctx| {
        let g = all_undirected(ctx, 6, w_one);
        let o = if th { ctx.permutation(6) } else { orders_of(6, ctx.pick(12)) };
        hierarchy(ctx, &g, &o)
    });
    r.scenario("families", "paths, cycles, stars, grids, complete and road graphs with up to 25 nodes, with some links twice and loops or without, 12 orders and nested dissection", |ctx| {
        let g = match ctx.pick(9) {
            0 => path_graph(17, w_mix),
            1 => cycle_graph(16, w_mix),
            2 => star_graph(12, w_mix),
            3 => grid_graph(4, 5, w_mix),
            4 => grid_graph(5, 5, w_mix),
            5 => complete_graph(7, w_mix),
            6 => complete_graph(12, w_mix),
            k => road_graph(4, 5, k as u64, 9),
        };
        let g = match ctx.pick(3) {
            0 => g,
            // some links twice, with another weight, and some loops
            k => {
                let mut e = g.edges();
                for i in 0..e.len() {
                    if (i + k) % 3 < k {
                        let (a, b, w) = e[i];
                        e.push((a, b, w + 1 - i as u32 % 2));
                    }
                }
                for v in (k as u32..g.n as u32).step_by(5) {
                    e.push((v, v, v % 2));
                }
                G::from_edges(g.n, &e)
            }
        };
        let k = ctx.pick(13);
        let o = if k == 12 { nd_order(&g) } else { orders_of(g.n, k) };
        ctx.note(|| format!("graph {:?} order {:?}", g.edges(), o));
        hierarchy(ctx, &g, &o)
    });
    r.scenario("forests", "two or three components of every pair of 6 kinds, isolated nodes, 12 orders", |ctx| {
        let kind = |k: usize| match k {
            0 => path_graph(1, w_one),
            1 => path_graph(4, w_one),
            2 => cycle_graph(5, w_one),
            3 => star_graph(5, w_one),
            4 => complete_graph(4, w_one),
            _ => grid_graph(2, 3, w_one),
        };
        let mut e = vec![];
        let mut n = 0;
        for _ in 0..2 + ctx.pick(2) {
            let c = kind(ctx.pick(6));
            e.extend(c.edges().iter().map(|x| (x.0 + n, x.1 + n, 1)));
            n += c.n as u32;
        }
        let g = G::from_edges(n as usize, &e);
        let o = orders_of(g.n, ctx.pick(12));
        ctx.note(|| format!("graph {:?} order {:?}", g.edges(), o));
        hierarchy(ctx, &g, &o)
    });
    let _ = INF;
    r.finish()
}
