//! C17: traffic aware routing. Subpaths that are too long for the usual travel times are found exactly, and queries
//! return the best path under current traffic without such subpaths.
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::customization::ftd_for_pot;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::{generic_dijkstra::*, *};
use rust_road_router::algo::minimal_nonshortest_subpaths::*;
use rust_road_router::algo::td_astar::TRange;
use rust_road_router::algo::traffic_aware::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;
use rust_road_router::verif_atomic::take_paths;
use std::ops::Range;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::td::*;
use vharness::*;

type Label = (u32, ActiveForbittenPaths, (NodeIdT, ActiveForbittenPaths));

/// all simple paths with at least two nodes
fn simple_paths(g: &G) -> Vec<Vec<u32>> {
    fn extend(g: &G, p: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if p.len() > 1 {
            out.push(p.clone());
        }
        let mut next: Vec<u32> = g.out(*p.last().unwrap() as usize).map(|e| g.head[e]).collect();
        next.dedup();
        for h in next {
            if !p.contains(&h) {
                p.push(h);
                extend(g, p, out);
                p.pop();
            }
        }
    }
    let mut out = vec![];
    for v in 0..g.n as u32 {
        extend(g, &mut vec![v], &mut out);
    }
    out
}

/// walks of `k` nodes at most in which some node comes again
fn cyclic_walks(g: &G, k: usize) -> Vec<Vec<u32>> {
    fn extend(g: &G, k: usize, p: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if (1..p.len()).any(|i| p[..i].contains(&p[i])) {
            out.push(p.clone());
        }
        if p.len() == k {
            return;
        }
        let mut next: Vec<u32> = g.out(*p.last().unwrap() as usize).map(|e| g.head[e]).collect();
        next.dedup();
        for h in next {
            if Some(&h) != p.last() {
                p.push(h);
                extend(g, k, p, out);
                p.pop();
            }
        }
    }
    let mut out = vec![];
    for v in 0..g.n as u32 {
        extend(g, k, &mut vec![v], &mut out);
    }
    out
}

fn min_weight(g: &G, a: u32, b: u32) -> u32 {
    g.out(a as usize).filter(|&e| g.head[e] == b).map(|e| g.weight[e]).min().unwrap_or(INF)
}

fn dists_on(g: &G, p: &[u32]) -> Vec<u32> {
    let mut d = vec![0];
    for w in p.windows(2) {
        d.push(d.last().unwrap() + min_weight(g, w[0], w[1]));
    }
    d
}

fn too_long(path: u32, shortest: u32, eps: f64) -> bool {
    path - shortest > (shortest as f64 * eps) as u32
}

/// minimal ranges of the path which are too long
fn violations(g: &G, d: &[Vec<u32>], p: &[u32], eps: f64) -> Vec<Range<usize>> {
    let on = dists_on(g, p);
    let mut all = vec![];
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            if too_long(on[j] - on[i], d[p[i] as usize][p[j] as usize], eps) {
                all.push(i..j);
            }
        }
    }
    let mut min: Vec<Range<usize>> = all.iter().filter(|a| !all.iter().any(|b| b != *a && b.start >= a.start && b.end <= a.end)).cloned().collect();
    min.sort_by_key(|r| (r.start, r.end));
    min
}

fn sorted(mut r: Vec<Range<usize>>) -> Vec<Range<usize>> {
    r.sort_by_key(|r| (r.start, r.end));
    r
}

/// the checkers on all simple paths
fn subpaths(ctx: &mut Ctx, g: &G, order: usize, eps: &[f64]) -> Result<(), String> {
    let og = g.owned();
    let d = dist_matrix(g);
    let bg = || BorrowedGraph::new(og.first_out(), og.head(), og.weight());
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(orders_of(g.n, order)));
    let pot = CCHPotData::new(&cch, &og);
    let mut tree = MinimalNonShortestSubPaths::new(&pot, bg());
    let mut sse = MinimalNonShortestSubPathsSSERphast::new(&pot, bg());
    let mut dij = MinimalNonShortestSubPathsDijkstra::new(bg());
    ctx.state();
    let paths = simple_paths(g);
    ctx.outcome(&g.edges());
    let walks = cyclic_walks(g, if g.n < 4 { 5 } else { 4 });
    let per_path = (walks.len() + paths.len().max(1) - 1) / paths.len().max(1);
    for (i, p) in paths.iter().enumerate() {
        // some walks with cycles in between: these are found, nothing of them stays
        for w in walks.iter().skip(i * per_path).take(per_path) {
            ctx.steps(4);
            let want: Vec<Range<usize>> = sorted((1..w.len()).filter_map(|j| (0..j).rev().find(|&i| w[i] == w[j]).map(|i| i..j)).collect());
            for (name, got) in [
                ("naive", tree.find_ubs_violating_subpaths_lazy_rphast_naive(w, eps[0])),
                ("RPHAST", sse.find_ubs_violating_subpaths_sse_rphast(w, eps[0])),
                ("trees", tree.find_ubs_violating_subpaths(w, eps[0])),
                ("Dijkstra trees", dij.find_ubs_violating_subpaths(w, eps[0])),
            ] {
                let got = sorted(got);
                ensure!(got == want, "{}: walk {:?}: cycles {:?} instead of {:?}", name, w, got, want);
            }
            let fixed = tree.fix_violating_subpaths(w, eps[0]);
            match fixed {
                Ok(Some(f)) => {
                    ensure!(f.first() == w.first() && f.last() == w.last(), "walk {:?} fixed to {:?}", w, f);
                    ensure!(f.windows(2).all(|x| min_weight(g, x[0], x[1]) < INF), "walk {:?} fixed to {:?}, which is not a path", w, f);
                    let v = violations(g, &d, &f, eps[0]);
                    ensure!(v.is_empty(), "walk {:?} with epsilon {} fixed to {:?}, where {:?} violate", w, eps[0], f, v);
                }
                x => return Err(format!("walk {:?}: fixing ended with {:?}", w, x)),
            }
        }
        let on = dists_on(g, p);
        for &e in eps {
            ctx.steps(4);
            let want = violations(g, &d, p, e);
            let show = |name: &str, got: &Vec<Range<usize>>| format!("{}: path {:?} with epsilon {}: {:?} instead of {:?}", name, p, e, got, want);
            let got = sorted(tree.find_ubs_violating_subpaths_lazy_rphast_naive(p, e));
            ensure!(got == want, "{}", show("naive", &got));
            let got = sorted(sse.find_ubs_violating_subpaths_sse_rphast(p, e));
            ensure!(got == want, "{}", show("RPHAST", &got));
            for (name, got) in [("trees", tree.find_ubs_violating_subpaths(p, e)), ("Dijkstra trees", dij.find_ubs_violating_subpaths(p, e))] {
                let got = sorted(got);
                ensure!(got == want, "{}", show(name, &got));
            }
            // fixing
            ctx.step();
            let fixed = tree.fix_violating_subpaths(p, e);
            match fixed {
                Ok(None) => ensure!(want.is_empty(), "path {:?} with epsilon {}: nothing was fixed, {:?} violate", p, e, want),
                Ok(Some(f)) => {
                    ensure!(!want.is_empty(), "path {:?} with epsilon {}: fixed to {:?} without need", p, e, f);
                    ensure!(f.first() == p.first() && f.last() == p.last(), "path {:?} fixed to {:?}", p, f);
                    ensure!(f.windows(2).all(|w| min_weight(g, w[0], w[1]) < INF), "path {:?} fixed to {:?}, which is not a path", p, f);
                    let mut s = f.clone();
                    s.sort_unstable();
                    s.dedup();
                    ensure!(s.len() == f.len(), "path {:?} fixed to {:?} with a cycle", p, f);
                    let v = violations(g, &d, &f, e);
                    ensure!(v.is_empty(), "path {:?} with epsilon {} fixed to {:?}, where {:?} violate", p, e, f, v);
                }
                Err(f) => return Err(format!("path {:?}: gave up fixing at {:?}", p, f)),
            }
        }
        // statistics
        ctx.steps(2);
        let total = *on.last().unwrap();
        let (mut local, mut stretch) = (total, 1.0f64);
        for i in 0..p.len() {
            for j in i + 1..p.len() {
                let (a, b) = (on[j] - on[i], d[p[i] as usize][p[j] as usize]);
                if a != b {
                    local = local.min(a);
                    stretch = stretch.max(a as f64 / b as f64);
                }
            }
        }
        let got = tree.local_optimality(p);
        ensure!((got - local as f64 / total as f64).abs() < 1e-9, "path {:?}: local optimality {} instead of {}/{}", p, got, local, total);
        let (got_local, got_stretch) = tree.suboptimal_stats(p);
        ensure!((got_local - local as f64 / total as f64).abs() < 1e-9, "path {:?}: local optimality {} instead of {}/{} (statistics)", p, got_local, local, total);
        ensure!((got_stretch - stretch).abs() < 1e-9, "path {:?}: stretch {} instead of {}", p, got_stretch, stretch);
    }
    Ok(())
}

/// length of a shortest walk from `from` to `to` that contains none of the forbidden node sequences
fn shortest_avoiding(g: &G, forbidden: &[Vec<u32>], from: usize, to: usize) -> u32 {
    // state: the last nodes, as many as the longest forbidden path has minus one
    let k = forbidden.iter().map(|f| f.len() - 1).max().unwrap_or(1);
    let mut best: std::collections::BTreeMap<Vec<u32>, u32> = Default::default();
    let mut queue: std::collections::BTreeSet<(u32, Vec<u32>)> = Default::default();
    queue.insert((0, vec![from as u32]));
    best.insert(vec![from as u32], 0);
    while let Some((d, st)) = queue.pop_first() {
        if best[&st] < d {
            continue;
        }
        let v = *st.last().unwrap();
        if v as usize == to {
            return d;
        }
        for e in g.out(v as usize) {
            let mut n = st.clone();
            n.push(g.head[e]);
            if forbidden.iter().any(|f| n.ends_with(f)) {
                continue;
            }
            if n.len() > k {
                n.remove(0);
            }
            let nd = d + g.weight[e];
            if best.get(&n).map_or(true, |&b| nd < b) {
                best.insert(n.clone(), nd);
                queue.insert((nd, n));
            }
        }
    }
    INF
}

struct Blocked<'a> {
    g: &'a G,
    og: OwnedGraph,
    data: DijkstraData<Label, (), MultiCritNodeData<Label>>,
    ops: BlockedPathsDijkstra<DefaultOpsByEdgeId>,
}

impl<'a> Blocked<'a> {
    fn new(g: &'a G) -> Self {
        Blocked { g, og: g.owned(), data: DijkstraData::new(g.n), ops: BlockedPathsDijkstra::new(g.n, g.m(), DefaultOpsByEdgeId()) }
    }

    fn run(&mut self, from: u32, to: u32, pot: &[u32]) -> u32 {
        let none = || ActiveForbittenPaths::One(0);
        let pot = |v: NodeId| if pot[v as usize] < INF { Some(pot[v as usize]) } else { None };
        let mut run = MultiCritDijkstraRun::query(
            &self.og,
            &mut self.data,
            &mut self.ops,
            DijkstraInit { source: NodeIdT(from), initial_state: (0, none(), (NodeIdT(from), none())) },
            pot,
        );
        while let Some(v) = run.next_step_with_potential(pot) {
            if v == to {
                break;
            }
        }
        self.data.distances[to as usize].popped().first().map_or(INF, |l| l.0 .0)
    }

    /// all pairs, with and without potentials
    fn check(&mut self, ctx: &mut Ctx, forbidden: &[Vec<u32>], d: &[Vec<u32>]) -> Result<(), String> {
        let n = self.g.n;
        for to in 0..n {
            for from in 0..n {
                let want = shortest_avoiding(self.g, forbidden, from, to);
                for goal_directed in [false, true] {
                    ctx.step();
                    let pot: Vec<u32> = if goal_directed { (0..n).map(|v| d[v][to]).collect() } else { vec![0; n] };
                    let got = self.run(from as u32, to as u32, &pot);
                    ensure!(got == want, "{}->{} without {:?}: {} instead of {}", from, to, forbidden, got, want);
                }
            }
        }
        Ok(())
    }
}

/// paths and walks of 2 to 4 nodes
fn walks(g: &G, max: usize) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![];
    let mut level: Vec<Vec<u32>> = (0..g.n as u32).map(|v| vec![v]).collect();
    for _ in 1..max {
        let mut next = vec![];
        for p in &level {
            let mut h: Vec<u32> = g.out(*p.last().unwrap() as usize).map(|e| g.head[e]).collect();
            h.dedup();
            for h in h {
                let mut q = p.clone();
                q.push(h);
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

fn contains(p: &[u32], q: &[u32]) -> bool {
    p.windows(q.len()).any(|w| w == q)
}

/// sequences of forbidden paths, the search is correct after each; also after a reset
fn blocked(ctx: &mut Ctx, g: &G, len: usize, depth: usize) -> Result<(), String> {
    let d = dist_matrix(g);
    let mut b = Blocked::new(g);
    let all = walks(g, len);
    ctx.state();
    if all.is_empty() {
        return Ok(());
    }
    let mut forbidden: Vec<Vec<u32>> = vec![];
    for _ in 0..depth {
        // only paths which are still possible are forbidden
        let left: Vec<&Vec<u32>> = all.iter().filter(|p| !forbidden.iter().any(|f| contains(p, f))).collect();
        if left.is_empty() {
            break;
        }
        let p = left[ctx.pick(left.len())].clone();
        b.ops.add_forbidden_path(&p, &b.og);
        forbidden.push(p);
    }
    ctx.note(|| format!("forbidden: {:?}", forbidden));
    ctx.outcome(&(g.edges(), &forbidden));
    b.check(ctx, &forbidden, &d)?;
    b.ops.reset(&b.og);
    b.check(ctx, &[], &d)?;
    let again: Vec<Vec<u32>> = forbidden.last().into_iter().cloned().collect();
    for p in &again {
        b.ops.add_forbidden_path(p, &b.og);
    }
    b.check(ctx, &again, &d)
}

/// more forbidden paths through one node than fit into a word
fn many_blocked(ctx: &mut Ctx, k: usize) -> Result<(), String> {
    // sources -> center -> targets, all pairs but one forbidden; and paths through the center which start before
    let mut e = vec![];
    let n = 2 * k + 1;
    let c = (2 * k) as u32;
    for i in 0..k as u32 {
        e.push((i, c, 1 + i % 3));
        e.push((c, k as u32 + i, 1 + i % 2));
        e.push((k as u32 + i, (i + 1) % k as u32, 1));
    }
    let g = G::from_edges(n, &e);
    let d = dist_matrix(&g);
    let mut b = Blocked::new(&g);
    let (a, t) = (ctx.pick(k) as u32, ctx.pick(k) as u32);
    let mut forbidden = vec![];
    for i in 0..k as u32 {
        for j in 0..k as u32 {
            if (i, j) != (a, t) {
                let p = vec![i, c, k as u32 + j];
                b.ops.add_forbidden_path(&p, &b.og);
                forbidden.push(p);
            }
        }
    }
    ctx.state();
    ctx.outcome(&(a, t));
    for (from, to) in [(a, k as u32 + t), ((a + 1) % k as u32, k as u32 + t), (a, k as u32 + (t + 1) % k as u32), (c, k as u32 + t), (k as u32, c), (k as u32, k as u32 + t)] {
        let want = shortest_avoiding(&g, &forbidden, from as usize, to as usize);
        let pot: Vec<u32> = (0..n).map(|v| d[v][to as usize]).collect();
        ctx.step();
        let got = b.run(from, to, &pot);
        ensure!(got == want, "{}->{} with {} forbidden paths, all but {:?}: {} instead of {}", from, to, forbidden.len(), (a, t), got, want);
    }
    Ok(())
}

/// best simple path without violations
fn best(smooth: &G, d: &[Vec<u32>], paths: &[Vec<u32>], from: u32, to: u32, eps: f64, cost: &dyn Fn(&[u32]) -> u32) -> u32 {
    paths
        .iter()
        .filter(|p| p[0] == from && *p.last().unwrap() == to)
        .map(|p| (cost(p), p))
        .filter(|(c, p)| *c < INF && violations(smooth, d, p, eps).is_empty())
        .map(|x| x.0)
        .min()
        .unwrap_or(INF)
}

/// what an exact server answered: the last path it considered is the best one
#[allow(clippy::too_many_arguments)]
fn check_exact(
    ctx: &mut Ctx,
    name: &str,
    smooth: &G,
    d: &[Vec<u32>],
    paths: &[Vec<u32>],
    from: u32,
    to: u32,
    eps: f64,
    cost: &dyn Fn(&[u32]) -> u32,
    found: Option<()>,
) -> Result<(), String> {
    let considered = take_paths();
    ctx.step();
    ctx.count("paths considered", considered.len() as u64);
    let want = if from == to { 0 } else { best(smooth, d, paths, from, to, eps, cost) };
    ensure!(found.is_some() == (want < INF), "{}: {}->{} with epsilon {}: found {:?}, best is {}", name, from, to, eps, found, want);
    if found.is_some() {
        let p = considered.last().unwrap();
        ensure!(p[0] == from && *p.last().unwrap() == to, "{}: {}->{}: path {:?}", name, from, to, p);
        let v = violations(smooth, d, p, eps);
        ensure!(v.is_empty(), "{}: {}->{} with epsilon {}: {:?} violate in {:?}", name, from, to, eps, v, p);
        let c = cost(p);
        ensure!(c == want, "{}: {}->{} with epsilon {}: path {:?} of length {}, best is {}", name, from, to, eps, p, c, want);
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_heuristic(
    ctx: &mut Ctx,
    name: &str,
    smooth: &G,
    d: &[Vec<u32>],
    reachable: bool,
    shortest: u32,
    from: u32,
    to: u32,
    eps: f64,
    cost: &dyn Fn(&[u32]) -> u32,
    found: Option<()>,
    seen: &[Vec<u32>],
) -> Result<(), String> {
    ctx.step();
    ensure!(reachable || found.is_none(), "{}: {}->{} found although there is no path", name, from, to);
    ensure!(reachable != seen.is_empty(), "{}: {}->{}: {} paths", name, from, to, seen.len());
    for (i, p) in seen.iter().enumerate() {
        ensure!(p[0] == from && *p.last().unwrap() == to, "{}: {}->{}: path {:?}", name, from, to, p);
        let c = cost(p);
        ensure!(c < INF, "{}: {}->{}: path {:?} uses missing links", name, from, to, p);
        ensure!(i > 0 || c == shortest, "{}: {}->{}: first path {:?} of length {}, shortest is {}", name, from, to, p, c, shortest);
        ensure!(c >= shortest, "{}: {}->{}: path {:?} of length {}, shortest is {}", name, from, to, p, c, shortest);
        ensure!(!seen[..i].contains(p), "{}: {}->{} with epsilon {}: path {:?} again", name, from, to, eps, p);
    }
    if found.is_some() {
        let p = seen.last().unwrap();
        let v = violations(smooth, d, p, eps);
        ensure!(v.is_empty(), "{}: {}->{} with epsilon {}: {:?} violate in {:?}", name, from, to, eps, v, p);
    }
    Ok(())
}

/// servers for traffic that does not change over time
fn servers(ctx: &mut Ctx, smooth: &G, live: &G, order: usize, eps: &[f64]) -> Result<(), String> {
    let (so, lo) = (smooth.owned(), live.owned());
    let (sg, lg) = (|| BorrowedGraph::new(so.first_out(), so.head(), so.weight()), || BorrowedGraph::new(lo.first_out(), lo.head(), lo.weight()));
    let (d, dl) = (dist_matrix(smooth), dist_matrix(live));
    let paths = simple_paths(live);
    let cch = CCH::fix_order_and_build(&so, NodeOrder::from_node_order(orders_of(smooth.n, order)));
    let (sp, lp) = (CCHPotData::new(&cch, &so), CCHPotData::new(&cch, &lo));
    ctx.state();
    ctx.note(|| format!("traffic {:?}", live.weight));
    ctx.outcome(&(smooth.edges(), live.weight.clone()));
    let cost = |p: &[u32]| *dists_on(live, p).last().unwrap();
    let mut exact = TrafficAwareServer::new(sg(), lg(), &sp, &lp);
    let mut heur = HeuristicTrafficAwareServer::new(sg(), lg(), &sp, &lp);
    let mut fixing = IterativePathFixing::new(sg(), lg(), &sp, &lp);
    let mut base = SmoothPathBaseline::new(sg(), lg(), &sp, &lp);
    let n = smooth.n as u32;
    take_paths();
    for from in 0..n {
        for to in 0..n {
            let reachable = dl[from as usize][to as usize] < INF;
            for &e in eps {
                let found = exact.query(Query { from, to }, e);
                check_exact(ctx, "exact", smooth, &d, &paths, from, to, e, &cost, found)?;
                let mut seen = vec![];
                let found = heur.query(Query { from, to }, e, |p| seen.push(p.to_vec()));
                check_heuristic(ctx, "heuristic", smooth, &d, reachable, dl[from as usize][to as usize], from, to, e, &cost, found, &seen)?;
                ctx.step();
                ensure!(fixing.query(Query { from, to }, e).is_some() == reachable, "fixing {}->{}", from, to);
            }
            ctx.step();
            ensure!(base.query(Query { from, to }).is_some() == reachable, "baseline {}->{}", from, to);
        }
    }
    Ok(())
}

fn time_ranges() -> Vec<TRange<u32>> {
    let r = |s: u32, e: u32| TRange { start: s, end: e };
    vec![r(0, P), r(6 * H, 12 * H), r(11 * H, 13 * H), r(12 * H - 1, 13 * H), r(22 * H, P)]
}

const H: u32 = 3_600_000;

/// servers for predicted and live traffic. The links of `g` name the functions of `pool`, `smooth` are usual travel times.
fn td_servers(ctx: &mut Ctx, g: &G, smooth: &G, pool: &[Plf], deps: &[u32], eps: &[f64], live: bool, tag: &str) -> Result<(), String> {
    use rust_road_router::algo::traffic_aware::{td_live, td_traffic_pots, time_dependent as td_aware};
    let td = td_graph(g, pool);
    let fl = float_graph(g, pool);
    let so = smooth.owned();
    let sg = || BorrowedGraph::new(so.first_out(), so.head(), so.weight());
    let d = dist_matrix(smooth);
    let paths = simple_paths(g);
    let cch = CCH::fix_order_and_build(&td, NodeOrder::from_node_order(orders_of(g.n, 1)));
    if cch.num_arcs() == 0 {
        return Ok(());
    }
    let sp = CCHPotData::new(&cch, &so);
    let lower: Vec<u32> = (0..g.m()).map(|e| pool[g.weight[e] as usize].min()).collect();
    let lp = CCHPotData::new(&cch, &BorrowedGraph::new(td.first_out(), td.head(), &lower));
    ctx.state();
    ctx.outcome(&(g.edges(), live));
    let n = g.n as u32;
    take_paths();
    for &dep in deps {
        let lives: Vec<_> = (0..g.m())
            .map(|e| match (e as u32 + dep / H) % 3 {
                0 => InRangeOption::NONE,
                1 => InRangeOption::some((2_000_000, dep + 2 * H)),
                _ => InRangeOption::some((INF, dep + H)),
            })
            .collect();
        let lg = PessimisticLiveTDGraph::new(td.clone(), lives);
        let f = |e: usize, t: u32| if live { lg.eval(e as u32, t) } else { td.travel_time_function(e as u32).eval(t) };
        let cost = |p: &[u32]| {
            let mut t = dep;
            for w in p.windows(2) {
                match g.out(w[0] as usize).filter(|&e| g.head[e] == w[1]).map(|e| f(e, t)).min() {
                    Some(c) if c < INF => t += c,
                    _ => return INF,
                }
            }
            t - dep
        };
        macro_rules! run {
            ($name:expr, $exact:expr, $heur:expr, $fix:expr, $base:expr) => {
                let (mut exact, mut heur, mut fixing, mut base) = ($exact, $heur, $fix, $base);
                for from in 0..n {
                    let arrival = earliest_arrival(g, &f, from as usize, dep);
                    for to in 0..n {
                        let reachable = arrival[to as usize] < INF as u64;
                        let q = TDQuery { from, to, departure: dep };
                        for &e in eps {
                            let found = exact.query(q, e);
                            check_exact(ctx, $name, smooth, &d, &paths, from, to, e, &cost, found)?;
                            let mut seen = vec![];
                            let found = guarded(|| heur.query(q, e, |p| seen.push(p.to_vec())));
                            let shortest = if reachable { (arrival[to as usize] - dep as u64) as u32 } else { INF };
                            // the search for the fastest path leaves the core too early (see DESIGN.md), only listed inputs may show it
                            if seen.first().map_or(false, |p| p[0] == from && *p.last().unwrap() == to && cost(p) < INF && cost(p) > shortest) {
                                let key = format!("{}/{}/{}-{}@{}", tag, $name, from, to, dep).replace(' ', "_");
                                ctx.finding(&key, format!("detour blocking starts with {:?} of length {}, shortest is {}", seen[0], cost(&seen[0]), shortest));
                                continue;
                            }
                            let found = found.map_err(|m| format!("{}: heuristic {}->{} with epsilon {}: {}", $name, from, to, e, m))?;
                            check_heuristic(ctx, $name, smooth, &d, reachable, shortest, from, to, e, &cost, found, &seen)?;
                            ctx.step();
                            ensure!(fixing.query(q, e).is_some() == reachable, "{}: fixing {}->{}", $name, from, to);
                        }
                        ctx.step();
                        ensure!(base.query(q).is_some() == reachable, "{}: baseline {}->{}", $name, from, to);
                    }
                }
            };
        }
        let data = || ftd_for_pot::customize::<24>(&cch, &fl);
        if live {
            macro_rules! all {
                ($name:expr, $p:expr) => {
                    run!(
                        $name,
                        td_live::TDTrafficAwareServer::new(sg(), &lg, &sp, $p),
                        td_live::HeuristicTDTrafficAwareServer::new(sg(), &lg, &sp, $p),
                        td_live::IterativePathFixing::new(sg(), &lg, &sp, $p),
                        td_live::SmoothPathBaseline::new(sg(), &lg, &sp, $p)
                    );
                };
            }
            match ctx.pick(2) {
                0 => {
                    all!("live, CCH potential", lp.forward_potential());
                }
                _ => {
                    all!("live, interval minimum potential", td_traffic_pots::IntervalMinPotential::new_for_simple_live(&cch, data(), &lg, dep, sg()));
                }
            }
        } else {
            macro_rules! all {
                ($name:expr, $p:expr) => {
                    run!(
                        $name,
                        td_aware::TDTrafficAwareServer::new(sg(), &td, &sp, $p),
                        td_aware::HeuristicTDTrafficAwareServer::new(sg(), &td, &sp, $p),
                        td_aware::IterativePathFixing::new(sg(), &td, &sp, $p),
                        td_aware::SmoothPathBaseline::new(sg(), &td, &sp, $p)
                    );
                };
            }
            match ctx.pick(4) {
                0 => {
                    all!("CCH potential", lp.forward_potential());
                }
                1 => {
                    all!("multi metric potential", td_traffic_pots::MultiMetric::new(td_traffic_pots::MultiMetricPreprocessed::new(&cch, time_ranges(), &td, &sg(), None), &td));
                }
                2 => {
                    all!("reduced multi metric potential", td_traffic_pots::MultiMetric::new(td_traffic_pots::MultiMetricPreprocessed::new(&cch, time_ranges(), &td, &sg(), Some(2)), &td));
                }
                _ => {
                    all!("interval minimum potential", td_traffic_pots::IntervalMinPotential::new(&cch, data(), sg(), &td));
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C17");
    r.assume("weights are positive");
    let th = r.thorough();
    let eps: &[f64] = &[0.0, 0.3, 1.0];
    r.scenario("subpaths-n3", "all digraphs with 3 nodes and weights 1, 2, 5 or none, all simple paths and walks of 5 nodes with cycles, 3 tolerances", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[1, 2, 5]);
        subpaths(ctx, &g, 0, eps)
    });
    r.scenario("subpaths-line", "a path of 5 nodes with links of 1 or 3, all sets of shortcuts of length 1 or 2, all simple paths", |ctx| {
        let mut e = vec![];
        for a in 0..5u32 {
            for b in a + 1..5 {
                if b == a + 1 {
                    e.push((a, b, ctx.pick_from(&[1, 3])));
                } else if let Some(w) = ctx.pick_from(&[None, Some(1), Some(2)]) {
                    e.push((a, b, w));
                }
            }
        }
        let g = G::from_edges(5, &e);
        subpaths(ctx, &g, 1, eps)
    });
    r.scenario("subpaths-n4", "all topologies with 4 nodes with mixed weights, all simple paths and walks of 4 nodes with cycles", |ctx| {
        let k = ctx.pick(if th { 6 } else { 2 });
        let g = all_topologies(ctx, 4, |a, b| [1, 4, 2, 7, 3][(a * 3 + b * 2 + k * (a + 1)) % 5]);
        subpaths(ctx, &g, k % 3, eps)
    });
    r.scenario("subpaths-road", "road networks with 9 nodes, all simple paths", |ctx| {
        let seed = ctx.pick(if th { 4000 } else { 400 }) as u64;
        let g = road_graph(3, 3, seed, 9);
        subpaths(ctx, &g, 1, eps)
    });
    r.scenario("blocked-n3", "all topologies with 3 nodes, all sequences of 2 forbidden paths of 2 to 4 nodes, all pairs", |ctx| {
        let g = all_topologies(ctx, 3, |a, b| 1 + ((a * 2 + b) % 3) as u32);
        blocked(ctx, &g, 4, if th { 3 } else { 2 })
    });
    r.scenario("blocked-n4", "undirected and directed graphs with 4 nodes, all sequences of 2 forbidden paths", |ctx| {
        let g = if ctx.flag() { complete_graph(4, |a, b| [1, 4, 2, 7, 3][(a * 3 + b * 2) % 5]) } else { cycle_graph(4, |a, b| 1 + ((a + b) % 3) as u32) };
        blocked(ctx, &g, 4, 2)
    });
    r.scenario("blocked-many", "144 forbidden paths through one node, all but each", |ctx| many_blocked(ctx, 12));
    r.scenario("servers-n4", "all topologies with 4 nodes, one usual metric, traffic on every set of up to 12 links out of 4 patterns", |ctx| {
        let k = ctx.pick(if th { 8 } else { 2 });
        let smooth = all_topologies(ctx, 4, |a, b| [1, 4, 2, 7, 3][(a * 3 + b * 2) % 5]);
        let w = (0..smooth.m()).map(|e| smooth.weight[e] + [0, 5, 2, 9, 1][(e * (k + 1) + k) % 5]).collect();
        let live = smooth.with_weights(w);
        servers(ctx, &smooth, &live, k % 3, &[0.0, 0.5])
    });
    r.scenario("servers-complete", "the complete graph with 4 nodes, usual travel times 2, each link with or without a jam (2^12)", |ctx| {
        let smooth = complete_graph(4, |a, b| [2, 3, 3, 4, 5][(a + b * 2) % 5]);
        let w = (0..smooth.m()).map(|e| if ctx.flag() { smooth.weight[e] + 4 } else { smooth.weight[e] }).collect();
        let live = smooth.with_weights(w);
        servers(ctx, &smooth, &live, 1, &[0.0, 0.4])
    });
    r.scenario("servers-road", "road networks with 9 nodes and traffic", |ctx| {
        let seed = ctx.pick(if th { 20000 } else { 1500 }) as u64;
        let smooth = road_graph(3, 3, seed, 9);
        let other = road_graph(3, 3, seed + 1000, 40);
        let w = (0..smooth.m()).map(|e| smooth.weight[e].max(other.weight[e % other.m()])).collect();
        let live = smooth.with_weights(w);
        servers(ctx, &smooth, &live, 1, &[0.0, 0.2])
    });
    let ints = int_pool();
    let ints = &ints;
    let hours = vec![
        Plf(vec![(0, H)]),
        Plf(vec![(0, 3 * H), (6 * H, 3 * H), (9 * H, H / 10)]),
        Plf(vec![(0, H / 10), (7 * H, H / 10), (8 * H, 2 * H), (10 * H, H / 10)]),
        Plf(vec![(0, H / 2), (9 * H, H / 2), (9 * H + H / 2, 4 * H), (14 * H, H / 2)]),
    ];
    for live in [false, true] {
        let name = if live { "td-live-n3" } else { "td-n3" };
        r.scenario(name, "all topologies with 3 nodes, functions of a pool, 4 potentials", |ctx| {
            let k = ctx.pick(if th { ints.len() } else { 3 });
            let g = all_topologies(ctx, 3, |a, b| ((a * 2 + b * 3 + k) % ints.len()) as u32);
            let smooth = g.with_weights((0..g.m()).map(|e| ints[g.weight[e] as usize].min() + 1_000).collect());
            td_servers(ctx, &g, &smooth, ints, &[0, 9 * H, P / 2 - 1_000_000], &[0.0, 0.3], live, &format!("n3/{}/{:?}", k, g.head))
        });
        let hours = &hours;
        let name = if live { "td-live-hours" } else { "td-hours" };
        r.scenario(name, "road networks with 4 and 6 nodes, travel times between a few minutes and hours, 4 potentials", |ctx| {
            // (the seeds above 150 are those of the known findings)
            let known = [175, 243, 345, 369, 373, 549, 855, 1359, 1563, 1717, 2509];
            let seed = if th { ctx.pick(3000) } else { let k = ctx.pick(150 + known.len()); if k < 150 { k } else { known[k - 150] } } as u64;
            let g = road_graph(2, 2 + (seed % 2) as usize, seed, 1000);
            let g = g.with_weights(g.weight.iter().map(|w| w % hours.len() as u32).collect());
            let smooth = g.with_weights((0..g.m()).map(|e| hours[g.weight[e] as usize].min() / 2 + 600_000 * ((e as u32 + seed as u32 / 7) % 5)).collect());
            td_servers(ctx, &g, &smooth, hours, &[5 * H, 7 * H, 9 * H], &[0.0, 0.3], live, &format!("hours/{}", seed))
        });
        let name = if live { "td-live-road" } else { "td-road" };
        r.scenario(name, "road networks with 9 nodes, functions of a pool, 4 potentials", |ctx| {
            let seed = ctx.pick(if th { 2000 } else { 100 }) as u64;
            let g = road_graph(3, 3, seed, 1000);
            let g = g.with_weights(g.weight.iter().map(|w| w % ints.len() as u32).collect());
            let smooth = g.with_weights((0..g.m()).map(|e| ints[g.weight[e] as usize].min() + 1_000 * (e as u32 % 7)).collect());
            td_servers(ctx, &g, &smooth, ints, &[9 * H, P / 2 - 1_000_000], &[0.0, 0.3], live, &format!("road/{}", seed))
        });
    }
    r.finish()
}
