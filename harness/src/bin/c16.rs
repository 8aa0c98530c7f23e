//! C16: time-dependent sampling (TD-S) answers with real paths: never faster than the optimum, never slower than any
//! of the paths which are shortest for one of its time windows (exactly the fastest on their links), "no path" exactly for unreachable targets.
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::time_dependent_sampling::Server;
use rust_road_router::algo::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::td::*;
use vharness::*;

fn windows() -> [(u32, u32); 4] {
    let h = P / 24;
    [(22 * h, 5 * h), (7 * h, 10 * h), (11 * h, 15 * h), (16 * h, 19 * h)]
}

fn check(ctx: &mut Ctx, g: &G, pool: &[Plf], order: &[u32], deps: &[u32], pairs: Option<&[(usize, usize)]>) -> Result<(), String> {
    ctx.state();
    let td = td_graph(g, pool);
    let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order.to_vec()));
    let mut s = Server::new(td, &cch);
    let eval = |e: usize, t: u32| pool[g.weight[e] as usize].floor(t);
    // distances w.r.t. the averages of each window, they may be off by two per link
    let slack = 2.0 * g.n as f64;
    let avg: Vec<Vec<Vec<f64>>> = windows()
        .iter()
        .map(|&(a, b)| {
            let w: Vec<f64> = (0..g.m()).map(|e| pool[g.weight[e] as usize].exact_average(a, if b <= a { b + P } else { b })).collect();
            float_matrix(g, &w)
        })
        .collect();
    let all: Vec<(usize, usize)> = (0..g.n).flat_map(|a| (0..g.n).map(move |b| (a, b))).collect();
    for &dep in deps {
        let mut last = usize::MAX;
        let mut opt_arr = vec![];
        for &(from, to) in pairs.unwrap_or(&all) {
            ctx.step();
            if last != from {
                opt_arr = earliest_arrival(g, &eval, from, dep);
                last = from;
            }
            let mut r = s.td_query(TDQuery {
                from: from as u32,
                to: to as u32,
                departure: dep,
            });
            let got = r.distance();
            let reachable = opt_arr[to] < INF as u64;
            ensure!(got.is_some() == reachable, "{}->{} at {}: {:?}, but reachable is {}", from, to, dep, got, reachable);
            if let Some(tt) = got {
                let arr = dep as u64 + tt as u64;
                ensure!(arr >= opt_arr[to], "{}->{} at {}: arrival {} is earlier than possible ({})", from, to, dep, arr, opt_arr[to]);
                let p = r.node_path().ok_or("no path")?;
                check_td_path(g, &eval, &p, from, to, dep, arr)?;
                ctx.outcome(&(from, to, dep, tt));
                // every window that has a unique shortest path (by more than the rounding slack) bounds the result
                let mut union = vec![false; g.m()];
                let mut unique = from != to;
                if from != to {
                    for (w, d) in avg.iter().enumerate() {
                        if let Some(q) = unique_path(g, pool, windows()[w], d, from, to, slack) {
                            let mut t = dep as u64;
                            for e in &q {
                                let tail = (0..g.n).find(|&v| g.out(v).contains(e)).unwrap();
                                g.out(tail).filter(|&o| g.head[o] == g.head[*e]).for_each(|o| union[o] = true);
                                t += eval(*e, t as u32) as u64;
                            }
                            ensure!(arr <= t, "{}->{} at {}: arrival {}, but the shortest path of window {} (links {:?}) arrives at {}", from, to, dep, arr, w, q, t);
                        } else {
                            unique = false;
                        }
                    }
                }
                // if all have, it is the fastest path on their links (and those next to them), whatever was asked before
                if unique {
                    let best = earliest_arrival(g, &|e, t| if union[e] { eval(e, t) } else { INF }, from, dep)[to];
                    ensure!(arr == best, "{}->{} at {}: arrival {}, but {} on the shortest paths of the windows", from, to, dep, arr, best);
                    ctx.count("exact", 1);
                }
            }
        }
    }
    Ok(())
}

fn float_matrix(g: &G, w: &[f64]) -> Vec<Vec<f64>> {
    let mut d = vec![vec![f64::INFINITY; g.n]; g.n];
    for v in 0..g.n {
        d[v][v] = 0.0;
        for e in g.out(v) {
            let h = g.head[e] as usize;
            d[v][h] = d[v][h].min(w[e]);
        }
    }
    for k in 0..g.n {
        for i in 0..g.n {
            for j in 0..g.n {
                d[i][j] = d[i][j].min(d[i][k] + d[k][j]);
            }
        }
    }
    d
}

/// the shortest path, if each of its links is better than every alternative by more than the slack
fn unique_path(g: &G, pool: &[Plf], (a, b): (u32, u32), d: &[Vec<f64>], from: usize, to: usize, slack: f64) -> Option<Vec<usize>> {
    if d[from][to].is_infinite() {
        return None;
    }
    let avg = |e: usize| pool[g.weight[e] as usize].exact_average(a, if b <= a { b + P } else { b });
    let mut path = vec![];
    let mut v = from;
    while v != to {
        let mut c: Vec<(f64, usize)> = g.out(v).map(|e| (avg(e) + d[g.head[e] as usize][to], e)).filter(|x| x.0.is_finite()).collect();
        c.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        if c.len() > 1 && c[1].0 - c[0].0 <= slack {
            return None;
        }
        path.push(c[0].1);
        v = g.head[c[0].1] as usize;
        if path.len() > g.n {
            return None;
        }
    }
    Some(path)
}

fn main() {
    let mut r = Report::new("C16");
    r.assume("the four time windows (22-5, 7-10, 11-15, 16-19) are those of the implementation");
    let th = r.thorough();
    let mut pool = plf_pool();
    let h = P / 24;
    // a rush hour that lies completely within one window, and one that leaves it
    pool.push(Plf(vec![(0, 600_000), (7 * h, 600_000), (8 * h, 3_000_000), (10 * h, 600_000)]));
    pool.push(Plf(vec![(0, 500_000), (17 * h, 500_000), (20 * h, 2_000_000), (21 * h, 500_000)]));
    let pool = &pool;
    let deps: &[u32] = &[0, 8 * h, 13 * h, 18 * h + 1, P - 3, P + 9 * h];
    r.scenario("n3", "n=3, all digraphs with one of 3 functions per link, all orders, 6 departure times", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 4]);
        let order = ctx.permutation(3);
        ctx.note(|| format!("links (tail, head, function) {:?}, order {:?}", g.edges(), order));
        check(ctx, &g, pool, &order, deps, None)
    });
    r.scenario("n3-parallel", "n=3, up to 4 (thorough 5) links chosen freely, one of 4 functions", |ctx| {
        let g = all_multigraphs(ctx, 3, if th { 5 } else { 4 }, false, &[1, 2, 4, 5]);
        ctx.note(|| format!("links (tail, head, function) {:?}", g.edges()));
        check(ctx, &g, pool, &[1, 0, 2], deps, None)
    });
    r.scenario("n4", "n=4, all digraph topologies (thorough, quick: undirected ones), 6 functions assigned in 6 ways, 2 orders", |ctx| {
        let shift = ctx.pick(6);
        let f = |a: usize, b: usize| ((a * 5 + b * 3 + shift) % 6) as u32;
        let g = if th { all_topologies(ctx, 4, f) } else { all_undirected(ctx, 4, f) };
        let order = orders_of(4, ctx.pick(2) * 2);
        ctx.note(|| format!("links (tail, head, function) {:?}, order {:?}", g.edges(), order));
        check(ctx, &g, pool, &order, deps, None)
    });
    r.scenario("road", "random road networks with 20 to 50 nodes, 6 functions, all pairs", |ctx| {
        let seed = ctx.pick(if th { 60 } else { 12 }) as u64;
        let g = road_graph(4 + (seed % 3) as usize, 5, seed, 6);
        let w = g.weight.iter().map(|w| w - 1).collect();
        let g = g.with_weights(w);
        ctx.note(|| format!("road network {}", seed));
        let order = nd_order(&g);
        check(ctx, &g, pool, &order, &[8 * h, 18 * h + 1, P - 3], None)
    });
    r.finish();
}
