//! C07: k-nearest-neighbor queries of all implementations return the k closest reachable targets.
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::query::nearest_neighbor::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::nearest_neighbor::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::*;

fn verify(ctx: &mut Ctx, name: &str, d: &[Vec<u32>], s: u32, k: usize, targets: &[u32], mut got: Vec<(u32, u32)>) -> Result<(), String> {
    ctx.step();
    let mut want: Vec<u32> = targets.iter().map(|&t| d[s as usize][t as usize]).filter(|&x| x < INF).collect();
    want.sort_unstable();
    want.truncate(k);
    got.sort_unstable();
    let dists: Vec<u32> = got.iter().map(|x| x.0).collect();
    ensure!(dists == want, "{}: source {}, k={}, targets {:?}: distances {:?}, should be {:?}", name, s, k, targets, dists, want);
    let mut ts: Vec<u32> = got.iter().map(|x| x.1).collect();
    ts.sort_unstable();
    ts.dedup();
    ensure!(ts.len() == got.len(), "{}: source {}, k={}: the same target twice in {:?}", name, s, k, got);
    for (dist, t) in got {
        ensure!(targets.contains(&t) && d[s as usize][t as usize] == dist, "{}: source {}, k={}: {} is no target at distance {}", name, s, k, t, dist);
    }
    Ok(())
}

fn run(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], cch: &CCH, sels: &[Vec<u32>], ks: &[usize], sources: &[u32]) -> Result<(), String> {
    let og = g.owned();
    let data = CCHPotData::new(cch, &og);
    let mut sep = SeparatorBasedNearestNeighbor::new(cch, data.backward_potential());
    let mut lazy = LazyRphastNearestNeighbor::new(data.backward_potential());
    let mut bcch = BCCHNearestNeighbor::new(data.customized());
    let mut dij = DijkstraNearestNeighbor::new(og);
    for targets in sels {
        {
            let mut s1 = sep.select_targets(targets);
            for &s in sources {
                for &k in ks {
                    verify(ctx, "separator based", d, s, k, targets, s1.query(s, k))?;
                }
            }
        }
        for &s in sources {
            for &k in ks {
                verify(ctx, "lazy RPHAST", d, s, k, targets, lazy.query(s, targets, k))?;
            }
        }
        {
            let mut s3 = bcch.select_targets(targets);
            for &s in sources {
                for &k in ks {
                    verify(ctx, "bucket CCH", d, s, k, targets, s3.query(s, k))?;
                }
            }
        }
        {
            let mut s4 = dij.select_targets(targets);
            for &s in sources {
                for &k in ks {
                    verify(ctx, "Dijkstra", d, s, k, targets, s4.query(s, k))?;
                }
            }
        }
    }
    Ok(())
}

fn small(ctx: &mut Ctx, g: &G, order: Vec<u32>) -> Result<(), String> {
    let d = dist_matrix(g);
    ctx.note(|| format!("n={} edges={:?} order={:?}", g.n, g.edges(), order));
    ctx.state();
    ctx.outcome(&(g.edges(), &d));
    let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order));
    let sels: Vec<Vec<u32>> = (1..1usize << g.n).map(|m| (0..g.n as u32).filter(|i| m >> i & 1 == 1).collect()).collect();
    let ks: Vec<usize> = (1..=g.n).collect();
    let sources: Vec<u32> = (0..g.n as u32).collect();
    run(ctx, g, &d, &cch, &sels, &ks, &sources)
}

fn main() {
    let mut r = Report::new("C07");
    r.assume("target sets without duplicates, k >= 1, shortest distances below 2^31-1");
    let th = r.thorough();
    r.scenario("n3", "every digraph on 3 nodes, weights {0,1,3}, all orders, all target sets in sequence, all sources and k", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 3]);
        let o = ctx.permutation(3);
        small(ctx, &g, o)
    });
    r.scenario("n4", "every digraph topology on 4 nodes, mixed metric (thorough: 5 metrics), 5 (thorough all) orders", |ctx| {
        let f = METRICS[ctx.pick(if th { METRICS.len() } else { 1 })];
        let g = all_topologies(ctx, 4, f);
        let o = if th { ctx.permutation(4) } else { orders_of(4, ctx.pick(5)) };
        small(ctx, &g, o)
    });
    r.scenario("n5", "every undirected topology on 5 nodes, asymmetric and unit metric, 5 orders", |ctx| {
        let f = [w_mix, w_one, w_pow][ctx.pick(if th { 3 } else { 2 })];
        let g = all_undirected(ctx, 5, f);
        let o = orders_of(5, ctx.pick(5));
        small(ctx, &g, o)
    });
    // cells are only split with at least 8 targets: trees of cells around a separator
    r.scenario("cells", "separator {0}, 3 cells of 3..5 nodes each, all 8 metrics per position, one cell possibly cut off or one-way, all sources, k in 1..4, every single target left out", |ctx| {
        let sizes = [3 + ctx.pick(3), 3 + ctx.pick(2), 3 + ctx.pick(2)];
        let mut e: Vec<(u32, u32, u32)> = vec![];
        let mut order = vec![];
        let mut next = 1u32;
        let sepw = [1u32, 4, 10];
        for c in 0..3 {
            let w = sepw[ctx.pick(3)];
            let kind = if c == 0 { ctx.pick(3) } else { 0 };
            let inner = 1 + ctx.pick(2) as u32;
            let a = next;
            for i in 0..sizes[c] as u32 {
                if i > 0 {
                    e.push((a + i - 1, a + i, inner));
                    e.push((a + i, a + i - 1, inner));
                }
                order.push(a + i);
            }
            next += sizes[c] as u32;
            if kind != 2 {
                e.push((a, 0, w));
            }
            if kind != 1 {
                e.push((0, a, w));
            }
        }
        order.push(0);
        order.rotate_left(0);
        let n = next as usize;
        let g = G::from_edges(n, &e);
        let d = dist_matrix_sparse(&g);
        ctx.state();
        ctx.outcome(&d);
        ctx.note(|| format!("n={} edges={:?} order={:?}", g.n, g.edges(), order));
        // the first node of each cell is adjacent to the separator: eliminate it last
        let mut ord: Vec<u32> = vec![];
        let mut a = 1u32;
        for c in 0..3 {
            ord.extend((a..a + sizes[c] as u32).rev());
            a += sizes[c] as u32;
        }
        ord.push(0);
        let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(ord));
        let all: Vec<u32> = (0..n as u32).collect();
        let mut sels = vec![all.clone(), all[1..].to_vec()];
        for v in all.iter().step_by(if th { 1 } else { 3 }) {
            sels.push(all.iter().copied().filter(|x| x != v).rev().collect());
        }
        run(ctx, &g, &d, &cch, &sels, &[1, 2, 4, n], &all)
    });
    r.scenario("families", "paths, stars, grids, road graphs, two components up to 90 nodes, 7 orders, 8 target sets in sequence, all sources, k in {1,2,4,9,n}", |ctx| {
        let mut fam = vec![path_graph(20, w_mix), star_graph(19, w_mix), grid_graph(4, 5, w_mix), grid_graph(6, 7, w_zero), grid_graph(6, 6, w_one), road_graph(5, 6, 1, 20), road_graph(7, 8, 3, 5), road_graph(9, 10, 2, 100)];
        let two = {
            let a = road_graph(4, 5, 1, 9);
            let mut e = a.edges();
            let k = a.n as u32;
            e.extend(a.edges().iter().map(|&(x, y, w)| (x + k, y + k, w + 1)));
            G::from_edges(a.n * 2, &e)
        };
        fam.push(two);
        let i = ctx.pick(fam.len());
        let g = &fam[i];
        let o = ctx.pick(7);
        let d = dist_matrix_sparse(g);
        ctx.note(|| format!("family graph #{} order #{}", i, o));
        ctx.state();
        ctx.outcome(&(i, &d));
        let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(orders_of(g.n, o)));
        let n = g.n as u32;
        let sels: Vec<Vec<u32>> = vec![
            vec![0],
            (0..n).collect(),
            (0..n).step_by(2).collect(),
            (0..n).step_by(3).collect(),
            (0..n / 2).rev().collect(),
            vec![n - 1, n / 2],
            (n / 2..n).collect(),
            (1..n).step_by(2).collect(),
        ];
        let all: Vec<u32> = (0..n).collect();
        run(ctx, g, &d, &cch, &sels, &[1, 2, 4, 9, g.n], &all)
    });
    r.finish();
}
