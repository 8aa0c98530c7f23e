//! C03: customizable contraction hierarchies answer exactly for every graph, node order and metric, in every
//! variant (undirected/directed, basic/perfect, with removed always-infinite edges), whatever thread count.
use rust_road_router::algo::customizable_contraction_hierarchy::query::Server;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sut::*;
use vharness::*;

const VARIANTS: usize = 6;

fn variant(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], cch: &CCH, which: usize) -> Result<(), String> {
    let og = g.owned();
    match which {
        0 => {
            let mut s = Server::new(customize(cch, &og));
            check_all_pairs(ctx, "CCH", g, d, qs!(s), true)
        }
        1 => {
            let mut s = Server::new(customize_perfect(customize(cch, &og)));
            check_all_pairs(ctx, "CCH, perfect customization", g, d, qs!(s), true)
        }
        2 => {
            let dir = cch.to_directed_cch();
            let mut s = Server::new(customize_directed(&dir, &og));
            check_all_pairs(ctx, "directed CCH", g, d, qs!(s), true)
        }
        3 => {
            let dir = cch.to_directed_cch();
            let mut s = Server::new(customize_directed_perfect(customize_directed(&dir, &og)));
            check_all_pairs(ctx, "directed CCH, perfect customization", g, d, qs!(s), true)
        }
        4 => {
            let red = cch.remove_always_infinity();
            let mut s = Server::new(customize(&red, &og));
            check_all_pairs(ctx, "CCH without always infinite edges", g, d, qs!(s), true)
        }
        _ => {
            let red = cch.remove_always_infinity();
            let mut s = Server::new(customize_perfect(customize(&red, &og)));
            check_all_pairs(ctx, "CCH without always infinite edges, perfect customization", g, d, qs!(s), true)
        }
    }
}

/// the fixed order has to be a permutation that is laid out for the separator based parallelization
fn build(g: &G, order: &[u32]) -> Result<CCH, String> {
    let og = g.owned();
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(order.to_vec()));
    let mut o: Vec<u32> = cch.node_order().order().to_vec();
    o.sort_unstable();
    ensure!(o == (0..g.n as u32).collect::<Vec<_>>(), "the order of the CCH is not a permutation: {:?}", cch.node_order().order());
    Ok(cch)
}

fn all_variants(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], order: &[u32]) -> Result<(), String> {
    ctx.state();
    let cch = build(g, order)?;
    for v in 0..VARIANTS {
        variant(ctx, g, d, &cch, v)?;
    }
    Ok(())
}

fn all_orders(ctx: &mut Ctx, g: &G) -> Result<(), String> {
    let d = dist_matrix(g);
    ctx.outcome(&(g.edges(), &d));
    let order = ctx.permutation(g.n);
    ctx.note(|| format!("n={} edges={:?} node order={:?}", g.n, g.edges(), order));
    all_variants(ctx, g, &d, &order)
}

fn main() {
    let mut r = Report::new("C03");
    r.assume("weights below 2^31-1 (the value the code reserves for unreachable), path lengths too; at least one node");
    r.assume("orders are passed through the library's own order fixing, which its parallel customization demands");
    let thorough = r.thorough();
    let w3: Vec<u32> = if thorough { vec![0, 1, 2, INF] } else { vec![0, 1, 3] };
    r.scenario("n1-n2", "n<=2, all multigraphs with up to 3 parallel links, weights {0,1,2}, both orders", |ctx| {
        let n = 1 + ctx.pick(2);
        let k = ctx.pick(5);
        let mut e = vec![];
        for _ in 0..k {
            e.push((ctx.pick(n) as u32, ctx.pick(n) as u32, ctx.pick(3) as u32));
        }
        all_orders(ctx, &G::from_edges(n, &e))
    });
    r.scenario("n3", "n=3, every digraph with self loops, weights absent + {0,1,3} (thorough {0,1,2,inf}), all 6 orders", |ctx| {
        let g = all_digraphs(ctx, 3, !thorough, &w3);
        all_orders(ctx, &g)
    });
    r.scenario("n3-closed", "n=3, every digraph, weights absent, 1, or closed (infinite)", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[1, INF]);
        all_orders(ctx, &g)
    });
    r.scenario("n3-parallel", "n=3, up to 4 links chosen freely (parallel links allowed), weights {1,2}", |ctx| {
        let g = all_multigraphs(ctx, 3, if thorough { 5 } else { 4 }, false, &[1, 2]);
        all_orders(ctx, &g)
    });
    r.scenario("n4", "n=4, every digraph topology, 5 metrics (unit, zero, mixed, powers, near the upper limit), all 24 orders", |ctx| {
        let f = METRICS[ctx.pick(METRICS.len())];
        let g = all_topologies(ctx, 4, f);
        all_orders(ctx, &g)
    });
    r.scenario("n5", "n=5, every undirected topology, asymmetric metrics, all 120 orders", |ctx| {
        let f = METRICS[ctx.pick(if thorough { METRICS.len() } else { 1 })];
        let g = all_undirected(ctx, 5, f);
        all_orders(ctx, &g)
    });
    if thorough {
        r.scenario("n4-weights", "n=4, every digraph with weights absent/1/3, all 24 orders", |ctx| {
            let g = all_digraphs(ctx, 4, false, &[1, 3]);
            all_orders(ctx, &g)
        });
    }
    r.scenario("families", "paths, cycles, stars, grids, complete and random road graphs up to 150 nodes, 7 orders, 1/2/8 threads, each variant", |ctx| {
        let mut fam: Vec<G> = vec![];
        for n in [6usize, 9, 13, 40, 70] {
            fam.push(path_graph(n, w_mix));
            fam.push(cycle_graph(n, w_mix));
            fam.push(star_graph(n, w_mix));
        }
        for (a, b) in [(2usize, 5usize), (3, 3), (4, 5), (8, 9), (10, 13)] {
            fam.push(grid_graph(a, b, w_mix));
            fam.push(grid_graph(a, b, w_zero));
        }
        fam.push(complete_graph(7, w_mix));
        for seed in 1..=4 {
            fam.push(road_graph(5, 6, seed, 20));
            fam.push(road_graph(9, 10, seed, 100));
            fam.push(road_graph(12, 12, seed, 1000));
        }
        let i = ctx.pick(fam.len());
        let g = &fam[i];
        let threads = [1usize, 2, 8][ctx.pick(3)];
        let o = ctx.pick(7);
        let order = orders_of(g.n, o);
        let v = ctx.pick(VARIANTS);
        rayon_core::verif::set_num_threads(threads);
        let d = dist_matrix_sparse(g);
        ctx.outcome(&(i, &d));
        ctx.note(|| format!("family graph #{} (n={}, m={}), {} threads, order #{}, variant {}", i, g.n, g.head.len(), threads, o, v));
        ctx.state();
        let res = build(g, &order).and_then(|cch| variant(ctx, g, &d, &cch, v));
        rayon_core::verif::set_num_threads(2);
        res
    });
    r.finish();
}
