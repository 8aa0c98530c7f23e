//! C29: parts of travel time profiles (build with functions cached for parts of the day).
include!("../../harness/src/c14_common.rs");

/// all arrivals of routes that start in these windows are on the same day (the functions take at most an hour, routes have few links)
const WINDOWS: &[(f64, f64)] = &[(28_800.0, 32_400.0), (0.0, 43_200.0), (41_000.0, 46_000.0), (0.0, 64_800.0), (43_170.0, 43_190.0), (36_000.0, 36_001.0), (44_089.5, 61_234.567)];

fn run(ctx: &mut Ctx, g: &G, pool: &[Plf], order: Vec<NodeId>, pairs: &[(usize, usize)], windows: &[(f64, f64)]) -> Result<(), String> {
    let fl = float_graph(g, pool);
    ctx.note(|| format!("{:?} order {:?}", g.edges(), order));
    let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(order));
    if cch.num_arcs() == 0 {
        return Ok(());
    }
    ctx.state();
    let c = catchup::customize(&cch, &fl);
    let case = Case { g, pool };
    case.check_partial(ctx, &cch, &c, pairs, windows)
}

fn main() {
    let mut r = Report::new("C29");
    r.assume("functions are FIFO with positive travel times, no parallel links");
    let th = r.thorough();
    r.assume("the travel times of all links vary over the day, all routes arrive on the day of the departure (others: known findings)");
    // a link that varies a little instead of the constant one
    let vary = |mut p: Vec<Plf>| {
        p[0] = Plf(vec![(0, 40_000), (P / 3, 40_000), (P / 3 + 600_000, 70_000), (P / 2, 40_000)]);
        p
    };
    let constant = int_pool();
    let pool = &vary(int_pool())[..];
    let strict = &vary(strict_pool())[..];
    for (name, strictly) in [("strict-n3", true), ("flat-n3", false)] {
        let pool = if strictly { strict } else { pool };
        r.scenario(name, "all digraphs with 3 nodes, links with one of 3 functions, all orders, all pairs", |ctx| {
            let g = all_digraphs(ctx, 3, false, &[1, 2, 3]);
            let order = orders_of(3, ctx.pick(6));
            ctx.outcome(&(g.edges(), order.clone()));
            run(ctx, &g, pool, order, &all_pairs(3), WINDOWS)
        });
    }
    for (name, strictly) in [("strict-n4", true), ("flat-n4", false)] {
        let pool = if strictly { strict } else { pool };
        r.scenario(name, if th { "all topologies with 4 nodes, 4 assignments of functions, 24 orders, all pairs" } else { "all topologies with 4 nodes, 1 assignment of functions, 6 orders, all pairs" }, |ctx| {
            let k = if th { ctx.pick(4) } else { 1 };
            let g = all_topologies(ctx, 4, |a, b| mixed(a, b, k));
            let order = if th { ctx.permutation(4).into_iter().map(|v| v as u32).collect() } else { orders_of(4, ctx.pick(6)) };
            ctx.outcome(&(g.edges(), order.clone()));
            run(ctx, &g, pool, order, &all_pairs(4), &WINDOWS[..4])
        });
    }
    r.scenario("undirected-n5", if th { "all undirected graphs with 5 nodes, 4 assignments of functions, 24 orders, all pairs" } else { "all undirected graphs with 5 nodes, 2 assignments of functions, 3 orders, all pairs" }, |ctx| {
        let k = ctx.pick(if th { 4 } else { 2 });
        let g = all_undirected(ctx, 5, |a, b| mixed(a, b, k));
        let order = orders_of(5, ctx.pick(if th { 24 } else { 3 }));
        ctx.outcome(&(g.edges(), order.clone()));
        run(ctx, &g, pool, order, &all_pairs(5), &WINDOWS[1..5])
    });
    r.scenario("histories", "all sequences of 3 queries (pairs and 3 windows) to a fresh server on 4 graphs with 4 nodes", |ctx| {
        let i = ctx.pick(4);
        let g = history_graph(i);
        let fl = float_graph(&g, pool);
        let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(orders_of(g.n, 1)));
        let c = catchup::customize(&cch, &fl);
        let case = Case { g: &g, pool };
        let pairs = all_pairs(g.n);
        let mut s = partial_profiles::Server::new(&cch, &c);
        ctx.state();
        for _ in 0..3 {
            let p = ctx.pick_from(&pairs);
            let w = ctx.pick_from(&WINDOWS[1..4]);
            case.one_partial(ctx, &mut s, p, w)?;
        }
        Ok(())
    });
    r.scenario("limits", "two routes with a constant link, two windows whose routes arrive on the next day", |ctx| {
        let k = ctx.pick(4);
        let (edges, order, (from, to), w, pool): (&[(u32, u32, u32)], [u32; 3], _, _, &[Plf]) = match k {
            0 => (&[(2, 0, 0)], [0, 1, 2], (2, 0), (28_800.0, 32_400.0), &constant),
            1 => (&[(0, 1, 1), (1, 2, 0)], [1, 0, 2], (0, 2), (28_800.0, 32_400.0), &constant),
            2 => (&[(0, 2, 1), (2, 1, 1)], [0, 1, 2], (0, 1), (0.0, DAY), strict),
            _ => (&[(1, 0, 3), (2, 1, 1)], [0, 1, 2], (2, 0), (80_000.0, DAY), strict),
        };
        let g = G::from_edges(3, edges);
        let r = guarded(|| {
            let fl = float_graph(&g, pool);
            let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(order.to_vec()));
            let c = catchup::customize(&cch, &fl);
            let mut s = partial_profiles::Server::new(&cch, &c);
            Case { g: &g, pool }.one_partial(ctx, &mut s, (from, to), w)
        });
        ctx.state();
        if let Err(e) = r.and_then(|r| r) {
            ctx.finding(&format!("limits/{}", k), format!("{} -> {} from {} to {} in {:?}: {}", from, to, w.0, w.1, g.edges(), e));
        }
        Ok(())
    });
    // rounding of times grows with the slopes along longer paths, and the debug assertions of the code allow for little of it
    let gentle: Vec<Plf> = strict.iter().map(|f| Plf(f.0.iter().map(|&(t, v)| (t, v / 4 + 1_000)).collect())).collect();
    let gentle = &gentle[..];
    r.scenario("road", "100 (thorough: 1000) generated road networks of each of 5 (6) sizes from 12 nodes, 2 orders, 12 pairs in 3 windows", |ctx| {
        let g0 = road_graph(4, 3 + ctx.pick(if th { 6 } else { 5 }), ctx.pick(if th { 1000 } else { 100 }) as u64, 100);
        let g = simple(&g0);
        let order = if ctx.flag() { nd_order(&g) } else { orders_of(g.n, 1) };
        let pairs: Vec<_> = (0..12).map(|i| ((i * 5) % g.n, (i * 7 + 3) % g.n)).filter(|p| p.0 != p.1).collect();
        ctx.outcome(&(g.edges(), order.clone()));
        run(ctx, &g, gentle, order, &pairs, &WINDOWS[..3])
    });
    r.finish();
}
