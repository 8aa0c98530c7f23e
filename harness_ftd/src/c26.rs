//! C26: CATCHUp when travel time functions are simplified to lower and upper bounds (and reconstructed in queries).
include!("../../harness/src/c14_common.rs");

fn run(ctx: &mut Ctx, g: &G, pool: &[Plf], order: Vec<NodeId>, what: u32, pairs: &[(usize, usize)]) -> Result<(), String> {
    let fl = float_graph(g, pool);
    ctx.note(|| format!("{:?} order {:?}", g.edges(), order));
    let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(order));
    if cch.num_arcs() == 0 {
        return Ok(());
    }
    ctx.state();
    let c = catchup::customize(&cch, &fl);
    let case = Case { g, pool };
    if what & 1 != 0 {
        queries(ctx, &case, &mut Server::new(&cch, &c), DEPS)?;
    }
    if what & 2 != 0 {
        case.check_profiles(ctx, &cch, &c, pairs)?;
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C26");
    r.assume("functions are FIFO with positive travel times, no parallel links");
    let th = r.thorough();
    let pool = &int_pool()[..];
    let strict = &strict_pool()[..];
    for (name, what, strictly) in [("queries-n3", 1, false), ("profiles-n3", 2, true), ("profiles-flat-n3", 2, false)] {
        let pool = if strictly { strict } else { pool };
        r.scenario(name, "all digraphs with 3 nodes, links with one of 3 functions, all orders, all pairs", |ctx| {
            let g = all_digraphs(ctx, 3, false, &[1, 2, 3]);
            let order = orders_of(3, ctx.pick(6));
            ctx.outcome(&(g.edges(), order.clone()));
            run(ctx, &g, pool, order, what, &all_pairs(3))
        });
    }
    for (name, what, strictly) in [("queries-n4", 1, false), ("profiles-n4", 2, true), ("profiles-flat-n4", 2, false)] {
        let pool = if strictly { strict } else { pool };
        r.scenario(name, if th { "all topologies with 4 nodes, 4 assignments of functions, 24 orders, all pairs" } else { "all topologies with 4 nodes, 1 assignment of functions, 6 orders, all pairs" }, |ctx| {
            let k = if th { ctx.pick(4) } else { 1 };
            let g = all_topologies(ctx, 4, |a, b| mixed(a, b, k));
            let order = if th { ctx.permutation(4).into_iter().map(|v| v as u32).collect() } else { orders_of(4, ctx.pick(6)) };
            ctx.outcome(&(g.edges(), order.clone()));
            run(ctx, &g, pool, order, what, &all_pairs(4))
        });
    }
    // rounding of times grows with the slopes along longer paths, and the debug assertions of the code allow for little of it
    let gentle: Vec<Plf> = strict.iter().map(|f| Plf(f.0.iter().map(|&(t, v)| (t, v / 4 + 1_000)).collect())).collect();
    let gentle = &gentle[..];
    for (name, what) in [("queries-road", 1), ("profiles-road", 2)] {
        let pool = gentle;
        r.scenario(name, "200 (thorough: 1000) generated road networks of each of 5 (6) sizes from 12 nodes, 2 orders, queries of all pairs at 8 departures, profiles of 12 pairs", |ctx| {
            let g0 = road_graph(4, 3 + ctx.pick(if th { 6 } else { 5 }), ctx.pick(if th { 1000 } else { 200 }) as u64, 100);
            let g = simple(&g0);
            let order = if ctx.flag() { nd_order(&g) } else { orders_of(g.n, 1) };
            let pairs: Vec<_> = (0..12).map(|i| ((i * 5) % g.n, (i * 7 + 3) % g.n)).filter(|p| p.0 != p.1).collect();
            ctx.outcome(&(g.edges(), order.clone()));
            run(ctx, &g, pool, order, what, &pairs)
        });
    }
    r.finish();
}
