//! C14: time-dependent queries and profiles with CATCHUp.
include!("../c14_common.rs");

fn run(ctx: &mut Ctx, g: &G, pool: &[Plf], order: Vec<NodeId>, what: u32, pairs: &[(usize, usize)]) -> Result<(), String> {
    let fl = float_graph(g, pool);
    ctx.note(|| format!("{:?} order {:?}", g.edges(), order));
    let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(order));
    if cch.num_arcs() == 0 {
        return Ok(());
    }
    ctx.state();
    let c = catchup::customize(&cch, &fl);
    let case = Case { g, pool };
    if what & 1 != 0 {
        queries(ctx, &case, &mut Server::new(&cch, &c), DEPS)?;
    }
    if what & 2 != 0 {
        case.check_profiles(ctx, &cch, &c, pairs)?;
    }
    Ok(())
}

/// Dijkstra on the same functions: queries, Dijkstra ranks, arrivals along paths
fn dijkstra(ctx: &mut Ctx, g: &G, pool: &[Plf], deps: &[f64]) -> Result<(), String> {
    use rust_road_router::algo::dijkstra::query::floating_td_dijkstra as flt;
    ctx.note(|| format!("{:?}", g.edges()));
    ctx.state();
    let fl = float_graph(g, pool);
    let case = Case { g, pool };
    let mut s = flt::Server::new(float_graph(g, pool));
    queries(ctx, &case, &mut s, deps)?;
    for &dep in deps {
        for from in 0..g.n {
            ctx.step();
            let want = arrivals(g, pool, from, dep);
            let mut ranks = Vec::new();
            s.ranks(from as u32, Timestamp::new(dep), |v, t, i| ranks.push((v, f64::from(t), i)));
            let reachable = want.iter().filter(|&&a| a < NEVER).count();
            let k = (0..).take_while(|i| 1 << i <= reachable).count();
            ensure!(ranks.iter().map(|r| r.2).eq(0..k), "ranks from {} at {}: {:?}, {} nodes are reachable", from, dep, ranks, reachable);
            for &(v, t, i) in &ranks {
                let before = want.iter().filter(|&&a| a < t - TOL).count();
                let upto = want.iter().filter(|&&a| a < t + TOL).count();
                ensure!((t - want[v as usize]).abs() < TOL && before < 1 << i && upto >= 1 << i, "ranks from {} at {}: {:?}, arrivals {:?}", from, dep, ranks, want);
            }
            // any walk of up to three links
            for e in g.out(from) {
                let mut walk = vec![e as u32];
                while walk.len() < 3 {
                    match g.out(g.head[walk[walk.len() - 1] as usize] as usize).last() {
                        Some(e) => walk.push(e as u32),
                        None => break,
                    }
                }
                let p = fl.get_path_with_times(Timestamp::new(dep), &walk);
                let (mut v, mut t) = (from as u32, dep);
                ensure!(p.len() == walk.len() + 1 && p[0].0 == v && f64::from(p[0].1) == t, "walk {:?} at {}: {:?}", walk, dep, p);
                for (i, &e) in walk.iter().enumerate() {
                    t += ev(&pool[g.weight[e as usize] as usize], t);
                    v = g.head[e as usize];
                    ensure!(p[i + 1].0 == v && (f64::from(p[i + 1].1) - t).abs() < TOL, "walk {:?} at {}: {:?}", walk, dep, p);
                }
                fl.check_path(&p);
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C14");
    r.assume("functions are FIFO with positive travel times, no parallel links");
    let th = r.thorough();
    let pool = &int_pool()[..];
    r.scenario("queries-n3", if th { "all digraphs with 3 nodes, links with one of 4 functions, all orders, all pairs, 8 departures, one server" } else { "all digraphs with 3 nodes, links with one of 3 functions, all orders, all pairs, 8 departures, one server" }, |ctx| {
        let g = all_digraphs(ctx, 3, false, if th { &[0, 1, 2, 3] } else { &[1, 2, 3] });
        let order = orders_of(3, ctx.pick(6));
        ctx.outcome(&(g.edges(), order.clone()));
        run(ctx, &g, pool, order, 1, &[])
    });
    r.scenario("profiles-n3", "all digraphs with 3 nodes, links with one of 3 functions, all orders, profiles of all pairs (two algorithms)", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[1, 2, 3]);
        let order = orders_of(3, ctx.pick(6));
        ctx.outcome(&(g.edges(), order.clone()));
        run(ctx, &g, pool, order, 2, &all_pairs(3))
    });
    r.scenario("dijkstra", "Dijkstra on floating point functions: all digraphs with 3 nodes and one of 4 functions (constant ones too), all topologies with 4 nodes in 2 assignments, all pairs, ranks, walks, 8 departures", |ctx| {
        let g = match ctx.pick(3) {
            0 => all_digraphs(ctx, 3, false, &[0, 1, 2, 3]),
            k => all_topologies(ctx, 4, |a, b| mixed(a, b, k)),
        };
        ctx.outcome(&g.edges());
        dijkstra(ctx, &g, pool, DEPS)
    });
    r.scenario("n4", if th { "all topologies with 4 nodes, 4 assignments of functions, 24 orders, queries and profiles of all pairs" } else { "all topologies with 4 nodes, 1 assignment of functions, 6 orders, queries and profiles of all pairs" }, |ctx| {
        let k = if th { ctx.pick(4) } else { 1 };
        let g = all_topologies(ctx, 4, |a, b| mixed(a, b, k));
        let order = if th { ctx.permutation(4).into_iter().map(|v| v as u32).collect() } else { orders_of(4, ctx.pick(6)) };
        ctx.outcome(&(g.edges(), order.clone()));
        run(ctx, &g, pool, order, 3, &all_pairs(4))
    });
    r.scenario("undirected-n5", if th { "all undirected graphs with 5 nodes, 4 assignments of functions, 24 orders, queries and profiles of all pairs" } else { "all undirected graphs with 5 nodes, 2 assignments of functions, 3 orders, queries and profiles of all pairs" }, |ctx| {
        let k = ctx.pick(if th { 4 } else { 2 });
        let g = all_undirected(ctx, 5, |a, b| mixed(a, b, k));
        let order = orders_of(5, ctx.pick(if th { 24 } else { 3 }));
        ctx.outcome(&(g.edges(), order.clone()));
        run(ctx, &g, pool, order, 3, &all_pairs(5))
    });
    r.scenario("histories", "all sequences of 3 queries (pairs and 3 departures) to a fresh server on 4 graphs with 4 nodes; all sequences of 2 profiles", |ctx| {
        let g = history_graph(ctx.pick(4));
        let fl = float_graph(&g, pool);
        let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(orders_of(g.n, 1)));
        let c = catchup::customize(&cch, &fl);
        let case = Case { g: &g, pool };
        if ctx.flag() {
            let mut s = Server::new(&cch, &c);
            let n = if th { 4 } else { 3 };
            for _ in 0..n {
                let (from, to, dep) = (ctx.pick(g.n), ctx.pick(g.n), ctx.pick_from(&[35_000.0, 43_185.0, 82_000.0]));
                let want = arrivals(&g, pool, from, dep)[to];
                ctx.outcome(&(from, to, want.to_bits()));
                case.check_query(ctx, &mut s, from, to, dep, want)?;
            }
        } else {
            let p: Vec<(usize, usize)> = (0..2).map(|_| ctx.pick_from(&all_pairs(g.n))).collect();
            ctx.note(|| format!("graph {:?}", g.edges()));
            case.check_profiles(ctx, &cch, &c, &p)?;
            ctx.outcome(&p);
        }
        ctx.state();
        Ok(())
    });
    r.scenario("road", "200 (thorough: 1000) generated road networks of each of 5 (6) sizes from 12 nodes, 2 orders, queries of all pairs at 8 departures, profiles of 12 pairs", |ctx| {
        let g0 = road_graph(4, 3 + ctx.pick(if th { 6 } else { 5 }), ctx.pick(if th { 1000 } else { 200 }) as u64, 100);
        let g = simple(&g0);
        let order = if ctx.flag() { nd_order(&g) } else { orders_of(g.n, 1) };
        let pairs: Vec<_> = (0..12).map(|i| ((i * 5) % g.n, (i * 7 + 3) % g.n)).filter(|p| p.0 != p.1).collect();
        ctx.outcome(&(g.edges(), order.clone()));
        run(ctx, &g, pool, order, 3, &pairs)
    });
    r.scenario("schedules", "customization on paths, cycles and grids with 64 to 70 nodes, 1 or 2 worker threads, all schedules with at most 1 deviation", |ctx| {
        let g = simple(&match ctx.pick(3) {
            0 => path_graph(64, |a, b| mixed(a, b, 0)),
            1 => cycle_graph(66, |a, b| mixed(a, b, 1)),
            _ => grid_graph(10, 7, |a, b| mixed(a, b, 2)),
        });
        let fl = float_graph(&g, pool);
        let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(nd_order(&g)));
        let threads = 1 + ctx.pick(2);
        let c = with_schedule(ctx, threads, 1, || catchup::customize(&cch, &fl));
        ctx.state();
        let case = Case { g: &g, pool };
        let mut s = Server::new(&cch, &c);
        for i in 0..if th { 24 } else { 8 } {
            let (from, to, dep) = ((i * 29) % g.n, (i * 17 + 40) % g.n, DEPS[i % DEPS.len()]);
            let want = arrivals(&g, pool, from, dep)[to];
            ctx.outcome(&(from, to, want.to_bits()));
            case.check_query(ctx, &mut s, from, to, dep, want)?;
        }
        Ok(())
    });
    r.finish();
}
