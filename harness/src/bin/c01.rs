//! C01: Dijkstra and A* servers are exact.
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server as BiDij;
use rust_road_router::algo::dijkstra::query::dijkstra::Server as Dij;
use rust_road_router::algo::dijkstra::query::disconnected_targets::CatchDisconnectedTarget;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sut::*;
use vharness::*;

type Rev = OwnedGraph;

fn reversed_baseline(g: &G) -> BaselinePotential {
    BaselinePotential::new(&Rev::reversed(&g.owned()))
}

/// every server on one graph, all pairs
fn all_servers(ctx: &mut Ctx, g: &G, d: &[Vec<u32>]) -> Result<(), String> {
    ctx.state();
    let og = g.owned();
    {
        let mut s = Dij::<OwnedGraph, DefaultOps>::new(g.owned());
        check_all_pairs(ctx, "dijkstra", g, d, qs!(s), true)?;
        // one to all
        for from in 0..g.n {
            let w = s.one_to_all(from as NodeId);
            for to in 0..g.n {
                ctx.step();
                ensure!(w.distance(to as NodeId) == d[from][to], "one_to_all {}->{}: {} instead of {}", from, to, w.distance(to as NodeId), d[from][to]);
                if d[from][to] < INF && from != to {
                    let p = w.predecessor(to as NodeId);
                    let ew = min_edge(g, p, to as u32);
                    ensure!(
                        (p as usize) < g.n && ew.is_some() && d[from][p as usize] + ew.unwrap() == d[from][to],
                        "one_to_all {}->{}: predecessor {} is not on a shortest path",
                        from,
                        to,
                        p
                    );
                }
            }
        }
        // ranks: nodes reported in settling order with their exact distance
        for from in 0..g.n {
            let mut seen = vec![];
            s.ranks(from as NodeId, |node, dist, rank| seen.push((node, dist, rank)));
            let mut reach: Vec<u32> = d[from].iter().copied().filter(|&x| x < INF).collect();
            reach.sort_unstable();
            let mut want = vec![];
            let mut i = 1;
            let mut r = 0;
            while i <= reach.len() {
                want.push((reach[i - 1], r));
                i *= 2;
                r += 1;
            }
            ctx.step();
            ensure!(seen.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>() == want, "ranks from {}: {:?}, expected (distance, rank) {:?}", from, seen, want);
            for (node, dist, _) in seen {
                ensure!(d[from][node as usize] == dist, "ranks from {}: node {} at {}", from, node, dist);
            }
        }
    }
    {
        let mut s = Dij::<OwnedGraph, DefaultOpsByEdgeId>::new(g.owned());
        check_all_pairs(ctx, "dijkstra by edge id", g, d, qs!(s), true)?;
    }
    {
        let mut s = Dij::<OwnedGraph, DefaultOpsWithLinkPath, ZeroPotential, &OwnedGraph>::new(&og);
        for from in 0..g.n {
            for to in 0..g.n {
                check_query(ctx, "dijkstra with link path", g, d, qs!(s), from, to, true)?;
                let mut r = s.query(Query {
                    from: from as NodeId,
                    to: to as NodeId,
                });
                if let Some(p) = r.edge_path() {
                    ctx.step();
                    let p: Vec<u32> = p.into_iter().map(|EdgeIdT(e)| e).collect();
                    check_edge_path(g, from as u32, to as u32, d[from][to], &p)?;
                }
            }
        }
    }
    {
        let mut s = BiDij::<OwnedGraph, OwnedGraph, BiDirZeroPot, ChooseMinKeyDir>::new(g.owned());
        check_all_pairs(ctx, "bidirectional min key", g, d, qs!(s), true)?;
        // capped search: everything shorter than the cap is found exactly
        for from in 0..g.n {
            for to in 0..g.n {
                if d[from][to] < INF {
                    for cap in [d[from][to] + 1, d[from][to] + 3] {
                        ctx.step();
                        let r = s.distance_with_cap(from as NodeId, to as NodeId, cap, |_, _, _| ());
                        ensure!(r == Some(d[from][to]), "capped query {}->{} with cap {}: {:?}, distance {}", from, to, cap, r, d[from][to]);
                    }
                }
            }
        }
    }
    {
        let mut s = BiDij::<OwnedGraph, OwnedGraph, BiDirZeroPot, AlternatingDirs>::new(g.owned());
        check_all_pairs(ctx, "bidirectional alternating", g, d, qs!(s), true)?;
    }
    {
        let mut s = Dij::<OwnedGraph, DefaultOps, _>::with_potential(g.owned(), BaselinePotential::new(&og));
        check_all_pairs(ctx, "A* exact potential", g, d, qs!(s), true)?;
    }
    {
        let mut s = Dij::<OwnedGraph, DefaultOps, _>::with_potential(g.owned(), RecyclingPotential::new(BaselinePotential::new(&og)));
        for to in 0..g.n {
            for from in 0..g.n {
                check_query(ctx, "A* recycling potential", g, d, qs!(s), from, to, true)?;
            }
        }
        check_all_pairs(ctx, "A* recycling potential", g, d, qs!(s), false)?;
    }
    {
        let pot = SymmetricBiDirPotential::<_, _, true>::new(BaselinePotential::new(&og), reversed_baseline(g));
        let mut s = BiDij::<OwnedGraph, OwnedGraph, _, ChooseMinKeyDir>::new_with_potentials(g.owned(), pot);
        check_all_pairs(ctx, "bidirectional A* symmetric/improved/min key", g, d, qs!(s), true)?;
    }
    {
        let pot = SymmetricBiDirPotential::<_, _, false>::new(BaselinePotential::new(&og), reversed_baseline(g));
        let mut s = BiDij::<OwnedGraph, OwnedGraph, _, AlternatingDirs>::new_with_potentials(g.owned(), pot);
        check_all_pairs(ctx, "bidirectional A* symmetric/alternating", g, d, qs!(s), true)?;
    }
    {
        let pot = AveragePotential::<_, _, false>::new(BaselinePotential::new(&og), reversed_baseline(g));
        let mut s = BiDij::<OwnedGraph, OwnedGraph, _, ChooseMinKeyDir>::new_with_potentials(g.owned(), pot);
        check_all_pairs(ctx, "bidirectional A* average/min key", g, d, qs!(s), true)?;
    }
    {
        let pot = AveragePotential::<_, _, true>::new(BaselinePotential::new(&og), reversed_baseline(g));
        let mut s = BiDij::<OwnedGraph, OwnedGraph, _, AlternatingDirs>::new_with_potentials(g.owned(), pot);
        check_all_pairs(ctx, "bidirectional A* average/improved/alternating", g, d, qs!(s), true)?;
    }
    {
        let mut s = CatchDisconnectedTarget::new(Dij::<OwnedGraph, DefaultOps>::new(g.owned()), &og);
        check_all_pairs(ctx, "dijkstra behind disconnected target check", g, d, qs!(s), true)?;
    }
    ctx.outcome(&d.to_vec());
    Ok(())
}


/// a history of queries on the same server objects
fn history(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], len: usize) -> Result<(), String> {
    ctx.state();
    let og = g.owned();
    let mut a = Dij::<OwnedGraph, DefaultOps>::new(g.owned());
    let mut b = BiDij::<OwnedGraph, OwnedGraph, BiDirZeroPot, ChooseMinKeyDir>::new(g.owned());
    let mut c = Dij::<OwnedGraph, DefaultOps, _>::with_potential(g.owned(), RecyclingPotential::new(BaselinePotential::new(&og)));
    let pot = SymmetricBiDirPotential::<_, _, true>::new(BaselinePotential::new(&og), reversed_baseline(g));
    let mut e = BiDij::<OwnedGraph, OwnedGraph, _, AlternatingDirs>::new_with_potentials(g.owned(), pot);
    for _ in 0..len {
        let q = ctx.pick(g.n * g.n);
        let (from, to) = (q / g.n, q % g.n);
        ctx.note(|| format!("query {}->{}", from, to));
        check_query(ctx, "dijkstra", g, d, qs!(a), from, to, true)?;
        check_query(ctx, "bidirectional", g, d, qs!(b), from, to, true)?;
        check_query(ctx, "A* recycling", g, d, qs!(c), from, to, true)?;
        check_query(ctx, "bidirectional A*", g, d, qs!(e), from, to, true)?;
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C01");
    r.assume("edge weights are non-negative and below INFINITY (or exactly INFINITY = absent); shortest distances below INFINITY");
    let th = r.thorough();
    r.scenario("n3-loops", "all digraphs on 3 nodes incl. self loops, weights {1,3}, all pairs, 12 servers", |ctx| {
        let g = all_digraphs(ctx, 3, true, &[1, 3]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d)
    });
    r.scenario("n3-weights", "all digraphs on 3 nodes, weights {0,1,4,INFINITY}, all pairs", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 4, INF]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d)
    });
    r.scenario("n3-large-weights", "all digraphs on 3 nodes, weights {1, 2^30-1, 2^30, INFINITY-3, INFINITY-1}: paths near INFINITY", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[1, (1 << 29) - 1, 1 << 29, INF / 2]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d)
    });
    r.scenario("multi", "all multigraphs on 3 nodes with up to 4 edges (parallel edges, loops), weights {1,4}", |ctx| {
        let g = all_multigraphs(ctx, 3, 4, true, &[1, 4]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d)
    });
    r.scenario("n4", "all digraphs on 4 nodes, every ordered pair absent or weight 1 or 3", |ctx| {
        let g = all_digraphs(ctx, 4, false, &[1, 3]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d)
    });
    r.scenario("n5-undirected", "all undirected graphs on 5 nodes, asymmetric metric and unit metric", |ctx| {
        let m = ctx.pick(METRICS.len() - 1);
        let g = all_undirected(ctx, 5, METRICS[m]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d)
    });
    if th {
        r.scenario("n5-directed", "all digraphs on 5 nodes, weights by pair", |ctx| {
            let g = all_topologies(ctx, 5, w_mix);
            let d = dist_matrix(&g);
            all_servers(ctx, &g, &d)
        });
    }
    let hl = if th { 5 } else { 4 };
    r.scenario("histories", "all query sequences of length 4 (thorough 5) on one set of servers, for all digraphs on 3 nodes with weights {2} ", move |ctx| {
        let g = all_digraphs(ctx, 3, false, &[2]);
        let d = dist_matrix(&g);
        history(ctx, &g, &d, hl)
    });
    r.scenario("roads", "32 road-like graphs of 12..100 nodes (one-ways, dead ends, disconnected parts), all pairs", |ctx| {
        let seed = ctx.pick(8);
        let (a, b) = ctx.pick_from(&[(3, 3), (4, 5), (6, 6), (8, 9)]);
        let g = road_graph(a, b, seed as u64, 9);
        ctx.note(|| format!("road_graph({},{},{},9) n={} m={}", a, b, seed, g.n, g.m()));
        let d = dist_matrix_sparse(&g);
        all_servers(ctx, &g, &d)
    });
    r.scenario("long", "long paths, cycles and stars (250 nodes), selected sources to all targets", |ctx| {
        let g = match ctx.pick(4) {
            0 => path_graph(250, w_mix),
            1 => cycle_graph(250, w_one),
            2 => star_graph(250, w_mix),
            _ => complete_graph(40, w_pow),
        };
        let d = dist_matrix_sparse(&g);
        let og = g.owned();
        let mut a = Dij::<OwnedGraph, DefaultOps>::new(g.owned());
        let mut b = BiDij::<OwnedGraph, OwnedGraph, BiDirZeroPot, ChooseMinKeyDir>::new(g.owned());
        let mut c = CatchDisconnectedTarget::new(Dij::<OwnedGraph, DefaultOps>::new(g.owned()), &og);
        for from in 0..g.n {
            for to in (0..g.n).step_by(7) {
                check_query(ctx, "dijkstra", &g, &d, qs!(a), from, to, true)?;
                check_query(ctx, "bidirectional", &g, &d, qs!(b), from, to, true)?;
                check_query(ctx, "disconnected target check", &g, &d, qs!(c), from, to, true)?;
            }
        }
        ctx.state();
        Ok(())
    });
    r.finish();
}
