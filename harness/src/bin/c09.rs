//! C09: A* servers on the (virtual) topological core are exact.
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::query::{Server, *};
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::topocore::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::graph::first_out_graph::OwnedGraph;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sut::*;
use vharness::*;

fn fw(g: &G) -> BaselinePotential {
    BaselinePotential::new(&g.owned())
}
fn bw(g: &G) -> BaselinePotential {
    BaselinePotential::new(&g.reversed().owned())
}
fn half(g: &G) -> G {
    g.with_weights(g.weight.iter().map(|&w| if w >= INF { w } else { w / 2 }).collect())
}
fn third(g: &G) -> G {
    g.with_weights(g.weight.iter().enumerate().map(|(i, &w)| if w >= INF { w } else if i % 2 == 0 { w } else { w / 3 }).collect())
}

macro_rules! uni {
    ($ctx:expr, $g:expr, $d:expr, $og:expr, $pot:expr, $pname:expr, $bcc:literal, $d2:literal, $d3:literal) => {{
        let mut s = Server::<OwnedGraph, DefaultOps, _, $bcc, $d2, $d3>::new_custom($og, $pot, DefaultOps());
        check_all_pairs(
            $ctx,
            concat!("core A* (bcc/deg2/deg3 = ", stringify!($bcc), "/", stringify!($d2), "/", stringify!($d3), "), potential ", $pname),
            $g,
            $d,
            qs!(s),
            true,
        )?;
    }};
}
macro_rules! bidir {
    ($ctx:expr, $g:expr, $d:expr, $og:expr, $pot:expr, $pname:expr, $dir:ty) => {{
        let mut s = BiDirServer::<_, $dir>::new($og, $pot);
        check_all_pairs($ctx, concat!("bidirectional core A*, ", $pname, ", ", stringify!($dir)), $g, $d, qs!(s), true)?;
    }};
}

fn all_servers(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], full: bool) -> Result<(), String> {
    ctx.state();
    let og = g.owned();
    let h = half(g);
    let t = third(g);
    macro_rules! all_flags {
        ($pot:expr, $pname:expr) => {
            uni!(ctx, g, d, &og, $pot, $pname, true, true, true);
            uni!(ctx, g, d, &og, $pot, $pname, false, true, true);
            if full {
                uni!(ctx, g, d, &og, $pot, $pname, true, true, false);
                uni!(ctx, g, d, &og, $pot, $pname, false, true, false);
                uni!(ctx, g, d, &og, $pot, $pname, true, false, false);
                uni!(ctx, g, d, &og, $pot, $pname, false, false, false);
            }
        };
    }
    all_flags!(fw(g), "exact");
    all_flags!(fw(&h), "half");
    all_flags!(fw(&t), "mixed");
    all_flags!(ZeroPotential(), "zero");
    bidir!(ctx, g, d, &og, BiDirZeroPot, "zero", ChooseMinKeyDir);
    bidir!(ctx, g, d, &og, BiDirZeroPot, "zero", AlternatingDirs);
    macro_rules! bipots {
        ($m:expr, $n:literal) => {
            bidir!(ctx, g, d, &og, SymmetricBiDirPotential::<_, _, true>::new(fw($m), bw($m)), concat!("symmetric ", $n), ChooseMinKeyDir);
            bidir!(ctx, g, d, &og, AveragePotential::<_, _, true>::new(fw($m), bw($m)), concat!("average improved ", $n), AlternatingDirs);
            if full {
                bidir!(ctx, g, d, &og, SymmetricBiDirPotential::<_, _, false>::new(fw($m), bw($m)), concat!("symmetric simple ", $n), AlternatingDirs);
                bidir!(ctx, g, d, &og, AveragePotential::<_, _, false>::new(fw($m), bw($m)), concat!("average ", $n), ChooseMinKeyDir);
            }
        };
    }
    bipots!(g, "exact");
    bipots!(&h, "half");
    if full {
        bipots!(&t, "mixed");
    }
    core_servers(ctx, g, d, &og, &h)?;
    ctx.outcome(&d.to_vec());
    Ok(())
}

/// turn expanded graphs with the potentials of the unexpanded graph
fn turn_servers(ctx: &mut Ctx, base: &G, lower: &G) -> Result<(), String> {
    let ob = base.owned();
    let style = ctx.pick(4);
    let tails: Vec<u32> = base.edges().iter().map(|e| e.0).collect();
    let cost = |a: u32, b: u32| -> Option<u32> {
        match style {
            0 => Some(0),
            1 => (tails[a as usize] != base.head[b as usize]).then_some(0), // no u-turns
            2 => Some((a * 3 + b * 2) % 4),
            _ => ((a + 2 * b) % 3 != 0).then_some((a + b) % 3),
        }
    };
    let l = line_graph(&ob, cost);
    let mut e = vec![];
    for a in 0..base.head.len() as u32 {
        for b in 0..base.head.len() as u32 {
            if base.head[a as usize] == tails[b as usize] {
                if let Some(c) = cost(a, b) {
                    e.push((a, b, base.weight[a as usize] + c));
                }
            }
        }
    }
    if e.iter().all(|&(a, b, _)| a == b) {
        return Ok(());
    }
    let g = &G::from_edges(base.head.len(), &e);
    let d = &dist_matrix(g);
    ctx.state();
    ctx.note(|| format!("turn costs {}: {:?}", style, g.edges()));
    let mut p = TurnExpandedPotential::new(&ob, fw(base));
    for t in 0..g.n {
        p.init(t as u32);
        for v in 0..g.n {
            ctx.step();
            let got = p.potential(v as u32);
            ensure!(d[v][t] >= INF || got.map_or(false, |x| x <= d[v][t]), "turn expanded potential of {} for target {} is {:?}, distance {}", v, t, got, d[v][t]);
        }
    }
    let og = &l;
    let f = |x: &G| TurnExpandedPotential::new(&ob, fw(x));
    let b = |x: &G| TurnExpandedPotential::new(&ob, bw(x));
    uni!(ctx, g, d, og, f(base), "turn expanded", true, true, true);
    uni!(ctx, g, d, og, f(lower), "turn expanded half", false, true, true);
    bidir!(ctx, g, d, og, SymmetricBiDirPotential::<_, _, true>::new(f(base), b(base)), "turn expanded symmetric", AlternatingDirs);
    bidir!(ctx, g, d, og, AveragePotential::<_, _, true>::new(f(lower), b(lower)), "turn expanded average", ChooseMinKeyDir);
    Ok(())
}

/// servers which work on the reordered graph directly, including edge paths and capped queries
fn core_servers(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], og: &OwnedGraph, h: &G) -> Result<(), String> {
    let n = g.n as u32;
    let (vg, _, topo) = VirtualTopocoreGraph::<OwnedGraph>::new(og);
    let order = topo.order.clone();
    // the reordered graph is the same graph
    let pg = {
        let mut e = vec![];
        for v in 0..n {
            for l in LinkIterable::<Link>::link_iter(&vg, v) {
                e.push((v, l.node, l.weight));
            }
        }
        G::from_edges(g.n, &e)
    };
    let mut a: Vec<_> = pg.edges().into_iter().map(|(t, h, w)| (order.node(t), order.node(h), w)).collect();
    let mut b = g.edges();
    a.sort_unstable();
    b.sort_unstable();
    ctx.step();
    ensure!(a == b, "reordered graph has edges {:?}", a);
    let pd: Vec<Vec<u32>> = (0..g.n).map(|s| (0..g.n).map(|t| d[order.node(s as u32) as usize][order.node(t as u32) as usize]).collect()).collect();

    let pf = |x: &G| PotentialForPermutated { potential: fw(x), order: order.clone() };
    let pb = |x: &G| PotentialForPermutated { potential: bw(x), order: order.clone() };

    macro_rules! edge_paths {
        ($s:expr, $name:expr) => {
            check_all_pairs(ctx, $name, &pg, &pd, qs!($s), true)?;
            for from in 0..n {
                for to in 0..n {
                    let mut r = $s.query(Query { from, to });
                    if let Some(p) = r.edge_path() {
                        ctx.step();
                        let p: Vec<u32> = p.into_iter().map(|EdgeIdT(e)| e).collect();
                        check_edge_path(&pg, from, to, pd[from as usize][to as usize], &p).map_err(|e| format!("{}: {}", $name, e))?;
                    }
                }
            }
        };
    }
    {
        let mut s = SkipLowDegServer::<_, DefaultOpsWithLinkPath, _, true, true>::new(vg.clone(), pf(h), DefaultOpsWithLinkPath::default());
        edge_paths!(s, "core server, half potential");
        // one to all
        for from in 0..n {
            let w = s.one_to_all(from);
            for to in 0..n {
                ctx.step();
                ensure!(w.distance(to) == pd[from as usize][to as usize], "one to all {}->{}: {}", from, to, w.distance(to));
            }
        }
        // capped queries find everything up to the cap
        for from in 0..n {
            for to in 0..n {
                let want = pd[from as usize][to as usize];
                if want < INF {
                    for cap in [want, want + 2] {
                        ctx.step();
                        let mut res = s.distance_with_cap(Query { from, to }, cap);
                        ensure!(res.distance() == Some(want), "capped core query {}->{} (cap {}): {:?} instead of {}", from, to, cap, res.distance(), want);
                        let p = res.node_path().unwrap();
                        check_node_path(&pg, from, to, want, &p)?;
                    }
                }
            }
        }
    }
    {
        let pot = SymmetricBiDirPotential::<_, _, true>::new(pf(h), pb(h));
        let mut s = BiDirCoreServer::<_, ChooseMinKeyDir>::new(vg.clone(), pot);
        edge_paths!(s, "bidirectional core server, symmetric half");
        for from in 0..n {
            for to in 0..n {
                let want = pd[from as usize][to as usize];
                if want < INF {
                    for (cap, pot_cap) in [(want + 1, None), (want + 2, Some(want)), (INF, Some(want + 1))] {
                        ctx.step();
                        let mut res = s.distance_with_cap(Query { from, to }, cap, pot_cap);
                        ensure!(
                            res.distance() == Some(want),
                            "capped bidirectional core query {}->{} (cap {}, pot_cap {:?}): {:?} instead of {}",
                            from,
                            to,
                            cap,
                            pot_cap,
                            res.distance(),
                            want
                        );
                        let p = res.node_path().unwrap();
                        check_node_path(&pg, from, to, want, &p)?;
                    }
                }
            }
        }
    }
    {
        let pot = AveragePotential::<_, _, false>::new(pf(g), pb(g));
        let mut s = BiDirCoreServer::<_, AlternatingDirs>::new(vg.clone(), pot);
        edge_paths!(s, "bidirectional core server, average exact");
    }
    Ok(())
}

fn w_spread(a: usize, b: usize) -> u32 {
    [1, 100, 5, 30, 2, 60, 9, 1, 17][(a * 3 + b * 5 + a * b) % 9]
}

fn main() {
    let mut r = Report::new("C09");
    r.assume("weights below INFINITY/4, the graph has at least one edge between different nodes");
    let th = r.thorough();
    let has_edge = |g: &G| g.edges().iter().any(|e| e.0 != e.1);
    let r_thorough = r.thorough();
    r.scenario("n3", "all digraphs on 3 nodes incl. loops, weights {0,3}, all servers and potentials", |ctx| {
        let g = all_digraphs(ctx, 3, true, &[0, 3]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d, true)
    });
    r.scenario("multi", "all multigraphs on 3 nodes with up to 4 edges (parallel edges, loops), weights {1,4}", |ctx| {
        let g = all_multigraphs(ctx, 3, 4, true, &[1, 4]);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d, false)
    });
    r.scenario("n4", "all digraphs on 4 nodes, 2 metrics", |ctx| {
        let m = ctx.pick_from(&[w_mix as fn(usize, usize) -> u32, w_spread]);
        let g = all_topologies(ctx, 4, m);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d, true)
    });
    r.scenario("n5-undirected", "all undirected graphs on 5 nodes, 3 metrics", |ctx| {
        let m = ctx.pick_from(&[w_mix as fn(usize, usize) -> u32, w_zero, w_spread]);
        let g = all_undirected(ctx, 5, m);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d, true)
    });
    r.scenario("components", "complete core on 4 or 5 nodes with every undirected graph on 3 attached nodes, 3 metrics, core first or last in the node order", |ctx| {
        let core = ctx.pick_from(&[4usize, 5]);
        let m = ctx.pick_from(&[w_mix as fn(usize, usize) -> u32, w_spread, w_one]);
        let g = with_component(ctx, core, 3, 0, m);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d, false)
    });
    r.scenario("components-4", "complete core on 5 nodes with every undirected graph on 4 attached nodes", |ctx| {
        let m = ctx.pick_from(&[w_mix as fn(usize, usize) -> u32, w_spread]);
        let g = with_component(ctx, 5, 4, 0, m);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d, false)
    });
    r.scenario("components-oneway", "complete core on 4 nodes with every mixed graph (one way roads) on 2 or 3 attached nodes", |ctx| {
        let extra = 2 + ctx.pick(2);
        let g = with_component(ctx, 4, extra, 1, w_spread);
        let d = dist_matrix(&g);
        all_servers(ctx, &g, &d, false)
    });
    r.scenario("hub", "a hub with 250..260 neighbours, which form a cycle or are dead ends", |ctx| {
        let k = 250 + ctx.pick(11);
        let cycle = ctx.flag();
        let mut e = vec![];
        for i in 1..=k {
            let wt = 1 + (i * 7 % 13) as u32;
            e.push((0, i as u32, wt));
            e.push((i as u32, 0, wt));
            if cycle {
                let j = if i == k { 1 } else { i + 1 };
                e.push((i as u32, j as u32, 30));
                e.push((j as u32, i as u32, 30));
            }
        }
        let g = G::from_edges(k + 1, &e);
        let d = dist_matrix_sparse(&g);
        let og = g.owned();
        let mut s = Server::<OwnedGraph, DefaultOps, _, true, true, true>::new_custom(&og, ZeroPotential(), DefaultOps());
        let mut b = BiDirServer::<_, ChooseMinKeyDir>::new(&og, BiDirZeroPot);
        let st = 1 + ctx.pick(5);
        for to in 0..=k {
            check_query(ctx, "core A* around a hub", &g, &d, qs!(s), st, to, true)?;
            check_query(ctx, "bidirectional core A* around a hub", &g, &d, qs!(b), st, to, true)?;
            check_query(ctx, "core A* around a hub", &g, &d, qs!(s), to, st, true)?;
        }
        Ok(())
    });
    r.scenario("road", "road-like graphs with dead ends, one-way roads and chains, sizes 3x3 to 5x6", |ctx| {
        let seed = ctx.pick(if th { 300 } else { 40 }) as u64;
        let (a, b) = ctx.pick_from(&[(3, 3), (4, 4), (5, 6)]);
        let mw = ctx.pick_from(&[1u32, 20]);
        let g = road_graph(a, b, seed, mw);
        let d = dist_matrix_sparse(&g);
        all_servers(ctx, &g, &d, false)
    });
    r.scenario("turns", "turn expanded graphs of all digraphs on 3 nodes (weights {0,3}) and all topologies on 4 nodes with at most 7 links, 4 kinds of turn costs and forbidden turns, potentials of the unexpanded graph", |ctx| {
        let g = if ctx.flag() { all_digraphs(ctx, 3, false, &[0, 3]) } else { all_topologies(ctx, 4, w_mix) };
        if g.head.is_empty() || g.head.len() > if r_thorough { 9 } else { 7 } {
            return Ok(());
        }
        let h = half(&g);
        turn_servers(ctx, &g, &h)
    });
    r.scenario("history", "all sequences of 3 queries on the same servers, complete core with an attached path and cycle", |ctx| {
        let mut e = complete_graph(4, w_spread).edges();
        for (a, b, w) in [(0u32, 4u32, 3u32), (4, 5, 2), (5, 6, 7), (6, 4, 1)] {
            e.push((a, b, w));
            e.push((b, a, w + 1));
        }
        let g = G::from_edges(8, &e);
        let d = dist_matrix(&g);
        let og = g.owned();
        let h = half(&g);
        let mut s = Server::<OwnedGraph, DefaultOps, _, true, true, true>::new_custom(&og, fw(&h), DefaultOps());
        let mut b = BiDirServer::<_, ChooseMinKeyDir>::new(&og, SymmetricBiDirPotential::<_, _, true>::new(fw(&h), bw(&h)));
        for _ in 0..3 {
            let q = ctx.pick(64);
            let (from, to) = (q / 8, q % 8);
            ctx.note(|| format!("query {}->{}", from, to));
            check_query(ctx, "core A*", &g, &d, qs!(s), from, to, true)?;
            check_query(ctx, "bidirectional core A*", &g, &d, qs!(b), from, to, true)?;
        }
        Ok(())
    });
    if th {
        r.scenario("n6-undirected", "all undirected graphs on 6 nodes", |ctx| {
            let m = ctx.pick_from(&[w_mix as fn(usize, usize) -> u32, w_spread]);
            let g = all_undirected(ctx, 6, m);
            let d = dist_matrix(&g);
            all_servers(ctx, &g, &d, false)
        });
    }
    let _ = has_edge;
    r.finish()
}
