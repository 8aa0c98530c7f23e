//! C15: time-dependent A* with every potential for it (lower bound CCH, several metrics per time of day, interval
//! minima), on the whole graph and on the topological core, for predicted and live traffic, finds earliest arrivals.
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::{td_query::Server, *};
use rust_road_router::algo::customizable_contraction_hierarchy::customization::ftd_for_pot;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::td_astar::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;
use vharness::gen::*;
use vharness::oracle::INF;
use vharness::sched::default_schedule;
use vharness::td::*;
use vharness::*;

type Eval<'a> = &'a dyn Fn(usize, u32) -> u32;

/// arrivals for all pairs
fn arrivals(g: &G, eval: Eval, dep: u32) -> Vec<Vec<u64>> {
    (0..g.n).map(|s| earliest_arrival(g, eval, s, dep)).collect()
}

/// all pairs at `dep`
fn check_server(
    ctx: &mut Ctx,
    name: &str,
    g: &G,
    eval: Eval,
    dep: u32,
    want: &[Vec<u64>],
    query: &mut dyn FnMut(TDQuery<u32>) -> (Option<u32>, Option<Vec<u32>>),
) -> Result<(), String> {
    for from in (0..g.n).step_by(1 + g.n / 12) {
        for to in (0..g.n).step_by(1 + g.n / 40) {
            ctx.step();
            let (got, path) = query(TDQuery { from: from as u32, to: to as u32, departure: dep });
            let w = if want[from][to] >= INF as u64 { None } else { Some((want[from][to] - dep as u64) as u32) };
            ensure!(got == w, "{}: {}->{} at {}: travel time {:?} instead of {:?}", name, from, to, dep, got, w);
            ensure!(path.is_some() == w.is_some(), "{}: {}->{} at {}: path {:?}", name, from, to, dep, path);
            if let Some(p) = path {
                if from != to {
                    check_td_path(g, eval, &p, from, to, dep, want[from][to]).map_err(|e| format!("{}: {}", name, e))?;
                }
            }
        }
    }
    Ok(())
}

/// In any order of requests, the potential is a lower bound on every node of a shortest path (`all`) or at least on the
/// nodes of one of the shortest paths (potentials may drop what cannot be better than something else).
fn check_admissible(ctx: &mut Ctx, name: &str, g: &G, eval: Eval, dep: u32, want: &[Vec<u64>], p: &mut dyn TDPotential, all: bool) -> Result<(), String> {
    for from in (0..g.n).step_by(1 + g.n / 7) {
        let onwards: Vec<Vec<u64>> = (0..g.n).map(|v| if want[from][v] < INF as u64 { earliest_arrival(g, eval, v, want[from][v] as u32) } else { vec![] }).collect();
        for to in (0..g.n).step_by(1 + g.n / 11) {
            let total = want[from][to];
            if total >= INF as u64 {
                continue;
            }
            let tight: Vec<bool> = (0..g.n)
                .map(|v| want[from][v] < INF as u64 && onwards[v][to] == total)
                .collect();
            for dir in 0..2 {
                p.init(from as u32, to as u32, dep);
                let mut good = tight.clone();
                let mut bad = None;
                for i in 0..2 * g.n {
                    let v = if dir == 0 { i % g.n } else { g.n - 1 - i % g.n };
                    if !tight[v] {
                        continue;
                    }
                    ctx.step();
                    let at = want[from][v];
                    let t = if i < g.n && dir == 0 { None } else { Some(at as u32) };
                    let got = p.potential(v as u32, t);
                    if got.is_none() || got.unwrap() as u64 > total - at {
                        good[v] = false;
                        bad = Some(format!(
                            "{}: {}->{} at {}: potential of {} at {:?} is {:?}, but the remaining travel time is {}",
                            name,
                            from,
                            to,
                            dep,
                            v,
                            t,
                            got,
                            total - at
                        ));
                    }
                }
                if let Some(bad) = bad {
                    let mut reached = vec![false; g.n];
                    reached[from] = good[from];
                    for _ in 0..g.n {
                        for v in 0..g.n {
                            if reached[v] {
                                for e in g.out(v) {
                                    let h = g.head[e] as usize;
                                    if good[h] && want[from][v] + eval(e, want[from][v] as u32) as u64 == want[from][h] {
                                        reached[h] = true;
                                    }
                                }
                            }
                        }
                    }
                    ensure!(!all && reached[to], "{}", bad);
                }
            }
        }
    }
    Ok(())
}

macro_rules! td {
    ($s:expr) => {
        &mut |q| {
            let mut r = $s.td_query(q);
            (r.distance(), r.node_path())
        }
    };
}

const H: u32 = P / 24;

fn time_ranges(which: usize) -> Vec<TRange<u32>> {
    let r = |s: u32, e: u32| TRange { start: s, end: e };
    match which {
        0 => vec![],
        1 => vec![r(6 * H, 12 * H), r(9 * H, 15 * H), r(11 * H, 12 * H), r(12 * H - 20, P), r(0, 2 * H), r(0, H)],
        2 => vec![r(0, P), r(11 * H, 13 * H), r(12 * H - 1, 13 * H), r(12 * H, 14 * H), r(22 * H, P)],
        _ => ranges(),
    }
}

fn lower(td: &TDGraph) -> Vec<u32> {
    (0..td.num_arcs() as u32).map(|e| td.travel_time_function(e).lower_bound()).collect()
}

fn predicted(ctx: &mut Ctx, g: &G, pool: &[Plf], deps: &[u32], topo: bool) -> Result<(), String> {
    let td = td_graph(g, pool);
    let f = |e: usize, t: u32| td.travel_time_function(e as u32).eval(t);
    let eval: Eval = &f;
    let order = ctx.pick(2);
    let cch = CCH::fix_order_and_build(&td, NodeOrder::from_node_order(orders_of(g.n, order * 2 + 1)));
    let low = lower(&td);
    let pot_data = CCHPotData::new(&cch, &BorrowedGraph::new(td.first_out(), td.head(), &low));
    let which = ctx.pick(3);
    let reduce = if which == 0 { None } else { ctx.pick_from(&[None, Some(2)]) };
    ctx.note(|| format!("order {}, ranges {}, reduced to {:?}", order, which, reduce));
    ctx.state();
    ctx.outcome(&(g.edges(), order, which, reduce));
    let mm = || MultiMetric::new(MultiMetricPreprocessed::new(&cch, time_ranges(which), &td, reduce));
    for &dep in deps {
        let want = arrivals(g, eval, dep);
        check_admissible(ctx, "multi metric potential", g, eval, dep, &want, &mut mm(), true)?;
    }
    let mut s = Server::<TDGraph, TDDijkstraOps, _, false, false, false>::new_no_topo(&td, mm(), TDDijkstraOps::default());
    for &dep in deps {
        check_server(ctx, "A* with multi metric potential", g, eval, dep, &arrivals(g, eval, dep), td!(s))?;
    }
    let mut s = Server::<TDGraph, TDDijkstraOps, _, false, false, false>::new_no_topo(&td, TDRecyclingPotential::new(mm()), TDDijkstraOps::default());
    for &dep in deps {
        check_server(ctx, "A* with recycled multi metric potential", g, eval, dep, &arrivals(g, eval, dep), td!(s))?;
    }
    if topo {
        let mut s = Server::<TDGraph, TDDijkstraOps, _, true, true, true>::new(&td, mm(), TDDijkstraOps::default());
        for &dep in deps {
            check_server(ctx, "core A* with multi metric potential", g, eval, dep, &arrivals(g, eval, dep), td!(s))?;
        }
        if which == 0 {
            let mut s = Server::<TDGraph, TDDijkstraOps, _, true, true, true>::new(&td, pot_data.forward_potential(), TDDijkstraOps::default());
            for &dep in deps {
                check_server(ctx, "core A* with CCH potential", g, eval, dep, &arrivals(g, eval, dep), td!(s))?;
            }
            let mut s = Server::<TDGraph, TDDijkstraOps, _, true, true, true>::new(&td, ZeroPotential(), TDDijkstraOps::default());
            for &dep in deps {
                check_server(ctx, "core Dijkstra", g, eval, dep, &arrivals(g, eval, dep), td!(s))?;
            }
            let mut s = Server::<TDGraph, TDDijkstraOps, _, true, false, false>::new_custom(&td, ZeroPotential(), TDDijkstraOps::default());
            for &dep in deps {
                check_server(ctx, "core Dijkstra without skipping", g, eval, dep, &arrivals(g, eval, dep), td!(s))?;
            }
        }
    }
    if which == 0 {
        let mut s = Server::<TDGraph, TDDijkstraOps, _, false, false, false>::new_no_topo(&td, pot_data.forward_potential(), TDDijkstraOps::default());
        for &dep in deps {
            check_server(ctx, "A* with CCH potential", g, eval, dep, &arrivals(g, eval, dep), td!(s))?;
        }
    }
    Ok(())
}

/// core servers on graphs with components attached to the core
fn core_only(ctx: &mut Ctx, g: &G, pool: &[Plf], deps: &[u32]) -> Result<(), String> {
    let td = td_graph(g, pool);
    let f = |e: usize, t: u32| td.travel_time_function(e as u32).eval(t);
    let eval: Eval = &f;
    let cch = CCH::fix_order_and_build(&td, NodeOrder::from_node_order(orders_of(g.n, 3)));
    ctx.state();
    ctx.outcome(&g.edges());
    let mm = MultiMetric::new(MultiMetricPreprocessed::new(&cch, time_ranges(1), &td, None));
    let mut s = Server::<TDGraph, TDDijkstraOps, _, true, true, true>::new(&td, mm, TDDijkstraOps::default());
    let mut z = Server::<TDGraph, TDDijkstraOps, _, true, true, true>::new(&td, ZeroPotential(), TDDijkstraOps::default());
    for &dep in deps {
        let want = arrivals(g, eval, dep);
        check_server(ctx, "core A* with multi metric potential", g, eval, dep, &want, td!(s))?;
        check_server(ctx, "core Dijkstra", g, eval, dep, &want, td!(z))?;
    }
    let lives = (0..g.m())
        .map(|e| match e % 3 {
            0 => InRangeOption::NONE,
            1 => InRangeOption::some((2_000_000, deps[0] + 2 * H)),
            _ => InRangeOption::some((INF, deps[0] + H)),
        })
        .collect();
    let lg = PessimisticLiveTDGraph::new(td.clone(), lives);
    let f = |e: usize, t: u32| lg.eval(e as u32, t);
    let want = arrivals(g, &f, deps[0]);
    let mut z = Server::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, _, true, true, true>::new(&lg, ZeroPotential(), PessimisticLiveTDDijkstraOps::default());
    check_server(ctx, "live core Dijkstra", g, &f, deps[0], &want, td!(z))?;
    Ok(())
}

/// functions whose slopes are integers, so that every arrival leaving at an integer time is an integer
/// like the tool `interval_min_reduction`
fn merge_buckets(p: &mut ftd_for_pot::PotData, to: usize) {
    let m = p.fw_static_bound.len();
    let n_buckets = p.bucket_to_metric.len();
    let merged = {
        let metrics: Vec<_> = p.fw_bucket_bounds.chunks(m).collect();
        rust_road_router::algo::metric_merging::merge(&metrics, to)
    };
    for b in [&mut p.fw_bucket_bounds, &mut p.bw_bucket_bounds] {
        *b = merged.iter().flat_map(|g| (0..m).map(|e| g.iter().map(|&i| b[i * m + e]).min().unwrap()).collect::<Vec<_>>()).collect();
    }
    let mut map = vec![0; n_buckets];
    for (i, g) in merged.into_iter().enumerate() {
        for b in g {
            map[b] = i;
        }
    }
    p.bucket_to_metric = map;
}

fn customized(cch: &CCH, g: &floating_time_dependent::TDGraph, k: usize) -> ftd_for_pot::PotData {
    match k {
        1 => ftd_for_pot::customize::<1>(cch, g),
        5 => ftd_for_pot::customize::<5>(cch, g),
        24 => ftd_for_pot::customize::<24>(cch, g),
        _ => ftd_for_pot::customize::<96>(cch, g),
    }
}

/// interval minimum potentials with `k` buckets, merged to `to`
fn interval_min(ctx: &mut Ctx, g: &G, pool: &[Plf], deps: &[u32], k: usize, to: Option<usize>, live: &[Option<Option<u32>>]) -> Result<(), String> {
    let order = orders_of(g.n, ctx.pick(2) * 2 + 1);
    interval_min_with(ctx, g, order, pool, deps, k, to, live)
}

fn interval_min_with(ctx: &mut Ctx, g: &G, order: Vec<u32>, pool: &[Plf], deps: &[u32], k: usize, to: Option<usize>, live: &[Option<Option<u32>>]) -> Result<(), String> {
    let td = td_graph(g, pool);
    let fl = float_graph(g, pool);
    let f = |e: usize, t: u32| td.travel_time_function(e as u32).eval(t);
    let eval: Eval = &f;
    let cch = CCH::fix_order_and_build(&td, NodeOrder::from_node_order(order));
    ctx.state();
    let data = || {
        let mut d = customized(&cch, &fl, k);
        if let Some(to) = to {
            merge_buckets(&mut d, to);
        }
        d
    };
    let pot = || IntervalMinPotential::new(&cch, data());
    if cch.num_arcs() == 0 {
        return Ok(());
    }
    let mut s = Server::<TDGraph, TDDijkstraOps, _, false, false, false>::new_no_topo(&td, pot(), TDDijkstraOps::default());
    let mut core = Server::<TDGraph, TDDijkstraOps, _, true, true, true>::new(&td, pot(), TDDijkstraOps::default());
    let mut p = pot();
    for &dep in deps {
        let want = arrivals(g, eval, dep);
        check_admissible(ctx, "interval minimum potential", g, eval, dep, &want, &mut p, false)?;
        check_server(ctx, "A* with interval minimum potential", g, eval, dep, &want, td!(s))?;
        check_server(ctx, "core A* with interval minimum potential", g, eval, dep, &want, td!(core))?;
    }
    if live.is_empty() {
        return Ok(());
    }
    // live values and when they end, relative to the departure
    for &dep in deps {
        let until = ctx.pick_from(&[600_000, 2 * H]);
        let lives: Vec<_> = (0..g.m())
            .map(|e| match live[e % live.len()] {
                None => InRangeOption::NONE,
                Some(l) => InRangeOption::some((l.unwrap_or(INF), dep + until)),
            })
            .collect();
        let lg = PessimisticLiveTDGraph::new(td.clone(), lives);
        let f = |e: usize, t: u32| lg.eval(e as u32, t);
        let eval: Eval = &f;
        let want = arrivals(g, eval, dep);
        let mut p = IntervalMinPotential::new_for_live(&cch, data(), &lg, dep);
        check_admissible(ctx, "interval minimum potential for live traffic", g, eval, dep, &want, &mut p, false)?;
        let mut s = Server::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, _, false, false, false>::new_no_topo(&lg, p, PessimisticLiveTDDijkstraOps::default());
        check_server(ctx, "live A* with interval minimum potential", g, eval, dep, &want, td!(s))?;
        let p = IntervalMinPotential::new_for_simple_live(&cch, data(), &lg, dep);
        let mut s = Server::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, _, true, true, true>::new(&lg, p, PessimisticLiveTDDijkstraOps::default());
        check_server(ctx, "live core A* with simple interval minimum potential", g, eval, dep, &want, td!(s))?;
        let mut mmp = MultiMetricPreprocessed::new(&cch, time_ranges(2), &td, None);
        mmp.reserve_space_for_additional_metrics(1);
        mmp.customize_live(&lg, dep);
        let mut p = MultiMetric::new(mmp);
        check_admissible(ctx, "multi metric potential for live traffic", g, eval, dep, &want, &mut p, false)?;
        let mut s = Server::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, _, true, true, true>::new(&lg, p, PessimisticLiveTDDijkstraOps::default());
        check_server(ctx, "live core A* with multi metric potential", g, eval, dep, &want, td!(s))?;
        let mut mmp = MultiMetricPreprocessed::new(&cch, time_ranges(1), &td, Some(2));
        mmp.customize_simple_live(&lg, dep);
        let mut s = Server::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, _, false, false, false>::new_no_topo(&lg, MultiMetric::new(mmp), PessimisticLiveTDDijkstraOps::default());
        check_server(ctx, "live A* with simple multi metric potential", g, eval, dep, &want, td!(s))?;
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C15");
    r.assume("functions are FIFO, travel times sum up to less than a day, live queries leave at the time of the live data");
    let th = r.thorough();
    let pool = plf_pool();
    let pool = &pool;
    let deps: &[u32] = &[0, 9 * H, P / 2 - 1_000_000, P / 2 - 4, P - 3];
    let has_edge = |g: &G| g.m() > 0;
    r.scenario("n3", "n=3, all digraphs, every link one of 4 functions, 2 orders, 3 sets of time ranges, reduced or not, 5 departure times", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 3]);
        if !has_edge(&g) {
            return Ok(());
        }
        predicted(ctx, &g, pool, deps, true)
    });
    r.scenario("n4", "n=4, all digraph topologies, functions chosen by the end nodes (2 assignments)", |ctx| {
        let k = ctx.pick(2);
        let g = all_topologies(ctx, 4, move |a, b| ((a * 5 + b * 3 + k * (a + 2 * b)) % 4) as u32);
        if !has_edge(&g) {
            return Ok(());
        }
        predicted(ctx, &g, pool, &deps[1..4], true)
    });
    r.scenario("components", "complete core on 4 nodes with every mixed graph (one-way roads) on 2 or 3 attached nodes, functions chosen by the end nodes (2 assignments)", |ctx| {
        let k = ctx.pick(2);
        let extra = 2 + ctx.pick(2);
        let g = with_component(ctx, 4, extra, 1, |a, b| ((a * 5 + b * 3 + k * (a + 2 * b)) % 4) as u32);
        core_only(ctx, &g, pool, &deps[1..4])
    });
    let ip = int_pool();
    assert!(ip.iter().all(|f| f.is_fifo()));
    let ip = &ip;
    let ideps: &[u32] = &[0, 9 * H + 1_000_000, 12 * H - 1_000_000, 12 * H - 4_000, 22 * H + 3_000_000];
    r.scenario("interval-n3", "n=3, all digraphs, every link one of 3 functions, 2 orders, 1, 24 or 96 buckets, 5 departure times", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[1, 2, 3]);
        let k = ctx.pick_from(&[24, 96]);
        ctx.outcome(&(g.edges(), k));
        interval_min(ctx, &g, ip, ideps, k, None, &[])
    });
    r.scenario("interval-n4", "n=4, all digraph topologies, functions chosen by the end nodes, 2 orders, 5 buckets or 24 merged to 3 (thorough: 2 assignments, buckets 1, 5, 24, 24 merged to 3, 96 merged to 7)", |ctx| {
        let a = ctx.pick(if th { 2 } else { 1 });
        let g = all_topologies(ctx, 4, move |x, y| ((x * 5 + y * 3 + a * (x + 2 * y)) % 4) as u32);
        let (k, to) = if th { ctx.pick_from(&[(1, None), (5, None), (24, None), (24, Some(3)), (96, Some(7))]) } else { ctx.pick_from(&[(5, None), (24, Some(3))]) };
        ctx.outcome(&(g.edges(), k, to));
        interval_min(ctx, &g, ip, &ideps[1..4], k, to, &[])
    });
    r.scenario(
        "live-n3",
        "n=3, all digraphs, every link one of 2 functions, live values absent, fast, slow or closed, ending after 10 minutes or two hours, departure at the time of the live data",
        |ctx| {
            let g = all_digraphs(ctx, 3, false, &[1, 3]);
            let dep = ctx.pick_from(&[9 * H + 1_800_000, 12 * H - 1_000_000]);
            let opts = [None, Some(None), Some(Some(2_000)), Some(Some(2_000_000))];
            let shift = ctx.pick(4);
            let lives: Vec<_> = (0..3).map(|i| opts[(shift + i * 3) % 4]).collect();
            ctx.note(|| format!("departure {}, live values {:?}", dep, lives));
            ctx.outcome(&(g.edges(), dep, shift));
            interval_min(ctx, &g, ip, &[dep], 24, None, &lives)
        },
    );
    r.scenario(
        "cells",
        "road graphs with 66 to 74 nodes, so that customization goes parallel on cells of the separator tree, with and without live values, 1 worker thread (thorough: more graphs)",
        |ctx| {
            let seed = ctx.pick(if th { 60 } else { 12 });
            let (a, b) = [(7, 8), (10, 5), (6, 9)][seed % 3];
            let mut g = road_graph(a, b, seed as u64, 4);
            for w in &mut g.weight {
                *w -= 1;
            }
            let dep = ctx.pick_from(&[9 * H + 1_800_000, 12 * H - 1_000_000]);
            let opts = [None, Some(None), None, Some(Some(2_000)), Some(Some(2_000_000)), None, None];
            let shift = ctx.pick(if th { 7 } else { 4 });
            let lives: Vec<_> = (0..7).map(|i| opts[(shift + i * 3) % 7]).collect();
            ctx.note(|| format!("road graph {} ({} nodes), departure {}, live values {:?}", seed, g.n, dep, lives));
            ctx.outcome(&(g.edges(), dep, shift));
            default_schedule(1, || interval_min_with(ctx, &g, nd_order(&g), ip, &[dep], 24, None, &lives))
        },
    );
    r.finish();
}
