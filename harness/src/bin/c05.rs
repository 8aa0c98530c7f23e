//! C05: results of parallel preprocessing do not depend on the schedule of its tasks.
use rust_road_router::algo::customizable_contraction_hierarchy::query::Server;
use rust_road_router::algo::customizable_contraction_hierarchy::customization::always_infinity;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::metric_merging::merge;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sched::*;
use vharness::sut::*;
use vharness::*;

type Unpack = Vec<Option<(u32, u32)>>;

#[derive(Clone, PartialEq, Eq, Hash)]
struct Side {
    tail: Vec<u32>,
    head: Vec<u32>,
    weight: Vec<u32>,
    unpack: Unpack,
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct Snap {
    fw: Side,
    bw: Side,
}

fn snap<C: Customized>(c: &C, unpack: bool) -> Snap {
    let unp = |u: &[(InRangeOption<u32>, InRangeOption<u32>)]| -> Unpack {
        u.iter().map(|(d, u)| d.value().map(|d| (d, u.value().unwrap()))).filter(|_| unpack).collect()
    };
    let (f, b) = (c.forward_graph(), c.backward_graph());
    Snap {
        fw: Side {
            tail: c.forward_tail().to_vec(),
            head: f.head().to_vec(),
            weight: f.weight().to_vec(),
            unpack: unp(c.forward_unpacking()),
        },
        bw: Side {
            tail: c.backward_tail().to_vec(),
            head: b.head().to_vec(),
            weight: b.weight().to_vec(),
            unpack: unp(c.backward_unpacking()),
        },
    }
}

/// unpacking information may differ between schedules, but has to describe a lower triangle of the same weight.
/// Directed perfect customization may keep edges that are no shortest paths and refer to removed edges.
fn valid_unpacking(s: &Snap, useless: Option<&dyn Fn(u32, u32, u32) -> bool>) -> Result<(), String> {
    for (name, side, down_up) in [("upward", &s.fw, true), ("downward", &s.bw, false)] {
        for e in 0..side.unpack.len() {
            if let Some((down, up)) = side.unpack[e] {
                let (d, u) = (down as usize, up as usize);
                if let (true, Some(f)) = (d >= s.bw.head.len() || u >= s.fw.head.len(), useless) {
                    let (t, h) = (side.tail[e], side.head[e]);
                    if (if down_up { f(t, h, side.weight[e]) } else { f(h, t, side.weight[e]) }) {
                        continue;
                    }
                }
                ensure!(d < s.bw.head.len() && u < s.fw.head.len(), "{} edge {}: unpacks to invalid edges {} {}", name, e, d, u);
                let (t, h) = if down_up { (side.tail[e], side.head[e]) } else { (side.head[e], side.tail[e]) };
                ensure!(
                    s.bw.tail[d] == s.fw.tail[u] && s.bw.head[d] == t && s.fw.head[u] == h && s.bw.weight[d] + s.fw.weight[u] == side.weight[e],
                    "{} edge {} ({}->{}, {}) unpacks to {}->{} ({}), {}->{} ({})",
                    name,
                    e,
                    t,
                    h,
                    side.weight[e],
                    s.bw.head[d],
                    s.bw.tail[d],
                    s.bw.weight[d],
                    s.fw.tail[u],
                    s.fw.head[u],
                    s.fw.weight[u]
                );
            }
        }
    }
    Ok(())
}

fn same(ctx: &mut Ctx, p: &Prep, op: usize, got: &Snap) -> Result<(), String> {
    let want = &p.want[op];
    ctx.steps((got.fw.weight.len() + got.bw.weight.len()) as u64);
    ctx.outcome(got);
    if want == got {
        return Ok(());
    }
    for (name, w, g) in [("upward", &want.fw, &got.fw), ("downward", &want.bw, &got.bw)] {
        ensure!(w.head == g.head && w.tail == g.tail, "{} edges depend on the schedule ({} instead of {})", name, g.head.len(), w.head.len());
        if let Some(e) = (0..w.weight.len()).find(|&e| w.weight[e] != g.weight[e]) {
            return Err(format!(
                "{} weight of {}->{} depends on the schedule: {} instead of {}",
                name, w.tail[e], w.head[e], g.weight[e], w.weight[e]
            ));
        }
    }
    p.valid(op, got)
}

fn build(g: &G, order: &[u32]) -> CCH {
    CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order.to_vec()))
}

const OPS: [&str; 5] = ["basic", "perfect", "directed", "directed perfect", "always infinite"];

fn compute(cch: &CCH, g: &G, op: usize) -> Snap {
    let og = g.owned();
    match op {
        0 => snap(&customize(cch, &og), true),
        1 => snap(&customize_perfect(customize(cch, &og)), true),
        2 => snap(&customize_directed(&cch.to_directed_cch(), &og), true),
        3 => snap(&customize_directed_perfect(customize_directed(&cch.to_directed_cch(), &og)), true),
        _ => snap(&always_infinity(cch), false),
    }
}

struct Prep {
    g: G,
    d: Vec<Vec<u32>>,
    cch: CCH,
    want: Vec<Snap>,
}
impl Prep {
    fn valid(&self, op: usize, s: &Snap) -> Result<(), String> {
        let order = self.cch.node_order().order();
        let useless = |a: u32, b: u32, w: u32| w > self.d[order[a as usize] as usize][order[b as usize] as usize];
        valid_unpacking(s, if op == 3 { Some(&useless) } else { None })
    }
}

fn graphs() -> Vec<(&'static str, G)> {
    vec![
        ("path of 64 nodes", path_graph(64, w_mix)),
        ("grid 8x8", grid_graph(8, 8, w_mix)),
        ("road network 8x9", road_graph(8, 9, 3, 50)),
        ("grid 4x20, zero weights", grid_graph(4, 20, w_zero)),
    ]
}

fn main() {
    let mut r = Report::new("C05");
    r.assume("tasks of the thread pool are executed one after the other (every order and nesting that a work stealing pool allows, within the bound on deviations), not interleaved within tasks");
    let th = r.thorough();
    let preps: Vec<(&'static str, Prep)> = graphs()
        .into_iter()
        .map(|(name, g)| {
            let order = nd_order(&g);
            let cch = build(&g, &order);
            // reference: one cell, that is a sequential run
            let want = (0..OPS.len()).map(|op| default_schedule(64, || compute(&cch, &g, op))).collect();
            let d = dist_matrix_sparse(&g);
            (name, Prep { g, d, cch, want })
        })
        .collect();
    let preps = &preps;
    r.scenario("reference", "sequential results answer all queries exactly (sampled nodes)", |ctx| {
        let (name, p) = &preps[ctx.pick(preps.len())];
        ctx.note(|| name.to_string());
        let d = &p.d;
        for op in 0..OPS.len() {
            p.valid(op, &p.want[op])?;
        }
        let og = p.g.owned();
        for perfect in [false, true] {
            let c = default_schedule(64, || customize(&p.cch, &og));
            if perfect {
                let mut s = Server::new(customize_perfect(c));
                check_all_pairs(ctx, "reference", &p.g, d, qs!(s), false)?;
            } else {
                let mut s = Server::new(c);
                check_all_pairs(ctx, "reference", &p.g, d, qs!(s), false)?;
            }
        }
        Ok(())
    });
    for (name, bounds, graphs, ops, budget, threads) in [
        ("delay1", "all schedules with one deviation, 4 graphs with 64 to 80 nodes, 5 customizations, 1 to 3 worker threads", preps.len(), OPS.len(), 1usize, 3usize),
        ("delay2", "all schedules with at most 2 deviations, 4 graphs with 64 to 80 nodes, 5 customizations, 1 worker thread", preps.len(), OPS.len(), 2, 1),
        ("delay3", "all schedules with at most 3 deviations, path of 64 nodes (thorough: all graphs), basic customization", if th { preps.len() } else { 1 }, 1, 3, 1),
    ] {
        r.scenario(name, bounds, move |ctx| {
            let (name, p) = &preps[ctx.pick(graphs)];
            let op = ctx.pick(ops);
            let threads = 1 + ctx.pick(threads);
            let got = with_schedule(ctx, threads, budget, || compute(&p.cch, &p.g, op));
            ctx.note(|| format!("{}, {} customization, {} threads", name, OPS[op], threads));
            ctx.state();
            same(ctx, p, op, &got)
        });
    }
    // groups have to be the greedy clustering, whatever the order in which differences are computed
    fn greedy(metrics: &[Vec<u32>], target: usize) -> Vec<Vec<usize>> {
        let mut groups: Vec<Vec<usize>> = (0..metrics.len()).map(|i| vec![i]).collect();
        let m = metrics[0].len();
        let mut alive = metrics.len();
        while alive > target && alive > 1 {
            let mut best = None;
            for i in 0..groups.len() {
                for j in i + 1..groups.len() {
                    if !groups[i].is_empty() && !groups[j].is_empty() {
                        let low = |g: &Vec<usize>, e: usize| g.iter().map(|&x| metrics[x][e]).min().unwrap();
                        let d: u128 = (0..m).map(|e| (low(&groups[i], e).abs_diff(low(&groups[j], e)) as u128).pow(2)).sum::<u128>().min(u64::MAX as u128);
                        if best.map_or(true, |(b, _, _)| d < b) {
                            best = Some((d, i, j));
                        }
                    }
                }
            }
            let (_, i, j) = best.unwrap();
            let t = std::mem::take(&mut groups[j]);
            groups[i].extend(t);
            alive -= 1;
        }
        groups.retain(|g| !g.is_empty());
        groups
    }
    for (name, bounds, k, m, w, budget) in [
        ("merge3", "metric merging: 3 metrics on 2 edges, weights {0,1,4}, all schedules", 3usize, 2usize, vec![0u32, 1, 4], 99usize),
        ("merge4", "metric merging: 4 metrics on 2 edges, weights {1,3}, all targets, at most 2 deviations", 4, 2, vec![1, 3], 2),
        ("merge-closed", "metric merging: 3 metrics on 5 edges, weights {1, closed}, at most 1 deviation", 3, 5, vec![1, INF], 1),
    ] {
        r.scenario(name, bounds, move |ctx| {
            let metrics: Vec<Vec<u32>> = (0..k).map(|_| (0..m).map(|_| ctx.pick_from(&w)).collect()).collect();
            let target = 1 + ctx.pick(k);
            ctx.note(|| format!("metrics {:?}, merge to {}", metrics, target));
            let refs: Vec<&[u32]> = metrics.iter().map(|m| &m[..]).collect();
            let got = with_schedule(ctx, 2, budget, || merge(&refs, target));
            ctx.step();
            ctx.state();
            let mut all: Vec<usize> = got.iter().flatten().copied().collect();
            all.sort_unstable();
            ensure!(all == (0..k).collect::<Vec<_>>() && got.len() == target, "groups {:?} are no partition into {} groups", got, target);
            let norm = |g: Vec<Vec<usize>>| {
                let mut g: Vec<Vec<usize>> = g.into_iter().map(|mut x| { x.sort_unstable(); x }).collect();
                g.sort();
                g
            };
            let (got, want) = (norm(got), norm(greedy(&metrics, target)));
            ctx.outcome(&got);
            if got != want {
                // ties may be broken differently, but every schedule has to break them the same way
                let other = norm(default_schedule(1, || merge(&refs, target)));
                ensure!(got == other, "groups depend on the schedule: {:?} instead of {:?}", got, other);
                return Err(format!("groups {:?} instead of {:?}", got, want));
            }
            Ok(())
        });
    }
    r.finish();
}
