//! C10: the multi-threaded bidirectional search is exact under every interleaving of its two threads.
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::query::MultiThreadedBiDirSkipLowDegServer;
use rust_road_router::algo::topocore::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::first_out_graph::OwnedGraph;
use rust_road_router::datastr::graph::*;
use std::sync::Arc;
use vharness::conc::{explore, Model};
use vharness::gen::*;
use vharness::oracle::*;
use vharness::*;

/// potential from a table of distances, `d[v][t]`
#[derive(Clone)]
struct Table {
    d: Arc<Vec<Vec<u32>>>,
    target: usize,
}
impl Potential for Table {
    fn init(&mut self, target: NodeId) {
        self.target = target as usize;
    }
    fn potential(&mut self, node: NodeId) -> Option<Weight> {
        let d = self.d[node as usize][self.target];
        if d < INF {
            Some(d)
        } else {
            None
        }
    }
}

#[derive(Clone)]
struct Zero;
impl BiDirPotential for Zero {
    fn init(&mut self, s: NodeId, t: NodeId) {
        BiDirZeroPot.init(s, t)
    }
    fn stop(&mut self, f: Option<Weight>, b: Option<Weight>, d: Weight) -> bool {
        BiDirZeroPot.stop(f, b, d)
    }
    fn forward_potential(&mut self, n: NodeId) -> Option<Weight> {
        BiDirZeroPot.forward_potential(n)
    }
    fn backward_potential(&mut self, n: NodeId) -> Option<Weight> {
        BiDirZeroPot.backward_potential(n)
    }
    fn prune_forward(&mut self, h: NodeIdT, d: Weight, r: Weight, m: Weight) -> bool {
        BiDirZeroPot.prune_forward(h, d, r, m)
    }
    fn prune_backward(&mut self, h: NodeIdT, d: Weight, r: Weight, m: Weight) -> bool {
        BiDirZeroPot.prune_backward(h, d, r, m)
    }
    fn bidir_pot_key() -> &'static str {
        "Zero"
    }
}

#[derive(Clone, Copy, Debug)]
enum Pot {
    Zero,
    Symmetric,
    SymmetricImproved,
    Average,
    AverageImproved,
    Recycling,
    Permutated,
}
const POTS: [Pot; 7] = [Pot::SymmetricImproved, Pot::Symmetric, Pot::AverageImproved, Pot::Average, Pot::Zero, Pot::Permutated, Pot::Recycling];

struct Case {
    vg: VirtualTopocoreGraph<OwnedGraph>,
    order: rust_road_router::datastr::node_order::NodeOrder,
    pg: G,
    pd: Vec<Vec<u32>>,
}

fn prepare(g: &G) -> Case {
    let d = dist_matrix(g);
    let og = g.owned();
    let (vg, _, topo) = VirtualTopocoreGraph::<OwnedGraph>::new(&og);
    let order = topo.order.clone();
    let mut e = vec![];
    for v in 0..g.n as u32 {
        for l in LinkIterable::<Link>::link_iter(&vg, v) {
            e.push((v, l.node, l.weight));
        }
    }
    let pg = G::from_edges(g.n, &e);
    let pd = (0..g.n).map(|s| (0..g.n).map(|t| d[order.node(s as u32) as usize][order.node(t as u32) as usize]).collect()).collect();
    Case { vg, order, pg, pd }
}

fn lower(g: &G, scale: u32) -> G {
    g.with_weights(g.weight.iter().enumerate().map(|(i, &w)| match scale {
        0 => w,
        1 => w / 2,
        _ => if i % 2 == 0 { w } else { w / 3 },
    }).collect())
}

#[derive(Clone, Copy)]
struct Q {
    from: u32,
    to: u32,
    cap: u32,
    pot_cap: Option<u32>,
}

/// all schedules of the last query; the ones before run one thread after the other
fn explore_queries<P: BiDirPotential + Clone + Send>(ctx: &mut Ctx, c: &Case, pot: P, qs: &[Q], model: Model, bound: Option<u8>) -> Result<(), String> {
    let name = format!("{:?}", qs.iter().map(|q| (q.from, q.to)).collect::<Vec<_>>());
    let (last, before) = qs.split_last().unwrap();
    let mut outcomes = std::collections::HashSet::new();
    let ex = explore(
        model,
        bound,
        || {
            let mut s = MultiThreadedBiDirSkipLowDegServer::new(c.vg.clone(), pot.clone());
            for q in before {
                s.distance_with_cap(Query { from: q.from, to: q.to }, q.cap, q.pot_cap);
            }
            s
        },
        |mut s| {
            let want = c.pd[last.from as usize][last.to as usize];
            let mut r = s.distance_with_cap(Query { from: last.from, to: last.to }, last.cap, last.pot_cap);
            let got = r.distance();
            if last.cap == INF && last.pot_cap.is_none() {
                ensure!(got == if want < INF { Some(want) } else { None }, "queries {} (reordered ids): distance {:?} instead of {}", name, got, want);
            } else if want < last.cap {
                ensure!(got == Some(want), "queries {} (cap {}, {:?}): distance {:?} instead of {}", name, last.cap, last.pot_cap, got, want);
            }
            if got.is_some() && want < last.cap {
                let p = r.node_path().ok_or("no path")?;
                check_node_path(&c.pg, last.from, last.to, want, &p).map_err(|e| format!("queries {}: {}", name, e))?;
                let e: Vec<u32> = r.edge_path().ok_or("no edge path")?.into_iter().map(|EdgeIdT(e)| e).collect();
                check_edge_path(&c.pg, last.from, last.to, want, &e).map_err(|e| format!("queries {}: {}", name, e))?;
                outcomes.insert(p);
            }
            Ok(())
        },
    )?;
    ctx.count("schedules", ex.executions);
    ctx.count("interleaving_states", ex.states);
    ctx.steps(ex.transitions);
    for o in outcomes {
        ctx.outcome(&o);
    }
    Ok(())
}

fn run(ctx: &mut Ctx, g: &G, c: &Case, pot: Pot, scale: u32, qs: &[Q], model: Model, bound: Option<u8>) -> Result<(), String> {
    let l = lower(g, scale);
    let d = dist_matrix(&l);
    ctx.note(|| format!("graph n={} edges={:?} reordered {:?} potential {:?} (scale {}) model {:?}", g.n, g.edges(), c.pg.edges(), pot, scale, model));
    let perm = |rev: bool| -> Arc<Vec<Vec<u32>>> {
        Arc::new(
            (0..g.n)
                .map(|v| {
                    (0..g.n)
                        .map(|t| {
                            let (a, b) = (c.order.node(v as u32) as usize, c.order.node(t as u32) as usize);
                            if rev {
                                d[b][a]
                            } else {
                                d[a][b]
                            }
                        })
                        .collect()
                })
                .collect(),
        )
    };
    let f = Table { d: perm(false), target: 0 };
    let b = Table { d: perm(true), target: 0 };
    match pot {
        Pot::Zero => explore_queries(ctx, c, Zero, qs, model, bound),
        Pot::Symmetric => explore_queries(ctx, c, SymmetricBiDirPotential::<_, _, false>::new(f, b), qs, model, bound),
        Pot::SymmetricImproved => explore_queries(ctx, c, SymmetricBiDirPotential::<_, _, true>::new(f, b), qs, model, bound),
        Pot::Average => explore_queries(ctx, c, AveragePotential::<_, _, false>::new(f, b), qs, model, bound),
        Pot::AverageImproved => explore_queries(ctx, c, AveragePotential::<_, _, true>::new(f, b), qs, model, bound),
        Pot::Recycling => {
            let p = SymmetricBiDirPotential::<_, _, true>::new(RecyclingPotential::new(f), RecyclingPotential::new(b));
            explore_queries(ctx, c, p, qs, model, bound)
        }
        Pot::Permutated => {
            let f = Table { d: Arc::new(d.clone()), target: 0 };
            let b = Table { d: Arc::new((0..g.n).map(|v| (0..g.n).map(|t| d[t][v]).collect()).collect()), target: 0 };
            let p = PotentialForPermutated { potential: SymmetricBiDirPotential::<_, _, true>::new(f, b), order: c.order.clone() };
            explore_queries(ctx, c, p, qs, model, bound)
        }
    }
}

fn weighted(ctx: &mut Ctx, n: usize, edges: &[(u32, u32)], weights: &[u32]) -> G {
    let mut e = vec![];
    for &(a, b) in edges {
        let w = ctx.pick_from(weights);
        e.push((a, b, w));
        e.push((b, a, w));
    }
    G::from_edges(n, &e)
}

fn complete(n: u32) -> Vec<(u32, u32)> {
    (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect()
}

fn free(from: u32, to: u32) -> Q {
    Q { from, to, cap: INF, pot_cap: None }
}

fn main() {
    let mut r = Report::new("C10");
    r.assume("the threads interact only through the atomics of the server; atomics of the library behave like sequentially consistent or x86-TSO memory");
    let th = r.thorough();
    for model in [Model::Sc, Model::Tso] {
        let name = |s: &str| format!("{}-{:?}", s, model).to_lowercase();
        r.scenario(&name("k5"), "complete graph on 5 nodes, all weights from {1,4} of 6 (TSO: 3) edges (thorough: 9, edge between source and target: 9), two potentials (half of the distances), one query, all interleavings", move |ctx| {
            let pot = ctx.pick_from(&[Pot::SymmetricImproved, Pot::AverageImproved]);
            let edges: Vec<_> = complete(5).into_iter().filter(|&e| e != (0, 4)).collect();
            let k = if th { 0 } else if model == Model::Sc { 3 } else { 6 };
            let mut g = weighted(ctx, 5, &edges[k..], &[1, 4]);
            let mut e = g.edges();
            e.extend([(0, 4, 9), (4, 0, 9)]);
            for &(a, b) in &edges[..k] {
                e.extend([(a, b, 2), (b, a, 2)]);
            }
            g = G::from_edges(5, &e);
            let c = prepare(&g);
            run(ctx, &g, &c, pot, 1, &[free(0, 4)], model, None)
        });
        r.scenario(&name("k5-pots"), "complete graph on 5 nodes, edge weights from {1,3}, all potentials with exact, half and mixed values, one query, at most 2 preemptions (thorough: 3)", move |ctx| {
            let pot = ctx.pick_from(&POTS);
            let scale = ctx.pick(3) as u32;
            let g = weighted(ctx, 5, &complete(5), &[1, 3]);
            let c = prepare(&g);
            run(ctx, &g, &c, pot, scale, &[free(0, 4)], model, Some(if th { 3 } else { 2 }))
        });
        r.scenario(&name("n4"), "all digraphs on 4 nodes, 2 metrics, 3 potentials, all pairs of nodes, at most 2 (TSO: 1, thorough: 4) preemptions", move |ctx| {
            let pot = ctx.pick_from(&[Pot::SymmetricImproved, Pot::AverageImproved, Pot::Zero]);
            let m = ctx.pick_from(&[w_mix as fn(usize, usize) -> u32, w_one]);
            let g = all_topologies(ctx, 4, m);
            if !g.edges().iter().any(|e| e.0 != e.1) {
                return Ok(());
            }
            let c = prepare(&g);
            let from = ctx.pick(4) as u32;
            let to = ctx.pick(4) as u32;
            run(ctx, &g, &c, pot, 1, &[free(from, to)], model, Some(if th { 4 } else if model == Model::Sc { 2 } else { 1 }))
        });
        r.scenario(&name("oneway"), "complete graph on 5 nodes, some of the edges one way (all combinations of 3 directions for 5 edges), all pairs of nodes, at most 2 (3) preemptions", move |ctx| {
            let pot = ctx.pick_from(&[Pot::SymmetricImproved, Pot::Average]);
            let mut e = vec![];
            for (i, (a, b)) in complete(5).into_iter().enumerate() {
                let w = [1, 6, 2, 5, 1, 3][i % 6];
                match if i < 5 { ctx.pick(3) } else { i % 3 } {
                    0 => e.extend([(a, b, w), (b, a, w + 2)]),
                    1 => e.push((a, b, w)),
                    _ => e.push((b, a, w)),
                }
            }
            let g = G::from_edges(5, &e);
            let c = prepare(&g);
            let from = ctx.pick(5) as u32;
            let to = ctx.pick(5) as u32;
            run(ctx, &g, &c, pot, 1, &[free(from, to)], model, Some(if th { 3 } else { 2 }))
        });
        r.scenario(&name("caps"), "complete graph on 5 nodes, every cap around the distance (query and potential), at most 2 preemptions (thorough: 4)", move |ctx| {
            let pot = ctx.pick_from(&[Pot::SymmetricImproved, Pot::AverageImproved, Pot::Recycling]);
            let scale = ctx.pick(2) as u32;
            let edges: Vec<_> = complete(5).into_iter().filter(|&e| e != (0, 4)).collect();
            let g = {
                let g = weighted(ctx, 5, &edges[..4], &[1, 4]);
                let mut e = g.edges();
                for (i, &(a, b)) in edges[4..].iter().enumerate() {
                    let w = [2, 5, 1, 3, 2][i % 5];
                    e.extend([(a, b, w), (b, a, w)]);
                }
                G::from_edges(5, &e)
            };
            let c = prepare(&g);
            let want = c.pd[0][4];
            let cap = ctx.pick_from(&[want - 1, want, want + 1, want + 2, INF]);
            let pot_cap = ctx.pick_from(&[None, Some(want), Some(want + 1)]);
            run(ctx, &g, &c, pot, scale, &[Q { from: 0, to: 4, cap, pot_cap }], model, Some(if th { 4 } else { 2 }))
        });
        r.scenario(&name("history"), "sequences of 2 queries on the same server, second one in all interleavings with at most 2 preemptions", move |ctx| {
            let pot = ctx.pick_from(&[Pot::SymmetricImproved, Pot::Recycling]);
            let mut e = vec![];
            for (i, (a, b)) in complete(5).into_iter().enumerate() {
                let w = [1, 6, 2, 5, 1, 3][i % 6];
                e.extend([(a, b, w), (b, a, w + 2)]);
            }
            let g = G::from_edges(5, &e);
            let c = prepare(&g);
            let mut q = vec![];
            for _ in 0..2 {
                let p = ctx.pick(25) as u32;
                let cap = if q.is_empty() { ctx.pick_from(&[INF, 3]) } else { INF };
                q.push(Q { from: p / 5, to: p % 5, cap, pot_cap: None });
            }
            run(ctx, &g, &c, pot, 1, &q, model, Some(if th { 3 } else { 2 }))
        });
        r.scenario(&name("dense"), "complete graphs on 6 and 7 nodes and two complete graphs sharing 2 nodes, several metrics, all potentials, at most 2 preemptions (thorough: 3)", move |ctx| {
            let pot = ctx.pick_from(&POTS);
            let edges: Vec<(u32, u32)> = match ctx.pick(3) {
                0 => complete(6),
                1 => complete(7),
                _ => complete(8).into_iter().filter(|&(a, b)| (a < 5 && b < 5) || (a >= 3 && b >= 3)).collect(),
            };
            let n = 1 + edges.iter().map(|e| e.1).max().unwrap() as usize;
            let mut rng = Lcg(1 + ctx.pick(if th { 200 } else { 20 }) as u64);
            let mw = ctx.pick_from(&[2u32, 10]);
            let mut e = vec![];
            for &(a, b) in &edges {
                let w = 1 + (rng.next() % mw);
                e.extend([(a, b, w), (b, a, w)]);
            }
            let g = G::from_edges(n, &e);
            let c = prepare(&g);
            run(ctx, &g, &c, pot, 1, &[free(0, n as u32 - 1)], model, Some(if th { 3 } else { 2 }))
        });
    }
    r.finish();
}
