//! C04: metric updates. One metric independent preprocessing serves any history of metrics, and a server
//! answers with the metric of the last update only, whatever was queried before.
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::query::Server;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::a_star::Potential;
use rust_road_router::algo::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sut::*;
use vharness::*;

const VARIANTS: [&str; 4] = ["basic", "perfect", "directed", "directed perfect"];

/// the metrics a history may switch between: cheap, reversed preferences, closed links, zero weights
fn metric(g: &G, k: usize) -> G {
    let t = g.tails();
    g.with_weights(
        (0..g.m())
            .map(|e| {
                let (a, b) = (t[e] as usize, g.head[e] as usize);
                match k {
                    0 => w_mix(a, b),
                    1 => 10 - w_mix(a, b).min(10),
                    2 => {
                        if (a + 2 * b) % 3 == 0 {
                            INF
                        } else {
                            1 + (a * 3 + b) as u32 % 4
                        }
                    }
                    3 => 0,
                    _ => {
                        if (2 * a + b) % 3 == 1 {
                            INF
                        } else {
                            7
                        }
                    }
                }
            })
            .collect(),
    )
}

struct Hist<'a> {
    ctx: &'a mut Ctx,
    ms: Vec<(G, Vec<Vec<u32>>)>,
    log: Vec<String>,
}

/// rounds of: update to a metric, some queries; finally everything is checked
fn history<C>(h: &mut Hist, rounds: usize, queries: usize, cust: impl Fn(&G) -> C) -> Result<(), String>
where
    C: Customized,
{
    let k = h.ms.len();
    let n = h.ms[0].0.n;
    let mut cur = h.ctx.pick(k);
    h.log.push(format!("start with metric {}", cur));
    let mut s = Server::new(cust(&h.ms[cur].0));
    for round in 0..rounds {
        for _ in 0..queries {
            let (from, to, path) = (h.ctx.pick(n), h.ctx.pick(n), h.ctx.flag());
            h.log.push(format!("query {}->{}{}", from, to, if path { " with path" } else { "" }));
            let (g, d) = &h.ms[cur];
            check_query(h.ctx, "CCH server", g, d, qs!(s), from, to, path)?;
        }
        if round + 1 < rounds || queries == 0 {
            cur = h.ctx.pick(k);
            h.log.push(format!("update to metric {}", cur));
            s.update(cust(&h.ms[cur].0));
        }
    }
    let (g, d) = &h.ms[cur];
    h.ctx.outcome(&(g.edges(), cur));
    check_all_pairs(h.ctx, "CCH server", g, d, qs!(s), true)
}

fn run(ctx: &mut Ctx, g: &G, order: &[u32], nmetrics: usize, rounds: usize, queries: usize) -> Result<(), String> {
    let og = g.owned();
    let variant = ctx.pick(VARIANTS.len());
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(order.to_vec()));
    let ms: Vec<_> = (0..nmetrics)
        .map(|k| {
            let m = metric(g, k);
            let d = dist_matrix_sparse(&m);
            (m, d)
        })
        .collect();
    let mut h = Hist { ctx, ms, log: vec![] };
    let res = match variant {
        0 => history(&mut h, rounds, queries, |m| customize(&cch, &m.owned())),
        1 => history(&mut h, rounds, queries, |m| customize_perfect(customize(&cch, &m.owned()))),
        2 => {
            let dir = cch.to_directed_cch();
            history(&mut h, rounds, queries, |m| customize_directed(&dir, &m.owned()))
        }
        _ => {
            let dir = cch.to_directed_cch();
            history(&mut h, rounds, queries, |m| customize_directed_perfect(customize_directed(&dir, &m.owned())))
        }
    };
    let log = h.log;
    ctx.note(|| format!("n={} links={:?} order={:?}, {} customization: {}", g.n, g.edges(), order, VARIANTS[variant], log.join(", ")));
    ctx.state();
    res
}

fn main() {
    let mut r = Report::new("C04");
    r.assume("weights below 2^31-1 (the value reserved for unreachable/closed), path lengths too");
    let th = r.thorough();
    r.scenario("n3", "n=3, all digraph topologies, all orders, 4 variants, 3 metrics (one with closed links), all histories query-update-query-all pairs", |ctx| {
        let g = all_topologies(ctx, 3, w_one);
        let order = ctx.permutation(3);
        run(ctx, &g, &order, 3, 2, 1)
    });
    r.scenario("n4", "n=4, all undirected topologies, 4 variants, 2 orders, 5 metrics, all update histories of length 4 (thorough: n=4 digraphs)", |ctx| {
        let g = if th { all_topologies(ctx, 4, w_one) } else { all_undirected(ctx, 4, w_one) };
        let order = orders_of(4, ctx.pick(2) * 3);
        run(ctx, &g, &order, 5, 3, 0)
    });
    r.scenario("n2-deep", "n=2, both links, 3 metrics, histories of 3 updates with 2 queries in between", |ctx| {
        let g = all_topologies(ctx, 2, w_one);
        let order = ctx.permutation(2);
        run(ctx, &g, &order, 3, if th { 3 } else { 2 }, 2)
    });
    r.scenario("families", "road networks, grids with nested dissection orders up to 80 nodes, 5 metrics, histories of 2 updates", |ctx| {
        let g = match ctx.pick(3) {
            0 => road_graph(6, 6, 5, 30),
            1 => grid_graph(8, 10, w_mix),
            _ => path_graph(70, w_mix),
        };
        let order = nd_order(&g);
        run(ctx, &g, &order, 5, 2, 0)
    });
    // potentials of different metrics on one CCH do not influence each other
    r.scenario("potentials", "n=3, all digraph topologies, all orders, two metrics: interleaved potentials on one CCH", |ctx| {
        let g = all_topologies(ctx, 3, w_one);
        let order = ctx.permutation(3);
        let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order.clone()));
        let (a, b) = (ctx.pick(5), ctx.pick(5));
        let seq: Vec<(usize, usize)> = (0..3).map(|_| (ctx.pick(2), ctx.pick(3))).collect();
        ctx.note(|| format!("links={:?} order={:?} metrics {} {}, (metric, target) sequence {:?}", g.edges(), order, a, b, seq));
        let ms = [metric(&g, a), metric(&g, b)];
        let ds = [dist_matrix_sparse(&ms[0]), dist_matrix_sparse(&ms[1])];
        let (oa, ob) = (ms[0].owned(), ms[1].owned());
        let data = [CCHPotData::new(&cch, &oa), CCHPotData::new(&cch, &ob)];
        let mut pots = [data[0].forward_potential(), data[1].forward_potential()];
        ctx.state();
        ctx.outcome(&(&ds, g.edges()));
        for (m, t) in seq {
            pots[m].init(t as u32);
            for v in 0..3 {
                ctx.step();
                let got = pots[m].potential(v as u32);
                ensure!(got == opt(ds[m][v][t]), "potential of metric {} from {} to {}: {:?} instead of {:?}", m, v, t, got, opt(ds[m][v][t]));
            }
        }
        Ok(())
    });
    r.finish();
}
