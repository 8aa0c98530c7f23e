//! C06: batched shortest path structures (hub labels, RPHAST, SSE-RPHAST, bucket CH) return exact distance tables.
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::hl::HubLabels;
use rust_road_router::algo::rphast::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::*;

fn subset(n: usize, mask: usize, rev: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n as u32).filter(|i| mask >> i & 1 == 1).collect();
    if rev {
        v.reverse();
    }
    v
}

/// exercises all structures with the given selections, in this order, on the same objects
fn batch(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], cch: &CCH, sels: &[Vec<u32>], perfect: bool) -> Result<(), String> {
    let og = g.owned();
    let basic = customize(cch, &og);
    if perfect {
        run(ctx, g, d, &customize_perfect(basic), sels, true)
    } else {
        run(ctx, g, d, &basic, sels, false)
    }
}

fn run<C: Customized<CCH = CCH>>(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], c: &C, sels: &[Vec<u32>], perfect: bool) -> Result<(), String> {
    let order = c.cch().node_order().clone();
    let n = g.n as u32;
    if perfect {
        // hub labels are built from a CH, which has no infinite links
        let hl = HubLabels::new(&finite(&c.forward_graph()), &finite(&c.backward_graph()));
        for s in 0..n {
            for t in 0..n {
                ctx.step();
                let want = opt(d[s as usize][t as usize]);
                let got = hl.dist(order.rank(s), order.rank(t));
                ensure!(got == want, "hub labels: distance {}->{} is {:?}, should be {:?}", s, t, got, want);
                let hd = hl.hub_and_dist(order.rank(s), order.rank(t));
                ensure!(hd.map(|(_, x)| x) == want, "hub labels: hub and distance {}->{} is {:?}, should be {:?}", s, t, hd, want);
                if let Some((hub, dist)) = hd {
                    let h = order.node(hub) as usize;
                    ensure!(d[s as usize][h] + d[h][t as usize] == dist, "hub labels: hub {} of {}->{} does not lie on a shortest path", h, s, t);
                }
            }
        }
    }
    let mut to_targets = RPHAST::new(c.forward_graph(), c.backward_graph(), order.clone());
    let mut from_targets = RPHAST::new(c.backward_graph(), c.forward_graph(), order.clone());
    let mut q1 = RPHASTQuery::new(&to_targets);
    let mut q2 = RPHASTQuery::new(&from_targets);
    let mut sse = SSERPHASTQuery::new(&to_targets);
    let mut bucket = BucketCHPotential::new(c.forward_graph(), c.backward_graph(), order.clone());
    let all: Vec<u32> = (0..n).collect();
    for (i, targets) in sels.iter().enumerate() {
        to_targets.select(targets);
        from_targets.select(targets);
        bucket.init(targets);
        for s in 0..n {
            let r = q1.query(s, &to_targets);
            for &t in targets {
                ctx.step();
                let got = r.distance(t);
                let want = d[s as usize][t as usize];
                ensure!(got == want, "RPHAST: selection #{} {:?}: {}->{} is {}, should be {}", i, targets, s, t, got, want);
            }
            let r = q2.query(s, &from_targets);
            for &t in targets {
                ctx.step();
                let got = r.distance(t);
                let want = d[t as usize][s as usize];
                ensure!(got == want, "backward RPHAST: selection #{} {:?}: {}->{} is {}, should be {}", i, targets, t, s, got, want);
            }
        }
        // sources in batches: all, then each prefix (sizes change between calls)
        let sources: Vec<Vec<u32>> = vec![all.clone(), targets.clone(), vec![(i as u32) % n], all.iter().rev().copied().collect()];
        for src in &sources {
            let r = sse.query(src, &to_targets);
            for &t in targets {
                let got = r.distances(t);
                ensure!(got.len() == src.len(), "SSE RPHAST: {} distances for {} sources", got.len(), src.len());
                for (j, &s) in src.iter().enumerate() {
                    ctx.step();
                    let want = d[s as usize][t as usize];
                    ensure!(got[j] == want, "SSE RPHAST: selection #{} {:?}, sources {:?}: {}->{} is {}, should be {}", i, targets, src, s, t, got[j], want);
                }
            }
        }
        let mut ev = all.clone();
        if i % 2 == 1 {
            ev.reverse();
        }
        for _ in 0..2 {
            for &s in &ev {
                let got = bucket.potential(s);
                ensure!(got.len() == targets.len(), "bucket CH: {} distances for {} targets", got.len(), targets.len());
                for (j, &t) in targets.iter().enumerate() {
                    ctx.step();
                    let want = d[s as usize][t as usize];
                    ensure!(got[j] == want, "bucket CH: selection #{} {:?}: {}->{} is {}, should be {}", i, targets, s, t, got[j], want);
                }
            }
        }
    }
    Ok(())
}

fn finite(g: &impl LinkIterGraph) -> OwnedGraph {
    let mut e = vec![];
    for v in 0..g.num_nodes() as u32 {
        for l in LinkIterable::<Link>::link_iter(g, v) {
            if l.weight < INF {
                e.push((v, l.node, l.weight));
            }
        }
    }
    G::from_edges(g.num_nodes(), &e).owned()
}

fn small(ctx: &mut Ctx, g: &G) -> Result<(), String> {
    let d = dist_matrix(g);
    let order = ctx.permutation(g.n);
    ctx.note(|| format!("n={} edges={:?} order={:?}", g.n, g.edges(), order));
    ctx.state();
    ctx.outcome(&(g.edges(), &d));
    let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order));
    let mut sels = vec![];
    let full = (1 << g.n) - 1;
    for m in 1..=full {
        // every subset after every complement and after itself, in both orders
        sels.push(subset(g.n, m, false));
        sels.push(subset(g.n, full & !m | 1 << (m % g.n), true));
    }
    batch(ctx, g, &d, &cch, &sels, true)?;
    batch(ctx, g, &d, &cch, &sels, false)
}

fn main() {
    let mut r = Report::new("C06");
    r.assume("selections without duplicates; shortest distances below 2^31-1");
    let th = r.thorough();
    r.scenario("n3", "every digraph on 3 nodes, weights {0,1,3}, all orders, all selections in sequence on one object, all sources", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 3]);
        small(ctx, &g)
    });
    r.scenario("n4", "every digraph topology on 4 nodes, mixed metric (thorough: 5 metrics), all 24 orders", |ctx| {
        let f = METRICS[ctx.pick(if th { METRICS.len() } else { 1 })];
        let g = all_topologies(ctx, 4, f);
        small(ctx, &g)
    });
    r.scenario("n5", "every undirected topology on 5 nodes, asymmetric metrics, all orders (quick: 20 fixed by the first 3 positions)", |ctx| {
        let f = METRICS[ctx.pick(if th { METRICS.len() } else { 2 })];
        let g = all_undirected(ctx, 5, f);
        if th {
            small(ctx, &g)
        } else {
            let d = dist_matrix(&g);
            let order = orders_of(5, ctx.pick(8));
            ctx.note(|| format!("n={} edges={:?} order={:?}", g.n, g.edges(), order));
            ctx.state();
            let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order));
            let sels: Vec<Vec<u32>> = (1..32).map(|m| subset(5, m * 11 % 32, m % 2 == 0)).filter(|s| !s.is_empty()).collect();
            batch(ctx, &g, &d, &cch, &sels, true)
        }
    });
    r.scenario("families", "paths, grids, stars, road graphs up to 90 nodes, 6 orders, basic and perfect customization, growing and shrinking selections", |ctx| {
        let fam = [path_graph(20, w_mix), star_graph(9, w_mix), grid_graph(4, 5, w_mix), grid_graph(6, 7, w_zero), complete_graph(7, w_mix), road_graph(5, 6, 1, 20), road_graph(9, 10, 2, 100)];
        let i = ctx.pick(fam.len());
        let g = &fam[i];
        let o = ctx.pick(6);
        let perfect = ctx.flag();
        let d = dist_matrix_sparse(g);
        ctx.note(|| format!("family graph #{} order #{} perfect {}", i, o, perfect));
        ctx.state();
        ctx.outcome(&(i, &d));
        let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(orders_of(g.n, o)));
        let n = g.n as u32;
        let sels: Vec<Vec<u32>> = vec![
            vec![0],
            (0..n).collect(),
            (0..n).step_by(3).collect(),
            (0..n / 2).rev().collect(),
            vec![n - 1, n / 2],
            (n / 2..n).collect(),
        ];
        batch(ctx, g, &d, &cch, &sels, perfect)
    });
    r.finish();
}
