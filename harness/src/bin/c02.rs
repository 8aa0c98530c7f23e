//! C02: contraction hierarchies: distances and paths are exact for every graph and every node order.
use rust_road_router::algo::contraction_hierarchy::{query::Server, *};
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::first_out_graph::FirstOutGraph;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sut::*;
use vharness::*;

/// naive contraction without witness search: the augmented graph in original ids
fn augment(g: &G, order: &[u32]) -> G {
    let n = g.n;
    let mut w = vec![vec![INF as u64; n]; n];
    for (a, b, x) in g.edges() {
        if a != b {
            let c = &mut w[a as usize][b as usize];
            *c = (*c).min(x as u64);
        }
    }
    for (r, &v) in order.iter().enumerate() {
        let v = v as usize;
        let up: Vec<usize> = order[r + 1..].iter().map(|&x| x as usize).collect();
        for &a in &up {
            for &b in &up {
                if a != b {
                    let c = w[a][v] + w[v][b];
                    if c < w[a][b] {
                        w[a][b] = c;
                    }
                }
            }
        }
    }
    let mut e = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b && w[a][b] < INF as u64 {
                e.push((a as u32, b as u32, w[a][b] as u32));
            }
        }
    }
    G::from_edges(n, &e)
}

fn one(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], order: &[u32], all: bool) -> Result<(), String> {
    ctx.state();
    let no = || NodeOrder::from_node_order(order.to_vec());
    let og = g.owned();
    let ch = contract(&og, no());
    let mut s = Server::new(ch, no());
    check_all_pairs(ctx, "CH", g, d, qs!(s), true)?;
    if all {
        let aug = augment(g, order).owned();
        let mut s = Server::new(ContractionHierarchy::from_contracted_graph(aug, &no()), NodeOrder::identity(g.n));
        check_all_pairs(ctx, "CH from contracted graph", g, d, qs!(s), false)?;
        // overlay: contracting the k lowest nodes keeps all distances between the others
        let pick: Vec<usize> = if g.n <= 5 { (0..=g.n).collect() } else { vec![g.n / 4, g.n / 2] };
        for k in pick {
            let (fw, bw) = overlay(&og, no(), k);
            ensure!(fw.num_nodes() == g.n && bw.num_nodes() == g.n, "overlay changed the number of nodes");
            let mut core_fw = vec![];
            let mut core_bw = vec![];
            for v in 0..g.n as u32 {
                for l in LinkIterable::<Link>::link_iter(&fw, v) {
                    ensure!(v >= k as u32 || l.node > v, "overlay {}: contracted node {} keeps a link to lower node {}", k, v, l.node);
                    if v >= k as u32 {
                        ensure!(l.node >= k as u32, "overlay {}: core node {} still linked to contracted node {}", k, v, l.node);
                        core_fw.push((v, l.node, l.weight));
                    }
                }
                for l in LinkIterable::<Link>::link_iter(&bw, v) {
                    if v >= k as u32 {
                        ensure!(l.node >= k as u32, "overlay {}: core node {} still linked from contracted node {}", k, v, l.node);
                        core_bw.push((l.node, v, l.weight));
                    }
                }
            }
            for core in [core_fw, core_bw] {
                ctx.step();
                let cg = G::from_edges(g.n, &core);
                let cd = if g.n <= 8 { dist_matrix(&cg) } else { dist_matrix_sparse(&cg) };
                for a in k..g.n {
                    for b in k..g.n {
                        let want = d[order[a] as usize][order[b] as usize];
                        ensure!(cd[a][b] == want, "overlay with {} contracted nodes: distance {}->{} is {}, should be {}", k, order[a], order[b], cd[a][b], want);
                    }
                }
            }
        }
    }
    ctx.outcome(&(d.to_vec(), order.to_vec()));
    Ok(())
}

fn main() {
    let mut r = Report::new("C02");
    r.assume("edge weights below INFINITY; shortest distances below INFINITY");
    let th = r.thorough();
    r.scenario("n3", "all digraphs on 3 nodes with loops, weights {1,3}, all 6 orders, all pairs", |ctx| {
        let g = all_digraphs(ctx, 3, true, &[1, 3]);
        let d = dist_matrix(&g);
        let o = ctx.permutation(3);
        ctx.note(|| format!("order {:?}", o));
        one(ctx, &g, &d, &o, true)
    });
    r.scenario("n3-weights", "all digraphs on 3 nodes, weights {0,1,4,2^29}, all orders", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 4, 1 << 29]);
        let d = dist_matrix(&g);
        let o = ctx.permutation(3);
        ctx.note(|| format!("order {:?}", o));
        one(ctx, &g, &d, &o, true)
    });
    r.scenario("multi", "all multigraphs on 3 nodes with up to 4 edges (parallel edges and loops), weights {1,4}, all orders", |ctx| {
        let g = all_multigraphs(ctx, 3, 4, true, &[1, 4]);
        let d = dist_matrix(&g);
        let o = ctx.permutation(3);
        ctx.note(|| format!("order {:?}", o));
        one(ctx, &g, &d, &o, true)
    });
    let ms = if th { 5 } else { 2 };
    r.scenario("n4", "all digraphs on 4 nodes, 2 (5) metrics, all 24 orders", move |ctx| {
        let m = ctx.pick(ms);
        let g = all_topologies(ctx, 4, METRICS[m]);
        let d = dist_matrix(&g);
        let o = ctx.permutation(4);
        ctx.note(|| format!("order {:?}", o));
        one(ctx, &g, &d, &o, true)
    });
    r.scenario("n4-w2", "all digraphs on 4 nodes with weights {1,3}, identity order (orders are covered by relabelling)", |ctx| {
        let g = all_digraphs(ctx, 4, false, &[1, 3]);
        let d = dist_matrix(&g);
        one(ctx, &g, &d, &[0, 1, 2, 3], true)
    });
    r.scenario("n5-undirected", "all undirected graphs on 5 nodes, asymmetric metric, all 120 orders", |ctx| {
        let g = all_undirected(ctx, 5, w_mix);
        let d = dist_matrix(&g);
        let o = ctx.permutation(5);
        ctx.note(|| format!("order {:?}", o));
        one(ctx, &g, &d, &o, true)
    });
    if th {
        r.scenario("n5-directed", "all digraphs on 5 nodes, identity order", |ctx| {
            let g = all_topologies(ctx, 5, w_mix);
            let d = dist_matrix(&g);
            one(ctx, &g, &d, &[0, 1, 2, 3, 4], false)
        });
        r.scenario("n6-undirected", "all undirected graphs on 6 nodes, identity and reverse order, 2 metrics", |ctx| {
            let m = ctx.pick(2);
            let g = all_undirected(ctx, 6, METRICS[m]);
            let d = dist_matrix(&g);
            let o = if ctx.flag() { vec![0, 1, 2, 3, 4, 5] } else { vec![2, 4, 0, 5, 1, 3] };
            one(ctx, &g, &d, &o, true)
        });
    }
    r.scenario("roads", "road-like graphs of 12..60 nodes, 4 orders each, all pairs", |ctx| {
        let seed = ctx.pick(8);
        let (a, b) = ctx.pick_from(&[(3, 3), (4, 5), (6, 6)]);
        let g = road_graph(a, b, seed as u64, 9);
        let k = ctx.pick(4);
        let mut o: Vec<u32> = (0..g.n as u32).collect();
        match k {
            0 => {}
            1 => o.reverse(),
            _ => {
                let mut l = Lcg(seed as u64 * 31 + k as u64);
                for i in (1..o.len()).rev() {
                    o.swap(i, l.below(i as u32 + 1) as usize);
                }
            }
        }
        ctx.note(|| format!("road_graph({},{},{},9) order {:?}", a, b, seed, o));
        let d = dist_matrix_sparse(&g);
        one(ctx, &g, &d, &o, true)
    });
    let _ = FirstOutGraph::<Vec<u32>, Vec<u32>, Vec<u32>>::new;
    r.finish();
}
