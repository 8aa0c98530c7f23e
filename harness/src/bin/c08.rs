//! C08: lazily evaluated CH/CCH potentials are exact distances to (from) the target, whatever the evaluation order,
//! the sequence of targets and the points at which evaluation is interrupted by a new target.
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::*;

/// (target, nodes to evaluate in this order)
type Script = Vec<(u32, Vec<u32>)>;

fn check_pot(ctx: &mut Ctx, name: &str, d: &dyn Fn(usize, usize) -> u32, script: &Script, init: &mut dyn FnMut(u32), pot: &mut dyn FnMut(u32) -> Option<u32>, inits: usize) -> Result<(), String> {
    let _ = inits;
    for (t, evals) in script {
        init(*t);
        for &v in evals {
            ctx.step();
            let got = pot(v);
            let want = opt(d(v as usize, *t as usize));
            ensure!(got == want, "{}: target {}: potential of {} is {:?}, should be {:?}; evaluation order {:?}", name, t, v, got, want, evals);
        }
    }
    Ok(())
}

macro_rules! pot {
    ($ctx:expr, $name:expr, $d:expr, $script:expr, $p:expr) => {{
        let p = std::cell::RefCell::new($p);
        check_pot($ctx, $name, $d, $script, &mut |t| p.borrow_mut().init(t), &mut |v| p.borrow_mut().potential(v), 0)?;
    }};
}

/// walks the shortest path tree of a path potential
fn check_tree(
    ctx: &mut Ctx,
    name: &str,
    g: &G,
    dist: &[u32],
    order: &NodeOrder,
    target: u32,
    node: u32,
    tree: &[(u32, u32)],
    reverse: bool,
) -> Result<(), String> {
    let mut cur = order.rank(node);
    let mut left = dist[node as usize];
    let mut steps = 0;
    while cur != order.rank(target) {
        ctx.step();
        let p = tree[cur as usize].0;
        ensure!((p as usize) < g.n && p != cur, "{}: target {}: node {} has no successor on the way from {}", name, target, order.node(cur), node);
        let (a, b) = (order.node(cur), order.node(p));
        let w = if reverse { min_edge(g, b, a) } else { min_edge(g, a, b) };
        let w = match w {
            Some(w) => w,
            None => return Err(format!("{}: target {}: path of {} uses missing link {}-{}", name, target, node, a, b)),
        };
        ensure!(w <= left && dist[b as usize] == left - w, "{}: target {}: path of {} is not a shortest path at {}-{}", name, target, node, a, b);
        left -= w;
        cur = p;
        steps += 1;
        ensure!(steps <= g.n, "{}: target {}: path of {} runs in circles", name, target, node);
    }
    ensure!(left == 0, "{}: target {}: path of {} is {} too short", name, target, node, left);
    Ok(())
}

fn all_pots(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], cch: &CCH, script: &Script) -> Result<(), String> {
    let og = g.owned();
    let fw = |v: usize, t: usize| d[v][t];
    let bw = |v: usize, t: usize| d[t][v];
    let data = CCHPotData::new(cch, &og);
    let basic = customize(cch, &og);
    let order = cch.node_order().clone();
    pot!(ctx, "CCH potential", &fw, script, data.forward_potential());
    pot!(ctx, "backward CCH potential", &bw, script, data.backward_potential());
    pot!(ctx, "CCH potential (basic customization)", &fw, script, BorrowedCCHPot::new_from_customized(&basic));
    pot!(ctx, "CH potential", &fw, script, data.ch_forward_potential());
    pot!(ctx, "CH potential (swapped)", &bw, script, CHPotential::new(data.customized().backward_graph(), data.customized().forward_graph(), order.clone()));
    pot!(ctx, "CH potential on basic customization", &fw, script, CHPotential::new(basic.forward_graph(), basic.backward_graph(), order.clone()));
    pot!(ctx, "baseline potential", &fw, script, BaselinePotential::new(&og));
    {
        // cloned potentials are independent
        let mut p = data.forward_potential();
        for w in script.windows(2) {
            p.init(w[0].0);
            let mut q = p.clone();
            q.init(w[1].0);
            for &v in &w[0].1 {
                ctx.step();
                let (a, b) = (p.potential(v), q.potential(v));
                ensure!(a == opt(d[v as usize][w[0].0 as usize]) && b == opt(d[v as usize][w[1].0 as usize]), "cloned CCH potential: {} -> {:?} {:?}", v, a, b);
            }
        }
    }
    // potentials on top of potentials
    {
        let mut p = RecyclingPotential::new(data.forward_potential());
        for (t, evals) in script {
            for _ in 0..2 {
                p.init(*t);
                for &v in evals {
                    ctx.step();
                    let got = p.potential(v);
                    ensure!(got == opt(d[v as usize][*t as usize]), "recycling potential: target {} node {}: {:?}", t, v, got);
                }
            }
        }
    }
    // path potentials work with ranks
    let mut fp = data.forward_path_potential();
    let mut bp = data.backward_path_potential();
    for (t, evals) in script {
        let dt: Vec<u32> = (0..g.n).map(|v| d[v][*t as usize]).collect();
        let df: Vec<u32> = (0..g.n).map(|v| d[*t as usize][v]).collect();
        fp.init(order.rank(*t));
        bp.init(order.rank(*t));
        for &v in evals {
            ctx.step();
            let got = fp.potential(order.rank(v));
            ensure!(got == opt(dt[v as usize]), "path potential: target {} node {}: {:?}, should be {:?}", t, v, got, opt(dt[v as usize]));
            if got.is_some() {
                fp.unpack_path(NodeIdT(order.rank(v)));
                check_tree(ctx, "path potential", g, &dt, &order, *t, v, fp.target_shortest_path_tree(), false)?;
            }
            let got = bp.potential(order.rank(v));
            ensure!(got == opt(df[v as usize]), "backward path potential: source {} node {}: {:?}, should be {:?}", t, v, got, opt(df[v as usize]));
            if got.is_some() {
                bp.unpack_path(NodeIdT(order.rank(v)));
                check_tree(ctx, "backward path potential", g, &df, &order, *t, v, bp.target_shortest_path_tree(), true)?;
            }
        }
        // paths unpacked earlier stay valid
        for &v in evals {
            if dt[v as usize] < INF {
                check_tree(ctx, "path potential (after unpacking all)", g, &dt, &order, *t, v, fp.target_shortest_path_tree(), false)?;
            }
            if df[v as usize] < INF {
                check_tree(ctx, "backward path potential (after unpacking all)", g, &df, &order, *t, v, bp.target_shortest_path_tree(), true)?;
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C08");
    r.assume("shortest distances below 2^31-1");
    let th = r.thorough();
    let case = |ctx: &mut Ctx, g: &G, order: Vec<u32>, evals: Vec<u32>| -> Result<(), String> {
        let d = dist_matrix(g);
        ctx.note(|| format!("n={} edges={:?} order={:?} evaluation order={:?}", g.n, g.edges(), order, evals));
        ctx.state();
        ctx.outcome(&(g.edges(), &d));
        let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(order));
        // every target, evaluated in full, interrupted after each prefix by the next target
        let mut script: Script = vec![];
        for t in 0..g.n as u32 {
            script.push((t, evals.clone()));
            script.push((t, evals[..(t as usize + 1) % g.n].to_vec()));
            script.push(((t + 1) % g.n as u32, evals[..1].to_vec()));
        }
        all_pots(ctx, g, &d, &cch, &script)
    };
    r.scenario("n3", "every digraph on 3 nodes, weights {0,1,3}, all orders, all evaluation orders, all targets with interruptions", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 3]);
        let o = ctx.permutation(3);
        let e = ctx.permutation(3);
        case(ctx, &g, o, e)
    });
    r.scenario("n3-multi", "3 nodes, up to 4 links, parallel links and loops, weights {0,2}, all orders", |ctx| {
        let g = all_multigraphs(ctx, 3, 4, true, &[0, 2]);
        let o = ctx.permutation(3);
        case(ctx, &g, o, vec![1, 0, 2])
    });
    r.scenario("n4", "every digraph topology on 4 nodes, mixed metric, all 24 contraction orders, 2 (thorough 24) evaluation orders", |ctx| {
        let f = METRICS[ctx.pick(if th { 3 } else { 1 })];
        let g = all_topologies(ctx, 4, f);
        let o = ctx.permutation(4);
        let e = if th { ctx.permutation(4) } else { [vec![0, 1, 2, 3], vec![2, 0, 3, 1]][ctx.pick(2)].clone() };
        case(ctx, &g, o, e)
    });
    r.scenario("n4-zero", "every undirected topology on 4 nodes, every assignment of {0,1} to the links, all orders", |ctx| {
        let g0 = all_undirected(ctx, 4, w_one);
        let w: Vec<u32> = (0..g0.m()).map(|_| ctx.pick(2) as u32).collect();
        let g = g0.with_weights(w);
        let o = if th { ctx.permutation(4) } else { orders_of(4, ctx.pick(5)) };
        case(ctx, &g, o, vec![3, 1, 2, 0])
    });
    r.scenario("n5", "every undirected topology on 5 nodes, 2 asymmetric metrics and all-zero, 8 (thorough all 120) orders, 3 evaluation orders", |ctx| {
        let f = [w_mix, w_zero, w_pow][ctx.pick(3)];
        let g = all_undirected(ctx, 5, f);
        let o = if th { ctx.permutation(5) } else { orders_of(5, ctx.pick(8)) };
        let e = orders_of(5, ctx.pick(3));
        case(ctx, &g, o, e)
    });
    r.scenario("families", "paths, grids, stars, road graphs up to 90 nodes, 7 orders, 3 evaluation orders, 6 targets", |ctx| {
        let fam = [path_graph(20, w_mix), star_graph(9, w_mix), grid_graph(4, 5, w_mix), grid_graph(6, 7, w_zero), complete_graph(7, w_mix), road_graph(5, 6, 1, 20), road_graph(9, 10, 2, 100)];
        let i = ctx.pick(fam.len());
        let g = &fam[i];
        let o = ctx.pick(7);
        let e = orders_of(g.n, ctx.pick(3));
        let d = dist_matrix_sparse(g);
        ctx.note(|| format!("family graph #{} order #{} evaluation order {:?}", i, o, e));
        ctx.state();
        ctx.outcome(&(i, &d));
        let cch = CCH::fix_order_and_build(&g.owned(), NodeOrder::from_node_order(orders_of(g.n, o)));
        let n = g.n as u32;
        let script: Script = [0, n - 1, n / 2, n / 3, 1, n - 2].iter().map(|&t| (t, e.clone())).collect();
        all_pots(ctx, g, &d, &cch, &script)
    });
    r.finish();
}
