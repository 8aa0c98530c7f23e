//! C21: derived graphs (reversed, permuted, filtered, split, line graphs, with unified parallel links) have exactly the
//! links of the original; edge ids, tails, orders and the elementary containers are consistent.
use rust_road_router::algo::metric_merging;
use rust_road_router::datastr::clearlist_vector::ClearlistVector;
use rust_road_router::datastr::graph::first_out_graph::degrees_to_first_out;
use rust_road_router::datastr::graph::link_id_to_tail_mapper::*;
use rust_road_router::datastr::graph::time_dependent::{LiveTDGraph, PessimisticLiveTDGraph, TDGraph};
use rust_road_router::datastr::graph::Graph as _;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;
use rust_road_router::util::*;
use vharness::gen::*;
use vharness::oracle::INF;
use vharness::sched::*;
use vharness::td::*;
use vharness::*;

type E3 = (u32, u32, u32);

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

fn links<X: LinkIterable<Link>>(x: &X) -> Vec<E3> {
    sorted((0..x.num_nodes() as u32).flat_map(|v| x.link_iter(v).map(move |l: Link| (v, l.node, l.weight)).collect::<Vec<_>>()).collect())
}

fn heads<X: LinkIterable<NodeIdT>>(x: &X) -> Vec<(u32, u32)> {
    sorted((0..x.num_nodes() as u32).flat_map(|v| x.link_iter(v).map(move |l: NodeIdT| (v, l.0)).collect::<Vec<_>>()).collect())
}

fn ids<X: LinkIterable<(NodeIdT, EdgeIdT)>>(x: &X) -> Vec<E3> {
    sorted((0..x.num_nodes() as u32).flat_map(|v| x.link_iter(v).map(move |(h, e)| (v, h.0, e.0)).collect::<Vec<_>>()).collect())
}

fn counts_fit(x: &impl rust_road_router::datastr::graph::Graph, n: usize, edges: &[E3], what: &str) -> Result<(), String> {
    ensure!(x.num_nodes() == n, "{}: {} nodes instead of {}", what, x.num_nodes(), n);
    ensure!(x.num_arcs() == edges.len(), "{}: {} links instead of {}", what, x.num_arcs(), edges.len());
    for v in 0..n as u32 {
        let d = edges.iter().filter(|e| e.0 == v).count();
        ensure!(x.degree(v) == d, "{}: degree of {} is {} instead of {}", what, v, x.degree(v), d);
    }
    Ok(())
}

/// access by all iterators and by id
fn access(ctx: &mut Ctx, g: &G) -> Result<(), String> {
    let og = g.owned();
    let e = g.edges();
    counts_fit(&og, g.n, &e, "graph")?;
    let ug = UnweightedFirstOutGraph::new(&g.first_out[..], &g.head[..]);
    counts_fit(&ug, g.n, &e, "unweighted graph")?;
    let want_heads = sorted(e.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>());
    let want_ids: Vec<E3> = sorted(e.iter().enumerate().map(|(i, x)| (x.0, x.1, i as u32)).collect());
    ensure!(links(&og) == sorted(e.clone()), "links {:?}", links(&og));
    ensure!(links(&og.borrowed()) == sorted(e.clone()), "links of the borrowed graph {:?}", links(&og.borrowed()));
    ensure!(heads(&og) == want_heads && heads(&ug) == want_heads, "neighbors {:?} {:?}", heads(&og), heads(&ug));
    ensure!(ids(&og) == want_ids && ids(&ug) == want_ids, "edge ids {:?} {:?}", ids(&og), ids(&ug));
    let mut full = vec![];
    for v in 0..g.n as u32 {
        for (h, w, i) in LinkIterable::<(NodeIdT, u32, EdgeIdT)>::link_iter(&og, v) {
            full.push((v, h.0, w, i.0));
        }
    }
    ensure!(sorted(full.clone()) == sorted(e.iter().enumerate().map(|(i, x)| (x.0, x.1, x.2, i as u32)).collect::<Vec<_>>()), "links with ids {:?}", full);
    for a in 0..g.n as u32 {
        let r: Vec<u32> = g.out(a as usize).map(|x| x as u32).collect();
        ensure!(og.neighbor_edge_indices(a).collect::<Vec<_>>() == r && ug.neighbor_edge_indices(a).collect::<Vec<_>>() == r, "edge ids of {}", a);
        ensure!(og.neighbor_edge_indices_usize(a) == g.out(a as usize), "edge ids of {} (usize)", a);
        for b in 0..g.n as u32 {
            let want: Vec<u32> = (0..e.len()).filter(|&i| e[i].0 == a && e[i].1 == b).map(|i| i as u32).collect();
            let x = sorted(og.edge_indices(a, b).map(|i| i.0).collect());
            let y = sorted(ug.edge_indices(a, b).map(|i| i.0).collect());
            ensure!(x == want && y == want, "links from {} to {}: {:?} {:?} instead of {:?}", a, b, x, y, want);
        }
    }
    for (i, x) in e.iter().enumerate() {
        let l = og.link(i as u32);
        ensure!((l.node, l.weight) == (x.1, x.2) && ug.link(i as u32).0 == x.1, "link {} is {:?}", i, l);
    }
    // tails of links
    let mapper = LinkIdToTailMapper::new(&og);
    for (i, x) in e.iter().enumerate() {
        ensure!(mapper.link_id_to_tail(i as u32) == x.0, "tail of {} by mapper: {}", i, mapper.link_id_to_tail(i as u32));
        ensure!(link_id_to_tail(&g.first_out, i as u32) == x.0, "tail of {}: {}", i, link_id_to_tail(&g.first_out, i as u32));
    }
    let deg = (0..g.n).map(|v| g.out(v).len() as u32);
    ensure!(degrees_to_first_out(deg).collect::<Vec<_>>() == g.first_out, "first out of degrees");
    let lists: Vec<Vec<Link>> = (0..g.n).map(|v| g.out(v).map(|i| Link { node: g.head[i], weight: g.weight[i] }).collect()).collect();
    ensure!(links(&OwnedGraph::from_adjancecy_lists(lists)) == sorted(e.clone()), "graph of adjacency lists");
    let lists: Vec<Vec<u32>> = (0..g.n).map(|v| g.head[g.out(v)].to_vec()).collect();
    ensure!(heads(&UnweightedOwnedGraph::from_adjancecy_lists(lists)) == want_heads, "unweighted graph of adjacency lists");
    ctx.steps(1);
    Ok(())
}

/// changes of weights, of direction and of direction by an order
fn derive(ctx: &mut Ctx, g: &G) -> Result<(), String> {
    let og = g.owned();
    let e = g.edges();
    let back: Vec<E3> = sorted(e.iter().map(|x| (x.1, x.0, x.2)).collect());
    let rev = OwnedGraph::reversed(&og);
    counts_fit(&rev, g.n, &back, "reversed graph")?;
    ensure!(links(&rev) == back, "reversed links {:?} instead of {:?}", links(&rev), back);
    let urev = UnweightedOwnedGraph::reversed(&og);
    ensure!(heads(&urev) == back.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), "reversed neighbors {:?}", heads(&urev));
    counts_fit(&urev, g.n, &back, "reversed unweighted graph")?;
    let irev = ReversedGraphWithEdgeIds::reversed(&og);
    counts_fit(&irev, g.n, &back, "reversed graph with ids")?;
    let mut got = vec![];
    for v in 0..g.n as u32 {
        for (t, Reversed(i)) in irev.link_iter(v) {
            got.push((v, t.0, i.0));
        }
    }
    let want: Vec<E3> = sorted(e.iter().enumerate().map(|(i, x)| (x.1, x.0, i as u32)).collect());
    ensure!(sorted(got.clone()) == want, "reversed links with ids {:?} instead of {:?}", got, want);
    // weights
    let mut sw = g.owned();
    let mut other: Vec<u32> = (0..g.m() as u32).map(|i| 100 + i).collect();
    sw.swap_weights(&mut other);
    ensure!(other == g.weight && sw.weight().iter().enumerate().all(|(i, &w)| w == 100 + i as u32), "exchanged weights");
    sw.weights_mut().iter_mut().for_each(|w| *w += 1);
    ensure!(links(&sw) == sorted(e.iter().enumerate().map(|(i, x)| (x.0, x.1, 101 + i as u32)).collect()), "changed weights");
    let mut un = g.owned();
    unify_parallel_edges(&mut un);
    let min: Vec<E3> = e.iter().map(|x| (x.0, x.1, e.iter().filter(|y| (y.0, y.1) == (x.0, x.1)).map(|y| y.2).min().unwrap())).collect();
    ensure!(un.first_out() == g.first_out && un.head() == g.head, "links changed by unification");
    ensure!(un.weight().iter().zip(&min).all(|(&w, m)| w == m.2), "unified weights {:?} instead of {:?}", un.weight(), min);
    let open: Vec<E3> = sorted(e.iter().copied().filter(|x| x.2 < INF).collect());
    let f = InfinityFilteringGraph(g.owned());
    ensure!(links(&f) == open && heads(&f) == open.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), "open links {:?} instead of {:?}", links(&f), open);
    ctx.steps(1);
    Ok(())
}

fn reorder(ctx: &mut Ctx, g: &G, perm: &[u32], mask: u64) -> Result<(), String> {
    let og = g.owned();
    let e = g.edges();
    let o = NodeOrder::from_node_order(perm.to_vec());
    let rank = |v: u32| perm.iter().position(|&x| x == v).unwrap() as u32;
    let n = g.n as u32;
    let keep = move |a: u32, b: u32| mask >> (a * n + b) & 1 == 1;
    let (up, down) = og.ch_split(&o);
    let wu: Vec<E3> = sorted(e.iter().copied().filter(|x| rank(x.0) < rank(x.1)).collect());
    let wd: Vec<E3> = sorted(e.iter().filter(|x| rank(x.0) > rank(x.1)).map(|x| (x.1, x.0, x.2)).collect());
    let no_loops = |v: Vec<E3>| v.into_iter().filter(|x| x.0 != x.1).collect::<Vec<_>>();
    ensure!(no_loops(links(&up)) == wu, "upward graph {:?} instead of {:?}", links(&up), wu);
    ensure!(no_loops(links(&down)) == wd, "downward graph {:?} instead of {:?}", links(&down), wd);
    let all: Vec<E3> = sorted(e.iter().map(|x| (rank(x.0), rank(x.1), x.2)).collect());
    let p = OwnedGraph::permutated(&og, &o);
    counts_fit(&p, g.n, &all, "permuted graph")?;
    ensure!(links(&p) == all, "permuted links {:?} instead of {:?}", links(&p), all);
    let some: Vec<E3> = all.iter().copied().filter(|x| keep(x.0, x.1)).collect();
    let p = OwnedGraph::permutated_filtered(&og, &o, Box::new(keep));
    counts_fit(&p, g.n, &some, "filtered graph")?;
    ensure!(links(&p) == some, "filtered links {:?} instead of {:?} (kept {:b})", links(&p), some, mask);
    ctx.steps(1);
    Ok(())
}

type TdLink = (u32, u32, Vec<(u32, u32)>);

/// the function of each link, told apart by its values at and around all points of all functions
fn td_links(t: &TDGraph, dts: &[u32]) -> Vec<TdLink> {
    sorted(ids(t).into_iter().map(|(a, b, e)| (a, b, dts.iter().map(|&x| (x, t.travel_time_function(e).eval(x))).collect())).collect())
}

/// time-dependent graphs with live traffic on `live` links
fn time_dependent(ctx: &mut Ctx, g: &G, pool: &[Plf], lives: &[Option<u32>], perm: &[u32], mask: u64, turn: &dyn Fn(u32, u32) -> Option<u32>) -> Result<(), String> {
    let soon = 8 * P / 24;
    let mut dts: Vec<u32> = pool.iter().flat_map(|f| f.0.iter().flat_map(|p| [p.0, p.0 + 1, p.0 + 1000])).chain([soon - 1, soon, soon + 1, soon + 500]).collect();
    dts.sort_unstable();
    dts.dedup();
    let td = td_graph(g, pool);
    let lg = LiveTDGraph::new(td.clone(), soon, lives.iter().map(|&l| InRangeOption::new(l)).collect());
    let pg = PessimisticLiveTDGraph::new(td.clone(), lives.iter().map(|&l| InRangeOption::new(l.map(|l| (l, soon)))).collect());
    let e = g.edges();
    let f = |i: usize| &pool[e[i].2 as usize];
    let curve = |i: usize| -> Vec<(u32, u32)> { dts.iter().map(|&x| (x, f(i).floor(x))).collect() };
    let lcurve = |i: usize| -> Vec<(u32, u32)> { dts.iter().map(|&x| (x, lg.eval(i as u32, x))).collect() };
    let pcurve = |i: usize| -> Vec<(u32, u32)> { dts.iter().map(|&x| (x, pg.eval(i as u32, x))).collect() };
    ensure!(td_links(&td, &dts) == sorted((0..e.len()).map(|i| (e[i].0, e[i].1, curve(i))).collect::<Vec<_>>()), "links of the time-dependent graph");
    ensure!(td.num_constant() == (0..e.len()).filter(|&i| f(i).0.len() == 1).count(), "number of constant functions {}", td.num_constant());
    for i in 0..e.len() {
        ensure!(EdgeRandomAccessGraph::<NodeIdT>::link(&td, i as u32).0 == e[i].1, "head of {}", i);
    }
    for a in 0..g.n as u32 {
        ensure!(td.neighbor_edge_indices_usize(a) == g.out(a as usize) && pg.neighbor_edge_indices_usize(a) == g.out(a as usize), "links of {}", a);
        for b in 0..g.n as u32 {
            let want: Vec<u32> = (0..e.len()).filter(|&i| e[i].0 == a && e[i].1 == b).map(|i| i as u32).collect();
            ensure!(td.edge_indices(a, b).map(|x| x.0).collect::<Vec<_>>() == want, "links from {} to {}", a, b);
            ensure!(pg.edge_indices(a, b).map(|x| x.0).collect::<Vec<_>>() == want, "links from {} to {} (live)", a, b);
        }
    }
    // renumbered
    let o = NodeOrder::from_node_order(perm.to_vec());
    let rank = |v: u32| perm.iter().position(|&x| x == v).unwrap() as u32;
    let n = g.n as u32;
    let keep = move |a: u32, b: u32| mask >> (a * n + b) & 1 == 1;
    for filtered in [false, true] {
        let kept: Vec<usize> = (0..e.len()).filter(|&i| !filtered || keep(rank(e[i].0), rank(e[i].1))).collect();
        let k3: Vec<E3> = kept.iter().map(|&i| (rank(e[i].0), rank(e[i].1), 0)).collect();
        let with = |c: &dyn Fn(usize) -> Vec<(u32, u32)>| -> Vec<TdLink> { sorted(kept.iter().map(|&i| (rank(e[i].0), rank(e[i].1), c(i))).collect()) };
        let of = |q: Vec<E3>, c: &dyn Fn(u32, u32) -> u32| -> Vec<TdLink> { sorted(q.into_iter().map(|(a, b, i)| (a, b, dts.iter().map(|&x| (x, c(i, x))).collect())).collect()) };
        let (t2, l2, p2) = if filtered {
            (TDGraph::permutated_filtered(&td, &o, Box::new(keep)), LiveTDGraph::permutated_filtered(&lg, &o, Box::new(keep)), PessimisticLiveTDGraph::permutated_filtered(&pg, &o, Box::new(keep)))
        } else {
            (TDGraph::permutated(&td, &o), LiveTDGraph::permutated(&lg, &o), PessimisticLiveTDGraph::permutated(&pg, &o))
        };
        counts_fit(&t2, g.n, &k3, "permuted time-dependent graph")?;
        counts_fit(&l2, g.n, &k3, "permuted live graph")?;
        counts_fit(&p2, g.n, &k3, "permuted pessimistic live graph")?;
        ensure!(td_links(&t2, &dts) == with(&curve), "functions of the permuted graph (filtered: {})", filtered);
        ensure!(of(ids(&l2), &|i, x| l2.eval(i, x)) == with(&lcurve), "live functions of the permuted graph (filtered: {})", filtered);
        ensure!(of(ids(&p2), &|i, x| p2.eval(i, x)) == with(&pcurve), "pessimistic live functions of the permuted graph (filtered: {})", filtered);
    }
    // line graphs: turns between links, costs are added to the first one
    let mut turns = vec![];
    for i in 0..e.len() {
        for j in g.out(e[i].1 as usize) {
            if let Some(c) = turn(i as u32, j as u32) {
                turns.push((i, j as u32, c));
            }
        }
    }
    let t3: Vec<E3> = turns.iter().map(|&(i, j, c)| (i as u32, j, c)).collect();
    let tl = td.line_graph(|a, b| turn(a, b));
    let ll = lg.line_graph(|a, b| turn(a, b));
    let pl = pg.line_graph(|a, b| turn(a, b));
    counts_fit(&tl, e.len(), &t3, "time-dependent line graph")?;
    counts_fit(&ll, e.len(), &t3, "live line graph")?;
    counts_fit(&pl, e.len(), &t3, "pessimistic line graph")?;
    let plus = |c: u32, v: Vec<(u32, u32)>| -> Vec<(u32, u32)> { v.into_iter().map(|(x, y)| (x, y + c)).collect() };
    let of = |q: Vec<E3>, c: &dyn Fn(u32, u32) -> u32| -> Vec<TdLink> { sorted(q.into_iter().map(|(a, b, i)| (a, b, dts.iter().map(|&x| (x, c(i, x))).collect())).collect()) };
    let with = |f: &dyn Fn(usize) -> Vec<(u32, u32)>| -> Vec<TdLink> { sorted(turns.iter().map(|&(i, j, c)| (i as u32, j, plus(c, f(i)))).collect()) };
    ensure!(td_links(&tl, &dts) == with(&curve), "functions of the line graph");
    ensure!(of(ids(&ll), &|i, x| ll.eval(i, x)) == with(&lcurve), "live functions of the line graph");
    // pessimistic values follow a live time that is known to be closed
    ensure!(of(ids(&pl), &|i, x| pl.eval(i, x)) == with(&pcurve), "pessimistic live functions of the line graph");
    // constant lower bounds, no travel time below 1
    let mut c = td.clone();
    c.to_constant_lower();
    let mut z = td.clone();
    z.fix_zero_travel_times();
    for i in 0..e.len() {
        for &x in &dts {
            ensure!(c.travel_time_function(i as u32).eval(x) == f(i).min(), "lower bound of {} at {}", i, x);
            let v = z.travel_time_function(i as u32).eval(x);
            let w = Plf(f(i).0.iter().map(|&(t, y)| (t, y.max(1))).collect()).floor(x);
            ensure!(v == w && v > 0, "positive travel time of {} at {}: {} instead of {}", i, x, v, w);
        }
    }
    ensure!(ids(&c) == ids(&td) && ids(&z) == ids(&td), "links changed");
    ctx.outcome(&(g.edges(), turns.len()));
    ctx.steps(1);
    Ok(())
}

/// turns between links of a static graph
fn turns_of(ctx: &mut Ctx, g: &G, turn: &dyn Fn(u32, u32) -> Option<u32>) -> Result<(), String> {
    let og = g.owned();
    let e = g.edges();
    let mut want = vec![];
    for i in 0..e.len() {
        for j in g.out(e[i].1 as usize) {
            if let Some(c) = turn(i as u32, j as u32) {
                want.push((i as u32, j as u32, e[i].2 + c));
            }
        }
    }
    let mut asked = vec![];
    let l = line_graph(&og, |a, b| {
        asked.push((a, b));
        turn(a, b)
    });
    ensure!(asked.iter().all(|&(a, b)| e[a as usize].1 == e[b as usize].0), "asked for turns between links which do not meet: {:?}", asked);
    counts_fit(&l, e.len(), &want, "line graph")?;
    ensure!(links(&l) == sorted(want.clone()), "turns {:?} instead of {:?}", links(&l), want);
    ctx.outcome(&want);
    Ok(())
}

fn containers(ctx: &mut Ctx, len: usize) -> Result<(), String> {
    // lists of lists
    let sizes: Vec<usize> = (0..3).map(|_| ctx.pick(3)).collect();
    let lists: Vec<Vec<u32>> = sizes.iter().enumerate().map(|(i, &s)| (0..s as u32).map(|j| 10 * i as u32 + j).collect()).collect();
    let v = Vecs::from_iters(lists.iter().map(|l| l.iter().copied()));
    ensure!(v.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == lists, "lists {:?}", v.iter().collect::<Vec<_>>());
    let first: Vec<u32> = degrees_to_first_out(sizes.iter().map(|&s| s as u32)).collect();
    let flat: Vec<u32> = lists.concat();
    for i in 0..3 {
        ensure!(v[i] == lists[i][..] && Slcs(&first, &flat)[i] == lists[i][..], "list {}", i);
        let mut fl = flat.clone();
        let mut sm = SlcsMut(&first, &mut fl);
        ensure!(sm[i] == lists[i][..], "mutable list {}", i);
        sm[i].iter_mut().for_each(|x| *x += 100);
        let mut want = lists.clone();
        want[i].iter_mut().for_each(|x| *x += 100);
        ensure!(fl == want.concat(), "changes of list {}: {:?}", i, fl);
        ensure!(SlcsIdx(&first).range(i) == (first[i] as usize..first[i + 1] as usize), "range {}", i);
    }
    {
        use rayon::prelude::*;
        let p: Vec<Vec<u32>> = v.par_iter().map(|x| x.to_vec()).collect();
        ensure!(p == lists, "parallel lists {:?}", p);
    }
    // alternate: one by one, then the rest of the longer one
    let (a, b) = (&lists[0], &lists[1]);
    let got: Vec<u32> = interleave(a.iter().copied(), b.iter().copied()).collect();
    let mut want: Vec<u32> = vec![];
    for i in 0..a.len().max(b.len()) {
        want.extend(a.get(i));
        want.extend(b.get(i));
    }
    ensure!(got == want, "interleaved {:?} instead of {:?}", got, want);
    let mut it = interleave(a.iter().copied(), b.iter().copied());
    for done in 0..want.len() {
        ensure!(it.size_hint() == (want.len() - done, Some(want.len() - done)), "size hint {:?} after {}", it.size_hint(), done);
        it.next();
    }
    let _ = len;
    Ok(())
}

fn sweeps(ctx: &mut Ctx) -> Result<(), String> {
    // all pairs of sets
    let (a, b) = (ctx.pick(32), ctx.pick(32));
    let set = |m: usize| (0..5u32).filter(move |i| m >> i & 1 == 1);
    let got: Vec<(Option<u32>, Option<u32>)> = coordinated_sweep_iter(set(a), set(b)).collect();
    let want: Vec<_> = (0..5u32).filter(|i| (a | b) >> i & 1 == 1).map(|i| (Some(i).filter(|_| a >> i & 1 == 1), Some(i).filter(|_| b >> i & 1 == 1))).collect();
    ctx.outcome(&want);
    ensure!(got == want, "sweep over {:b} and {:b} gives {:?}", a, b, got);
    Ok(())
}

/// writes (also of the default), reads and resets
fn clearlist(ctx: &mut Ctx, depth: usize) -> Result<(), String> {
    let mut v = ClearlistVector::new(2, 7u8);
    let mut model = [7u8; 2];
    for _ in 0..depth {
        ctx.step();
        match ctx.pick(7) {
            0 => {
                v.reset();
                model = [7; 2];
            }
            k => {
                let (i, x) = ((k - 1) % 2, [7, 1, 2][(k - 1) / 2]);
                v[i] = x;
                model[i] = x;
            }
        }
        ctx.outcome(&model);
        for i in 0..2 {
            ensure!(v[i] == model[i], "entry {} is {} instead of {}", i, v[i], model[i]);
        }
    }
    Ok(())
}

fn orders(ctx: &mut Ctx, n: usize) -> Result<(), String> {
    let p = ctx.permutation(n);
    let mut inv = vec![0; n];
    for (i, &v) in p.iter().enumerate() {
        inv[v as usize] = i as u32;
    }
    ctx.outcome(&p);
    let a = NodeOrder::from_node_order(p.clone());
    let b = NodeOrder::from_ranks(inv.clone());
    let id = NodeOrder::identity(n);
    for o in [&a, &b] {
        ensure!(o.order() == p && o.ranks() == inv && o.len() == n && o.is_empty() == (n == 0), "order {:?} has ranks {:?}", o.order(), o.ranks());
        for v in 0..n as u32 {
            ensure!(o.rank(v) == inv[v as usize] && o.node(v) == p[v as usize] && o.node(o.rank(v)) == v, "rank of {}", v);
        }
    }
    ensure!((0..n as u32).all(|v| id.rank(v) == v && id.node(v) == v) && id.len() == n, "identity");
    Ok(())
}

fn in_range(ctx: &mut Ctx) -> Result<(), String> {
    let vals = [0u32, 1, INF, u32::MAX - 1];
    let (a, b) = (ctx.pick_from(&vals), ctx.pick_from(&[0u32, 1, INF, u32::MAX - 1, u32::MAX]));
    ensure!(InRangeOption::some(a).value() == Some(a) && InRangeOption::new(Some(a)).value() == Some(a), "value {}", a);
    ensure!(InRangeOption::new(Some((a, b))).value() == Some((a, b)) && InRangeOption::some((b, a)).value() == Some((b, a)), "pair {} {}", a, b);
    ensure!(InRangeOption::<u32>::NONE.value().is_none() && InRangeOption::<(u32, u32)>::new(None).value().is_none() && InRangeOption::<u32>::default().value().is_none(), "none");
    Ok(())
}

/// the closest pair of groups (least squared differences of minimal weights, ties to the first) is merged until few are left
fn merging(ctx: &mut Ctx, k: usize, m: usize, vals: &[u32], budget: usize) -> Result<(), String> {
    let metrics: Vec<Vec<u32>> = (0..k).map(|_| (0..m).map(|_| ctx.pick_from(vals)).collect()).collect();
    let target = 1 + ctx.pick(k);
    ctx.note(|| format!("metrics {:?}, target {}", metrics, target));
    let refs: Vec<&[u32]> = metrics.iter().map(|x| &x[..]).collect();
    let threads = 1 + ctx.pick(2);
    let groups = with_schedule(ctx, threads, budget, || metric_merging::merge(&refs, target));
    let mut want: Vec<Vec<usize>> = (0..k).map(|i| vec![i]).collect();
    while want.iter().filter(|x| !x.is_empty()).count() > target {
        let low = |x: &[usize], j: usize| x.iter().map(|&i| metrics[i][j]).min().unwrap();
        let mut best = None;
        for a in 0..k {
            for b in a + 1..k {
                if !want[a].is_empty() && !want[b].is_empty() {
                    let d: u128 = (0..m).map(|j| (low(&want[a], j).abs_diff(low(&want[b], j)) as u128).pow(2)).sum();
                    let d = d.min(u64::MAX as u128);
                    if best.map_or(true, |(x, _, _)| d < x) {
                        best = Some((d, a, b));
                    }
                }
            }
        }
        let (_, a, b) = best.unwrap();
        let t = std::mem::take(&mut want[b]);
        want[a].extend(t);
    }
    let norm = |x: Vec<Vec<usize>>| sorted(x.into_iter().filter(|y| !y.is_empty()).map(sorted).collect::<Vec<_>>());
    let (groups, want) = (norm(groups), norm(want));
    ctx.outcome(&groups);
    ensure!(groups == want, "groups {:?} instead of {:?}", groups, want);
    Ok(())
}

fn main() {
    let mut r = Report::new("C21");
    let th = r.thorough();
    r.assume("orders are permutations; adjacency arrays are well formed; infinity is 2^31-1");
    let small = |ctx: &mut Ctx, g: &G| -> Result<(), String> {
        ctx.state();
        ctx.outcome(&g.edges());
        access(ctx, g)?;
        derive(ctx, g)
    };
    r.scenario("graphs-n0-n2", "n<=2, all multigraphs with up to 4 (5) links, weights {0,2,inf}", |ctx| {
        let n = ctx.pick(3);
        let g = if n == 0 { G::from_edges(0, &[]) } else { all_multigraphs(ctx, n, if th { 5 } else { 4 }, true, &[0, 2, INF]) };
        small(ctx, &g)
    });
    r.scenario("graphs-n3", "n=3, all digraphs with loops, weights absent, 1, 3 (and inf); multigraphs with up to 4 (5) links", |ctx| {
        let g = if ctx.flag() {
            all_digraphs(ctx, 3, true, if th { &[1, 3, INF] } else { &[1, 3] })
        } else {
            all_multigraphs(ctx, 3, if th { 5 } else { 4 }, true, &[1, 2])
        };
        small(ctx, &g)
    });
    r.scenario("graphs-n5", "n=4 every topology, n=5 every graph with both directions; many nodes without links", |ctx| {
        let g = match ctx.pick(3) {
            0 => all_topologies(ctx, 4, w_mix),
            1 => all_undirected(ctx, 5, w_mix),
            _ => {
                // few links between many nodes
                let n = 7;
                let k = ctx.pick(3);
                let mut e = vec![];
                for _ in 0..k {
                    e.push((ctx.pick(n) as u32, ctx.pick(n) as u32, 1 + ctx.pick(2) as u32));
                }
                G::from_edges(n, &e)
            }
        };
        small(ctx, &g)
    });
    r.scenario("tails", "300 nodes with degree 0 to 3 each in 64 periodic patterns: tails of all links across the words of the rank structure", |ctx| {
        let pat: Vec<usize> = (0..3).map(|_| ctx.pick(4)).collect();
        let pre = ctx.pick(3);
        let mut e = vec![];
        for v in pre..300 {
            for j in 0..pat[v % 3] {
                e.push((v as u32, ((v + j * 7) % 300) as u32, 1 + j as u32));
            }
        }
        let g = G::from_edges(300, &e);
        small(ctx, &g)
    });
    r.scenario("orders-n3", "n=3, all digraphs, weights absent, 1, 3; all 6 orders; all 512 filters on unit graphs, 8 otherwise", |ctx| {
        let unit = ctx.flag();
        let g = all_digraphs(ctx, 3, true, if unit { &[1] } else { &[1, 3] });
        let perm = ctx.permutation(3);
        ctx.state();
        if unit {
            for mask in 0..512 {
                reorder(ctx, &g, &perm, mask)?;
            }
        } else {
            for mask in [0o421, 0o010, 0o653, 0o124, 0o356, 0o711, 0o077, 0o700] {
                reorder(ctx, &g, &perm, mask)?;
            }
        }
        Ok(())
    });
    r.scenario("orders-n4", "n=4, every topology with distinct weights; all 24 orders; multigraphs with up to 3 links", |ctx| {
        let g = if ctx.flag() { all_topologies(ctx, 4, |a, b| 1 + (a * 4 + b) as u32) } else { all_multigraphs(ctx, 4, 3, true, &[1, 2]) };
        let perm = ctx.permutation(4);
        ctx.state();
        reorder(ctx, &g, &perm, 0x9a5c)
    });
    r.scenario("turns-n2", "n=2, all digraphs with loops, every turn forbidden, free or costly", |ctx| {
        let g = all_digraphs(ctx, 2, true, &[1, 3]);
        let mut table = vec![vec![None; g.m()]; g.m()];
        let e = g.edges();
        for i in 0..e.len() {
            for j in 0..e.len() {
                if e[i].1 == e[j].0 {
                    table[i][j] = [None, Some(0), Some(5)][ctx.pick(3)];
                }
            }
        }
        ctx.state();
        turns_of(ctx, &g, &|a, b| table[a as usize][b as usize])
    });
    let turn_styles = |s: usize| -> Box<dyn Fn(u32, u32) -> Option<u32>> {
        match s {
            0 => Box::new(|_, _| Some(0)),
            1 => Box::new(|_, _| None),
            2 => Box::new(|a, b| if (a + b) % 2 == 0 { Some(a * 7 + b) } else { None }),
            _ => Box::new(|a, b| if a == b { None } else { Some(3 * b + 1) }),
        }
    };
    r.scenario("turns-n3", "n=3, all digraphs with loops, weights {1,3}; n=4 every topology; 4 kinds of turn costs", |ctx| {
        let g = if ctx.flag() { all_digraphs(ctx, 3, true, &[1, 3]) } else { all_topologies(ctx, 4, w_mix) };
        ctx.state();
        for s in 0..4 {
            turns_of(ctx, &g, &*turn_styles(s))?;
        }
        Ok(())
    });
    let pool = plf_pool();
    let pool = &pool;
    r.scenario("td-n2", "n=2, all graphs with loops (also parallel links), a function of 4 per link; live times absent, below, above or closed; both orders; 16 filters; 4 kinds of turn costs", |ctx| {
        let idx: Vec<u32> = (0..pool.len() as u32).collect();
        let g = all_multigraphs(ctx, 2, if th { 3 } else { 2 }, true, &idx);
        let lives: Vec<Option<u32>> = (0..g.m()).map(|_| ctx.pick_from(&[None, Some(2), Some(900_000), Some(INF)])).collect();
        let perm = ctx.permutation(2);
        ctx.state();
        for mask in 0..16 {
            time_dependent(ctx, &g, pool, &lives, &perm, mask, &*turn_styles(mask as usize % 4))?;
        }
        Ok(())
    });
    r.scenario("td-n3", "n=3, every topology, functions and live times by position in 4 ways each; all orders; 4 kinds of turn costs", |ctx| {
        let (k, l) = (ctx.pick(4), ctx.pick(4));
        let g = all_topologies(ctx, 3, |a, b| ((a * 2 + b * 3 + k) % pool.len()) as u32);
        let lives: Vec<Option<u32>> = (0..g.m()).map(|e| [None, Some(2), Some(900_000), Some(INF)][(e * (1 + l % 2) + l) % 4]).collect();
        let perm = ctx.permutation(3);
        let s = ctx.pick(4);
        ctx.state();
        time_dependent(ctx, &g, pool, &lives, &perm, [0o653, 0o124, 0o356, 0o077][l], &*turn_styles(s))
    });
    r.scenario("node-orders", "all permutations of up to 6 (7) nodes", |ctx| {
        let n = ctx.pick(if th { 8 } else { 7 });
        ctx.state();
        orders(ctx, n)
    });
    r.scenario("lists", "3 lists with up to 2 elements each", |ctx| containers(ctx, 3));
    r.scenario("sweeps", "all pairs of subsets of 5 numbers", sweeps);
    r.scenario("options", "all pairs of 4 values", in_range);
    r.scenario("clearlist", "all sequences of 6 (8) writes and resets on 2 entries", |ctx| clearlist(ctx, if th { 8 } else { 6 }));
    r.scenario("merging", "all sets of 3 metrics (4 metrics) on 2 links with weights {1,4,inf}, all targets, 1 and 2 threads, schedules with up to 1 (2) deviations", |ctx| {
        let k = if th { 3 + ctx.pick(2) } else { 3 };
        ctx.state();
        merging(ctx, k, 2, &[1, 4, INF], if k == 4 { 0 } else if th { 2 } else { 1 })
    });
    r.finish()
}
