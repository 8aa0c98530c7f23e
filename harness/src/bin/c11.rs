//! C11: landmark (ALT) potentials are lower bounds of the distance to (from) the target and feasible, and A* with them is
//! exact, for every choice of landmarks, also when travel times increased after preprocessing.
use rand::prelude::*;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::alt::*;
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server as BiDij;
use rust_road_router::algo::dijkstra::query::dijkstra::Server as Dij;
use rust_road_router::algo::dijkstra::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::*;
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sut::*;
use vharness::*;

fn check_pot(ctx: &mut Ctx, name: &str, g: &G, d: &dyn Fn(usize, usize) -> u32, rev: bool, p: &mut ALTPotential) -> Result<(), String> {
    for t in 0..g.n {
        p.init(t as u32);
        let v: Vec<Option<u32>> = (0..g.n).map(|v| p.potential(v as u32)).collect();
        for u in 0..g.n {
            ctx.step();
            match v[u] {
                None => ensure!(d(u, t) >= INF, "{}: no potential at {} although the target {} is at distance {}", name, u, t, d(u, t)),
                Some(x) => ensure!(x <= d(u, t), "{}: potential {} at {} for target {} at distance {}", name, x, u, t, d(u, t)),
            }
        }
        ensure!(v[t] == Some(0), "{}: potential of the target {} is {:?}", name, t, v[t]);
        for (a, b, w) in g.edges() {
            let (a, b) = if rev { (b, a) } else { (a, b) };
            if let (Some(pa), Some(pb)) = (v[a as usize], v[b as usize]) {
                ctx.step();
                ensure!(pa <= w + pb, "{}: target {}: potential {} at {}, but {} + {} over {}", name, t, pa, a, w, pb, b);
            }
        }
    }
    Ok(())
}

fn queries(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], data: &ALTPotData) -> Result<(), String> {
    let mut s = Dij::<OwnedGraph, DefaultOps, _>::with_potential(g.owned(), data.forward_potential());
    check_all_pairs(ctx, "A* with landmarks", g, d, qs!(s), true)?;
    let mut s = Dij::<OwnedGraph, DefaultOps, _>::with_potential(g.owned(), RecyclingPotential::new(data.forward_potential()));
    check_all_pairs(ctx, "A* with recycled landmark potentials", g, d, qs!(s), true)?;
    let pot = SymmetricBiDirPotential::<_, _, true>::new(data.forward_potential(), data.backward_potential());
    let mut s = BiDij::<OwnedGraph, OwnedGraph, _, ChooseMinKeyDir>::new_with_potentials(g.owned(), pot);
    check_all_pairs(ctx, "bidirectional A* with landmarks, symmetric/improved", g, d, qs!(s), true)?;
    let pot = AveragePotential::<_, _, true>::new(data.forward_potential(), data.backward_potential());
    let mut s = BiDij::<OwnedGraph, OwnedGraph, _, AlternatingDirs>::new_with_potentials(g.owned(), pot);
    check_all_pairs(ctx, "bidirectional A* with landmarks, average/improved", g, d, qs!(s), true)
}

fn check(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], data: &ALTPotData) -> Result<(), String> {
    ctx.state();
    check_pot(ctx, "landmarks", g, &|v, t| d[v][t], false, &mut data.forward_potential())?;
    check_pot(ctx, "landmarks backward", g, &|v, t| d[t][v], true, &mut data.backward_potential())?;
    queries(ctx, g, d, data)
}

fn strongly_connected(d: &[Vec<u32>]) -> bool {
    d.iter().all(|r| r.iter().all(|&x| x < INF))
}

fn selection(ctx: &mut Ctx, g: &G, d: &[Vec<u32>], seeds: usize) -> Result<(), String> {
    let og = g.owned();
    let k = 1 + ctx.pick(3);
    if ctx.flag() {
        let start = ctx.pick(g.n);
        // there have to be enough nodes: the landmarks before reach one which is not a landmark yet
        let mut set: Vec<usize> = vec![];
        for i in 0..k {
            let far = |v: usize| if i == 0 { d[start][v] } else { set.iter().map(|&x| d[x][v]).min().unwrap() };
            let best = (0..g.n).map(far).filter(|&x| x < INF).max().unwrap();
            if i > 0 && (0..g.n).all(|v| far(v) != best || set.contains(&v)) {
                return Ok(());
            }
            let last: Vec<usize> = (0..g.n).filter(|&v| far(v) == best && !set.contains(&v)).collect();
            if last.len() > 1 && k > i + 1 {
                // either may be chosen; enough that all nodes are reached from each
                if last.iter().any(|&v| (0..g.n).any(|w| d[v][w] >= INF)) {
                    return Ok(());
                }
            }
            set.push(last[0]);
        }
        let l = ALTPotData::farthest_landmarks(&og, k, start as u32);
        ctx.note(|| format!("farthest landmarks from {}: {:?}", start, l));
        ensure!(l.len() == k && l.iter().all(|&v| (v as usize) < g.n), "{} landmarks instead of {}: {:?}", l.len(), k, l);
        // each one is farthest from the ones before among the nodes which can be reached
        for i in 0..k {
            let far = |v: usize| if i == 0 { d[start][v] } else { l[..i].iter().map(|&x| d[x as usize][v]).min().unwrap() };
            let best = (0..g.n).map(far).filter(|&x| x < INF).max().unwrap();
            ctx.step();
            ensure!(far(l[i] as usize) == best, "landmark {} of {:?} is at distance {} from the ones before, another node at {}", i, l, far(l[i] as usize), best);
        }
        ctx.outcome(&(g.edges(), l.clone()));
        check(ctx, g, d, &ALTPotData::new(&og, l))
    } else {
        let seed = ctx.pick(seeds) as u64;
        if !strongly_connected(d) {
            return Ok(());
        }
        ctx.note(|| format!("avoid, {} landmarks, seed {}", k, seed));
        ctx.outcome(&(g.edges(), k, seed));
        check(ctx, g, d, &ALTPotData::new_with_avoid(&og, k, &mut StdRng::seed_from_u64(seed)))
    }
}

fn main() {
    let mut r = Report::new("C11");
    r.assume("choosing landmarks by avoid requires a strongly connected graph, choosing farthest ones that the ones before reach another node");
    let th = r.thorough();
    r.scenario("landmarks-n3", "all digraphs with 3 nodes with loops, weights 0, 1, 3 or none, all sequences of 1 to 2 landmarks, all pairs", |ctx| {
        let g = all_digraphs(ctx, 3, true, &[0, 1, 3]);
        let d = dist_matrix(&g);
        for a in 0..3 {
            check(ctx, &g, &d, &ALTPotData::new(&g.owned(), vec![a]))?;
        }
        for (a, b) in [(0, 1), (0, 2), (1, 2)] {
            ctx.outcome(&(g.edges(), a, b));
            check(ctx, &g, &d, &ALTPotData::new(&g.owned(), vec![a, b]))?;
        }
        Ok(())
    });
    r.scenario("landmarks-large", "all digraphs with 3 nodes, weights 1, the largest for which paths stay below infinity, or none, all sequences of 1 to 2 landmarks, all pairs", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[1, INFINITY / 2 - 1]);
        let d = dist_matrix(&g);
        for l in [vec![0], vec![1], vec![2], vec![0, 1], vec![0, 2], vec![1, 2]] {
            ctx.outcome(&(g.edges(), l.clone()));
            check(ctx, &g, &d, &ALTPotData::new(&g.owned(), l))?;
        }
        Ok(())
    });
    r.scenario("landmarks-n4", "all topologies with 4 nodes, 2 weightings, all sets of 1 to 2 landmarks, all pairs", |ctx| {
        let k = ctx.pick(if th { 6 } else { 2 }) as u32;
        let g = all_topologies(ctx, 4, |a, b| (a as u32 * 5 + b as u32 * 3 + k * 2) % 7 + (k % 2));
        let d = dist_matrix(&g);
        let l = match ctx.pick(10) {
            x @ 0..=3 => vec![x as u32],
            x => [[0, 1], [0, 2], [0, 3], [1, 2], [1, 3], [2, 3]][x - 4].to_vec(),
        };
        ctx.outcome(&(g.edges(), l.clone()));
        check(ctx, &g, &d, &ALTPotData::new(&g.owned(), l))
    });
    r.scenario("selection-n3", "all digraphs with 3 nodes with loops, weights 1, 3 or none, 1 to 3 landmarks, farthest from every node and avoid with 4 seeds", |ctx| {
        let g = all_digraphs(ctx, 3, true, &[1, 3]);
        let d = dist_matrix(&g);
        selection(ctx, &g, &d, 4)
    });
    r.scenario("selection-n4", "all topologies with 4 nodes, 1 to 3 landmarks, farthest from every node and avoid with 4 seeds", |ctx| {
        let k = ctx.pick(if th { 4 } else { 1 }) as u32;
        let g = all_topologies(ctx, 4, |a, b| (a as u32 * 5 + b as u32 * 3 + k * 2) % 7 + 1);
        let d = dist_matrix(&g);
        selection(ctx, &g, &d, 4)
    });
    r.scenario("selection-road", "generated road networks, 1 to 3 landmarks, farthest from every node and avoid with 8 seeds", |ctx| {
        let g = road_graph(3 + ctx.pick(4), 4, ctx.pick(if th { 40 } else { 10 }) as u64, 50);
        let d = dist_matrix(&g);
        selection(ctx, &g, &d, 8)
    });
    r.scenario("traffic", "all topologies with 4 nodes, landmarks for one weighting, queries with each of 8 sets of increased weights", |ctx| {
        let g = all_topologies(ctx, 4, |a, b| (a as u32 * 5 + b as u32 * 3) % 7);
        let l = ctx.pick(4) as u32;
        let data = ALTPotData::new(&g.owned(), vec![l, (l + 1) % 4]);
        let k = ctx.pick(8) as u32;
        let mut h = g.clone();
        for (e, w) in h.weight.iter_mut().enumerate() {
            *w += [0, 1, 4][(e * 7 + k as usize * 5 + e * k as usize) % 3] * (1 + k / 3);
        }
        let d = dist_matrix(&h);
        ctx.state();
        ctx.outcome(&(g.edges(), h.edges(), l));
        queries(ctx, &h, &d, &data)
    });
    r.finish();
}
