//! Enumeration of small graphs and deterministic families of larger ones.
use crate::Ctx;
use rust_road_router::datastr::graph::first_out_graph::{FirstOutGraph, OwnedGraph};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct G {
    pub n: usize,
    pub first_out: Vec<u32>,
    pub head: Vec<u32>,
    pub weight: Vec<u32>,
}

impl G {
    /// edges grouped by tail, otherwise in the given order
    pub fn from_edges(n: usize, edges: &[(u32, u32, u32)]) -> G {
        let mut first_out = vec![0u32; n + 1];
        for &(t, _, _) in edges {
            first_out[t as usize + 1] += 1;
        }
        for i in 0..n {
            first_out[i + 1] += first_out[i];
        }
        let mut pos = first_out.clone();
        let mut head = vec![0; edges.len()];
        let mut weight = vec![0; edges.len()];
        for &(t, h, w) in edges {
            let p = pos[t as usize] as usize;
            head[p] = h;
            weight[p] = w;
            pos[t as usize] += 1;
        }
        G { n, first_out, head, weight }
    }

    pub fn m(&self) -> usize {
        self.head.len()
    }

    pub fn out(&self, v: usize) -> std::ops::Range<usize> {
        self.first_out[v] as usize..self.first_out[v + 1] as usize
    }

    pub fn tails(&self) -> Vec<u32> {
        (0..self.n).flat_map(|v| self.out(v).map(move |_| v as u32)).collect()
    }

    pub fn edges(&self) -> Vec<(u32, u32, u32)> {
        self.tails().into_iter().enumerate().map(|(e, t)| (t, self.head[e], self.weight[e])).collect()
    }

    pub fn owned(&self) -> OwnedGraph {
        FirstOutGraph::new(self.first_out.clone(), self.head.clone(), self.weight.clone())
    }

    pub fn with_weights(&self, weight: Vec<u32>) -> G {
        G { weight, ..self.clone() }
    }

    pub fn reversed(&self) -> G {
        let e: Vec<_> = self.edges().into_iter().map(|(a, b, w)| (b, a, w)).collect();
        G::from_edges(self.n, &e)
    }

    pub fn has_parallel(&self) -> bool {
        (0..self.n).any(|v| {
            let r = self.out(v);
            let mut h = self.head[r].to_vec();
            h.sort_unstable();
            h.windows(2).any(|w| w[0] == w[1])
        })
    }
}

/// every digraph on `n` nodes where every ordered pair carries one of `weights` or no edge
pub fn all_digraphs(ctx: &mut Ctx, n: usize, loops: bool, weights: &[u32]) -> G {
    let mut edges = vec![];
    for a in 0..n {
        for b in 0..n {
            if a == b && !loops {
                continue;
            }
            let c = ctx.pick(weights.len() + 1);
            if c > 0 {
                edges.push((a as u32, b as u32, weights[c - 1]));
            }
        }
    }
    let g = G::from_edges(n, &edges);
    ctx.note(|| format!("graph n={} edges={:?}", g.n, g.edges()));
    g
}

/// all digraphs on `n` nodes; the weight of the pair (a,b) is fixed by the table `pattern`
pub fn all_topologies(ctx: &mut Ctx, n: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let mut edges = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b && ctx.pick(2) == 1 {
                edges.push((a as u32, b as u32, w(a, b)));
            }
        }
    }
    let g = G::from_edges(n, &edges);
    ctx.note(|| format!("graph n={} edges={:?}", g.n, g.edges()));
    g
}

/// all undirected graphs on `n` nodes, both directions present, weights from `w`
pub fn all_undirected(ctx: &mut Ctx, n: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let mut edges = vec![];
    for a in 0..n {
        for b in a + 1..n {
            if ctx.pick(2) == 1 {
                edges.push((a as u32, b as u32, w(a, b)));
                edges.push((b as u32, a as u32, w(b, a)));
            }
        }
    }
    let g = G::from_edges(n, &edges);
    ctx.note(|| format!("graph n={} edges={:?}", g.n, g.edges()));
    g
}

/// all multigraphs with exactly `m` edges on `n` nodes (loops and parallel edges included), edges as an ordered list
/// (the order of parallel edges matters for some algorithms)
pub fn all_multigraphs(ctx: &mut Ctx, n: usize, max_m: usize, loops: bool, weights: &[u32]) -> G {
    let m = ctx.pick(max_m + 1);
    let mut pairs = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b || loops {
                pairs.push((a as u32, b as u32));
            }
        }
    }
    let mut edges: Vec<(u32, u32, u32)> = vec![];
    let mut min_tail = 0;
    for _ in 0..m {
        // edges are generated sorted by tail, so each adjacency array is generated once
        let cand: Vec<_> = pairs.iter().filter(|p| p.0 >= min_tail).collect();
        if cand.is_empty() {
            break;
        }
        let p = *cand[ctx.pick(cand.len())];
        let w = ctx.pick_from(weights);
        min_tail = p.0;
        edges.push((p.0, p.1, w));
    }
    let g = G::from_edges(n, &edges);
    ctx.note(|| format!("graph n={} edges={:?}", g.n, g.edges()));
    g
}

pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as u32
    }
    pub fn below(&mut self, n: u32) -> u32 {
        self.next() % n
    }
}

pub fn path_graph(n: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let mut e = vec![];
    for i in 0..n.saturating_sub(1) {
        e.push((i as u32, i as u32 + 1, w(i, i + 1)));
        e.push((i as u32 + 1, i as u32, w(i + 1, i)));
    }
    G::from_edges(n, &e)
}

pub fn cycle_graph(n: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let mut e = vec![];
    for i in 0..n {
        let j = (i + 1) % n;
        e.push((i as u32, j as u32, w(i, j)));
        e.push((j as u32, i as u32, w(j, i)));
    }
    G::from_edges(n, &e)
}

pub fn star_graph(n: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let mut e = vec![];
    for i in 1..n {
        e.push((0, i as u32, w(0, i)));
        e.push((i as u32, 0, w(i, 0)));
    }
    G::from_edges(n, &e)
}

pub fn grid_graph(a: usize, b: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let mut e = vec![];
    let id = |x: usize, y: usize| x * b + y;
    for x in 0..a {
        for y in 0..b {
            for (nx, ny) in [(x + 1, y), (x, y + 1)] {
                if nx < a && ny < b {
                    let (u, v) = (id(x, y), id(nx, ny));
                    e.push((u as u32, v as u32, w(u, v)));
                    e.push((v as u32, u as u32, w(v, u)));
                }
            }
        }
    }
    G::from_edges(a * b, &e)
}

pub fn complete_graph(n: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let mut e = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                e.push((a as u32, b as u32, w(a, b)));
            }
        }
    }
    G::from_edges(n, &e)
}

/// a road-like graph: a grid with attached dead ends, one-way roads, a chain and an isolated part
pub fn road_graph(a: usize, b: usize, seed: u64, max_w: u32) -> G {
    let mut r = Lcg(seed * 7919 + 17);
    let mut e = vec![];
    let id = |x: usize, y: usize| (x * b + y) as u32;
    let mut n = a * b;
    for x in 0..a {
        for y in 0..b {
            for (nx, ny) in [(x + 1, y), (x, y + 1)] {
                if nx < a && ny < b {
                    let (u, v) = (id(x, y), id(nx, ny));
                    match r.below(6) {
                        0 => {}
                        1 => e.push((u, v, 1 + r.below(max_w))),
                        2 => e.push((v, u, 1 + r.below(max_w))),
                        _ => {
                            let w = 1 + r.below(max_w);
                            e.push((u, v, w));
                            e.push((v, u, if r.below(3) == 0 { 1 + r.below(max_w) } else { w }));
                        }
                    }
                }
            }
        }
    }
    // dead ends and chains
    for _ in 0..(a * b / 3) {
        let u = r.below(n as u32);
        let v = n as u32;
        n += 1;
        let w = 1 + r.below(max_w);
        e.push((u, v, w));
        e.push((v, u, w));
    }
    G::from_edges(n, &e)
}

/// weights that make every path length distinct enough and asymmetric
pub fn w_mix(a: usize, b: usize) -> u32 {
    (1 + (a * 7 + b * 13 + a * b * 5) % 11) as u32
}
pub fn w_one(_: usize, _: usize) -> u32 {
    1
}
pub fn w_zero(_: usize, _: usize) -> u32 {
    0
}
pub fn w_pow(a: usize, b: usize) -> u32 {
    1 << ((a * 5 + b * 3) % 7)
}
pub fn w_big(a: usize, b: usize) -> u32 {
    // large values; sums along simple paths in tiny graphs stay below INFINITY
    100_000_000 + ((a * 31 + b * 17) % 7) as u32 * 10_000_000
}
pub const METRICS: &[fn(usize, usize) -> u32] = &[w_mix, w_one, w_zero, w_pow, w_big];

/// a few node orders (contraction order, least important first)
pub fn orders_of(n: usize, which: usize) -> Vec<u32> {
    let id: Vec<u32> = (0..n as u32).collect();
    match which {
        0 => id,
        1 => id.into_iter().rev().collect(),
        2 => id.iter().step_by(2).chain(id.iter().skip(1).step_by(2)).copied().collect(),
        3 => {
            // recursive bisection of the id range: a nested dissection of paths, and a fair one of the road graphs
            fn rec(r: std::ops::Range<u32>, out: &mut Vec<u32>) {
                if r.is_empty() {
                    return;
                }
                let m = (r.start + r.end) / 2;
                out.push(m);
                rec(r.start..m, out);
                rec(m + 1..r.end, out);
            }
            let mut out = vec![];
            rec(0..n as u32, &mut out);
            out.reverse();
            out
        }
        k => {
            let mut o = id;
            let mut r = Lcg(k as u64);
            for i in (1..n).rev() {
                o.swap(i, r.below(i as u32 + 1) as usize);
            }
            o
        }
    }
}

/// nested dissection order: the middle BFS level from a peripheral node is the separator
pub fn nd_order(g: &G) -> Vec<u32> {
    let mut adj = vec![vec![]; g.n];
    for (a, b, _) in g.edges() {
        adj[a as usize].push(b as usize);
        adj[b as usize].push(a as usize);
    }
    fn bfs(adj: &[Vec<usize>], comp: &[usize], inside: &[bool], s: usize) -> Vec<Vec<usize>> {
        let mut seen: std::collections::HashSet<usize> = std::iter::once(s).collect();
        let mut levels = vec![vec![s]];
        loop {
            let mut next = vec![];
            for &v in levels.last().unwrap() {
                for &w in &adj[v] {
                    if inside[w] && seen.insert(w) {
                        next.push(w);
                    }
                }
            }
            if next.is_empty() {
                break;
            }
            levels.push(next);
        }
        let _ = comp;
        levels
    }
    fn rec(adj: &[Vec<usize>], nodes: Vec<usize>, inside: &mut Vec<bool>, out: &mut Vec<u32>) {
        let mut left = nodes;
        while let Some(&s) = left.iter().find(|&&v| inside[v]) {
            let l = bfs(adj, &left, inside, s);
            let l = bfs(adj, &left, inside, l.last().unwrap()[0]);
            let comp: Vec<usize> = l.iter().flatten().copied().collect();
            let sep = &l[l.len() / 2];
            for &v in sep {
                out.push(v as u32);
                inside[v] = false;
            }
            let rest: Vec<usize> = comp.iter().copied().filter(|&v| inside[v]).collect();
            // only recurse into this component
            let mut sub = vec![false; inside.len()];
            for &v in &rest {
                sub[v] = true;
            }
            rec(adj, rest.clone(), &mut sub, out);
            for &v in &rest {
                inside[v] = false;
            }
            left.retain(|&v| inside[v]);
        }
    }
    let mut out = vec![];
    rec(&adj, (0..g.n).collect(), &mut vec![true; g.n], &mut out);
    out.reverse();
    out
}

/// a core (complete graph or cycle on `core` nodes) with everything on `extra` further nodes, connected over core node 0
pub fn with_component(ctx: &mut Ctx, core: usize, extra: usize, style: usize, w: impl Fn(usize, usize) -> u32) -> G {
    let n = core + extra;
    // position of nodes: core first or last
    let core_first = ctx.flag();
    let id = |x: usize| -> u32 { if core_first { x as u32 } else { (n - 1 - x) as u32 } };
    let mut e = vec![];
    for a in 0..core {
        for b in 0..core {
            if a != b {
                e.push((id(a), id(b), w(a, b)));
            }
        }
    }
    let nodes: Vec<usize> = std::iter::once(0).chain(core..n).collect();
    for i in 0..nodes.len() {
        for j in i + 1..nodes.len() {
            match ctx.pick(if style == 0 { 2 } else { 4 }) {
                0 => {}
                1 => {
                    e.push((id(nodes[i]), id(nodes[j]), w(nodes[i], nodes[j])));
                    e.push((id(nodes[j]), id(nodes[i]), w(nodes[j], nodes[i])));
                }
                2 => e.push((id(nodes[i]), id(nodes[j]), w(nodes[i], nodes[j]))),
                _ => e.push((id(nodes[j]), id(nodes[i]), w(nodes[j], nodes[i]))),
            }
        }
    }
    let g = G::from_edges(n, &e);
    ctx.note(|| format!("graph n={} edges={:?}", g.n, g.edges()));
    g
}
