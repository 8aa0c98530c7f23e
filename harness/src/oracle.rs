//! Boring reference implementations.
use crate::gen::G;
use rust_road_router::datastr::graph::INFINITY;

pub const INF: u32 = INFINITY;

/// all pairs shortest distances by Bellman-Ford style relaxation in 64 bit; unreachable = INF.
/// Edges of weight >= INF do not exist.
pub fn dist_matrix(g: &G) -> Vec<Vec<u32>> {
    let big = u64::MAX / 4;
    let n = g.n;
    let mut d = vec![vec![big; n]; n];
    for v in 0..n {
        d[v][v] = 0;
        for e in g.out(v) {
            if g.weight[e] < INF {
                let h = g.head[e] as usize;
                d[v][h] = d[v][h].min(g.weight[e] as u64);
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            if d[i][k] == big {
                continue;
            }
            for j in 0..n {
                let c = d[i][k] + d[k][j];
                if c < d[i][j] {
                    d[i][j] = c;
                }
            }
        }
    }
    d.into_iter().map(|r| r.into_iter().map(|x| if x >= INF as u64 { INF } else { x as u32 }).collect()).collect()
}

/// single source reference (for larger graphs): plain Bellman-Ford with queue
pub fn dists_from(g: &G, s: usize) -> Vec<u32> {
    let mut d = vec![u64::MAX / 4; g.n];
    d[s] = 0;
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(s);
    let mut inq = vec![false; g.n];
    while let Some(v) = queue.pop_front() {
        inq[v] = false;
        for e in g.out(v) {
            if g.weight[e] >= INF {
                continue;
            }
            let h = g.head[e] as usize;
            let c = d[v] + g.weight[e] as u64;
            if c < d[h] {
                d[h] = c;
                if !inq[h] {
                    inq[h] = true;
                    queue.push_back(h);
                }
            }
        }
    }
    d.into_iter().map(|x| if x >= INF as u64 { INF } else { x as u32 }).collect()
}

/// same as `dist_matrix`, via `dists_from`; for larger graphs
pub fn dist_matrix_sparse(g: &G) -> Vec<Vec<u32>> {
    (0..g.n).map(|s| dists_from(g, s)).collect()
}

pub fn opt(d: u32) -> Option<u32> {
    if d < INF {
        Some(d)
    } else {
        None
    }
}

/// cheapest edge a->b
pub fn min_edge(g: &G, a: u32, b: u32) -> Option<u32> {
    if a as usize >= g.n {
        return None;
    }
    g.out(a as usize).filter(|&e| g.head[e] == b && g.weight[e] < INF).map(|e| g.weight[e]).min()
}

/// a node path must be a walk of the graph from `from` to `to` with exactly length `dist`
pub fn check_node_path(g: &G, from: u32, to: u32, dist: u32, path: &[u32]) -> Result<(), String> {
    if path.first() != Some(&from) || path.last() != Some(&to) {
        return Err(format!("node path {:?} does not lead from {} to {}", path, from, to));
    }
    let mut sum = 0u64;
    for w in path.windows(2) {
        match min_edge(g, w[0], w[1]) {
            Some(x) => sum += x as u64,
            None => return Err(format!("node path {:?} of {}->{} uses the missing edge {}->{}", path, from, to, w[0], w[1])),
        }
    }
    if sum != dist as u64 {
        return Err(format!("node path {:?} of {}->{} has length {}, reported distance {}", path, from, to, sum, dist));
    }
    Ok(())
}

/// an edge path must be a chain of existing edges from `from` to `to` with exactly length `dist`
pub fn check_edge_path(g: &G, from: u32, to: u32, dist: u32, path: &[u32]) -> Result<(), String> {
    let tails = g.tails();
    let mut cur = from;
    let mut sum = 0u64;
    for &e in path {
        if e as usize >= g.m() {
            return Err(format!("edge path {:?} uses edge id out of range", path));
        }
        if tails[e as usize] != cur {
            return Err(format!("edge path {:?} of {}->{} is not contiguous at edge {}", path, from, to, e));
        }
        cur = g.head[e as usize];
        sum += g.weight[e as usize] as u64;
    }
    if cur != to {
        return Err(format!("edge path {:?} of {}->{} ends at {}", path, from, to, cur));
    }
    if sum != dist as u64 {
        return Err(format!("edge path {:?} of {}->{} has length {}, reported {}", path, from, to, sum, dist));
    }
    Ok(())
}
