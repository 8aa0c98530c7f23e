//! Integer time-dependent functions: reference evaluation and search.
use crate::gen::G;
use crate::oracle::INF;
use rust_road_router::datastr::graph::time_dependent::TDGraph;

/// one day in milliseconds
pub const P: u32 = 86_400_000;

/// interpolation points, the first one at time 0, linear back to the first value at the end of the period
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Plf(pub Vec<(u32, u32)>);

impl Plf {
    fn seg(&self, t: u32) -> ((u32, u32), (u32, u32)) {
        let t = t % P;
        let i = self.0.iter().rposition(|p| p.0 <= t).unwrap();
        let a = self.0[i];
        let b = if i + 1 < self.0.len() { self.0[i + 1] } else { (P, self.0[0].1) };
        (a, b)
    }
    pub fn is_fifo(&self) -> bool {
        self.0.windows(2).all(|w| w[0].0 < w[1].0 && w[0].0 as u64 + w[0].1 as u64 <= w[1].0 as u64 + w[1].1 as u64) && {
            let l = self.0.last().unwrap();
            l.0 as u64 + l.1 as u64 <= P as u64 + self.0[0].1 as u64
        }
    }
    /// travel time as fraction
    pub fn exact(&self, t: u32) -> (i128, i128) {
        let (a, b) = self.seg(t);
        let x = (t % P - a.0) as i128;
        let d = (b.0 - a.0) as i128;
        (a.1 as i128 * d + (b.1 as i128 - a.1 as i128) * x, d)
    }
    pub fn floor(&self, t: u32) -> u32 {
        let (n, d) = self.exact(t);
        n.div_euclid(d) as u32
    }
    pub fn exact_f(&self, t: u32) -> f64 {
        let (n, d) = self.exact(t);
        n as f64 / d as f64
    }
    pub fn exact_average(&self, from: u32, to: u32) -> f64 {
        let mut cuts = vec![from, to];
        for k in 0..=(to / P) {
            for &(dt, _) in &self.0 {
                let t = dt + k * P;
                if from < t && t < to {
                    cuts.push(t);
                }
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        let mut sum = 0.0;
        for w in cuts.windows(2) {
            // the function is linear in between (the right limit is the value, as it is continuous)
            sum += (self.exact_f(w[0]) + self.exact_f(w[1])) / 2.0 * (w[1] - w[0]) as f64;
        }
        sum / (to - from) as f64
    }
    pub fn min(&self) -> u32 {
        self.0.iter().map(|p| p.1).min().unwrap()
    }
    pub fn max(&self) -> u32 {
        self.0.iter().map(|p| p.1).max().unwrap()
    }
}

/// a constant, a rush hour around noon, one over midnight, and one with slope -1
pub fn plf_pool() -> Vec<Plf> {
    let h = P / 24;
    vec![
        Plf(vec![(0, 10)]),
        Plf(vec![(0, 4), (10 * h, 4), (12 * h, 1_500_000), (14 * h, 4)]),
        Plf(vec![(0, 2_000_000), (2 * h, 7), (22 * h, 7)]),
        Plf(vec![(0, 1), (12 * h - 30, 1), (12 * h - 10, 900), (12 * h + 890, 0), (23 * h, 25)]),
    ]
}

/// link weights of `g` are indices into `pool`
pub fn td_graph(g: &G, pool: &[Plf]) -> TDGraph {
    let (mut first, mut dt, mut tt) = (vec![0], vec![], vec![]);
    for e in 0..g.m() {
        for &(d, t) in &pool[g.weight[e] as usize].0 {
            dt.push(d);
            tt.push(t);
        }
        first.push(dt.len() as u32);
    }
    TDGraph::new(g.first_out.clone(), g.head.clone(), first, dt, tt)
}

/// label correcting search for earliest arrivals (>= INF: unreachable)
pub fn earliest_arrival(g: &G, eval: &dyn Fn(usize, u32) -> u32, from: usize, dep: u32) -> Vec<u64> {
    let mut a = vec![INF as u64; g.n];
    a[from] = dep as u64;
    loop {
        let mut changed = false;
        for v in 0..g.n {
            if a[v] < INF as u64 {
                for e in g.out(v) {
                    let n = a[v] + eval(e, a[v] as u32) as u64;
                    let h = g.head[e] as usize;
                    if n < a[h] {
                        a[h] = n;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            return a;
        }
    }
}

/// the path is a path of `g` and arrives at `arrival`, if for each step the fastest of the parallel links is taken
pub fn check_td_path(g: &G, eval: &dyn Fn(usize, u32) -> u32, p: &[u32], from: usize, to: usize, dep: u32, arrival: u64) -> Result<(), String> {
    if p.first() != Some(&(from as u32)) || p.last() != Some(&(to as u32)) {
        return Err(format!("path {:?} does not lead from {} to {}", p, from, to));
    }
    let mut t = dep as u64;
    for w in p.windows(2) {
        let best = g.out(w[0] as usize).filter(|&e| g.head[e] == w[1]).map(|e| eval(e, t as u32)).min();
        match best {
            Some(b) => t += b as u64,
            None => return Err(format!("path {:?} uses a link {}->{} that does not exist", p, w[0], w[1])),
        }
    }
    if t != arrival {
        return Err(format!("path {:?} leaving at {} arrives at {} instead of {}", p, dep, t, arrival));
    }
    Ok(())
}

/// functions with points several hours apart or close together, with sections in which waiting does not pay off
pub fn int_pool() -> Vec<Plf> {
    let h = P / 24;
    vec![
        Plf(vec![(0, 40_000)]),
        Plf(vec![(0, 4_000), (10 * h, 4_000), (11 * h, 3_604_000), (12 * h, 4_000)]),
        Plf(vec![(0, 2_400_000), (2_360_000, 40_000), (23 * h, 40_000), (23 * h + 1_240_000, 1_280_000), (23 * h + 2_240_000, 1_280_000), (P - 1_120_000, 1_280_000)]),
        Plf(vec![(0, 1_000), (12 * h - 30_000, 1_000), (12 * h - 10_000, 901_000), (12 * h + 890_000, 1_000), (23 * h, 1_000)]),
    ]
}

/// the same as `td_graph` in seconds
pub fn float_graph(g: &G, pool: &[Plf]) -> rust_road_router::datastr::graph::floating_time_dependent::TDGraph {
    let (mut first, mut dt, mut tt) = (vec![0], vec![], vec![]);
    for e in 0..g.m() {
        for &(d, t) in &pool[g.weight[e] as usize].0 {
            dt.push(d);
            tt.push(t);
        }
        first.push(dt.len() as u32);
    }
    rust_road_router::datastr::graph::floating_time_dependent::TDGraph::new(g.first_out.clone(), g.head.clone(), first, dt, tt)
}

