// Shared by c14.rs and c26.rs (the same check on a build in which travel time functions are simplified early).
use rust_road_router::algo::catchup::{self, partial_profiles, profiles, profiles_naive, Server};
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::floating_time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use vharness::gen::*;
use vharness::sched::with_schedule;
use vharness::td::{float_graph, int_pool, Plf, P};
use vharness::*;

const DAY: f64 = 86_400.0;
const TOL: f64 = 1e-3;
#[allow(dead_code)]
const NEVER: f64 = 1e15;

/// travel time and path of a query
trait Ask {
    fn ask(&mut self, q: TDQuery<Timestamp>) -> Option<(f64, Vec<(NodeId, Timestamp)>)>;
}

impl<'a> Ask for Server<'a> {
    fn ask(&mut self, q: TDQuery<Timestamp>) -> Option<(f64, Vec<(NodeId, Timestamp)>)> {
        self.td_query(q).found().map(|mut r| (r.distance().into(), r.node_path()))
    }
}

impl Ask for rust_road_router::algo::dijkstra::query::floating_td_dijkstra::Server {
    fn ask(&mut self, q: TDQuery<Timestamp>) -> Option<(f64, Vec<(NodeId, Timestamp)>)> {
        self.td_query(q).found().map(|mut r| (r.distance().into(), r.node_path()))
    }
}

/// seconds
fn ev(f: &Plf, t: f64) -> f64 {
    let t = t.rem_euclid(DAY) * 1000.0;
    let i = f.0.iter().rposition(|p| p.0 as f64 <= t).unwrap();
    let a = f.0[i];
    let b = if i + 1 < f.0.len() { f.0[i + 1] } else { (P, f.0[0].1) };
    (a.1 as f64 + (b.1 as f64 - a.1 as f64) * (t - a.0 as f64) / (b.0 - a.0) as f64) / 1000.0
}

fn arrivals(g: &G, pool: &[Plf], from: usize, dep: f64) -> Vec<f64> {
    let mut a = vec![NEVER; g.n];
    a[from] = dep;
    loop {
        let mut changed = false;
        for v in 0..g.n {
            if a[v] < NEVER {
                for e in g.out(v) {
                    let n = a[v] + ev(&pool[g.weight[e] as usize], a[v]);
                    let h = g.head[e] as usize;
                    if n < a[h] - 1e-9 {
                        a[h] = n;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            return a;
        }
    }
}

struct Case<'a> {
    g: &'a G,
    pool: &'a [Plf],
}

impl<'a> Case<'a> {
    fn check_query(&self, ctx: &mut Ctx, s: &mut dyn Ask, from: usize, to: usize, dep: f64, want: f64) -> Result<(), String> {
        ctx.step();
        let name = || format!("query {} -> {} at {}", from, to, dep);
        match s.ask(TDQuery { from: from as u32, to: to as u32, departure: Timestamp::new(dep) }) {
            None => ensure!(want >= NEVER, "{}: not found, but arrival at {} is possible", name(), want),
            Some((d, p)) => {
                ensure!(want < NEVER, "{}: found a path that does not exist", name());
                ensure!((d - (want - dep)).abs() < TOL, "{}: travel time {} instead of {}", name(), d, want - dep);
                ensure!(p.first().map(|x| x.0) == Some(from as u32) && p.last().map(|x| x.0) == Some(to as u32), "{}: path {:?}", name(), p);
                ensure!(f64::from(p[0].1) == dep && (f64::from(p[p.len() - 1].1) - want).abs() < TOL, "{}: path {:?} does not arrive at {}", name(), p, want);
                for w in p.windows(2) {
                    let e = self.g.out(w[0].0 as usize).find(|&e| self.g.head[e] == w[1].0);
                    ensure!(e.is_some(), "{}: path {:?} uses a link {}->{} that does not exist", name(), p, w[0].0, w[1].0);
                    let t: f64 = w[0].1.into();
                    let n = t + ev(&self.pool[self.g.weight[e.unwrap()] as usize], t);
                    ensure!((f64::from(w[1].1) - n).abs() < TOL, "{}: path {:?}: arrival at {} is {}", name(), p, w[1].0, n);
                }
            }
        }
        Ok(())
    }

    /// a profile from `start` to `end` and the paths in it
    fn check_profile(&self, ctx: &mut Ctx, name: &str, from: usize, to: usize, start: f64, end: f64, profile: &[TTFPoint], paths: &[(Timestamp, Vec<EdgeId>)], reachable: bool) -> Result<(), String> {
        ctx.step();
        let name = || format!("{} {} -> {} from {} to {}: {:?}", name, from, to, start, end, profile);
        if !reachable {
            ensure!(profile.is_empty() && paths.is_empty(), "{}: there is no path", name());
            return Ok(());
        }
        ensure!(!profile.is_empty(), "{}: no profile", name());
        let at = |i: usize| f64::from(profile[i].at);
        let val = |i: usize| f64::from(profile[i].val);
        if profile.len() > 1 {
            ensure!(at(0) <= start + 1e-5 && at(profile.len() - 1) >= end - 1e-5, "{}: does not cover the range", name());
            ensure!(profile.windows(2).all(|w| w[0].at < w[1].at), "{}: points are not sorted", name());
        }
        let mut s: Vec<f64> = (0..profile.len()).map(|i| at(i)).filter(|&t| t >= start && t <= end).collect();
        s.extend(paths.iter().map(|p| f64::from(p.0)).filter(|&t| t >= start && t <= end));
        for k in 0..=12 {
            s.push(start + (end - start) * k as f64 / 12.0);
        }
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        s.dedup();
        let mid: Vec<f64> = s.windows(2).map(|w| (w[0] + w[1]) / 2.0).collect();
        s.extend(mid);
        for &t in &s {
            ctx.step();
            let want = arrivals(self.g, self.pool, from, t)[to] - t;
            let i = (0..profile.len()).rposition(|i| at(i) <= t + 1e-6).unwrap_or(0);
            let got = if i + 1 == profile.len() || (at(i) - t).abs() < 1e-6 { val(i) } else { val(i) + (val(i + 1) - val(i)) * (t - at(i)) / (at(i + 1) - at(i)) };
            ensure!((got - want).abs() < TOL, "{}: at {} {} instead of {}", name(), t, got, want);
            // the path that is said to be the fastest one
            let k = paths.iter().rposition(|p| f64::from(p.0) <= t + 1e-6);
            ensure!(k.is_some(), "{}: no path at {}: {:?}", name(), t, paths);
            let p = &paths[k.unwrap()].1;
            let (mut v, mut now) = (from as u32, t);
            for &e in p {
                ensure!(self.g.out(v as usize).any(|x| x == e as usize), "{}: path {:?} at {}: link {} does not start at {}", name(), p, t, e, v);
                now += ev(&self.pool[self.g.weight[e as usize] as usize], now);
                v = self.g.head[e as usize];
            }
            ensure!(v == to as u32, "{}: path {:?} at {} leads to {}", name(), p, t, v);
            ensure!((now - t - want).abs() < TOL, "{}: path {:?} at {} takes {} instead of {}", name(), p, t, now - t, want);
        }
        ensure!(paths.windows(2).all(|w| w[0].0 < w[1].0), "{}: switches are not sorted: {:?}", name(), paths);
        Ok(())
    }

    fn check_profiles(&self, ctx: &mut Ctx, cch: &CCH, c: &CustomizedGraph, pairs: &[(usize, usize)]) -> Result<(), String> {
        let mut s = profiles::Server::new(cch, c);
        let mut naive = profiles_naive::Server::new(cch, c);
        for &(from, to) in pairs {
            let reachable = arrivals(self.g, self.pool, from, 0.0)[to] < NEVER;
            let (_, profile, paths) = s.distance(from as u32, to as u32);
            self.check_profile(ctx, "profile", from, to, 0.0, DAY, &profile, &paths, reachable)?;
            ctx.count("path switches", paths.len().saturating_sub(1) as u64);
            let n = naive.distance(from as u32, to as u32);
            ensure!(n.is_some() == reachable, "naive profile {} -> {}: {:?}", from, to, n);
            if let Some(n) = n {
                let p = PeriodicPiecewiseLinearFunction::new(&n);
                let mut ts: Vec<f64> = n.iter().map(|p| f64::from(p.at)).collect();
                ts.extend((0..24).map(|k| k as f64 * 3600.0 + 77.0));
                for t in ts {
                    ctx.step();
                    let want = arrivals(self.g, self.pool, from, t)[to] - t;
                    let got: f64 = p.evaluate(Timestamp::new(t)).into();
                    ensure!((got - want).abs() < TOL, "naive profile {} -> {} at {}: {} instead of {}: {:?}", from, to, t, got, want, n);
                }
            }
        }
        Ok(())
    }

    fn check_partial(&self, ctx: &mut Ctx, cch: &CCH, c: &CustomizedGraph, pairs: &[(usize, usize)], windows: &[(f64, f64)]) -> Result<(), String> {
        let mut s = partial_profiles::Server::new(cch, c);
        for &(from, to) in pairs {
            for &(start, end) in windows {
                self.one_partial(ctx, &mut s, (from, to), (start, end))?;
            }
        }
        Ok(())
    }

    fn one_partial(&self, ctx: &mut Ctx, s: &mut partial_profiles::Server, (from, to): (usize, usize), (start, end): (f64, f64)) -> Result<(), String> {
        let reachable = arrivals(self.g, self.pool, from, 0.0)[to] < NEVER;
        ctx.note(|| format!("part of a profile {} -> {} from {} to {}", from, to, start, end));
        let (_, profile, paths) = s.distance(from as u32, to as u32, Timestamp::new(start), Timestamp::new(end));
        ctx.count("path switches", paths.len().saturating_sub(1) as u64);
        self.check_profile(ctx, "part of a profile", from, to, start, end, &profile, &paths, reachable)
    }
}

fn all_pairs(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|p| p.0 != p.1).collect()
}

const DEPS: &[f64] = &[0.0, 35_000.0, 41_000.0, 43_185.0, 43_199.0, 46_000.0, 82_000.0, 86_390.0];

fn queries(ctx: &mut Ctx, c: &Case, s: &mut dyn Ask, deps: &[f64]) -> Result<(), String> {
    for &dep in deps {
        for from in 0..c.g.n {
            let want = arrivals(c.g, c.pool, from, dep);
            for to in 0..c.g.n {
                c.check_query(ctx, s, from, to, dep, want[to])?;
            }
        }
    }
    Ok(())
}

fn mixed(a: usize, b: usize, k: usize) -> u32 {
    ((a * 5 + b * 3 + k * (a + 2 * b) + a * b) % 4) as u32
}

/// without loops and parallel links, functions by end nodes
fn simple(g: &G) -> G {
    let mut e: Vec<(u32, u32, u32)> = g.edges().into_iter().filter(|e| e.0 != e.1).map(|(a, b, w)| (a, b, (a + 3 * b + w) % 4)).collect();
    e.sort();
    e.dedup_by_key(|e| (e.0, e.1));
    G::from_edges(g.n, &e)
}

fn history_graph(i: usize) -> G {
    match i {
        0 => G::from_edges(4, &[(0, 1, 1), (1, 2, 3), (2, 3, 1), (0, 2, 2), (1, 3, 2), (3, 0, 1)]),
        1 => complete_graph(4, |a, b| mixed(a, b, 1)),
        2 => G::from_edges(4, &[(0, 1, 1), (1, 0, 2), (2, 3, 3), (3, 2, 1)]),
        _ => cycle_graph(4, |a, b| mixed(a, b, 2)),
    }
}

/// leaving later always means arriving later, slopes are moderate
#[allow(dead_code)]
fn strict_pool() -> Vec<Plf> {
    let h = P / 24;
    vec![
        Plf(vec![(0, 40_000)]),
        Plf(vec![(0, 4_000), (10 * h, 4_000), (11 * h, 1_804_000), (12 * h, 5_000), (13 * h, 4_000)]),
        Plf(vec![(0, 1_300_000), (2_360_000, 40_000), (23 * h, 40_000), (23 * h + 1_240_000, 1_280_000), (23 * h + 2_240_000, 1_280_000), (P - 1_120_000, 1_280_000)]),
        Plf(vec![(0, 1_000), (11 * h, 1_000), (12 * h - 10_000, 1_801_000), (13 * h, 2_000), (23 * h, 1_000)]),
    ]
}
