//! C12: integer travel time functions are periodic, FIFO interpolations; their range bounds and averages are sound;
//! time-dependent Dijkstra (predicted and live traffic) finds earliest arrivals.
use rust_road_router::algo::dijkstra::query::{dijkstra::Server, td_dijkstra::*};
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;
use vharness::gen::*;
use vharness::oracle::INF;
use vharness::td::*;
use vharness::*;

/// all FIFO functions with interpolation points at a subset of `dts` (always 0) and values of `vals`
fn any_plf(ctx: &mut Ctx, dts: &[u32], vals: &[u32]) -> Option<Plf> {
    let mut pts = vec![(0, ctx.pick_from(vals))];
    for &dt in dts {
        let k = ctx.pick(vals.len() + 1);
        if k > 0 {
            pts.push((dt, vals[k - 1]));
        }
    }
    let f = Plf(pts);
    if f.is_fifo() {
        Some(f)
    } else {
        None
    }
}

fn graph1(f: &Plf) -> TDGraph {
    TDGraph::new(
        vec![0, 1, 1],
        vec![1],
        vec![0, f.0.len() as u32],
        f.0.iter().map(|p| p.0).collect(),
        f.0.iter().map(|p| p.1).collect(),
    )
}

/// instants around all interpolation points
fn instants(f: &Plf, around: u32) -> Vec<u32> {
    let mut t = vec![P / 3, P / 2 + 1];
    for &(dt, _) in &f.0 {
        for d in 0..=around {
            t.push((dt + d) % P);
            t.push((dt + P - d) % P);
        }
    }
    for w in f.0.windows(2) {
        t.push((w[0].0 + w[1].0) / 2);
    }
    t.sort_unstable();
    t.dedup();
    t
}

fn check_eval(ctx: &mut Ctx, f: &Plf, eval: &dyn Fn(u32) -> u32, around: u32) -> Result<(), String> {
    let ts = instants(f, around);
    let (mut arr, mut last): (u64, Option<u32>) = (0, None);
    for &t in ts.iter() {
        ctx.step();
        let got = eval(t);
        let (num, den) = f.exact(t);
        // within one unit of the exact value, exact on interpolation points
        ensure!(
            (got as i128) * den <= num + den - 1 && (got as i128) * den >= num - den + 1,
            "value at {} is {} instead of {}/{}",
            t,
            got,
            num,
            den
        );
        ensure!(eval(t + P) == got && eval(t + 2 * P) == got, "not periodic at {}", t);
        let a = t as u64 + got as u64;
        ensure!(a >= arr, "leaving later at {} than at {:?} arrives earlier ({} < {})", t, last, a, arr);
        arr = a;
        last = Some(t);
    }
    let first = eval(ts[0]) as u64 + ts[0] as u64 + P as u64;
    ensure!(arr <= first, "leaving after midnight arrives earlier");
    Ok(())
}

fn check_ranges(ctx: &mut Ctx, f: &Plf, ttf: &PiecewiseLinearFunction, points: &[u32]) -> Result<(), String> {
    let (lo, hi) = (f.0.iter().map(|p| p.1).min().unwrap(), f.0.iter().map(|p| p.1).max().unwrap());
    ensure!(ttf.lower_bound() == lo && ttf.upper_bound() == hi, "bounds {}..{} instead of {}..{}", ttf.lower_bound(), ttf.upper_bound(), lo, hi);
    let mut ends: Vec<(i64, i64)> = f.0.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    ends.push((P as i64, f.0[0].1 as i64));
    let slopes: Vec<f64> = ends.windows(2).map(|w| (w[1].1 - w[0].1) as f64 / (w[1].0 - w[0].0) as f64).collect();
    let (least, most) = (slopes.iter().copied().fold(f64::INFINITY, f64::min), slopes.iter().copied().fold(f64::NEG_INFINITY, f64::max));
    ensure!((ttf.min_slope() - least).abs() < 1e-9 && (ttf.max_slope() - most).abs() < 1e-9, "slopes {}..{} instead of {}..{}", ttf.min_slope(), ttf.max_slope(), least, most);
    for &a in points {
        for &b in points {
            if a < b {
                ctx.step();
                // extreme values are at the ends or at interpolation points
                let mut inst = vec![a, b - 1];
                for k in 0..=(b / P) {
                    for &(dt, _) in &f.0 {
                        let t = dt + k * P;
                        if a <= t && t < b {
                            inst.push(t);
                        }
                    }
                }
                let vals: Vec<u32> = inst.iter().map(|&t| ttf.eval(t)).collect();
                let (min, max) = (*vals.iter().min().unwrap(), *vals.iter().max().unwrap());
                let (l, u) = (ttf.lower_bound_in_range(a..b), ttf.upper_bound_in_range(a..b));
                let end = ttf.eval(b);
                ensure!(l <= min && l >= min.min(end), "lower bound in {}..{} is {}, but the minimum is {}", a, b, l, min);
                ensure!(u >= max && u <= max.max(end), "upper bound in {}..{} is {}, but the maximum is {}", a, b, u, max);
            }
        }
    }
    for &a in points {
        for &b in points {
            if a < P && b < P {
                ctx.step();
                let got = ttf.average(WrappingRange::new(a..b)) as f64;
                let want = f.exact_average(a, if b <= a { b + P } else { b });
                ensure!((got - want).abs() < 2.0, "average in {}..{} is {} instead of {}", a, b, got, want);
            }
        }
    }
    Ok(())
}

fn check_live(ctx: &mut Ctx, f: &Plf, live: Option<u32>, soon: u32) -> Result<(), String> {
    let g = graph1(f);
    let lg = LiveTDGraph::new(g.clone(), soon, vec![InRangeOption::new(live)]);
    let pg = PessimisticLiveTDGraph::new(g.clone(), vec![InRangeOption::new(live.map(|l| (l, soon)))]);
    let ttf = g.travel_time_function(0);
    let mut ts: Vec<u32> = instants(f, 3).into_iter().chain((0..40).map(|d| (soon + d).saturating_sub(20))).collect();
    if let Some(l) = live {
        // around the time when the switch to predicted values starts
        ts.extend((0..6).map(|d| (soon + d).saturating_sub(l.min(P) + 3)));
        ts.extend((0..6).map(|d| soon + l.min(P) + d - 3.min(l)));
    }
    ts.sort_unstable();
    ts.dedup();
    let (mut a1, mut a2) = (0u64, 0u64);
    for &t in &ts {
        ctx.step();
        let (l, p, pred) = (lg.eval(0, t), pg.eval(0, t), ttf.eval(t));
        if let Some(live) = live {
            if t < soon {
                ensure!(l == live, "live value at {} is {}", t, l);
            } else {
                // between the prediction and the live value, never further away than the time since the end
                let (lo, hi) = (pred.min(live), pred.max(live));
                ensure!(l >= lo && l <= hi, "value at {} is {}, not between live {} and predicted {}", t, l, live, pred);
                if t >= soon.saturating_add(live.abs_diff(pred)).saturating_add(P) {
                    ensure!(l == pred, "prediction not used at {}", t);
                }
            }
            ensure!(p >= pred, "pessimistic value at {} is {} although {} is predicted", t, p, pred);
            // the live value holds until it approaches the predicted one at its end with slope one
            let lasting = if t >= soon { pred } else { live.min(ttf.eval(soon).saturating_add(soon - t)) };
            ensure!(p == pred.max(lasting), "pessimistic value at {} is {}, live {} predicted {}, from live {}", t, p, live, pred, lasting);
            let switch = pg.live_starts_switching_at(0).ok_or("no start of the switch")?;
            // (a live value below the predicted one at its end holds until then)
            ensure!(switch <= soon && (t >= soon || t == 0 || (lasting == live) == (t <= switch)), "switch starts at {}, but from live at {}: {} ({})", switch, t, lasting, live);
            if t >= soon {
                ensure!(p == pred, "pessimistic value at {} is {} instead of the predicted {}", t, p, pred);
            } else {
                ensure!(p <= live.max(pred), "pessimistic value at {} is {}, live {} predicted {}", t, p, live, pred);
            }
        } else {
            ensure!(l == pred && p == pred, "values {} {} instead of the predicted {} at {}", l, p, pred, t);
        }
        let (b1, b2) = (t as u64 + l as u64, t as u64 + p as u64);
        ensure!(b1 >= a1, "live value is not FIFO at {}", t);
        ensure!(b2 >= a2, "pessimistic live value is not FIFO at {}", t);
        a1 = b1;
        a2 = b2;
    }
    let (lower, upper) = (ttf.lower_bound(), ttf.upper_bound());
    ensure!(pg.predicted_upper_bound(0) == upper && pg.live_ended_at(0) == live.map_or(0, |_| soon), "predicted upper bound {}, live ended at {}", pg.predicted_upper_bound(0), pg.live_ended_at(0));
    ensure!(live.is_some() || pg.live_starts_switching_at(0).is_none(), "switch without live data");
    for &now in ts.iter().filter(|&&t| t < soon) {
        ctx.step();
        let slower = pg.is_live_slower(0, now);
        ensure!(slower.is_some() == live.map_or(false, |l| l >= lower), "live {:?} slower at {}: {:?}, lower bound {}", live, now, slower, lower);
        let fastest = ts.iter().filter(|&&t| now <= t && t < soon).map(|&t| ttf.eval(t)).min().unwrap();
        match slower {
            Some(false) => ensure!(fastest > live.unwrap(), "live {:?} is slower than {} between {} and {}", live, fastest, now, soon),
            Some(true) => ensure!(fastest.min(ttf.eval(soon)) <= live.unwrap() || ts.len() < 3, "live {:?} is not slower than {} between {} and {}", live, fastest, now, soon),
            None => (),
        }
    }
    let mut kept = pg.clone();
    kept.remove_live_faster_than_global_lower();
    kept.check_global_lower();
    ensure!(kept.live_starts_switching_at(0).is_some() == live.map_or(false, |l| l >= lower), "live {:?} and lower bound {}: {:?}", live, lower, kept.live_starts_switching_at(0));
    let mut fixed = pg.clone();
    fixed.fix_zero_travel_times();
    let mut constant = pg.clone();
    constant.to_constant_lower();
    for &t in &ts {
        let (a, b, c) = (ttf.eval(t), fixed.graph().travel_time_function(0).eval(t), constant.graph().travel_time_function(0).eval(t));
        ensure!(b >= a.max(1) && b <= a + 1 && (lower == 0 || a == b), "{} at {} without zeros is {}", a, t, b);
        ensure!(c == lower, "constant lower bound {} at {} is {}", lower, t, c);
    }
    let probe: Vec<u32> = vec![0, 1, 5, soon.saturating_sub(12), soon.saturating_sub(3), soon, soon + 1, soon + 7, P - 2, P + 3];
    for &now in &probe {
        let ub = pg.upper_bound(0, now);
        for &until in &probe {
            let lb = if until > now { pg.live_lower_bound(0, now, until) } else { 0 };
            for &t in ts.iter().chain(&probe) {
                if t >= now {
                    ctx.step();
                    let v = pg.eval(0, t);
                    ensure!(v <= ub, "upper bound from {} on is {}, but the value at {} is {}", now, ub, t, v);
                    if t < until {
                        ensure!(v >= lb, "lower bound in {}..{} is {}, but the value at {} is {}", now, until, lb, t, v);
                    }
                }
            }
        }
    }
    Ok(())
}

/// what a query on `g` has to answer when leaving at `dep`, edges evaluated by `eval`
fn check_search(
    ctx: &mut Ctx,
    g: &G,
    eval: &dyn Fn(usize, u32) -> u32,
    dep: u32,
    from: usize,
    query: &mut dyn FnMut(TDQuery<u32>) -> (Option<u32>, Option<Vec<u32>>),
) -> Result<(), String> {
    let want = earliest_arrival(g, eval, from, dep);
    for to in 0..g.n {
        ctx.step();
        let (got, path) = query(TDQuery {
            from: from as u32,
            to: to as u32,
            departure: dep,
        });
        let w = if want[to] >= INF as u64 { None } else { Some((want[to] - dep as u64) as u32) };
        ensure!(got == w, "{}->{} at {}: travel time {:?} instead of {:?}", from, to, dep, got, w);
        ensure!(path.is_some() == w.is_some(), "{}->{} at {}: path {:?}", from, to, dep, path);
        if let Some(p) = path {
            check_td_path(g, eval, &p, from, to, dep, want[to])?;
        }
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C12");
    r.assume("functions are given with FIFO interpolation points, the first one at time 0 and all within one day");
    let th = r.thorough();
    r.scenario(
        "functions",
        "all FIFO functions with points at a subset of {0,3,4,10,noon,P-6,P-1}, values {0,1,4,9}: all instants within 12ms of a point, ranges, averages",
        |ctx| {
            let dts: Vec<u32> = if th { vec![3, 4, 10, P / 2, P / 2 + 2, P - 6, P - 1] } else { vec![3, 4, 10, P / 2, P - 6, P - 1] };
            let f = match any_plf(ctx, &dts, &[0, 1, 4, 9]) {
                Some(f) => f,
                None => return Ok(()),
            };
            ctx.note(|| format!("function {:?}", f.0));
            ctx.state();
            let g = graph1(&f);
            let ttf = g.travel_time_function(0);
            ctx.outcome(&f.0);
            check_eval(ctx, &f, &|t| ttf.eval(t), 12)?;
            check_ranges(ctx, &f, &ttf, &[0, 1, 3, 7, P / 2, P - 6, P - 1, P, P + 3, P + P / 2, 2 * P - 1, 2 * P, 2 * P + 4])
        },
    );
    r.scenario(
        "slopes",
        "all FIFO functions with points at a subset of {0,7,100,P/3,P/2+11,P-100}, values with long and steep segments {0,1,90,3600000,50000000}",
        |ctx| {
            let f = match any_plf(ctx, if th { &[7, 100, 101, P / 3, P / 2 + 11, P - 100] } else { &[7, 100, P / 3, P / 2 + 11, P - 100] }, &[0, 1, 90, 3_600_000, 50_000_000]) {
                Some(f) => f,
                None => return Ok(()),
            };
            ctx.note(|| format!("function {:?}", f.0));
            ctx.state();
            let g = graph1(&f);
            let ttf = g.travel_time_function(0);
            ctx.outcome(&f.0);
            check_eval(ctx, &f, &|t| ttf.eval(t), 9)?;
            check_ranges(ctx, &f, &ttf, &[0, 8, 99, P / 3 - 1, P / 2, P - 50, P, P + 50, 2 * P])
        },
    );
    r.scenario(
        "live",
        "functions with points at a subset of {0,5,P/2,P-6}, values {1,4,30}, live value absent, one of {0,2,12,45,closed}, ending at one of 6 times",
        |ctx| {
            let f = match any_plf(ctx, if th { &[5, 9, P / 2, P - 6] } else { &[5, P / 2, P - 6] }, &[1, 4, 30]) {
                Some(f) => f,
                None => return Ok(()),
            };
            let live = ctx.pick_from(&[None, Some(0), Some(2), Some(12), Some(45), Some(INF)]);
            let soon = ctx.pick_from(&[1u32, 6, 30, P / 2 + 1, P - 3, P + 7]);
            ctx.note(|| format!("function {:?}, live {:?} until {}", f.0, live, soon));
            ctx.state();
            ctx.outcome(&(&f.0, live, soon));
            check_live(ctx, &f, live, soon)
        },
    );
    let pool = plf_pool();
    let pool = &pool;
    let deps: &[u32] = &[0, 9, P / 2 - 4, P - 3, P + 5, 3 * P - 1];
    r.scenario("dijkstra", "n=3, all digraph topologies, every link one of 4 functions, 6 departure times, permutations of the nodes", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1, 2, 3]);
        let td = td_graph(&g, pool);
        let eval = |e: usize, t: u32| pool[g.weight[e] as usize].floor(t);
        ctx.note(|| format!("links (tail, head, function) {:?}, functions {:?}", g.edges(), pool.iter().map(|f| &f.0).collect::<Vec<_>>()));
        ctx.state();
        ctx.outcome(&g.edges());
        let mut s = Server::<TDGraph, TDDijkstraOps, _, _>::new(&td);
        for &dep in deps {
            for from in 0..3 {
                check_search(ctx, &g, &eval, dep, from, &mut |q| {
                    let mut r = s.td_query(q);
                    (r.distance(), r.node_path())
                })?;
            }
        }
        // permuted graph
        let order = ctx.permutation(3);
        let no = NodeOrder::from_node_order(order.clone());
        let pg = <TDGraph as BuildPermutated<TDGraph>>::permutated(&td, &no);
        let mut s = Server::<TDGraph, TDDijkstraOps, _, _>::new(&pg);
        let dep = 9;
        for from in 0..3 {
            check_search(ctx, &g, &eval, dep, from, &mut |q| {
                let mut r = s.td_query(TDQuery {
                    from: no.rank(q.from),
                    to: no.rank(q.to),
                    departure: q.departure,
                });
                (r.distance(), r.node_path().map(|p| p.into_iter().map(|v| no.node(v)).collect()))
            })?;
        }
        Ok(())
    });
    r.scenario("dijkstra-parallel", "n=3, up to 4 links chosen freely (parallel links), every link one of 4 functions, 6 departure times", |ctx| {
        let g = all_multigraphs(ctx, 3, if th { 5 } else { 4 }, false, &[0, 1, 2, 3]);
        let td = td_graph(&g, pool);
        let eval = |e: usize, t: u32| pool[g.weight[e] as usize].floor(t);
        ctx.note(|| format!("links (tail, head, function) {:?}, functions {:?}", g.edges(), pool.iter().map(|f| &f.0).collect::<Vec<_>>()));
        ctx.state();
        ctx.outcome(&g.edges());
        let mut s = Server::<TDGraph, TDDijkstraOps, _, _>::new(&td);
        for &dep in deps {
            for from in 0..3 {
                check_search(ctx, &g, &eval, dep, from, &mut |q| {
                    let mut r = s.td_query(q);
                    (r.distance(), r.node_path())
                })?;
            }
        }
        Ok(())
    });
    r.scenario("dijkstra-live", "n=3, all digraph topologies, 2 functions, live values absent, fast, slow or closed (links with live value chosen freely, at most 3), optimistic and pessimistic", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 2]);
        let td = td_graph(&g, pool);
        let mut left = 3;
        let lives: Vec<Option<u32>> = (0..g.m())
            .map(|_| {
                let l = if left == 0 { None } else { ctx.pick_from(&[None, Some(3), Some(5_000_000), Some(INF)]) };
                left -= l.is_some() as usize;
                l
            })
            .collect();
        let soon = P / 2;
        ctx.note(|| format!("links (tail, head, function) {:?}, live {:?}", g.edges(), lives));
        ctx.state();
        ctx.outcome(&(g.edges(), &lives));
        let lg = LiveTDGraph::new(td.clone(), soon, lives.iter().map(|&l| InRangeOption::new(l)).collect());
        let pg = PessimisticLiveTDGraph::new(td.clone(), lives.iter().map(|&l| InRangeOption::new(l.map(|l| (l, soon)))).collect());
        let mut ls = Server::<LiveTDGraph, LiveTDDijkstraOps, _, _>::new(&lg);
        let mut ps = Server::<PessimisticLiveTDGraph, PessimisticLiveTDDijkstraOps, _, _>::new(&pg);
        for dep in [P / 2 - 4_000_000, P / 2 + 1] {
            for from in 0..3 {
                check_search(ctx, &g, &|e, t| lg.eval(e as u32, t), dep, from, &mut |q| {
                    let mut r = ls.td_query(q);
                    (r.distance(), r.node_path())
                })?;
                check_search(ctx, &g, &|e, t| pg.eval(e as u32, t), dep, from, &mut |q| {
                    let mut r = ps.td_query(q);
                    (r.distance(), r.node_path())
                })?;
            }
        }
        Ok(())
    });
    r.scenario("turns", "n=3, all digraph topologies, 2 functions, turn costs absent, 0 or 7 (free choice for up to 4 turns): line graphs", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[0, 1]);
        let td = td_graph(&g, pool);
        let mut left = 4;
        let t = g.tails();
        let costs: Vec<Vec<Option<u32>>> = (0..g.m())
            .map(|e| {
                (0..g.m())
                    .map(|f| {
                        if g.head[e] != t[f] {
                            return None;
                        }
                        if left == 0 {
                            return Some(1);
                        }
                        left -= 1;
                        ctx.pick_from(&[None, Some(0), Some(7)])
                    })
                    .collect()
            })
            .collect();
        ctx.note(|| format!("links (tail, head, function) {:?}, turn costs {:?}", g.edges(), costs));
        ctx.state();
        ctx.outcome(&(g.edges(), &costs));
        let lg = td.line_graph(|a, b| costs[a as usize][b as usize]);
        ensure!(lg.num_nodes() == g.m(), "line graph has {} nodes", lg.num_nodes());
        for e in 0..g.m() {
            let want: Vec<usize> = (0..g.m()).filter(|&f| costs[e][f].is_some()).collect();
            let got: Vec<(u32, u32)> = LinkIterable::<(NodeIdT, EdgeIdT)>::link_iter(&lg, e as u32).map(|(NodeIdT(h), EdgeIdT(t))| (h, t)).collect();
            ensure!(
                got.iter().map(|x| x.0 as usize).collect::<Vec<_>>() == want,
                "turns from link {}: {:?} instead of {:?}",
                e,
                got,
                want
            );
            for (f, turn) in got {
                for &t in deps {
                    ctx.step();
                    let want = td.travel_time_function(e as u32).eval(t) + costs[e][f as usize].unwrap();
                    let got = lg.travel_time_function(turn).eval(t);
                    ensure!(got == want, "turn {}->{} at {}: {} instead of {}", e, f, t, got, want);
                }
            }
        }
        Ok(())
    });
    r.finish();
}
