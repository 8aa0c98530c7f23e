//! C13: floating point travel time functions: evaluation, linking, merging, inversion, approximation and live traffic.
use rust_road_router::datastr::graph::floating_time_dependent::*;
use vharness::*;

const DAY: f64 = 86_400.0;
const TOL: f64 = 1e-4;

/// interpolation points in seconds, the first at 0, periodic
#[derive(Clone, Debug)]
struct F(Vec<(f64, f64)>);

impl F {
    fn eval(&self, t: f64) -> f64 {
        let t = t.rem_euclid(DAY);
        let i = self.0.iter().rposition(|p| p.0 <= t).unwrap();
        let a = self.0[i];
        let b = if i + 1 < self.0.len() { self.0[i + 1] } else { (DAY, self.0[0].1) };
        a.1 + (b.1 - a.1) * (t - a.0) / (b.0 - a.0)
    }
    fn is_fifo(&self) -> bool {
        let mut p = self.0.clone();
        p.push((DAY, self.0[0].1));
        p.windows(2).all(|w| w[0].0 + w[0].1 <= w[1].0 + w[1].1)
    }
    /// strictly increasing arrivals
    fn is_strict(&self) -> bool {
        let mut p = self.0.clone();
        p.push((DAY, self.0[0].1));
        p.windows(2).all(|w| w[0].0 + w[0].1 + 1e-3 < w[1].0 + w[1].1)
    }
    fn points(&self) -> Vec<TTFPoint> {
        let mut v: Vec<_> = self.0.iter().map(|&(a, b)| pt(a, b)).collect();
        if v.len() > 1 {
            v.push(pt(DAY, self.0[0].1));
        }
        v
    }
    /// points where the slope changes over `days`, and points in between
    fn samples(&self, days: i32) -> Vec<f64> {
        let mut v = vec![];
        for d in 0..days {
            for p in &self.0 {
                v.push(p.0 + d as f64 * DAY);
            }
        }
        v
    }
}

fn pt(at: f64, val: f64) -> TTFPoint {
    TTFPoint { at: Timestamp::new(at), val: FlWeight::new(val) }
}

/// every function with points at a subset of `times` and at 0 and any of `values`
fn pool(times: &[f64], values: &[f64], max_points: usize) -> Vec<F> {
    let mut out = vec![];
    for mask in 0..1usize << times.len() {
        let mut at = vec![0.0];
        at.extend(times.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, &t)| t));
        if at.len() > max_points {
            continue;
        }
        let total = values.len().pow(at.len() as u32);
        for mut c in 0..total {
            let f = F(at
                .iter()
                .map(|&t| {
                    let v = values[c % values.len()];
                    c /= values.len();
                    (t, v)
                })
                .collect());
            // a constant has a single point
            if f.0.len() > 1 && f.0.iter().all(|p| p.1 == f.0[0].1) {
                continue;
            }
            if f.is_fifo() {
                out.push(f);
            }
        }
    }
    out
}

/// all breakpoints and what is in between
fn refine(mut v: Vec<f64>, lo: f64, hi: f64) -> Vec<f64> {
    v.retain(|&t| t >= lo && t <= hi);
    v.push(lo);
    v.push(hi);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    let mut out = v.clone();
    for w in v.windows(2) {
        for k in 1..4 {
            out.push(w[0] + (w[1] - w[0]) * k as f64 / 4.0);
        }
    }
    out
}

fn ev(p: &[TTFPoint], t: f64) -> f64 {
    PeriodicPiecewiseLinearFunction::new(p).evaluate(Timestamp::new(t)).into()
}

/// well formed, periodic, FIFO
fn well_formed(name: &str, p: &[TTFPoint]) -> Result<(), String> {
    ensure!(!p.is_empty() && f64::from(p[0].at) == 0.0, "{}: does not start at 0: {:?}", name, p);
    if p.len() > 1 {
        let l = p.last().unwrap();
        ensure!(f64::from(l.at) == DAY, "{}: does not end after a day: {:?}", name, p);
        ensure!((f64::from(l.val) - f64::from(p[0].val)).abs() < TOL, "{}: not periodic: {:?}", name, p);
    }
    for w in p.windows(2) {
        ensure!(w[0].at < w[1].at, "{}: points are not sorted: {:?}", name, p);
        ensure!(
            f64::from(w[0].at) + f64::from(w[0].val) <= f64::from(w[1].at) + f64::from(w[1].val) + TOL,
            "{}: not FIFO: {:?}",
            name,
            p
        );
    }
    Ok(())
}

fn check_link(ctx: &mut Ctx, f: &F, g: &F) -> Result<(), String> {
    let (fp, gp) = (f.points(), g.points());
    let r = PeriodicPiecewiseLinearFunction::new(&fp).link(&PeriodicPiecewiseLinearFunction::new(&gp));
    well_formed("link", &r)?;
    let mut s = f.samples(1);
    // when the first one arrives at a breakpoint of the second one
    for w in r.windows(2) {
        s.push(w[0].at.into());
        s.push(w[1].at.into());
    }
    for t in refine(s, 0.0, DAY - 1.0) {
        ctx.step();
        let want = f.eval(t) + g.eval(t + f.eval(t));
        let got = ev(&r, t);
        ensure!((got - want).abs() < TOL, "link {:?} {:?} at {}: {} instead of {}, result {:?}", f.0, g.0, t, got, want, r);
    }
    Ok(())
}

fn check_merge(ctx: &mut Ctx, f: &F, g: &F) -> Result<(), String> {
    let (fp, gp) = (f.points(), g.points());
    let mut buffer = Vec::new();
    let (r, better) = PeriodicPiecewiseLinearFunction::new(&fp).merge(&PeriodicPiecewiseLinearFunction::new(&gp), &mut buffer);
    let show = || format!("merge {:?} {:?}: result {:?}, better {:?}", f.0, g.0, r, better);
    well_formed(&show(), &r)?;
    ensure!(!better.is_empty() && f64::from(better[0].0) == 0.0, "{}: no answer for the beginning", show());
    ensure!(better.windows(2).all(|w| w[0].0 < w[1].0), "{}: changes are not sorted", show());
    ensure!(f64::from(better.last().unwrap().0) <= DAY, "{}: change after the end", show());
    let mut s = f.samples(1);
    s.extend(g.samples(1));
    s.extend(better.iter().map(|b| f64::from(b.0)));
    for t in refine(s, 0.0, DAY) {
        ctx.step();
        let (a, b) = (f.eval(t), g.eval(t));
        let got = if t == DAY { ev(&r, 0.0) } else { ev(&r, t) };
        ensure!((got - a.min(b)).abs() < TOL, "{} at {}: {} instead of {}", show(), t, got, a.min(b));
        // who is better right here (at a change: both)
        let near = better.iter().any(|x| (f64::from(x.0) - t).abs() < 1e-3);
        if !near {
            let first = better.iter().rposition(|x| f64::from(x.0) <= t).map(|i| better[i].1).unwrap();
            ensure!(
                if first { a <= b + TOL } else { b <= a + TOL },
                "{}: at {} the values are {} and {}, but the {} is said to be better",
                show(),
                t,
                a,
                b,
                if first { "first" } else { "second" }
            );
        }
    }
    Ok(())
}

fn check_approx(ctx: &mut Ctx, f: &F) -> Result<(), String> {
    let fp = f.points();
    if fp.len() < 2 {
        return Ok(());
    }
    let p = PeriodicPiecewiseLinearFunction::new(&fp);
    let (mut b1, mut b2) = (Vec::new(), Vec::new());
    let a = p.approximate(&mut b1);
    well_formed("approximation", &a)?;
    let l = p.lower_bound_ttf(&mut b1, &mut b2);
    let u = p.upper_bound_ttf(&mut b1, &mut b2);
    let (l2, u2) = p.bound_ttfs(&mut b1, &mut b2);
    ensure!(b1.is_empty() && b2.is_empty(), "buffers are left with content");
    let bounds = [("lower", &l, true), ("upper", &u, false), ("lower (both)", &l2, true), ("upper (both)", &u2, false)];
    for (name, b, _) in bounds {
        well_formed(name, b)?;
    }
    for t in refine(f.samples(1), 0.0, DAY - 0.5) {
        ctx.step();
        let v = f.eval(t);
        let x = ev(&a, t);
        ensure!((x - v).abs() <= f64::from(APPROX) + TOL, "approximation of {:?} at {}: {} instead of {}: {:?}", f.0, t, x, v, a);
        for (name, b, low) in bounds {
            let x = ev(b, t);
            ensure!(if low { x <= v + TOL } else { x >= v - TOL }, "{} bound of {:?} at {}: {} instead of {}: {:?}", name, f.0, t, x, v, b);
        }
    }
    Ok(())
}

fn check_single(ctx: &mut Ctx, f: &F) -> Result<(), String> {
    let fp = f.points();
    let p = PeriodicPiecewiseLinearFunction::new(&fp);
    let lo = f.0.iter().map(|p| p.1).fold(f64::MAX, f64::min);
    let hi = f.0.iter().map(|p| p.1).fold(0.0, f64::max);
    ensure!(f64::from(p.lower_bound()) == lo && f64::from(p.upper_bound()) == hi, "bounds of {:?}: {:?} {:?}", f.0, p.lower_bound(), p.upper_bound());
    for t in refine(f.samples(3), 0.0, 3.0 * DAY - 1.0) {
        ctx.step();
        let v: f64 = p.evaluate(Timestamp::new(t)).into();
        ensure!((v - f.eval(t)).abs() < TOL, "{:?} at {}: {} instead of {}", f.0, t, v, f.eval(t));
        if f.is_strict() || f.0.len() == 1 {
            let back: f64 = p.inverse_evaluate(Timestamp::new(t + f.eval(t))).into();
            ensure!((back - t).abs() < 1e-3, "{:?}: arrival at {} leaves at {} instead of {}", f.0, t + f.eval(t), back, t);
        }
    }
    Ok(())
}

/// travel time with a live value until `soon`, then with slope 1 or -1 back to the prediction
fn live_ref(f: &F, live: Option<(f64, f64)>, t: f64) -> f64 {
    match live {
        None => f.eval(t),
        Some((l, soon)) => {
            if t <= soon {
                return l;
            }
            let pred_below = f.eval(soon) < l;
            // once they met it is the prediction
            let s = if pred_below { -1.0 } else { 1.0 };
            let mut x: Vec<f64> = f.samples(4).into_iter().filter(|&x| x >= soon && x < t).collect();
            x.extend([soon, t]);
            let met = if pred_below { x.iter().any(|&x| f.eval(x) >= l - (x - soon)) } else { x.iter().any(|&x| f.eval(x) <= l + (x - soon)) };
            if met {
                f.eval(t)
            } else {
                l + s * (t - soon)
            }
        }
    }
}

/// value of a stretch of interpolation points
fn ev_range(p: &[TTFPoint], t: f64) -> f64 {
    let at = |i: usize| f64::from(p[i].at);
    let val = |i: usize| f64::from(p[i].val);
    let i = (0..p.len()).rposition(|i| at(i) <= t + 1e-6).unwrap();
    if i + 1 == p.len() || (at(i) - t).abs() <= 1e-6 {
        return val(i);
    }
    val(i) + (val(i + 1) - val(i)) * (t - at(i)) / (at(i + 1) - at(i))
}

fn covers(name: &str, p: &[TTFPoint], start: f64, end: f64) -> Result<(), String> {
    ensure!(p.len() > 1 && f64::from(p[0].at) <= start + 1e-5 && f64::from(p.last().unwrap().at) >= end - 1e-5, "{}: does not cover {} to {}: {:?}", name, start, end, p);
    ensure!(p.windows(2).all(|w| w[0].at < w[1].at), "{}: points are not sorted: {:?}", name, p);
    ensure!(f64::from(p[1].at) > start && f64::from(p[p.len() - 2].at) < end, "{}: more than {} to {}: {:?}", name, start, end, p);
    Ok(())
}

/// one function over a range, and two parts of it put together
fn check_range(ctx: &mut Ctx, f: &F, cuts: &[f64]) -> Result<(), String> {
    let fp = f.points();
    let p = PeriodicPiecewiseLinearFunction::new(&fp);
    let ts = Timestamp::new;
    for (i, &a) in cuts.iter().enumerate() {
        for (j, &b) in cuts.iter().enumerate().skip(i + 1) {
            let mut whole = vec![];
            PLF::append_range(&p, ts(a), ts(b), &mut whole);
            let name = format!("{:?} from {} to {}", f.0, a, b);
            covers(&name, &whole, a, b)?;
            let mut parts = vec![];
            for c in i + 1..j {
                ctx.state();
                parts.clear();
                PLF::append_range(&p, ts(a), ts(cuts[c]), &mut parts);
                PLF::append_range(&p, ts(cuts[c]), ts(b), &mut parts);
                covers(&name, &parts, a, b)?;
                for t in refine(f.samples(3), a, b) {
                    ctx.step();
                    ensure!((ev_range(&parts, t) - f.eval(t)).abs() < TOL, "{} in two parts split at {}: at {} {} instead of {}: {:?}", name, cuts[c], t, ev_range(&parts, t), f.eval(t), parts);
                }
            }
            for t in refine(f.samples(3), a, b) {
                ctx.step();
                ensure!((ev_range(&whole, t) - f.eval(t)).abs() < TOL, "{}: at {} {} instead of {}: {:?}", name, t, ev_range(&whole, t), f.eval(t), whole);
            }
        }
    }
    Ok(())
}

/// where two functions meet
fn meetings(f: &F, g: &F) -> Vec<f64> {
    let mut s = f.samples(1);
    s.extend(g.samples(1));
    s.push(DAY);
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    s.dedup();
    let d = |t: f64| f.eval(t) - g.eval(t);
    let mut out: Vec<f64> = s.iter().copied().filter(|&t| t < DAY && d(t) == 0.0).collect();
    for w in s.windows(2) {
        // value just before the end of the day and after wrapping are the same
        let (a, b) = (d(w[0]), d(w[1]));
        if a * b < 0.0 {
            out.push(w[0] + (w[1] - w[0]) * a / (a - b));
        }
    }
    out
}

/// a route that changes from the first to the second function where they meet
fn check_switch(ctx: &mut Ctx, f: &F, g: &F) -> Result<(), String> {
    let (fp, gp) = (f.points(), g.points());
    let (p, q) = (PeriodicPiecewiseLinearFunction::new(&fp), PeriodicPiecewiseLinearFunction::new(&gp));
    let ts = Timestamp::new;
    for m in meetings(f, g) {
        for (a, b) in [(m - 10.0, m + 5.0), (m - 30_000.0, m + 30_000.0), (m - 500.0, m + 70_000.0)] {
            if a < 0.0 {
                continue;
            }
            ctx.state();
            let mut x = vec![];
            PLF::append_range(&p, ts(a), ts(m), &mut x);
            PLF::append_range(&q, ts(m), ts(b), &mut x);
            let name = format!("{:?} from {} to {} and {:?} to {}", f.0, a, m, g.0, b);
            covers(&name, &x, a, b)?;
            let mut s = f.samples(3);
            s.extend(g.samples(3));
            s.push(m);
            for t in refine(s, a, b) {
                ctx.step();
                let want = if t <= m { f.eval(t) } else { g.eval(t) };
                ensure!((ev_range(&x, t) - want).abs() < TOL, "{}: at {} {} instead of {}: {:?}", name, t, ev_range(&x, t), want, x);
            }
        }
    }
    Ok(())
}

/// the better one of two functions within a part of the day
fn check_partial_merge(ctx: &mut Ctx, f: &F, g: &F, cuts: &[f64]) -> Result<(), String> {
    let (fp, gp) = (f.points(), g.points());
    let (p, q) = (PeriodicPiecewiseLinearFunction::new(&fp), PeriodicPiecewiseLinearFunction::new(&gp));
    let ts = Timestamp::new;
    let mut buffer = vec![];
    for (i, &a) in cuts.iter().enumerate() {
        // nearly but not quite the same at the start: which one counts as the better one is up to rounding
        let d = (f.eval(a) - g.eval(a)).abs();
        if d > 0.0 && d < 1e-4 {
            continue;
        }
        for &b in &cuts[i + 1..] {
            ctx.state();
            let (mut x, mut y) = (vec![], vec![]);
            PLF::append_range(&p, ts(a), ts(b), &mut x);
            PLF::append_range(&q, ts(a), ts(b), &mut y);
            let (r, better) = PartialPiecewiseLinearFunction::new(&x).merge(&PartialPiecewiseLinearFunction::new(&y), ts(a), ts(b), &mut buffer);
            let name = || format!("merge {:?} {:?} from {} to {}, better {:?}", f.0, g.0, a, b, better);
            covers(&name(), &r, a, b)?;
            ensure!(!better.is_empty() && f64::from(better[0].0) <= a + 1e-5 && better.windows(2).all(|w| w[0].0 < w[1].0), "{}: changes", name());
            let mut s = f.samples(3);
            s.extend(g.samples(3));
            s.extend(better.iter().map(|x| f64::from(x.0)));
            for t in refine(s, a, b) {
                ctx.step();
                let (v, w) = (f.eval(t), g.eval(t));
                ensure!((ev_range(&r, t) - v.min(w)).abs() < TOL, "{}: at {} {} instead of {}: {:?}", name(), t, ev_range(&r, t), v.min(w), r);
                let near = better.iter().any(|x| (f64::from(x.0) - t).abs() < 1e-3);
                if !near {
                    let first = better.iter().rposition(|x| f64::from(x.0) <= t).map(|i| better[i].1).unwrap();
                    ensure!(if first { v <= w + TOL } else { w <= v + TOL }, "{}: at {} the values are {} and {}", name(), t, v, w);
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Report::new("C13");
    r.assume("functions are FIFO, points on a grid of whole seconds; ranges to merge do not start where the functions differ by less than 1e-4 but are not equal");
    let th = r.thorough();
    // coarse: over the day; fine: rush hours with slopes of -1 and more; long: longer than a day
    let coarse = pool(&[20_000.0, 43_200.0, 80_000.0], &[5.0, 60.0, 1000.0, 10_000.0], if th { 4 } else { 3 });
    let fine = pool(&[43_200.0, 43_210.0, 43_220.0, 43_240.0], &[3.0, 13.0, 23.0], if th { 5 } else { 4 });
    let long = pool(&[20_000.0, 60_000.0], &[20.0, 86_400.0, 100_000.0, 30_000.0], 3);
    let wobble = pool(&[10_000.0, 20_000.0, 30_000.0, 40_000.0, 50_000.0], &[10.0, 10.75, 11.5, 30.0], if th { 6 } else { 5 });
    let jump = pool(&[1.0, 2.0, 3.0, 86_398.0, 86_399.0], &[1.0, 2.0, 4.0], if th { 6 } else { 5 });
    let pools = [("coarse", &coarse), ("fine", &fine), ("long", &long), ("jump", &jump)];

    r.scenario("single", "every function of 5 families (points at subsets of a grid, values from a set, FIFO): value, bounds and inverse over three days, approximation and bounds", |ctx| {
        let fam = ctx.pick(5);
        let p = [&coarse, &fine, &long, &wobble, &jump][fam];
        let i = ctx.pick(p.len());
        let f = &p[i];
        ctx.note(|| format!("{:?}", f.0));
        ctx.state();
        ctx.outcome(&(fam, i));
        check_single(ctx, f)?;
        check_approx(ctx, f)
    });
    r.scenario("pairs", "every pair of functions of the same family (4 families): linking and merging", |ctx| {
        let fam = ctx.pick(4);
        let p = pools[fam].1;
        let i = ctx.pick(p.len());
        let f = &p[i];
        ctx.state();
        ctx.outcome(&(fam, i));
        for g in p {
            check_link(ctx, f, g).map_err(|e| format!("{} ({})", e, pools[fam].0))?;
            check_merge(ctx, f, g)?;
        }
        Ok(())
    });
    r.scenario("cross", "every pair of functions of two different families: linking and merging", |ctx| {
        let (x, y) = ctx.pick_from(&[(0, 1), (1, 0), (0, 2), (2, 0), (1, 3), (3, 1), (2, 3), (3, 2)]);
        let p = pools[x].1;
        let i = ctx.pick(p.len());
        ctx.state();
        ctx.outcome(&(x, y, i));
        for g in pools[y].1 {
            check_link(ctx, &p[i], g)?;
            check_merge(ctx, &p[i], g)?;
        }
        Ok(())
    });
    r.scenario("ranges", "every function of 5 families: every range between 12 instants within two days, at once and in two parts", |ctx| {
        let fam = ctx.pick(5);
        let p = [&coarse, &fine, &long, &wobble, &jump][fam];
        let i = ctx.pick(p.len());
        ctx.outcome(&(fam, i));
        check_range(ctx, &p[i], &[0.0, 1.0, 7_777.0, 20_000.0, 43_205.0, 43_210.0, 59_000.0, 86_398.5, 86_400.0, 100_000.0, 129_630.0, 172_800.0])
    });
    r.scenario("switch", "every pair of functions of the same family (4 families): one until an instant where they meet, the other one afterwards", |ctx| {
        let fam = ctx.pick(4);
        let p = pools[fam].1;
        let i = ctx.pick(p.len());
        ctx.outcome(&(fam, i));
        for g in p {
            check_switch(ctx, &p[i], g)?;
        }
        Ok(())
    });
    r.scenario("merge-parts", "every pair of functions of the same family (4 families): merging within every range between 5 instants (thorough: 8)", |ctx| {
        let fam = ctx.pick(4);
        let p = pools[fam].1;
        let i = ctx.pick(p.len());
        ctx.outcome(&(fam, i));
        for g in p {
            let cuts = [0.0, 20_000.0, 43_205.0, 86_398.5, 86_400.0, 1.5, 43_230.0, 70_000.0];
            let mut cuts = cuts[..if th { 8 } else { 5 }].to_vec();
            cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
            check_partial_merge(ctx, &p[i], g, &cuts)?;
        }
        Ok(())
    });
    r.scenario("live", "every function of 3 families with every live value of a grid (8 values, 6 ends): value before and after the end of the live value", |ctx| {
        let fam = ctx.pick_from(&[0usize, 1, 3]);
        let p = pools[fam].1;
        let i = ctx.pick(p.len());
        let f = &p[i];
        let (mut dt, mut tt) = (vec![], vec![]);
        for x in &f.0 {
            dt.push((x.0 * 1000.0) as u32);
            tt.push((x.1 * 1000.0) as u32);
        }
        let k = dt.len() as u32;
        let graph = TDGraph::new(vec![0, 2, 2], vec![1, 1], vec![0, k, k + 1], [dt, vec![0]].concat(), [tt, vec![7000]].concat());
        for now in [0.0, 43_195.0, 86_000.0] {
            for l in [1.0, 5.0, 12.0, 13.0, 60.0, 300.0, 20_000.0, 60_000.0] {
                for d in [1.0, 10.0, 15.0, 600.0, 40_000.0, 80_000.0] {
                    ctx.state();
                    let soon = now + d;
                    let lg = LiveGraph::new(graph.clone(), Timestamp::new(now), &[Some(((l * 1000.0) as u32, (soon * 1000.0) as u32)), None]);
                    let ttf = lg.travel_time_function(0);
                    let other = lg.travel_time_function(1);
                    let mut s: Vec<f64> = f.samples(4);
                    s.extend([soon, soon + l, soon + 5.0]);
                    if let Some(t) = ttf.t_switch() {
                        s.push(t.into());
                    }
                    let (lb, ub) = (f64::from(ttf.lower_bound()), f64::from(ttf.upper_bound()));
                    for (a, b) in [(now, now + 5.0), (now, now + 20_000.0), (now + 5.0, now + 700.0), (soon - 0.5, soon + 50.0), (soon + 1.0, soon + 2.0), (now, now + DAY)] {
                        let mut part = vec![];
                        ttf.append_range(Timestamp::new(a), Timestamp::new(b), &mut part);
                        let name = format!("{:?} live {} until {} from {} to {}", f.0, l, soon, a, b);
                        covers(&name, &part, a, b)?;
                        for t in refine(s.clone(), a, b) {
                            ctx.step();
                            let want = live_ref(f, Some((l, soon)), t);
                            ensure!((ev_range(&part, t) - want).abs() < TOL, "{}: at {} {} instead of {}: {:?}", name, t, ev_range(&part, t), want, part);
                            ensure!(lb <= want + TOL && ub >= want - TOL, "{}: at {} {} is not within {} and {}", name, t, want, lb, ub);
                        }
                    }
                    let mut last = 0.0;
                    let mut s = refine(s, now, now + 2.0 * DAY);
                    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    for t in s {
                        ctx.step();
                        let want = live_ref(f, Some((l, soon)), t);
                        let got: f64 = ttf.evaluate(Timestamp::new(t)).into();
                        ensure!((got - want).abs() < TOL, "{:?} live {} until {} at {}: {} instead of {}", f.0, l, soon, t, got, want);
                        ensure!(t + got >= last - TOL, "{:?} live {} until {} at {}: not FIFO", f.0, l, soon, t);
                        last = t + got;
                        let o: f64 = other.evaluate(Timestamp::new(t)).into();
                        ensure!(o == 7.0, "link without live value at {}: {}", t, o);
                    }
                }
            }
        }
        ctx.outcome(&(fam, i));
        Ok(())
    });
    r.finish();
}
