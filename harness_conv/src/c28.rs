//! C28: travel time profiles made of speed profiles are the times driving at these speeds takes.
use conversion::speed_profile_to_tt_profile;
use vharness::*;

/// exact travel time when entering at t (ms), speeds in km/h, meters; the profile repeats
fn drive(speeds: &[(u32, u32)], len: f64, t: f64) -> f64 {
    let wrap = speeds.last().unwrap().0 as f64;
    let mut rest = len * 3600.0;
    let mut at = t;
    loop {
        let day = (at / wrap).floor();
        let local = at - day * wrap;
        let i = speeds[..speeds.len() - 1].iter().rposition(|s| s.0 as f64 <= local).unwrap();
        let end = day * wrap + speeds[i + 1].0 as f64;
        let v = speeds[i].1 as f64;
        if rest <= v * (end - at) {
            return at + rest / v - t;
        }
        rest -= v * (end - at);
        at = end;
    }
}

fn check(ctx: &mut Ctx, speeds: &[(u32, u32)], len: u32) -> Result<(), String> {
    // a link does not take longer than a day
    if len as u64 * 3600 > speeds.iter().map(|s| s.1).min().unwrap() as u64 * speeds.last().unwrap().0 as u64 {
        return Ok(());
    }
    ctx.note(|| format!("speeds {:?} length {}", speeds, len));
    ctx.state();
    let wrap = speeds.last().unwrap().0;
    let slow = speeds.iter().map(|s| s.1).min().unwrap() as f64;
    let p = speed_profile_to_tt_profile(speeds, len);
    ctx.outcome(&p);
    ensure!(p.len() >= 2 && p[0].0 == 0 && p.last().unwrap().0 == wrap, "profile {:?} does not cover the period", p);
    ensure!(p[0].1 == p.last().unwrap().1, "profile {:?} does not repeat", p);
    // meters and milliseconds are rounded when another speed applies
    let tolerance = |t: f64| {
        let end = t + drive(speeds, len as f64, t);
        let mut crossed = 0;
        for d in 0..1 + (end / wrap as f64) as u32 {
            crossed += speeds[..speeds.len() - 1].iter().filter(|s| (s.0 + d * wrap) as f64 >= t - 1.0 && (s.0 + d * wrap) as f64 <= end + 1.0).count();
        }
        2.0 + (crossed as f64 + 1.0) * 3600.0 / slow + crossed as f64
    };
    for w in p.windows(2) {
        ctx.step();
        ensure!(w[0].0 < w[1].0, "times of {:?}", p);
        ensure!(w[0].0 + w[0].1 <= w[1].0 + w[1].1, "profile {:?} lets later drivers arrive earlier", p);
        for k in 0..=8 {
            let x = k as f64 / 8.0;
            let t = w[0].0 as f64 + x * (w[1].0 - w[0].0) as f64;
            let got = w[0].1 as f64 + x * (w[1].1 as f64 - w[0].1 as f64);
            let want = drive(speeds, len as f64, t);
            ensure!((got - want).abs() <= tolerance(t), "entering at {}: {} instead of {} (tolerance {}), profile {:?}", t, got, want, tolerance(t), p);
        }
    }
    let l = p.last().unwrap();
    ensure!(l.0 + l.1 <= p[1].0 + p[1].1 + wrap, "profile {:?} lets later drivers arrive earlier", p);
    Ok(())
}

fn main() {
    let mut r = Report::new("C28");
    let th = r.thorough();
    r.assume("speeds change at multiples of 5 minutes (as in the programs that convert them), a link takes less than a day, links have a length; meters and milliseconds are rounded at each change");
    r.scenario("steps", "2 to 4 (5) speeds from 5 values, changes at multiples of 5 minutes and at the end of the day, 10 lengths around those driven between changes", |ctx| {
        let k = 2 + ctx.pick(if th { 4 } else { 3 });
        let wrap = ctx.pick_from(&[86_400_000u32]);
        let mut speeds = vec![(0u32, ctx.pick_from(&[1u32, 5, 30, 50, 130]))];
        for i in 1..k {
            let (last, speed) = speeds[i - 1];
            let t = last + ctx.pick_from(&[300_000u32, 600_000, 900_000, 4_500_000]);
            let s = ctx.pick_from(&[1u32, 5, 30, 50, 130]);
            if s == speed {
                return Ok(());
            }
            speeds.push((t, s));
        }
        speeds.push((wrap, speeds[0].1));
        if ctx.flag() {
            // the last change is shortly before the end of the day
            let n = speeds.len();
            let l = &mut speeds[n - 2].0;
            if *l == 0 {
                return Ok(());
            }
            *l = wrap - ctx.pick_from(&[300_000, 600_000]);
        }
        let len = ctx.pick_from(&[1, 20, 416, 417, 2_499, 2_500, 2_501, 5_000, 8_417, 40_000]);
        check(ctx, &speeds, len)
    });
    r.finish();
}
