//! C23: link speed estimates: every link of a trip once and in order, entered and left when interpolating the positions of the
//! vehicle (proportionally to free flow times) says so.
use rust_road_router::link_speed_estimates::*;
use vharness::*;

const BASE: u64 = 50_000_000;

/// `marks[i]` are the positions (in parts of 8) reported on link i; `pace(j)` is the slowdown between report j and j+1
fn trip(ctx: &mut Ctx, lens: &[u32], limits: &[u32], marks: &[Vec<u32>], round_trip: bool, pace: &dyn Fn(usize) -> f64) -> Result<(), String> {
    let k = lens.len();
    let links: Vec<LinkData> = (0..k).map(|i| LinkData { link_id: if round_trip { 5 + i as u64 % 2 } else { 11 + 7 * ((i as u64 * 5) % 9) }, length: lens[i], speed_limit: limits[i] }).collect();
    let ff: Vec<f64> = (0..k).map(|i| lens[i] as f64 * 3.6 / limits[i] as f64).collect();
    let start = |i: usize| ff[..i].iter().sum::<f64>();
    for i in 0..k {
        ensure!((links[i].free_flow_traversal_time() - ff[i]).abs() < 1e-6, "free flow time of {}", i);
    }
    // progress is measured in free flow time since the start of the first link
    let mut traces = vec![];
    let mut prog: Vec<f64> = vec![];
    let mut time: Vec<f64> = vec![];
    let mut t = BASE as f64;
    for i in 0..k {
        for &m in &marks[i] {
            let p = start(i) + ff[i] * m as f64 / 8.0;
            if let Some(&last) = prog.last() {
                t += (p - last) * pace(prog.len());
            }
            t = t.round();
            prog.push(p);
            time.push(t);
            traces.push(TraceData { timestamp: t as u64, link_id: links[i].link_id, traversed_in_travel_direction_fraction: m as f32 / 8.0 });
        }
    }
    ctx.note(|| format!("links {:?}\n  traces {:?}", links, traces));
    let at = |p: f64| -> f64 {
        let j = (1..prog.len()).find(|&j| p <= prog[j]).unwrap_or(prog.len() - 1);
        time[j - 1] + (p - prog[j - 1]) * (time[j] - time[j - 1]) / (prog[j] - prog[j - 1])
    };
    ctx.state();
    let out: Vec<LinkSpeedData> = estimate_iter(Box::new(links.iter()), Box::new(traces.iter()))?.collect();
    ensure!(out.iter().map(|o| o.link_id).eq(links.iter().map(|l| l.link_id)), "estimates for {:?}", out.iter().map(|o| o.link_id).collect::<Vec<_>>());
    let tol = 4.0 + k as f64;
    for i in 0..k {
        ctx.step();
        let o = &out[i];
        let entry = at(start(i));
        ensure!((o.link_entered_timestamp as f64 - entry).abs() <= tol, "link {} entered at {} instead of {}", i, o.link_entered_timestamp, entry);
        // on the last link up to the last position
        let (exit, len) = if i + 1 < k { (at(start(i + 1)), lens[i] as f64) } else { (*time.last().unwrap(), lens[i] as f64 * *marks[i].last().unwrap() as f64 / 8.0) };
        let need = len * 3.6 / o.velocity as f64;
        ensure!(o.velocity > 0.0 && (need - (exit - entry)).abs() <= tol + need * 1e-4, "link {} takes {} ms at {} km/h instead of {}", i, need, o.velocity, exit - entry);
        ensure!(o.estimate_quality >= 0.0 && o.estimate_quality <= 1.0001, "quality of link {} is {}", i, o.estimate_quality);
        // the more positions on a link, the better: fully observed links are certain
        if i > 0 && marks[i].first() == Some(&0) && marks[i].last() == Some(&8) {
            ensure!(o.estimate_quality > 0.99, "quality of the completely observed link {} is {}", i, o.estimate_quality);
        }
        ctx.outcome(&(o.link_entered_timestamp, o.velocity as u32));
    }
    Ok(())
}

fn pick_trip(ctx: &mut Ctx, k: usize, sets: &[Vec<u32>]) -> Result<(), String> {
    let mut lens = vec![];
    let mut limits = vec![];
    let mut marks: Vec<Vec<u32>> = vec![];
    for i in 0..k {
        let c = ctx.pick(3);
        lens.push([250_000, 40_000, 1_000_003][c]);
        limits.push([50, 30, 120][if i % 2 == 0 { c } else { (c + 1) % 3 }]);
        marks.push(ctx.pick_from(sets));
    }
    // the first and the last link have positions, the vehicle moves between two positions
    let flat: Vec<(usize, u32)> = (0..k).flat_map(|i| marks[i].iter().map(move |&m| (i, m)).collect::<Vec<_>>()).collect();
    if marks[0].is_empty() || marks[k - 1].is_empty() || flat.len() < 2 || flat.last() == Some(&(k - 1, 0)) || flat.windows(2).any(|w| w[0].0 + 1 == w[1].0 && w[0].1 == 8 && w[1].1 == 0) {
        return Ok(());
    }
    let style = ctx.pick(4);
    // back and forth on two links, when each time positions tell so
    let round_trip = marks.iter().all(|m| !m.is_empty()) && ctx.flag();
    trip(ctx, &lens, &limits, &marks, round_trip, &move |j| match style {
        0 => 1.0,
        1 => [1.5, 0.75][j % 2],
        2 => 1.0 + j as f64 * 0.5,
        _ => [4.0, 1.0, 1.0][j % 3],
    })
}

fn main() {
    let mut r = Report::new("C23");
    let th = r.thorough();
    r.assume("the first and the last link of a trip have positions, a link is only used again with positions on all links in between, the vehicle moves between successive positions");
    r.scenario("one-link", "one link of 3 kinds, all subsets of 5 positions, 4 paces", |ctx| {
        let m: Vec<u32> = [0, 1, 4, 7, 8].iter().copied().filter(|_| ctx.flag()).collect();
        pick_trip(ctx, 1, &[m])
    });
    let subsets = |all: &[u32]| -> Vec<Vec<u32>> { (0..1usize << all.len()).map(|s| all.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(_, &m)| m).collect()).collect() };
    let two = subsets(&[0, 1, 4, 7, 8]);
    let three = if th { subsets(&[0, 2, 5, 8]) } else { subsets(&[0, 3, 6]) };
    let full = vec![vec![], vec![2], vec![0, 4, 8], vec![1, 7]];
    r.scenario("two-links", "two links of 3 kinds each, all subsets of 5 positions on each, 4 paces", |ctx| pick_trip(ctx, 2, &two));
    r.scenario("three-links", "three links of 3 kinds each, all subsets of 3 positions on each, 4 paces", |ctx| pick_trip(ctx, 3, &three));
    r.scenario("many-links", "four (five) links of 3 kinds each, 4 sets of positions each, 4 paces", |ctx| {
        let k = if th { 4 + ctx.pick(2) } else { 4 };
        pick_trip(ctx, k, &full)
    });
    r.scenario("empty", "no links or no positions are refused", |ctx| {
        let l = vec![LinkData { link_id: 1, length: 10, speed_limit: 5 }];
        let t = vec![TraceData { timestamp: 1, link_id: 1, traversed_in_travel_direction_fraction: 0.5 }];
        let (a, b) = (ctx.flag(), ctx.flag());
        ctx.outcome(&(a, b));
        let res = estimate_iter(Box::new(l[..a as usize].iter()), Box::new(t[..b as usize].iter()));
        ensure!(res.is_ok() == (a && b), "given {} {}", a, b);
        Ok(())
    });
    r.finish()
}
