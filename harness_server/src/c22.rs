//! C22: the server answers by the current travel times; customizations take effect in the order of their requests, whatever
//! their threads do; no request keeps it from answering others.
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::io::*;
use rust_road_router::util::in_range_option::InRangeOption;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use vharness::gen::*;
use vharness::oracle::*;
use vharness::*;

static COUNTER: AtomicUsize = AtomicUsize::new(0);

fn root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
    base.join(format!("vharness-c22-{}", std::process::id()))
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = root().join(COUNTER.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        let _ = std::fs::remove_dir(root());
    }
}

#[derive(Clone)]
struct Map {
    g: G,
    tails: Vec<u32>,
    /// HERE id and direction (true: along the reference) of every link
    names: Vec<(u64, bool)>,
    pos: Vec<(f32, f32)>,
}

/// links as (HERE id, reference node, other node, weight along, weight against)
fn map(n: usize, links: &[(u64, u32, u32, Option<u32>, Option<u32>)]) -> Map {
    let mut e: Vec<(u32, u32, u32, (u64, bool))> = vec![];
    for &(id, a, b, along, against) in links {
        if let Some(w) = along {
            e.push((a, b, w, (id, true)));
        }
        if let Some(w) = against {
            e.push((b, a, w, (id, false)));
        }
    }
    // links of one node stay in this order
    e.sort_by_key(|x| x.0);
    let mut first_out = vec![0u32; n + 1];
    for x in &e {
        first_out[x.0 as usize + 1] += 1;
    }
    for v in 0..n {
        first_out[v + 1] += first_out[v];
    }
    Map {
        g: G {
            n,
            first_out,
            head: e.iter().map(|x| x.1).collect(),
            weight: e.iter().map(|x| x.2).collect(),
        },
        tails: e.iter().map(|x| x.0).collect(),
        names: e.iter().map(|x| x.3).collect(),
        pos: (0..n).map(|v| (48.0 + [0.0, 0.5, 0.25, 1.0, 1.5][v % 5] as f32, 8.0 + [0.0, 0.25, 1.0, 0.75, 0.125][v % 5] as f32)).collect(),
    }
}

fn maps(k: usize) -> Map {
    match k {
        // two routes and a direct link, parallel links, one way links against and along the reference direction
        0 => map(
            4,
            &[
                (70, 0, 1, Some(100), Some(100)),
                (5, 1, 2, Some(100), None),
                (64, 2, 1, None, Some(140)),
                (63, 2, 3, Some(60), Some(80)),
                (130, 0, 3, Some(400), Some(200)),
                (8, 3, 1, Some(120), None),
            ],
        ),
        // a path with a one way end
        _ => map(4, &[(1, 1, 0, Some(20), Some(40)), (2, 1, 2, Some(60), Some(80)), (300, 3, 2, None, Some(100))]),
    }
}

fn write(m: &Map, dir: &Path) {
    let e = "could not write";
    m.g.first_out.write_to(&dir.join("first_out")).expect(e);
    m.g.head.write_to(&dir.join("head")).expect(e);
    m.g.weight.write_to(&dir.join("travel_time")).expect(e);
    m.pos.iter().map(|p| p.0).collect::<Vec<f32>>().write_to(&dir.join("latitude")).expect(e);
    m.pos.iter().map(|p| p.1).collect::<Vec<f32>>().write_to(&dir.join("longitude")).expect(e);
    nd_order(&m.g).write_to(&dir.join("cch_perm")).expect(e);
    let mut bits = BitVec::new(m.names.iter().map(|n| n.0).max().unwrap() as usize + 1);
    for n in &m.names {
        bits.set(n.0 as usize);
    }
    let ids = RankSelectMap::new(bits);
    let mut ranks: Vec<(InRangeOption<u32>, InRangeOption<u32>)> = vec![(InRangeOption::NONE, InRangeOption::NONE); ids.len()];
    for (l, n) in m.names.iter().enumerate() {
        let r = &mut ranks[ids.get(n.0 as usize).unwrap()];
        *(if n.1 { &mut r.0 } else { &mut r.1 }) = InRangeOption::some(l as u32);
    }
    ids.write_to(&dir.join("link_id_mapping")).expect(e);
    ranks.write_to(&dir.join("here_rank_to_link_id")).expect(e);
}

type Update = (u64, bool, Option<u32>);

fn apply(m: &Map, weights: &mut [u32], u: &[Update]) {
    for &(id, along, w) in u {
        if let Some(l) = m.names.iter().position(|&n| n == (id, along)) {
            weights[l] = w.unwrap_or(INF);
        }
    }
}

fn body(u: &[Update]) -> String {
    json!(u.iter().map(|x| json!([x.0, x.1, x.2])).collect::<Vec<_>>()).to_string()
}

#[derive(Clone, Debug)]
enum Probe {
    Here { from: usize, to: usize, quarters: u32 },
    Geo { from: u32, to: u32, off: f32 },
}

fn url(m: &Map, p: &Probe) -> String {
    match *p {
        Probe::Here { from, to, quarters } => {
            let (f, t) = (m.names[from], m.names[to]);
            format!(
                "/here_query?from_link_id={}&from_direction={}&from_link_fraction=0.5&to_link_id={}&to_direction={}&to_link_fraction={}",
                f.0,
                f.1,
                t.0,
                t.1,
                quarters as f32 / 4.0
            )
        }
        Probe::Geo { from, to, off } => {
            let (f, t) = (m.pos[from as usize], m.pos[to as usize]);
            format!("/query?from_lat={}&from_lng={}&to_lat={}&to_lng={}", f.0 + off, f.1 - off, t.0 - off, t.1 + off)
        }
    }
}

fn probes(m: &Map) -> Vec<Probe> {
    let k = m.names.len();
    let mut res = vec![];
    for from in 0..k {
        for to in 0..k {
            if from != to {
                res.push(Probe::Here { from, to, quarters: (from + to) as u32 % 5 });
            }
        }
    }
    for from in 0..m.g.n as u32 {
        for to in 0..m.g.n as u32 {
            res.push(Probe::Geo { from, to, off: 0.0078125 * ((from + to) % 4) as f32 });
        }
    }
    res
}

/// is this answer right with these travel times?
fn judge(m: &Map, weights: &[u32], p: &Probe, answer: &Value) -> Result<(), String> {
    let g = m.g.with_weights(weights.to_vec());
    let d = dist_matrix(&g);
    let err = |what: &str| Err(format!("{:?}: {} {}", p, answer, what));
    let (s, t) = match *p {
        Probe::Here { from, to, .. } => {
            if weights[from] >= INF || weights[to] >= INF {
                // starting or ending on a closed link
                return Ok(());
            }
            (m.g.head[from], m.tails[to])
        }
        Probe::Geo { from, to, .. } => (from, to),
    };
    let dist = d[s as usize][t as usize];
    let a = &answer["ok"];
    if answer["ok"].is_null() && answer.get("ok").is_some() {
        return if dist >= INF { Ok(()) } else { err(&format!("although there is a path of length {}", dist)) };
    }
    if dist >= INF {
        return err("although there is no path");
    }
    let path = match a["path"].as_array() {
        Some(p) => p,
        None => return err("has no path"),
    };
    match *p {
        Probe::Here { from, to, quarters } => {
            let want = dist + weights[from] / 2 + weights[to] * quarters / 4;
            if a["distance"].as_u64() != Some(want as u64) {
                return err(&format!("instead of distance {}", want));
            }
            let mut links = vec![];
            for x in path {
                match m.names.iter().position(|n| x[0].as_u64() == Some(n.0) && x[1].as_bool() == Some(n.1)) {
                    Some(l) => links.push(l),
                    None => return err("names a link that does not exist"),
                }
            }
            if links.first() != Some(&from) || links.last() != Some(&to) || links.len() < 2 {
                return err("does not start and end with the links asked for");
            }
            let inner = &links[1..links.len() - 1];
            let mut at = s;
            let mut sum = 0u64;
            for &l in inner {
                if m.tails[l] != at {
                    return err("is not connected");
                }
                at = m.g.head[l];
                sum += weights[l] as u64;
            }
            if at != t || sum != dist as u64 {
                return err(&format!("leads to node {} in {} instead of {}", at, sum, dist));
            }
        }
        Probe::Geo { .. } => {
            if a["distance"].as_u64() != Some(dist as u64) {
                return err(&format!("instead of distance {}", dist));
            }
            let mut nodes = vec![];
            for x in path {
                let same = |v: &Value, y: f32| v.as_f64().map_or(false, |v| v as f32 == y);
                match m.pos.iter().position(|q| same(&x[0], q.0) && same(&x[1], q.1)) {
                    Some(v) => nodes.push(v as u32),
                    None => return err("has a place which is no node"),
                }
            }
            if let Err(e) = check_node_path(&g, s, t, dist, &nodes) {
                return err(&e);
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Event {
    Customize(Vec<Update>),
    /// a request with a body that is no valid customization
    Malformed(String),
    /// step of the thread of the i-th customization
    Step(usize),
    Probe(Vec<Probe>),
    /// requests that have to fail
    Bad(Vec<String>),
}

fn serve(ctx: &mut Ctx, m: &Map, events: &[Event]) -> Result<(), String> {
    ctx.note(|| format!("links {:?} {:?} weights {:?}; {:?}", m.tails, m.g.head, m.names, events.iter().filter(|e| !matches!(e, Event::Probe(_))).collect::<Vec<_>>()));
    ctx.state();
    ctx.alive();
    let all = probes(m);
    let mut script: Vec<(Value, Option<&Event>)> = vec![];
    let get = |p: &[Probe]| json!({ "urls": p.iter().map(|p| url(m, p)).collect::<Vec<_>>() });
    for e in events {
        let v = match e {
            Event::Customize(u) => json!({"urls": ["/customize"], "body": body(u)}),
            Event::Malformed(b) => json!({"urls": ["/customize"], "body": b}),
            Event::Step(i) => json!({"step": i, "patience": 60}),
            Event::Probe(p) => get(p),
            Event::Bad(u) => json!({ "urls": u }),
        };
        script.push((v, Some(e)));
    }
    let last = Event::Probe(all);
    script.push((json!({"open": true}), None));
    if let Event::Probe(p) = &last {
        script.push((get(p), Some(&last)));
    }
    let s = Scratch::new();
    write(m, &s.0);
    let run = |wait: u64| -> Result<Vec<Value>, String> {
        let mut text: String = script.iter().map(|x| format!("{}\n", x.0)).collect();
        if wait > 0 {
            let open = format!("{}\n", json!({"open": true}));
            text = text.replace(&open, &format!("{}{}\n", open, json!({ "sleep": wait })));
        }
        std::fs::write(s.0.join("script"), text).unwrap();
        let bin = std::env::current_exe().unwrap().parent().unwrap().join("server_under_test");
        let st = Command::new(bin)
            .arg(&s.0)
            .current_dir(&s.0)
            .env("ROCKET_LOG", "off")
            .env("ROCKET_CLI_COLORS", "off")
            .env("VERIF_SCRIPT", s.0.join("script"))
            .env("VERIF_OUT", s.0.join("answers"))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .map_err(|e| e.to_string())?;
        let text = std::fs::read_to_string(s.0.join("answers")).map_err(|_| format!("the server ended with {}", st))?;
        Ok(text.lines().map(|l| serde_json::from_str(l).unwrap()).filter(|v: &Value| !(wait > 0 && v["slept"].is_boolean())).collect())
    };
    let mut answers = run(0)?;
    ensure!(answers.len() == script.len(), "{} answers", answers.len());
    // threads that do not come from the scope can not be controlled: wait for them
    let customizations = events.iter().filter(|e| matches!(e, Event::Customize(_))).count();
    let controlled = answers.last().unwrap()["done"].as_array().map_or(0, |d| d.len());
    if controlled < customizations {
        ctx.count("uncontrolled", 1);
        let all = run(300)?;
        let open = script.iter().position(|x| x.0["open"].is_boolean()).unwrap();
        answers = all.into_iter().enumerate().filter(|(i, _)| *i != open + 1).map(|x| x.1).collect();
    }
    // travel times after 0, 1, .. requests
    let mut states = vec![m.g.weight.clone()];
    let mut n_last = 0;
    for (i, ((_, e), a)) in script.iter().zip(&answers).enumerate() {
        ctx.step();
        ensure!(a["hang"].is_null(), "request {} gets no answer", i);
        match e {
            Some(Event::Customize(u)) => {
                let mut w = states.last().unwrap().clone();
                apply(m, &mut w, u);
                states.push(w);
                ensure!(a["answers"][0].get("ok").is_some(), "customization: {}", a);
            }
            Some(Event::Malformed(b)) => ensure!(a["answers"][0].get("error").is_some(), "customization with {} is accepted", b),
            Some(Event::Bad(u)) => {
                for (u, a) in u.iter().zip(a["answers"].as_array().unwrap()) {
                    ensure!(a["error"] == json!(500), "{} is answered by {}", u, a);
                }
            }
            Some(Event::Step(_)) | None => (),
            Some(Event::Probe(ps)) => {
                let done = a["done"].as_array().unwrap();
                let finished = if i + 1 == script.len() && controlled <= customizations {
                    states.len() - 1
                } else {
                    // everything requested up to the last customization that is finished
                    done.iter().rposition(|d| d == &json!(true)).map_or(0, |i| i + 1)
                };
                let first = finished.min(states.len() - 1).max(n_last);
                n_last = 0;
                let got = a["answers"].as_array().unwrap();
                ensure!(got.len() == ps.len(), "answers {}", a);
                // nothing changes during the requests unless they made threads go on
                let mut why = String::new();
                let fits = (first..states.len()).any(|k| {
                    ps.iter().zip(got).all(|(p, x)| match judge(m, &states[k], p, x) {
                        Ok(()) => true,
                        Err(e) => {
                            why = format!("after {} of {} customizations: {}", k, states.len() - 1, e);
                            false
                        }
                    })
                });
                if a["waited"] == json!(true) || controlled < customizations {
                    for (p, x) in ps.iter().zip(got) {
                        ensure!(
                            (first..states.len()).any(|k| judge(m, &states[k], p, x).is_ok()),
                            "event {}: {:?}: {} fits no travel times",
                            i,
                            p,
                            x
                        );
                    }
                } else {
                    ensure!(fits, "event {} ({} customizations are finished): {}", i, finished, why);
                }
                ctx.outcome(&a["answers"].to_string());
            }
        }
    }
    Ok(())
}

fn updates(m: usize) -> Vec<Vec<Update>> {
    match m {
        0 => vec![
            vec![(130, true, Some(20))],
            vec![(5, true, None), (63, false, Some(500))],
            vec![(70, true, Some(800)), (5, true, Some(300)), (70, true, Some(10)), (70, false, Some(30))],
            vec![(64, false, Some(8)), (130, true, Some(1000))],
            vec![(5, false, Some(2)), (64, true, Some(2)), (7, true, Some(2)), (100_000, true, Some(2)), (8, true, Some(4))],
            vec![(0, true, Some(2)), (63, true, None), (130, true, None), (70, true, None)],
        ],
        _ => vec![
            vec![(1, false, Some(2))],
            vec![(2, true, None)],
            vec![(300, false, Some(8)), (1, false, Some(6)), (300, true, Some(2)), (1, false, Some(44))],
            vec![(2, true, Some(4)), (2, false, None)],
        ],
    }
}

fn main() {
    let mut r = Report::new("C22");
    let th = r.thorough();
    r.assume("positive even travel times below 2^22, node coordinates without ties; answers for queries starting or ending on closed links are not judged; customization threads are let run up to the end of the customization or their end at a time");
    r.scenario("queries", "2 maps, all pairs of links and nodes without customization, rounded positions, repeated", |ctx| {
        let m = maps(ctx.pick(2));
        let p = probes(&m);
        serve(ctx, &m, &[Event::Probe(p)])
    });
    r.scenario("schedules", "2 maps, up to 2 customizations of 6 (4) kinds, all interleavings of their requests, starts and ends; all queries after each", |ctx| {
        let k = ctx.pick(2);
        let m = maps(k);
        let kinds = updates(k);
        let count = 1 + ctx.pick(2);
        let mut ev = vec![];
        let (mut requested, mut steps) = (0, vec![0usize; count]);
        let p = probes(&m);
        // thread i: two steps; everything else stays undone until the end
        loop {
            let mut options = vec![];
            if requested < count {
                options.push(count);
            }
            options.extend((0..requested).filter(|&i| steps[i] < 2));
            if options.is_empty() {
                break;
            }
            let o = ctx.pick_from(&options);
            if o == count {
                ev.push(Event::Customize(kinds[ctx.pick(kinds.len())].clone()));
                requested += 1;
            } else {
                ev.push(Event::Step(o));
                steps[o] += 1;
            }
            ev.push(Event::Probe(p.clone()));
        }
        serve(ctx, &m, &ev)
    });
    r.scenario("three", "3 customizations of 2 (3) kinds each, all interleavings of their requests, starts and ends", |ctx| {
        let m = maps(0);
        let kinds = updates(0);
        let mut ev = vec![];
        let (mut requested, mut steps) = (0, vec![0usize; 3]);
        let p = probes(&m);
        loop {
            let mut options = vec![];
            if requested < 3 {
                options.push(3);
            }
            options.extend((0..requested).filter(|&i| steps[i] < 2));
            if options.is_empty() {
                break;
            }
            let o = ctx.pick_from(&options);
            if o == 3 {
                ev.push(Event::Customize(kinds[(requested * 2 + ctx.pick(if th { 3 } else { 1 + requested % 2 })) % kinds.len()].clone()));
                requested += 1;
            } else {
                ev.push(Event::Step(o));
                steps[o] += 1;
                if steps[o] == 2 {
                    ev.push(Event::Probe(p.clone()));
                }
            }
        }
        serve(ctx, &m, &ev)
    });
    r.scenario("bad", "sequences of 3 events from: customizations that finish, customizations with invalid bodies, queries for links or directions that do not exist", |ctx| {
        let k = ctx.pick(2);
        let m = maps(k);
        let mut ev = vec![];
        let mut n = 0;
        let p = probes(&m);
        for _ in 0..3 {
            match ctx.pick(3) {
                0 => {
                    let kinds = updates(k);
                    ev.push(Event::Customize(kinds[ctx.pick(3)].clone()));
                    ev.extend([Event::Step(n), Event::Step(n)]);
                    n += 1;
                }
                1 => ev.push(Event::Malformed(
                    ctx.pick_from(&[
                        "[[70,true,1.5]]",
                        "[[70,true,-1]]",
                        "[[70,true,2147483647]]",
                        "[[70,true,4294967296]]",
                        "[[70,true,\"3\"]]",
                        "[[70,true,2],[5,true]]",
                        "[[-70,true,2]]",
                        "{}",
                        "",
                        "[[1,false,2],[2,true,1e3]]",
                    ])
                    .to_string(),
                )),
                _ => {
                    let (f, t) = (m.names[0], m.names[m.names.len() - 1]);
                    let q = |a: (u64, bool), b: (u64, bool)| {
                        format!(
                            "/here_query?from_link_id={}&from_direction={}&from_link_fraction=0.5&to_link_id={}&to_direction={}&to_link_fraction=0.5",
                            a.0, a.1, b.0, b.1
                        )
                    };
                    let one_way = if k == 0 { (5, false) } else { (300, true) };
                    let x = ctx.pick_from(&[(4, true), (100_000_000_000, false), (131, true), one_way]);
                    ev.push(Event::Bad(if ctx.flag() { vec![q(x, t)] } else { vec![q(f, x), q(x, x)] }));
                }
            }
            ev.push(Event::Probe(p.clone()));
        }
        serve(ctx, &m, &ev)
    });
    r.finish();
}
