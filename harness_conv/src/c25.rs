//! C25: the network imported from HERE files is the one described there, under the link ids used there.
use conversion::here::{csv_source::CSVSource, link_id_mapper::*, read_graph, HereData};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::rank_select_map::*;
use rust_road_router::io::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use vharness::*;

static COUNTER: AtomicUsize = AtomicUsize::new(0);

fn root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
    base.join(format!("vharness-c25-{}", std::process::id()))
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = root().join(COUNTER.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        let _ = std::fs::remove_dir(root());
    }
}

#[derive(Clone, Debug)]
struct Node {
    id: u64,
    lat: i64,
    lon: i64,
    z: Option<i64>,
}
#[derive(Clone, Debug)]
struct Link {
    id: u64,
    from: u64,
    to: u64,
}
#[derive(Clone, Debug)]
struct Nav {
    id: u64,
    class: u8,
    dir: char,
    category: u32,
    from_limit: Option<u32>,
    to_limit: Option<u32>,
}
#[derive(Clone, Debug)]
struct Geo {
    id: u64,
    seq: i64,
    lat: i64,
    lon: i64,
    z: Option<i64>,
}
#[derive(Clone, Debug, Default)]
struct Map {
    nodes: Vec<Node>,
    links: Vec<Link>,
    navs: Vec<Nav>,
    geos: Vec<Geo>,
}

fn opt<T: ToString>(x: Option<T>) -> String {
    x.map(|x| x.to_string()).unwrap_or_default()
}

/// the files, lines alternate between `parts` files
fn write_csv(dir: &Path, name: &str, lines: Vec<String>, parts: usize) {
    let d = dir.join(name);
    std::fs::create_dir_all(&d).unwrap();
    for p in 0..parts {
        let text: String = lines.iter().skip(p).step_by(parts).map(|l| format!("{}\n", l)).collect();
        let file = if parts == 1 { format!("{}.txt", name) } else { format!("{}.txt.{}", name, p) };
        std::fs::write(d.join(file), text).unwrap();
    }
}

fn write_map(m: &Map, dir: &Path, parts: usize) {
    write_csv(dir, "rdf_node", m.nodes.iter().map(|n| format!("{}\t{}\t{}\t{}\t\"x", n.id, n.lat, n.lon, opt(n.z))).collect(), parts);
    write_csv(dir, "rdf_link", m.links.iter().map(|l| format!("{}\t{}\t{}\tJoe\"s", l.id, l.from, l.to)).collect(), parts);
    let nav = |n: &Nav| {
        let mut cols = vec![String::from("7"); 30];
        cols[0] = n.id.to_string();
        cols[1] = "\"x".into();
        cols[9] = "Joe\"s".into();
        cols[4] = n.class.to_string();
        cols[6] = n.dir.to_string();
        cols[19] = n.category.to_string();
        cols[25] = opt(n.from_limit);
        cols[26] = opt(n.to_limit);
        cols.join("\t")
    };
    write_csv(dir, "rdf_nav_link", m.navs.iter().map(nav).collect(), parts);
    write_csv(
        dir,
        "adas_link_geometry",
        m.geos.iter().map(|g| format!("{}\t{}\t{}\t{}\t{}\t\"", g.id, g.seq, g.lat, g.lon, opt(g.z))).collect(),
        parts,
    );
}

/// in meters, points in degrees and meters
fn distance(a: (f64, f64, f64), b: (f64, f64, f64)) -> f64 {
    let r = |x: f64| x / 180.0 * std::f64::consts::PI;
    let h = (r(b.0 - a.0) / 2.0).sin().powi(2) + r(a.0).cos() * r(b.0).cos() * (r(b.1 - a.1) / 2.0).sin().powi(2);
    6_378_137.0 * 2.0 * h.sqrt().asin() + (a.2 - b.2).abs()
}

#[derive(Debug)]
struct Arc {
    tail: u64,
    head: u64,
    class: u8,
    length: f64,
    ms: f64,
}

type Bounds = ((i64, i64), (i64, i64));
const ALL: Bounds = ((-36_000_000, -36_000_000), (36_000_000, 36_000_000));

/// (link id, along the reference direction) -> link of the network
fn expected(m: &Map, b: Bounds) -> BTreeMap<(u64, bool), Arc> {
    let node = |id: u64| m.nodes.iter().find(|n| n.id == id).unwrap();
    let inside = |n: &Node| n.lat >= b.0 .0 && n.lat <= b.1 .0 && n.lon >= b.0 .1 && n.lon <= b.1 .1;
    let mut res = BTreeMap::new();
    for l in &m.links {
        let (f, t) = (node(l.from), node(l.to));
        let nav = match m.navs.iter().find(|n| n.id == l.id) {
            Some(n) if inside(f) && inside(t) => n,
            _ => continue,
        };
        let mut points: Vec<&Geo> = m.geos.iter().filter(|g| g.id == l.id).collect();
        points.sort_by_key(|g| g.seq);
        let z = |z: Option<i64>| z.unwrap_or(0) as f64 / 100.0;
        let length = if points.is_empty() {
            let p = |n: &Node| (n.lat as f64 / 1e5, n.lon as f64 / 1e5, z(n.z));
            distance(p(f), p(t))
        } else {
            let p = |g: &Geo| (g.lat as f64 / 1e7, g.lon as f64 / 1e7, z(g.z));
            points.windows(2).map(|w| distance(p(w[0]), p(w[1]))).sum()
        };
        let free = [36.11, 31.94, 26.388, 22.22, 16.66, 11.11, 5.55, 1.38][nav.category as usize - 1];
        for (dir, along, a, z, limit) in [('F', true, f, t, nav.from_limit), ('T', false, t, f, nav.to_limit)] {
            if nav.dir == dir || nav.dir == 'B' {
                let speed = limit.map_or(free, |l| f64::min(free, l as f64 / 3.6));
                res.insert(
                    (l.id, along),
                    Arc {
                        tail: a.id,
                        head: z.id,
                        class: nav.class,
                        length,
                        ms: 1000.0 * length / speed,
                    },
                );
            }
        }
    }
    res
}

fn check(ctx: &mut Ctx, m: &Map, b: Bounds, want: &BTreeMap<(u64, bool), Arc>, data: HereData) -> Result<(), String> {
    let g = &data.graph;
    // a link without an allowed direction of travel does not exist, so every node has a link
    let mut ids: Vec<u64> = want.values().flat_map(|a| [a.tail, a.head]).collect();
    ids.sort_unstable();
    ids.dedup();
    let local = |id: u64| ids.binary_search(&id).unwrap() as u32;
    ensure!(g.num_nodes() == ids.len() && g.num_arcs() == want.len(), "{} nodes and {} links instead of {} and {}", g.num_nodes(), g.num_arcs(), ids.len(), want.len());
    ensure!(data.lat.len() == ids.len() && data.lng.len() == ids.len(), "number of coordinates");
    ensure!(data.link_lengths.len() == want.len() && data.functional_road_classes.len() == want.len(), "number of lengths or classes");
    for (v, &id) in ids.iter().enumerate() {
        let n = m.nodes.iter().find(|n| n.id == id).unwrap();
        ensure!(data.lat[v] == (n.lat as f64 / 1e5) as f32 && data.lng[v] == (n.lon as f64 / 1e5) as f32, "node {} is at {} {}", id, data.lat[v], data.lng[v]);
    }
    let tails = tails(g);
    let mapper = LinkIdMapper::new(InvertableRankSelectMap::new(data.link_id_mapping), data.here_rank_to_link_id, want.len());
    let mut seen = vec![false; want.len()];
    let max = m.links.iter().map(|l| l.id).chain(m.navs.iter().map(|n| n.id)).max().unwrap();
    let mut asked: Vec<u64> = m.links.iter().map(|l| l.id).chain(m.navs.iter().map(|n| n.id)).flat_map(|i| [i, i.wrapping_sub(1), i + 1]).collect();
    asked.extend([0, max + 1, max + 63, max + 64, max + 1000, 1 << 40]);
    for id in asked {
        for along in [true, false] {
            ctx.step();
            let dir = if along { LinkDirection::FromRef } else { LinkDirection::ToRef };
            if id == u64::MAX {
                continue;
            }
            let got = mapper.here_to_local_link_id(id, dir);
            let a = want.get(&(id, along));
            match (got, a) {
                (None, None) => (),
                (Some(e), Some(a)) => {
                    let e = e as usize;
                    ensure!(e < want.len(), "link {} {:?} is {}", id, dir, e);
                    seen[e] = true;
                    ensure!(tails[e] == local(a.tail) && g.head()[e] == local(a.head), "link {} {:?} (here {}) leads from {} to {} instead of {:?}", id, dir, e, tails[e], g.head()[e], a);
                    ensure!((data.link_lengths[e] - a.length).abs() < 1e-6 * (1.0 + a.length), "link {} {:?} has length {} instead of {}", id, dir, data.link_lengths[e], a.length);
                    ensure!((g.weight()[e] as f64 - a.ms).abs() < 0.51, "link {} {:?} takes {} ms instead of {}", id, dir, g.weight()[e], a.ms);
                    ensure!(data.functional_road_classes[e] == a.class, "class of link {} {:?} is {}", id, dir, data.functional_road_classes[e]);
                    let back = mapper.local_to_here_link_id(e as u32);
                    ensure!(back == (id, dir), "link {} {:?} (here {}) is called {:?}", id, dir, e, back);
                }
                _ => return Err(format!("link {} {:?}: found {:?}, expected {:?}, bounds {:?}", id, dir, got, a, b)),
            }
        }
    }
    ensure!(seen.iter().all(|&s| s), "links without a name: {:?}", seen);
    Ok(())
}

fn tails(g: &OwnedGraph) -> Vec<u32> {
    g.first_out().windows(2).enumerate().flat_map(|(v, w)| vec![v as u32; (w[1] - w[0]) as usize]).collect()
}

fn import(ctx: &mut Ctx, m: &Map, b: Bounds, parts: usize) -> Result<(), String> {
    let want = expected(m, b);
    if want.is_empty() {
        return Ok(());
    }
    ctx.note(|| format!("{:?} bounds {:?}", m, b));
    ctx.state();
    ctx.count("links", want.len() as u64);
    let s = Scratch::new();
    write_map(m, &s.0, parts);
    let data = read_graph(&CSVSource::new(&s.0), b.0, b.1);
    ctx.outcome(&(data.graph.first_out().to_vec(), data.graph.head().to_vec(), data.graph.weight().to_vec()));
    check(ctx, m, b, &want, data)
}

/// the programs: import to files and table of all links
fn programs(ctx: &mut Ctx, m: &Map, degrees: Option<[&str; 4]>) -> Result<(), String> {
    let b = degrees.map_or(ALL, |d| {
        let x = |i: usize| (d[i].parse::<f64>().unwrap() * 1e5).round() as i64;
        ((x(0), x(1)), (x(2), x(3)))
    });
    let want = expected(m, b);
    if want.is_empty() {
        return Ok(());
    }
    ctx.note(|| format!("{:?} bounds {:?}", m, degrees));
    ctx.state();
    let s = Scratch::new();
    let (input, out) = (s.0.join("in"), s.0.join("out"));
    std::fs::create_dir_all(&out).unwrap();
    write_map(m, &input, 1);
    let bin = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let mut c = Command::new(bin.join("import_here"));
    c.arg(&input).arg(&out);
    if let Some(d) = degrees {
        c.args(d);
    }
    let r = c.output().map_err(|e| e.to_string())?;
    ensure!(r.status.success(), "import_here failed: {}", String::from_utf8_lossy(&r.stderr));
    let load = |n: &str| -> Result<Vec<u32>, String> { Vec::load_from(out.join(n)).map_err(|e| format!("{}: {}", n, e)) };
    let e = |e: std::io::Error| e.to_string();
    let g = OwnedGraph::new(load("first_out")?, load("head")?, load("travel_time")?);
    let link_id_mapping = RankSelectMap::new(BitVec::load_from(out.join("link_id_mapping")).map_err(e)?);
    let lengths = load("geo_distance")?;
    ensure!(load("tt_units_per_s")? == [1000] && load("dist_units_per_m")? == [1], "units");
    let tails = tails(&g);
    let ranks = Vec::load_from(out.join("here_rank_to_link_id")).map_err(e)?;
    let mapper = LinkIdMapper::new(InvertableRankSelectMap::new(link_id_mapping), ranks, g.num_arcs());
    ensure!(g.num_arcs() == want.len(), "{} links", g.num_arcs());
    let classes: Vec<u8> = Vec::load_from(out.join("functional_road_classes")).map_err(e)?;
    let lat: Vec<f32> = Vec::load_from(out.join("latitude")).map_err(e)?;
    let lng: Vec<f32> = Vec::load_from(out.join("longitude")).map_err(e)?;
    for (&(id, along), a) in &want {
        ctx.step();
        let dir = if along { LinkDirection::FromRef } else { LinkDirection::ToRef };
        let l = mapper.here_to_local_link_id(id, dir).ok_or(format!("no link {} {:?}", id, dir))? as usize;
        let at = |v: u32, id: u64| {
            let n = m.nodes.iter().find(|n| n.id == id).unwrap();
            lat[v as usize] == (n.lat as f64 / 1e5) as f32 && lng[v as usize] == (n.lon as f64 / 1e5) as f32
        };
        ensure!(at(tails[l], a.tail) && at(g.head()[l], a.head), "link {} {:?} is at the wrong place", id, dir);
        ensure!((g.weight()[l] as f64 - a.ms).abs() < 0.51 && classes[l] == a.class, "travel time or class of link {} {:?}", id, dir);
        ensure!((lengths[l] as f64 - a.length).abs() <= 1.0, "length of link {} {:?} is {} instead of {}", id, dir, lengths[l], a.length);
        ensure!(mapper.local_to_here_link_id(l as u32) == (id, dir), "name of link {} {:?}", id, dir);
    }
    if degrees.is_none() {
        let r = Command::new(bin.join("merge_here_link_data")).arg(&input).output().map_err(e)?;
        ensure!(r.status.success(), "merge_here_link_data failed: {}", String::from_utf8_lossy(&r.stderr));
        let text = String::from_utf8(r.stdout).unwrap();
        let mut rows = 0;
        for (l, line) in text.lines().skip(1).enumerate() {
            let f: Vec<&str> = line.split(',').collect();
            ensure!(f.len() == 5 && l < want.len(), "table {}", text);
            let key = (f[3].parse::<u64>().map_err(|e| e.to_string())?, f[4] == "F");
            let a = want.get(&key).ok_or(format!("table names {:?}", key))?;
            let len: f64 = f[2].parse().map_err(|_| "length")?;
            ensure!(f[0] == tails[l].to_string() && f[1] == g.head()[l].to_string() && (len - a.length).abs() < 1e-6 * (1.0 + a.length), "table has {}", line);
            rows += 1;
        }
        ensure!(rows == want.len(), "table has {} rows", rows);
    }
    Ok(())
}

/// node positions, all different, around 48 degrees north
fn node(id: u64, k: usize) -> Node {
    Node {
        id,
        lat: 4_800_000 + [0, 130, 270, 90][k % 4] + k as i64,
        lon: 1_100_000 + [0, 410, 60, 330][k % 4] - k as i64,
        z: [None, Some(1200), None, Some(0)][k % 4],
    }
}

fn nav(id: u64, dir: char) -> Nav {
    Nav {
        id,
        class: (id % 5) as u8 + 1,
        dir,
        category: (id % 8) as u32 + 1,
        from_limit: if id % 3 == 0 { Some(30) } else { None },
        to_limit: if id % 2 == 0 { Some(20) } else { None },
    }
}

fn main() {
    let mut r = Report::new("C25");
    let th = r.thorough();
    r.assume("every link refers to existing nodes, every id occurs once per file, geometries have at least two points, limits are positive; at least one link is imported");
    r.scenario("links", "3 nodes, 3 (4) links between any of them, each without navigation data or open along, against or in both directions", |ctx| {
        let ids = [7u64, 64, 130];
        let mut m = Map { nodes: (0..3).map(|k| node(ids[k], k)).collect(), ..Default::default() };
        for k in 0..if th { 4 } else { 3 } {
            let id = [90, 63, 65, 64][k];
            let from = ids[ctx.pick(3)];
            let to = ids[ctx.pick(3)];
            m.links.push(Link { id, from, to });
            let d = ctx.pick_from(&['-', 'F', 'T', 'B']);
            if d != '-' {
                m.navs.push(nav(id, d));
            }
        }
        import(ctx, &m, ALL, 1)
    });
    r.scenario("ids", "4 nodes and 4 links in a cycle, ids of nodes and links in every order, ids around word and block boundaries, one or two files per table", |ctx| {
        let node_ids = ctx.pick_from(&[[1u64, 2, 3, 4], [63, 64, 65, 511], [512, 513, 1023, 1024], [5, 1_000, 100_000, 3_000_000]]);
        let link_ids = ctx.pick_from(&[[1u64, 2, 3, 4], [0, 63, 64, 127], [511, 512, 513, 5000], [64, 1023, 1024, 2_000_000]]);
        let pn = ctx.permutation(4);
        let pl = ctx.permutation(4);
        let parts = 1 + ctx.pick(2);
        let mut m = Map { nodes: (0..4).map(|k| node(node_ids[pn[k] as usize], k)).collect(), ..Default::default() };
        for k in 0..4 {
            let id = link_ids[pl[k] as usize];
            m.links.push(Link { id, from: m.nodes[k].id, to: m.nodes[(k + 1) % 4].id });
            m.navs.insert(k / 2, nav(id, ['F', 'T', 'B', 'B'][k]));
        }
        import(ctx, &m, ALL, parts)
    });
    r.scenario("missing", "3 nodes, 3 links in a triangle, any subset with navigation data, navigation data and geometry of links that do not exist, any subset of nodes used", |ctx| {
        let mut m = Map { nodes: (0..4).map(|k| node([10, 3, 77, 200][k], k)).collect(), ..Default::default() };
        for k in 0..3u64 {
            let id = [5, 70, 8][k as usize];
            if ctx.flag() {
                m.links.push(Link { id, from: m.nodes[k as usize].id, to: m.nodes[(k as usize + 1) % 3].id });
            }
            if ctx.flag() {
                m.navs.push(nav(id, ctx.pick_from(&['F', 'T', 'B'])));
            }
            if ctx.flag() {
                for s in 0..2 {
                    m.geos.push(Geo { id, seq: s, lat: 480_000_000 + 900 * s, lon: 110_000_000 + 1000 * (s * k as i64), z: None });
                }
            }
        }
        import(ctx, &m, ALL, 1)
    });
    r.scenario("bounds", "nodes on a grid of 3 x 2, links between neighbors, all bounds next to and on the lines", |ctx| {
        let mut m = Map::default();
        for x in 0..3i64 {
            for y in 0..2i64 {
                m.nodes.push(Node { id: (x * 10 + y + 1) as u64, lat: -100 + 100 * x, lon: 500 + 100 * y, z: None });
            }
        }
        let mut id = 1;
        for a in 0..6usize {
            for b in 0..a {
                let (p, q) = (&m.nodes[a], &m.nodes[b]);
                if (p.lat - q.lat).abs() + (p.lon - q.lon).abs() == 100 {
                    let (from, to) = (p.id, q.id);
                    m.links.push(Link { id, from, to });
                    m.navs.push(nav(id, ['B', 'F', 'T'][id as usize % 3]));
                    id += 7;
                }
            }
        }
        let lats = [-101, -100, -99, 0, 1, 99, 100, 101];
        let lons = [499, 500, 501, 600, 601];
        let b = ((ctx.pick_from(&lats), ctx.pick_from(&lons)), (ctx.pick_from(&lats), ctx.pick_from(&lons)));
        import(ctx, &m, b, 1)
    });
    r.scenario("speeds", "one link open in both directions, 8 speed categories, limits per direction from none, 1, 5, 20, 50, 60, 130, 999", |ctx| {
        let mut m = Map { nodes: (0..2).map(|k| node(k as u64 + 1, k)).collect(), ..Default::default() };
        m.links.push(Link { id: 3, from: 1, to: 2 });
        let mut n = nav(3, ctx.pick_from(&['F', 'T', 'B']));
        n.category = 1 + ctx.pick(8) as u32;
        let limits = [None, Some(1), Some(5), Some(20), Some(50), Some(60), Some(130), Some(999)];
        n.from_limit = ctx.pick_from(&limits);
        n.to_limit = ctx.pick_from(&limits);
        n.class = 1 + ctx.pick(5) as u8;
        m.navs.push(n);
        import(ctx, &m, ALL, 1)
    });
    r.scenario("geometry", "two links, one with 2 to 4 points in every order in the file, with and without heights, gaps in the numbers, the other with or without points between", |ctx| {
        let mut m = Map { nodes: (0..3).map(|k| node(k as u64 + 1, k)).collect(), ..Default::default() };
        m.links.push(Link { id: 4, from: 1, to: 2 });
        m.links.push(Link { id: 2, from: 2, to: 3 });
        m.navs.extend([nav(4, 'B'), nav(2, 'B')]);
        let k = 2 + ctx.pick(3);
        let gap = 1 + ctx.pick(2) as i64 * 8;
        let heights = ctx.pick(3);
        for i in ctx.permutation(k) {
            let i = i as i64;
            let z = match heights {
                0 => None,
                1 => Some(1000 + 250 * (i * i)),
                _ => if i % 2 == 0 { Some(-300) } else { None },
            };
            m.geos.push(Geo { id: 4, seq: i * gap - 3, lat: 480_000_000 + 7_000 * (i % 3), lon: 110_000_000 + 9_000 * i - 5_000 * (i / 2), z });
        }
        if ctx.flag() {
            let at = ctx.pick(k + 1);
            m.geos.insert(at, Geo { id: 2, seq: 5, lat: 480_001_000, lon: 110_002_000, z: None });
            m.geos.push(Geo { id: 2, seq: 1, lat: 480_011_000, lon: 110_005_000, z: None });
        }
        let parts = 1 + ctx.pick(2);
        import(ctx, &m, ALL, parts)
    });
    r.scenario("programs", "import_here and merge_here_link_data as processes: 4 nodes, 4 links open in every combination of directions, bounds in degrees", |ctx| {
        let mut m = Map { nodes: (0..4).map(|k| node([10, 3, 77, 200][k], k)).collect(), ..Default::default() };
        for k in 0..4 {
            let id = [5, 70, 8, 600][k];
            m.links.push(Link { id, from: m.nodes[k].id, to: m.nodes[[1, 2, 0, 0][k]].id });
            let d = ctx.pick_from(&['-', 'F', 'T', 'B']);
            if d != '-' {
                m.navs.push(nav(id, d));
            }
        }
        let deg = ctx.pick_from(&[None, Some(["-90", "-180", "90", "180"]), Some(["47.9", "10.9", "48.002", "11.5"]), Some(["48.0005", "-20", "60", "20"])]);
        programs(ctx, &m, deg)
    });
    r.finish();
}
