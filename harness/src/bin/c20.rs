//! C20: what is stored can be loaded again and behaves the same; missing or cut off files, and storing that fails, are
//! reported instead of turning into different data.
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::{td_query::Server as TDServer, *};
use rust_road_router::algo::customizable_contraction_hierarchy::customization::{ftd, ftd_for_pot};
use rust_road_router::algo::customizable_contraction_hierarchy::query::Server as CCHServer;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::td_astar::{self, TRange};
use rust_road_router::algo::traffic_aware::td_traffic_pots;
use rust_road_router::algo::*;
use rust_road_router::datastr::graph::floating_time_dependent::{CustomizedGraph, CustomizedGraphReconstrctor};
use rust_road_router::datastr::graph::time_dependent::*;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::datastr::rank_select_map::BitVec;
use rust_road_router::io::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use vharness::gen::*;
use vharness::oracle::*;
use vharness::sut::*;
use vharness::td::*;
use vharness::*;

static COUNTER: AtomicUsize = AtomicUsize::new(0);

fn root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
    base.join(format!("vharness-c20-{}", std::process::id()))
}

/// a directory that is gone after the case
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = root().join(COUNTER.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    /// a name in the directory, does not exist yet
    fn sub(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn files(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
        for e in std::fs::read_dir(dir).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(base, &p, out);
            } else {
                out.insert(p.strip_prefix(base).unwrap().to_path_buf(), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

fn write_files(dir: &Path, fs: &BTreeMap<PathBuf, Vec<u8>>) {
    std::fs::create_dir_all(dir).unwrap();
    for (p, data) in fs {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
}

type SaveFn<'a> = &'a dyn Fn(&Path) -> std::io::Result<()>;
/// Err: refused to load. Ok: what the loaded thing is, as bytes
type LoadFn<'a> = &'a dyn Fn(&Path) -> std::io::Result<Vec<u8>>;

/// Faults. Every file that storing writes: if it cannot be written, storing fails; if it is missing, loading fails
/// (but for those in `optional`). All ways to cut a file off, if `cut` says that it can be told, make loading fail.
fn faults(ctx: &mut Ctx, name: &str, save: SaveFn, load: LoadFn, optional: &[&str], cut: Option<&dyn Fn(&Path, &[u8]) -> bool>) -> Result<(), String> {
    let scratch = Scratch::new();
    let good = scratch.sub("good");
    save(&good).map_err(|e| format!("{}: storing failed: {}", name, e))?;
    let fs = files(&good);
    let original = load(&good).map_err(|e| format!("{}: loading failed: {}", name, e))?;
    let names: Vec<PathBuf> = fs.keys().cloned().collect();
    ensure!(!names.is_empty(), "{}: nothing was stored", name);
    let victim = &names[ctx.pick(names.len())];
    let kind = ctx.pick(if cut.is_some() { 3 } else { 2 });
    let dir = scratch.sub("bad");
    ctx.note(|| format!("{}: {} {}", name, ["cannot write", "missing", "cut off"][kind], victim.display()));
    ctx.count("faults", 1);
    match kind {
        0 => {
            // a directory is in the way
            std::fs::create_dir_all(dir.join(victim)).unwrap();
            ctx.step();
            ensure!(save(&dir).is_err(), "{}: storing succeeded although {} could not be written", name, victim.display());
        }
        1 => {
            let mut fs = fs.clone();
            fs.remove(victim);
            write_files(&dir, &fs);
            ctx.step();
            if !optional.iter().any(|o| Path::new(o) == victim) {
                let loaded = guarded(|| load(&dir));
                ensure!(!matches!(loaded, Ok(Ok(_))), "{}: loading succeeded although {} is missing", name, victim.display());
            }
        }
        _ => {
            for len in 0..fs[victim].len() {
                let whole = fs[victim].len();
                let mut fs = fs.clone();
                fs.get_mut(victim).unwrap().truncate(len);
                if !cut.unwrap()(victim, &fs[victim]) {
                    continue;
                }
                write_files(&dir, &fs);
                ctx.step();
                if let Ok(Ok(l)) = guarded(|| load(&dir)) {
                    ensure!(l == original, "{}: {} cut off after {} of {} bytes loads, as something different", name, victim.display(), len, whole);
                }
            }
        }
    }
    Ok(())
}

/// all crash points of storing into an empty directory: what is there then is refused, or is what was stored
fn crash(ctx: &mut Ctx, name: &str, order: &[&str], save: SaveFn, load: LoadFn) -> Result<(), String> {
    let scratch = Scratch::new();
    let good = scratch.sub("good");
    save(&good).map_err(|e| format!("{}: storing failed: {}", name, e))?;
    let fs = files(&good);
    let original = load(&good).map_err(|e| format!("{}: loading failed: {}", name, e))?;
    ensure!(fs.len() == order.len(), "{}: stored {:?}", name, fs.keys());
    let k = ctx.pick(order.len());
    let len = ctx.pick(fs[Path::new(order[k])].len() + 1);
    ctx.note(|| format!("{}: crash at byte {} of file {}", name, len, order[k]));
    ctx.count("crash points", 1);
    let mut there: BTreeMap<PathBuf, Vec<u8>> = order[..k].iter().map(|f| (PathBuf::from(f), fs[Path::new(f)].clone())).collect();
    there.insert(PathBuf::from(order[k]), fs[Path::new(order[k])][..len].to_vec());
    let dir = scratch.sub("bad");
    write_files(&dir, &there);
    ctx.step();
    if let Ok(Ok(l)) = guarded(|| load(&dir)) {
        ensure!(l == original, "{}: after a crash at byte {} of {} something different is loaded", name, len, order[k]);
    }
    Ok(())
}

/// storing, loading and storing again writes the same; storing over something older leaves nothing of it
fn round_trip(ctx: &mut Ctx, name: &str, save: SaveFn, older: SaveFn, load_and_save: &dyn Fn(&Path, &Path) -> std::io::Result<()>) -> Result<(), String> {
    let scratch = Scratch::new();
    let (a, b, c) = (scratch.sub("a"), scratch.sub("b"), scratch.sub("c"));
    ctx.steps(4);
    save(&a).map_err(|e| format!("{}: storing failed: {}", name, e))?;
    load_and_save(&a, &b).map_err(|e| format!("{}: loading failed: {}", name, e))?;
    ensure!(files(&a) == files(&b), "{}: storing what was loaded gives different files", name);
    older(&c).map_err(|e| format!("{}: storing failed: {}", name, e))?;
    save(&c).map_err(|e| format!("{}: storing failed: {}", name, e))?;
    ensure!(files(&a) == files(&c), "{}: storing over older data gives different files", name);
    Ok(())
}

fn bytes(parts: &[&[u8]]) -> Vec<u8> {
    parts.iter().flat_map(|p| (p.len() as u64).to_le_bytes().into_iter().chain(p.iter().copied())).collect()
}

// ------------------------------------------------------------------------------------------------ containers

fn vectors<T: Copy + Default + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, name: &str, value: impl Fn(usize) -> T) -> Result<(), String> {
    let lens = [0, 1, 2, 7, 65];
    let len = ctx.pick_from(&lens);
    let older = ctx.pick_from(&lens);
    ctx.state();
    ctx.outcome(&(name, len, older));
    let data: Vec<T> = (0..len).map(&value).collect();
    let scratch = Scratch::new();
    let f = scratch.sub("file");
    let io = |e: std::io::Error| format!("{}: {}", name, e);
    (0..older).map(|i| value(i + 1)).collect::<Vec<T>>().write_to(&f).map_err(io)?;
    let kind = ctx.pick(4);
    match kind {
        0 => data.write_to(&f),
        1 => data.clone().into_boxed_slice().write_to(&f),
        2 => (&data[..]).write_to(&f),
        _ => data[..].write_to(&f),
    }
    .map_err(io)?;
    ctx.steps(2);
    ensure!(std::fs::metadata(&f).unwrap().len() as usize == len * std::mem::size_of::<T>(), "{}: size of the file for {} elements", name, len);
    ensure!(std::fs::read(&f).unwrap() == data.data_bytes(), "{}: bytes in the file", name);
    ensure!(Vec::<T>::load_from(&f).map_err(io)? == data, "{}: vector of {} elements loaded differently", name, len);
    ensure!(Box::<[T]>::load_from(&f).map_err(io)?[..] == data[..], "{}: slice of {} elements loaded differently", name, len);
    ensure!(Vec::<T>::load_from(scratch.sub("other")).is_err(), "{}: loading a file that does not exist", name);
    ensure!(data.write_to(&scratch.sub("no/dir")).is_err(), "{}: storing into a directory that does not exist", name);
    // cut off files: only whole elements, those which are left
    let bytes = std::fs::read(&f).unwrap();
    for cut in 0..bytes.len() {
        std::fs::write(&f, &bytes[..cut]).unwrap();
        ctx.step();
        match guarded(|| Vec::<T>::load_from(&f)) {
            Ok(Ok(v)) => {
                ensure!(cut % std::mem::size_of::<T>() == 0, "{}: {} bytes loaded as {:?}", name, cut, v);
                ensure!(v[..] == data[..cut / std::mem::size_of::<T>()], "{}: {} bytes loaded as {:?}", name, cut, v);
            }
            _ => ensure!(cut % std::mem::size_of::<T>() != 0, "{}: {} bytes, whole elements, were refused", name, cut),
        }
    }
    Ok(())
}

fn bitvec(ctx: &mut Ctx) -> Result<(), String> {
    let len = ctx.pick_from(&[1, 5, 63, 64, 65, 128, 200]);
    let step = ctx.pick_from(&[1, 2, 7, 64]);
    let offset = ctx.pick(2);
    ctx.state();
    ctx.outcome(&(len, step, offset));
    let mut b = BitVec::new(len);
    for i in (offset..len).step_by(step) {
        b.set(i);
    }
    let scratch = Scratch::new();
    let f = scratch.sub("file");
    ctx.steps(2);
    b.write_to(&f).map_err(|e| e.to_string())?;
    let l = BitVec::load_from(&f).map_err(|e| e.to_string())?;
    ensure!(l.len() >= len, "loaded bit vector has {} of {} bits", l.len(), len);
    for i in 0..l.len() {
        ensure!(l.get(i) == (i < len && i >= offset && (i - offset) % step == 0), "bit {} of {} differs after loading", i, len);
    }
    ensure!(l.count_ones() == b.count_ones(), "number of bits");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ graphs

fn graph_bytes(g: &OwnedGraph) -> Vec<u8> {
    bytes(&[g.first_out().data_bytes(), g.head().data_bytes(), g.weight().data_bytes()])
}

fn graphs(ctx: &mut Ctx, g: &G) -> Result<(), String> {
    let og = g.owned();
    let older = complete_graph(4, |_, _| 3).owned();
    ctx.state();
    ctx.outcome(&g.edges());
    let save = |p: &Path| og.deconstruct_to(&p);
    let load = |p: &Path| OwnedGraph::reconstruct_from(&p).map(|g| graph_bytes(&g));
    let uw = UnweightedOwnedGraph::new(og.first_out().to_vec(), og.head().to_vec());
    let uw_save = |p: &Path| uw.deconstruct_to(&p);
    let uw_load = |p: &Path| UnweightedOwnedGraph::reconstruct_from(&p).map(|g| bytes(&[g.first_out().data_bytes(), g.head().data_bytes()]));
    // without the first nodes of isolated ones at the end, it is still a graph
    let m = g.m() as u32;
    let detectable = |p: &Path, rest: &[u8]| p != Path::new("first_out") || rest.len() % 4 != 0 || !rest.ends_with(&m.to_ne_bytes());
    match ctx.pick(6) {
        0 => {
            round_trip(ctx, "graph", &save, &|p| older.deconstruct_to(&p), &|a, b| <OwnedGraph as Reconstruct>::reconstruct_from(&a)?.deconstruct_to(&b))?;
            let scratch = Scratch::new();
            let d = scratch.sub("d");
            save(&d).unwrap();
            ensure!(load(&d).ok() == Some(graph_bytes(&og)), "graph is different after loading");
            og.weight().iter().map(|w| w + 1).collect::<Vec<_>>().write_to(&d.join("travel_time")).unwrap();
            let l = WeightedGraphReconstructor("travel_time").reconstruct_from(&d).map_err(|e| e.to_string())?;
            ensure!(l.first_out() == og.first_out() && l.head() == og.head(), "graph with other weights is different");
            ensure!(l.weight().iter().zip(og.weight()).all(|(a, b)| *a == b + 1), "other weights {:?} instead of {:?} + 1", l.weight(), og.weight());
            ensure!(WeightedGraphReconstructor("geo_distance").reconstruct_from(&d).is_err(), "weights that do not exist");
        }
        1 => faults(ctx, "graph", &save, &load, &[], Some(&detectable))?,
        2 => crash(ctx, "graph", &["first_out", "head", "weights"], &save, &load)?,
        3 => {
            round_trip(ctx, "unweighted graph", &uw_save, &uw_save, &|a, b| <UnweightedOwnedGraph as Reconstruct>::reconstruct_from(&a)?.deconstruct_to(&b))?;
            let scratch = Scratch::new();
            let d = scratch.sub("d");
            uw_save(&d).unwrap();
            ensure!(uw_load(&d).ok() == Some(bytes(&[og.first_out().data_bytes(), og.head().data_bytes()])), "unweighted graph is different after loading");
        }
        4 => faults(ctx, "unweighted graph", &uw_save, &uw_load, &[], Some(&detectable))?,
        _ => crash(ctx, "unweighted graph", &["first_out", "head"], &uw_save, &uw_load)?,
    }
    Ok(())
}

fn node_order(ctx: &mut Ctx, n: usize) -> Result<(), String> {
    let perm: Vec<u32> = ctx.permutation(n).into_iter().map(|v| v as u32).collect();
    ctx.state();
    ctx.outcome(&perm);
    let o = NodeOrder::from_node_order(perm.clone());
    let save = |p: &Path| o.deconstruct_to(&p);
    let older = NodeOrder::identity(n + 3);
    round_trip(ctx, "order", &save, &|p| older.deconstruct_to(&p), &|a, b| NodeOrder::reconstruct_from(&a)?.deconstruct_to(&b))?;
    let scratch = Scratch::new();
    let d = scratch.sub("d");
    save(&d).unwrap();
    let l = NodeOrder::reconstruct_from(&d).map_err(|e| e.to_string())?;
    ctx.step();
    for i in 0..n as u32 {
        ensure!(l.node(i) == perm[i as usize] && l.node(i) == o.node(i) && l.rank(i) == o.rank(i), "order {:?} is {:?} after loading", perm, l.order());
    }
    faults(ctx, "order", &save, &|p| NodeOrder::reconstruct_from(&p).map(|o| bytes(&[o.order().data_bytes()])), &[], None)
}

// ------------------------------------------------------------------------------------------------ hierarchies

fn save_cch(cch: &CCH, p: &Path) -> std::io::Result<()> {
    cch.deconstruct_to(&p)?;
    cch.node_order().deconstruct_to(&p)
}

fn cch_bytes(c: &CCH) -> Vec<u8> {
    bytes(&[c.first_out().data_bytes(), c.head().data_bytes(), c.node_order().order().data_bytes()])
}

fn hierarchies(ctx: &mut Ctx, g: &G, orders: usize) -> Result<(), String> {
    let og = g.owned();
    let d = dist_matrix(g);
    let k = ctx.pick(orders);
    let order = NodeOrder::from_node_order(orders_of(g.n, k));
    ctx.state();
    ctx.outcome(&(g.edges(), k));
    let cch = CCH::fix_order_and_build(&og, order);
    let save = |p: &Path| save_cch(&cch, p);
    let load = |p: &Path| CCHReconstrctor(&og).reconstruct_from(&p).map(|c| cch_bytes(&c));
    let older_graph = complete_graph(5, |_, _| 3).owned();
    let older = CCH::fix_order_and_build(&older_graph, NodeOrder::identity(5));
    let scratch = Scratch::new();
    let dir = scratch.sub("d");
    match ctx.pick(4) {
        0 => {
            round_trip(ctx, "CCH", &save, &|p| save_cch(&older, p), &|a, b| save_cch(&CCHReconstrctor(&og).reconstruct_from(&a)?, b))?;
            save(&dir).unwrap();
            let l = CCHReconstrctor(&og).reconstruct_from(&dir).map_err(|e| e.to_string())?;
            ensure!(cch_bytes(&l) == cch_bytes(&cch), "CCH is different after loading");
            for e in 0..l.num_arcs() as u32 {
                ensure!(l.edge_id_to_tail(e) == cch.edge_id_to_tail(e), "tail of edge {} is different after loading", e);
            }
            let mut server = CCHServer::new(customize(&l, &og));
            check_all_pairs(ctx, "query on a loaded CCH", g, &d, qs!(server), true)?;
            let mut server = CCHServer::new(customize_perfect(customize(&l, &og)));
            check_all_pairs(ctx, "query on a loaded CCH, perfect", g, &d, qs!(server), true)?;
            let pot = CCHPotData::new(&l, &og);
            let mut fp = pot.forward_potential();
            for t in 0..g.n {
                fp.init(t as u32);
                for s in 0..g.n {
                    ctx.step();
                    ensure!(fp.potential(s as u32) == opt(d[s][t]), "potential of a loaded CCH for {}->{}", s, t);
                }
            }
        }
        1 => faults(ctx, "CCH", &save, &load, &[], None)?,
        2 => {
            let p = customize_perfect(customize(&cch, &og));
            p.deconstruct_to(&dir).map_err(|e| e.to_string())?;
            let l: CustomizedPerfect<CCH> = (&cch).reconstruct_from(&dir).map_err(|e| e.to_string())?;
            let mut server = CCHServer::new(l);
            check_all_pairs(ctx, "query on a loaded customization", g, &d, qs!(server), true)?;
            round_trip(
                ctx,
                "customization",
                &|q| p.deconstruct_to(&q),
                &|q| customize_perfect(customize(&older, &older_graph)).deconstruct_to(&q),
                &|a, b| {
                    let l: CustomizedPerfect<CCH> = (&cch).reconstruct_from(&a)?;
                    l.deconstruct_to(&b)
                },
            )?;
            faults(
                ctx,
                "customization",
                &|q| p.deconstruct_to(&q),
                &|q| {
                    let l: CustomizedPerfect<CCH> = (&cch).reconstruct_from(&q)?;
                    Ok(bytes(&[&graph_bytes(&l.forward_graph().to_owned_graph()), &graph_bytes(&l.backward_graph().to_owned_graph())]))
                },
                &[],
                None,
            )?;
        }
        _ => {
            let dcch = cch.to_directed_cch();
            let p = customize_directed_perfect(customize_directed(&dcch, &og));
            p.deconstruct_to(&dir).map_err(|e| e.to_string())?;
            let l: CustomizedPerfect<DirectedCCH> = (&dcch).reconstruct_from(&dir).map_err(|e| e.to_string())?;
            let mut server = CCHServer::new(l);
            check_all_pairs(ctx, "query on a loaded directed customization", g, &d, qs!(server), true)?;
        }
    }
    Ok(())
}

trait ToOwnedGraph {
    fn to_owned_graph(&self) -> OwnedGraph;
}
impl ToOwnedGraph for BorrowedGraph<'_> {
    fn to_owned_graph(&self) -> OwnedGraph {
        OwnedGraph::new(self.first_out().to_vec(), self.head().to_vec(), self.weight().to_vec())
    }
}

/// the layout hierarchies of RoutingKit come in
fn ch_potentials(ctx: &mut Ctx, g: &G, orders: usize) -> Result<(), String> {
    let og = g.owned();
    let d = dist_matrix(g);
    let k = ctx.pick(orders);
    ctx.state();
    ctx.outcome(&(g.edges(), k));
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(orders_of(g.n, k)));
    let c = customize_perfect(customize(&cch, &og));
    let (f, b) = (c.forward_graph().to_owned_graph(), c.backward_graph().to_owned_graph());
    let save = |p: &Path| {
        std::fs::create_dir_all(p)?;
        for (name, data) in [("first_out", f.first_out()), ("head", f.head()), ("weight", f.weight())] {
            data.write_to(&p.join(format!("forward_{}", name)))?;
        }
        for (name, data) in [("first_out", b.first_out()), ("head", b.head()), ("weight", b.weight())] {
            data.write_to(&p.join(format!("backward_{}", name)))?;
        }
        cch.node_order().order().write_to(&p.join("order"))
    };
    let scratch = Scratch::new();
    let dir = scratch.sub("d");
    save(&dir).unwrap();
    let l = CHPotLoader::reconstruct_from(&dir).map_err(|e| e.to_string())?;
    ensure!(l.order().order() == cch.node_order().order(), "order is different after loading");
    let (mut fp, mut bp) = l.potentials();
    let mut single = CHPotential::<OwnedGraph, OwnedGraph>::reconstruct_from(&dir).map_err(|e| e.to_string())?;
    for t in 0..g.n {
        fp.init(t as u32);
        bp.init(t as u32);
        single.init(t as u32);
        for s in 0..g.n {
            ctx.steps(3);
            for (name, got, want) in [
                ("forward", fp.potential(s as u32), d[s][t]),
                ("backward", bp.potential(s as u32), d[t][s]),
                ("single", single.potential(s as u32), d[s][t]),
            ] {
                ensure!(got == opt(want), "loaded {} CH potential for {} with {}: {:?} instead of {:?}", name, t, s, got, opt(want));
            }
        }
    }
    faults(
        ctx,
        "CH",
        &save,
        &|p| CHPotLoader::reconstruct_from(&p).map(|l| bytes(&[&graph_bytes(&l.forward_graph().to_owned_graph()), &graph_bytes(&l.backward_graph().to_owned_graph())])),
        &[],
        None,
    )
}

// ------------------------------------------------------------------------------------------------ time dependent

const H: u32 = 3_600_000;

fn time_ranges(which: usize) -> Vec<TRange<u32>> {
    let r = |s: u32, e: u32| TRange { start: s, end: e };
    match which {
        0 => vec![],
        1 => vec![r(6 * H, 12 * H), r(9 * H, 15 * H), r(11 * H, 12 * H), r(12 * H - 20, P), r(0, 2 * H), r(0, H)],
        _ => vec![r(0, P), r(11 * H, 13 * H), r(12 * H - 1, 13 * H), r(12 * H, 14 * H), r(22 * H, P)],
    }
}

/// values of a potential for all sources, targets, departures and nodes
fn values(ctx: &mut Ctx, n: usize, p: &mut dyn td_astar::TDPotential) -> Vec<Option<u32>> {
    let mut out = Vec::new();
    for dep in [0, 9 * H, 12 * H - 7] {
        for s in 0..n as u32 {
            for t in 0..n as u32 {
                ctx.step();
                p.init(s, t, dep);
                for v in 0..n as u32 {
                    out.push(p.potential(v, None));
                }
                for v in 0..n as u32 {
                    out.push(p.potential(v, Some(dep + 20 * 60_000 * v)));
                }
            }
        }
    }
    out
}

fn deps_of(td: &TDGraph) -> Vec<Vec<u32>> {
    (0..td.num_arcs() as u32)
        .map(|e| [0, 5, 9 * H, P / 2 - 3, P / 2 + 77_777, P - 1].iter().map(|&t| td.travel_time_function(e).eval(t)).collect())
        .collect()
}

fn save_td(g: &G, pool: &[Plf], p: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(p)?;
    let mut first_out = vec![0u32];
    let (mut first_ipp, mut dep, mut tt) = (vec![0u32], Vec::<u32>::new(), Vec::<u32>::new());
    for v in 0..g.n {
        first_out.push(g.out(v).end as u32);
    }
    for e in 0..g.m() {
        for &(t, w) in &pool[g.weight[e] as usize].0 {
            dep.push(t);
            tt.push(w);
        }
        first_ipp.push(dep.len() as u32);
    }
    first_out.write_to(&p.join("first_out"))?;
    g.head.write_to(&p.join("head"))?;
    first_ipp.write_to(&p.join("first_ipp_of_arc"))?;
    dep.write_to(&p.join("ipp_departure_time"))?;
    tt.write_to(&p.join("ipp_travel_time"))
}

/// graphs with functions, and live data
fn td_graphs(ctx: &mut Ctx, g: &G, pool: &[Plf]) -> Result<(), String> {
    let td = td_graph(g, pool);
    let fl = float_graph(g, pool);
    ctx.state();
    ctx.outcome(&g.edges());
    let scratch = Scratch::new();
    let dir = scratch.sub("d");
    save_td(g, pool, &dir).unwrap();
    let l = TDGraph::reconstruct_from(&dir).map_err(|e| e.to_string())?;
    ctx.steps(2);
    ensure!(l.first_out() == td.first_out() && l.head() == td.head(), "time dependent graph is different after loading");
    ensure!(deps_of(&l) == deps_of(&td), "functions of the time dependent graph are different after loading");
    let lf = rust_road_router::datastr::graph::floating_time_dependent::TDGraph::reconstruct_from(&dir).map_err(|e| e.to_string())?;
    ensure!(lf.first_out() == fl.first_out() && lf.head() == fl.head(), "floating point graph is different after loading");
    for e in 0..g.m() as u32 {
        use rust_road_router::datastr::graph::floating_time_dependent::{Timestamp, PLF};
        for t in [0.0, 0.005, 9.0 * 3600.0, 43_100.0, 80_000.0] {
            ctx.step();
            let (a, b) = (lf.travel_time_function(e).evaluate(Timestamp::new(t)), fl.travel_time_function(e).evaluate(Timestamp::new(t)));
            ensure!(f64::from(a) == f64::from(b), "edge {} at {}: {:?} instead of {:?}", e, t, a, b);
            let want = pool[g.weight[e as usize] as usize].exact_f((t * 1000.0) as u32) / 1000.0;
            ensure!((f64::from(a) - want).abs() < 0.01, "edge {} at {}: {:?} instead of {}", e, t, a, want);
        }
    }
    // live data: (edge, travel time, how long)
    let t_live = ctx.pick_from(&[0, 9 * H, P - 1]);
    let live: Vec<(u32, u32, u32)> = (0..g.m() as u32).filter(|e| e % 3 != 1).map(|e| (e, [1_000, INF, 5_000_000][e as usize % 3], [H, 0, 3 * H, P, P - 1][e as usize % 5])).collect();
    live.write_to(&dir.join("live")).unwrap();
    let lg: PessimisticLiveTDGraph = ("live".to_string(), t_live).reconstruct_from(&dir).map_err(|e| e.to_string())?;
    for e in 0..g.m() as u32 {
        for dt in [0, 1, H - 1, H, H + 1, 3 * H, P - 2, P - 1, P] {
            ctx.step();
            let t = t_live + dt;
            let predicted = |t: u32| td.travel_time_function(e).eval(t);
            // while it lasts the worse of live value and prediction counts, and one may as well wait for its end
            let want = match live.iter().find(|l| l.0 == e) {
                Some(&(_, w, dur)) if dur < P && t < t_live + dur => w.min(t_live + dur - t + predicted(t_live + dur)).max(predicted(t)),
                _ => predicted(t),
            };
            let got = lg.eval(e, t);
            ensure!(got == want, "edge {} with live data {:?} at {}+{}: {} instead of {}", e, live.iter().find(|l| l.0 == e), t_live, dt, got, want);
        }
    }
    faults(
        ctx,
        "time dependent graph",
        &|p| save_td(g, pool, p),
        &|p| TDGraph::reconstruct_from(&p).map(|l| bytes(&[l.first_out().data_bytes(), l.head().data_bytes()])),
        &[],
        None,
    )
}

/// CATCHUp: stored customization
fn catchup_graph(ctx: &mut Ctx, g: &G, pool: &[Plf]) -> Result<(), String> {
    use rust_road_router::datastr::graph::floating_time_dependent::Timestamp;
    let fl = float_graph(g, pool);
    let order = ctx.pick(2);
    let cch = CCH::fix_order_and_build(&fl, NodeOrder::from_node_order(orders_of(g.n, order * 2 + 1)));
    ctx.state();
    ctx.outcome(&(g.edges(), order));
    let c = ftd::customize(&cch, &fl);
    let reader = || CustomizedGraphReconstrctor { original_graph: &fl, first_out: cch.first_out(), head: cch.head() };
    let save = |p: &Path| c.deconstruct_to(&p);
    let scratch = Scratch::new();
    let dir = scratch.sub("d");
    save(&dir).map_err(|e| e.to_string())?;
    let l = reader().reconstruct_from(&dir).map_err(|e| e.to_string())?;
    let (mut a, mut b) = (catchup::Server::new(&cch, &c), catchup::Server::new(&cch, &l));
    for dep in [0.0, 33_000.5, 86_399.0] {
        for from in 0..g.n as u32 {
            for to in 0..g.n as u32 {
                ctx.steps(2);
                let mut q = |s: &mut catchup::Server| {
                    let mut r = s.td_query(TDQuery { from, to, departure: Timestamp::new(dep) });
                    let d = r.distance().map(f64::from);
                    (d, d.and_then(|_| r.node_path()))
                };
                let (x, y) = (q(&mut a), q(&mut b));
                ensure!(x == y, "{}->{} at {}: {:?}, from the loaded customization {:?}", from, to, dep, x, y);
            }
        }
    }
    for (x, y) in [(&c.outgoing, &l.outgoing), (&c.incoming, &l.incoming)] {
        ensure!(x.head() == y.head() && x.tail() == y.tail() && x.bounds() == y.bounds(), "edges or bounds are different after loading");
    }
    // (CustomizedGraph::constant is a bit vector, so another vector is stored with whole words)
    round_trip(ctx, "CATCHUp customization", &save, &save, &|x, y| reader().reconstruct_from(&x)?.deconstruct_to(&y))?;
    faults(
        ctx,
        "CATCHUp customization",
        &save,
        &|p| reader().reconstruct_from(&p).map(|l: CustomizedGraph| bytes(&[l.outgoing.bounds().data_bytes(), l.incoming.bounds().data_bytes()])),
        &[],
        None,
    )
}

/// potentials for time dependent A* and for traffic aware queries
fn td_potentials(ctx: &mut Ctx, g: &G, pool: &[Plf]) -> Result<(), String> {
    let td = td_graph(g, pool);
    let fl = float_graph(g, pool);
    let order = ctx.pick(2);
    let cch = CCH::fix_order_and_build(&td, NodeOrder::from_node_order(orders_of(g.n, order * 2 + 1)));
    if cch.num_arcs() == 0 {
        return Ok(());
    }
    let smooth: Vec<u32> = (0..g.m()).map(|e| pool[g.weight[e] as usize].min() + 1_000).collect();
    let smooth_graph = BorrowedGraph::new(td.first_out(), td.head(), &smooth);
    let scratch = Scratch::new();
    let dir = scratch.sub("d");
    let which = ctx.pick(7);
    ctx.note(|| format!("kind {}", which));
    ctx.state();
    ctx.outcome(&(g.edges(), order, which));
    let err = |e: std::io::Error| e.to_string();
    let data = || {
        let mut d = ftd_for_pot::customize::<5>(&cch, &fl);
        // two buckets share a metric
        let m = d.fw_static_bound.len();
        for b in [&mut d.fw_bucket_bounds, &mut d.bw_bucket_bounds] {
            let last = b.split_off(4 * m);
            for (x, y) in b[3 * m..].iter_mut().zip(last) {
                *x = (*x).min(y);
            }
        }
        d.bucket_to_metric = vec![0, 1, 2, 3, 3];
        d
    };
    let n = g.n;
    match which {
        0 => {
            let d = data();
            let save = |p: &Path| d.deconstruct_to(&p);
            save(&dir).map_err(err)?;
            let l = ftd_for_pot::PotData::reconstruct_from(&dir).map_err(err)?;
            ensure!(l.fw_static_bound == d.fw_static_bound && l.bw_static_bound == d.bw_static_bound, "static bounds");
            ensure!(l.fw_bucket_bounds == d.fw_bucket_bounds && l.bw_bucket_bounds == d.bw_bucket_bounds, "bucket bounds");
            ensure!(l.fw_required == d.fw_required && l.bw_required == d.bw_required, "required edges");
            ensure!(l.fw_first_source == d.fw_first_source && l.bw_first_source == d.bw_first_source, "sources");
            ensure!(l.bucket_to_metric == d.bucket_to_metric, "metrics of buckets");
            ensure!(l.fw_sources.data_bytes() == d.fw_sources.data_bytes() && l.bw_sources.data_bytes() == d.bw_sources.data_bytes(), "sources");
            round_trip(ctx, "data for potentials", &save, &save, &|a, b| ftd_for_pot::PotData::reconstruct_from(&a)?.deconstruct_to(&b))?;
            let load = |p: &Path| ftd_for_pot::PotData::reconstruct_from(&p).map(|l| bytes(&[l.fw_bucket_bounds.data_bytes(), l.bw_bucket_bounds.data_bytes()]));
            faults(ctx, "data for potentials", &save, &load, &["bucket_to_metric"], None)?;
            let mut a = td_astar::IntervalMinPotential::new(&cch, d);
            let mut b = td_astar::IntervalMinPotential::new(&cch, l);
            ensure!(values(ctx, n, &mut a) == values(ctx, n, &mut b), "potential from loaded data differs");
        }
        1 => {
            let ranges = 1 + ctx.pick(2);
            let mmp = || td_astar::MultiMetricPreprocessed::new(&cch, time_ranges(ranges), &td, Some(4));
            mmp().deconstruct_to(&dir).map_err(err)?;
            let l: td_astar::MultiMetricPreprocessed = (&cch).reconstruct_from(&dir).map_err(err)?;
            let (mut a, mut b) = (td_astar::MultiMetric::new(mmp()), td_astar::MultiMetric::new(l));
            ensure!(values(ctx, n, &mut a) == values(ctx, n, &mut b), "multi metric potential from loaded preprocessing differs");
            faults(ctx, "multi metric preprocessing", &|p| mmp().deconstruct_to(&p), &|p| {
                let _: td_astar::MultiMetricPreprocessed = (&cch).reconstruct_from(&p)?;
                Ok(vec![])
            }, &[], None)?;
        }
        2 => {
            let mut a = td_astar::MultiMetric::new(td_astar::MultiMetricPreprocessed::new(&cch, time_ranges(2), &td, None));
            let before = values(ctx, n, &mut a);
            a.deconstruct_to(&dir).map_err(err)?;
            let mut b: td_astar::MultiMetric = (&cch).reconstruct_from(&dir).map_err(err)?;
            ensure!(values(ctx, n, &mut b) == before, "loaded multi metric potential differs");
            let mut s = TDServer::<TDGraph, TDDijkstraOps, _, false, false, false>::new_no_topo(&td, b, TDDijkstraOps::default());
            let eval = |e: usize, t: u32| td.travel_time_function(e as u32).eval(t);
            for from in 0..n {
                let want = earliest_arrival(g, &eval, from, 9 * H);
                for to in 0..n {
                    ctx.step();
                    let got = s.td_query(TDQuery { from: from as u32, to: to as u32, departure: 9 * H }).distance();
                    let w = if want[to] >= INF as u64 { None } else { Some((want[to] - 9 * H as u64) as u32) };
                    ensure!(got == w, "A* with a loaded potential: {}->{}: {:?} instead of {:?}", from, to, got, w);
                }
            }
            faults(ctx, "multi metric potential", &|p| a.deconstruct_to(&p), &|p| {
                let _: td_astar::MultiMetric = (&cch).reconstruct_from(&p)?;
                Ok(vec![])
            }, &[], None)?;
        }
        3 => {
            let mut a = td_astar::IntervalMinPotential::new(&cch, data());
            let before = values(ctx, n, &mut a);
            a.deconstruct_to(&dir).map_err(err)?;
            let mut b: td_astar::IntervalMinPotential<(u32, u32)> = (&cch).reconstruct_from(&dir).map_err(err)?;
            ensure!(values(ctx, n, &mut b) == before, "loaded interval minimum potential differs");
            faults(ctx, "interval minimum potential", &|p| a.deconstruct_to(&p), &|p| {
                let _: td_astar::IntervalMinPotential<(u32, u32)> = (&cch).reconstruct_from(&p)?;
                Ok(vec![])
            }, &[], None)?;
        }
        4 => {
            let live = (0..g.m())
                .map(|e| match e % 3 {
                    0 => rust_road_router::util::in_range_option::InRangeOption::NONE,
                    1 => rust_road_router::util::in_range_option::InRangeOption::some((2_000_000, 11 * H)),
                    _ => rust_road_router::util::in_range_option::InRangeOption::some((INF, 10 * H)),
                })
                .collect();
            let lg = PessimisticLiveTDGraph::new(td.clone(), live);
            let mut a = td_astar::IntervalMinPotential::new_for_live(&cch, data(), &lg, 9 * H);
            a.deconstruct_to(&dir).map_err(err)?;
            let mut b: td_astar::IntervalMinPotential<td_astar::LiveToPredictedBounds> = (&cch).reconstruct_from(&dir).map_err(err)?;
            ensure!(values(ctx, n, &mut a) == values(ctx, n, &mut b), "loaded interval minimum potential for live traffic differs");
        }
        5 => {
            let mmp = || td_traffic_pots::MultiMetricPreprocessed::new(&cch, time_ranges(1), &td, &smooth_graph, Some(4));
            mmp().deconstruct_to(&dir).map_err(err)?;
            let l: td_traffic_pots::MultiMetricPreprocessed = (&cch).reconstruct_from(&dir).map_err(err)?;
            let (mut a, mut b) = (td_traffic_pots::MultiMetric::new(mmp(), &td), td_traffic_pots::MultiMetric::new(l, &td));
            let before = values(ctx, n, &mut a);
            ensure!(before == values(ctx, n, &mut b), "traffic aware multi metric potential from loaded preprocessing differs");
            let dir2 = scratch.sub("d2");
            b.deconstruct_to(&dir2).map_err(err)?;
            let mut c: td_traffic_pots::MultiMetric = (&cch, &td).reconstruct_from(&dir2).map_err(err)?;
            ensure!(before == values(ctx, n, &mut c), "loaded traffic aware multi metric potential differs");
            faults(ctx, "traffic aware multi metric potential", &|p| b.deconstruct_to(&p), &|p| {
                let _: td_traffic_pots::MultiMetric = (&cch, &td).reconstruct_from(&p)?;
                Ok(vec![])
            }, &[], None)?;
        }
        _ => {
            let mut a = td_traffic_pots::IntervalMinPotential::new(&cch, data(), smooth_graph.clone(), &td);
            let before = values(ctx, n, &mut a);
            a.deconstruct_to(&dir).map_err(err)?;
            let mut b: td_traffic_pots::IntervalMinPotential<(u32, u32)> = (&cch).reconstruct_from(&dir).map_err(err)?;
            ensure!(values(ctx, n, &mut b) == before, "loaded traffic aware interval minimum potential differs");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ system calls

/// The calls with which files are read and written, with chosen outcomes: a complete one, one of a single byte or half of
/// the bytes, an interrupted one, one that fails, one that ends (nothing read or written).
mod calls {
    use std::cell::Cell;
    use std::os::raw::{c_int, c_long, c_void};

    pub const KINDS: [&str; 5] = ["one byte", "half of the bytes", "interrupted", "fails", "nothing"];

    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static COUNT: Cell<usize> = const { Cell::new(0) };
        static PLAN: Cell<[(usize, usize); 2]> = const { Cell::new([(usize::MAX, 0); 2]) };
        static HIT: Cell<[bool; 2]> = const { Cell::new([false; 2]) };
    }

    extern "C" {
        fn syscall(number: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }

    unsafe fn call(number: c_long, fd: c_int, buffer: *mut c_void, mut size: usize) -> isize {
        if fd > 2 && size > 0 && ON.with(|o| o.get()) {
            let k = COUNT.with(|c| c.replace(c.get() + 1));
            if let Some(i) = PLAN.with(|p| p.get()).iter().position(|p| p.0 == k) {
                HIT.with(|h| {
                    let mut hit = h.get();
                    hit[i] = true;
                    h.set(hit);
                });
                match PLAN.with(|p| p.get())[i].1 {
                    0 => size = 1,
                    1 => size = (size + 1) / 2,
                    2 => {
                        *__errno_location() = 4; // EINTR
                        return -1;
                    }
                    3 => {
                        *__errno_location() = if number == 0 { 5 } else { 28 }; // EIO, ENOSPC
                        return -1;
                    }
                    _ => return 0,
                }
            }
        }
        syscall(number, fd as c_long, buffer, size) as isize
    }

    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, buffer: *mut c_void, size: usize) -> isize {
        call(0, fd, buffer, size)
    }

    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, buffer: *const c_void, size: usize) -> isize {
        call(1, fd, buffer as *mut c_void, size)
    }

    /// result, number of calls, which of the two were made
    pub fn with<R>(plan: [(usize, usize); 2], f: impl FnOnce() -> R) -> (R, usize, [bool; 2]) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                ON.with(|o| o.set(false));
            }
        }
        PLAN.with(|p| p.set(plan));
        HIT.with(|h| h.set([false; 2]));
        COUNT.with(|c| c.set(0));
        let off = Off;
        ON.with(|o| o.set(true));
        let r = f();
        drop(off);
        (r, COUNT.with(|c| c.get()), HIT.with(|h| h.get()))
    }
}

/// Storing and loading with up to two calls that do not do what was asked: calls that did less or were interrupted change nothing,
/// what fails is reported, and nothing else than what was stored is ever taken for it.
fn disturbed(ctx: &mut Ctx, name: &str, save: SaveFn, older: SaveFn, load: LoadFn) -> Result<(), String> {
    const NEVER: (usize, usize) = (usize::MAX, 0);
    let scratch = Scratch::new();
    let good = scratch.sub("good");
    let io = |e: std::io::Error| format!("{}: {}", name, e);
    let (r, writes, _) = calls::with([NEVER; 2], || save(&good));
    r.map_err(io)?;
    let (r, reads, _) = calls::with([NEVER; 2], || load(&good));
    let original = r.map_err(io)?;
    let storing = ctx.pick(2) == 0;
    let n = if storing { writes } else { reads };
    if n == 0 {
        // not the calls that are watched
        return Ok(());
    }
    let mut plan = [(ctx.pick(n), ctx.pick(5)), NEVER];
    let second = ctx.pick(n + 2 - plan[0].0);
    if second > 0 {
        plan[1] = (plan[0].0 + second, ctx.pick(5));
    }
    ctx.state();
    ctx.step();
    ctx.note(|| {
        let what = |p: (usize, usize)| format!("call {}: {}", p.0, calls::KINDS[p.1]);
        format!("{} {}: {}", if storing { "storing" } else { "loading" }, name, plan.iter().filter(|p| p.0 != usize::MAX).map(|&p| what(p)).collect::<Vec<_>>().join(", "))
    });
    let dir = scratch.sub("dir");
    let (result, hit) = if storing {
        older(&dir).map_err(io)?;
        let (r, _, hit) = calls::with(plan, || guarded(|| save(&dir)));
        (r.map(|r| r.map(|_| ())), hit)
    } else {
        let (r, _, hit) = calls::with(plan, || guarded(|| load(&good)));
        if let Ok(Ok(loaded)) = &r {
            ensure!(*loaded == original, "{}: loads as something different", name);
        }
        (r.map(|r| r.map(|_| ())), hit)
    };
    let made = |kinds: &[usize]| (0..2).any(|i| hit[i] && kinds.contains(&plan[i].1));
    ctx.outcome(&(name, storing, plan, matches!(result, Ok(Ok(())))));
    match result {
        Ok(Ok(())) => {
            ensure!(!made(&[3]), "{}: a call failed, which was not reported", name);
            ensure!(!storing || files(&dir) == files(&good), "{}: different files were stored, which was not reported", name);
        }
        Ok(Err(e)) => ensure!(made(&[3, 4]), "{}: {} although no call failed", name, e),
        Err(e) => ensure!(made(&[3, 4]), "{}: panic although no call failed: {}", name, e),
    }
    Ok(())
}

/// a file in a directory of its own
fn file_in(p: &Path) -> PathBuf {
    std::fs::create_dir_all(p).unwrap();
    p.join("file")
}

fn disturbed_objects(ctx: &mut Ctx) -> Result<(), String> {
    match ctx.pick(6) {
        0 => {
            let n = ctx.pick(4);
            let data: Vec<u32> = (0..n as u32).map(|i| i * 0x0102_0304 + 77).collect();
            let old: Vec<u32> = vec![9; ctx.pick_from(&[0, 1, 5])];
            disturbed(ctx, "vector", &|p| data.write_to(&file_in(p)), &|p| old.write_to(&file_in(p)), &|p| Vec::<u32>::load_from(file_in(p)).map(|v| v.data_bytes().to_vec()))
        }
        1 => {
            let data: Vec<u64> = (0..3).map(|i| (i + 3) << 33 | 5).collect();
            let data = data.into_boxed_slice();
            disturbed(ctx, "slice", &|p| data.write_to(&file_in(p)), &|p| vec![1u64].write_to(&file_in(p)), &|p| Box::<[u64]>::load_from(file_in(p)).map(|v| v.data_bytes().to_vec()))
        }
        2 => {
            let mut b = BitVec::new(130);
            (0..130).filter(|i| i % 3 == 1).for_each(|i| b.set(i));
            let old = BitVec::new(500);
            disturbed(ctx, "bit vector", &|p| b.write_to(&file_in(p)), &|p| old.write_to(&file_in(p)), &|p| BitVec::load_from(file_in(p)).map(|b| (0..b.len()).map(|i| b.get(i) as u8).collect()))
        }
        3 => {
            let o = NodeOrder::from_node_order(vec![2, 0, 3, 1]);
            let old = NodeOrder::identity(7);
            let load = |p: &Path| NodeOrder::reconstruct_from(&p).map(|o| bytes(&[o.order().data_bytes()]));
            disturbed(ctx, "order", &|p| o.deconstruct_to(&p), &|p| old.deconstruct_to(&p), &load)
        }
        4 => {
            let og = road_graph(3, 2, ctx.pick(2) as u64, 9).owned();
            let old = complete_graph(5, |_, _| 3).owned();
            let load = |p: &Path| OwnedGraph::reconstruct_from(&p).map(|g| graph_bytes(&g));
            disturbed(ctx, "graph", &|p| og.deconstruct_to(&p), &|p| old.deconstruct_to(&p), &load)
        }
        _ => {
            let g = road_graph(3, 2, 1, 9);
            let og = g.owned();
            let cch = CCH::fix_order_and_build(&og, NodeOrder::identity(g.n));
            let old = CCH::fix_order_and_build(&complete_graph(5, |_, _| 3).owned(), NodeOrder::identity(5));
            let load = |p: &Path| CCHReconstrctor(&og).reconstruct_from(&p).map(|c| cch_bytes(&c));
            disturbed(ctx, "CCH", &|p| save_cch(&cch, p), &|p| save_cch(&old, p), &load)
        }
    }
}

fn main() {
    let mut r = Report::new("C20");
    r.assume("files are written and read by the same build; directories are empty before or hold an older version of the same kind of data");
    let th = r.thorough();
    let pool = plf_pool();
    let pool = &pool;
    r.scenario("vectors", "9 element types x 5 lengths, over older files of 5 lengths, all four containers; every way to cut the file off", |ctx| match ctx.pick(9) {
        0 => vectors(ctx, "u8", |i| (i * 37) as u8),
        1 => vectors(ctx, "u16", |i| (i * 3771) as u16),
        2 => vectors(ctx, "u32", |i| (i as u32).wrapping_mul(0x9e3779b1)),
        3 => vectors(ctx, "i32", |i| -(i as i32) * 77_777),
        4 => vectors(ctx, "u64", |i| (i as u64).wrapping_mul(0x9e3779b97f4a7c15)),
        5 => vectors(ctx, "f32", |i| i as f32 * -1.25),
        6 => vectors(ctx, "f64", |i| 1.0 / (i as f64 + 1.0)),
        7 => vectors(ctx, "(u32, u32)", |i| (i as u32, u32::MAX - i as u32)),
        _ => vectors(ctx, "bool", |i| i % 3 == 1),
    });
    r.scenario("bitvec", "7 lengths x 4 patterns x 2 offsets", bitvec);
    r.scenario("graphs-n3", "all graphs with 3 nodes and links absent or of weight 1, 2^31; all faults and crash points", |ctx| {
        let g = all_digraphs(ctx, 3, false, &[1, 1 << 31]);
        graphs(ctx, &g)
    });
    r.scenario("graphs-loops", "all topologies with 2 nodes and loops; all faults and crash points", |ctx| {
        let g = all_digraphs(ctx, 2, true, &[7]);
        graphs(ctx, &g)
    });
    r.scenario("orders", "all orders of up to 5 nodes", |ctx| {
        let n = ctx.pick(6);
        node_order(ctx, n)
    });
    r.scenario("cch", "all topologies with 4 nodes without loops x 1 (8) orders; all faults", |ctx| {
        let g = all_topologies(ctx, 4, &|a, b| 1 + ((a * 3 + b) % 5) as u32);
        hierarchies(ctx, &g, if th { 8 } else { 1 })
    });
    r.scenario("cch-road", "4 road graphs with 16 nodes", |ctx| {
        let seed = ctx.pick(4) as u64;
        let g = road_graph(4, 4, seed, 9);
        hierarchies(ctx, &g, 3)
    });
    r.scenario("ch-potentials", "all topologies with 4 nodes x 1 (8) orders; all faults", |ctx| {
        let g = all_topologies(ctx, 4, &|a, b| 1 + ((a * 3 + b) % 5) as u32);
        ch_potentials(ctx, &g, if th { 8 } else { 1 })
    });
    let mixed = |a: usize, b: usize| ((a * 2 + b * 3) % 5) as u32;
    r.scenario("td-graphs", "all topologies with 3 nodes x functions of a pool; live data", |ctx| {
        let k = ctx.pick(pool.len());
        let g = all_topologies(ctx, 3, &|a, b| ((mixed(a, b) as usize + k) % pool.len()) as u32);
        td_graphs(ctx, &g, pool)
    });
    let ints = int_pool();
    let ints = &ints;
    r.scenario("catchup", "all topologies with 3 nodes x functions of a pool x 2 orders; all faults", |ctx| {
        let k = ctx.pick(ints.len());
        let g = all_topologies(ctx, 3, &|a, b| ((mixed(a, b) as usize + k) % ints.len()) as u32);
        catchup_graph(ctx, &g, ints)
    });
    r.scenario("td-potentials", "all topologies with 3 nodes x 7 kinds of data; all faults", |ctx| {
        let k = ctx.pick(if th { ints.len() } else { 2 });
        let g = all_topologies(ctx, 3, &|a, b| ((mixed(a, b) as usize + k) % ints.len()) as u32);
        td_potentials(ctx, &g, ints)
    });
    r.scenario("calls", "6 kinds of data over older data, all pairs of calls that read or write the files x 5 outcomes", disturbed_objects);
    let _ = std::fs::remove_dir_all(root());
    r.finish()
}
