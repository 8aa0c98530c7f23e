//! adapters around the code under test
use crate::gen::G;
use crate::oracle::*;
use crate::Ctx;

pub type Answer = (Option<u32>, Option<Vec<u32>>);

/// turn a query server into a closure (from, to, with_path) -> (distance, node path)
#[macro_export]
macro_rules! qs {
    ($s:expr) => {
        &mut |from: u32, to: u32, path: bool| {
            let mut res = $s.query(rust_road_router::algo::Query { from, to });
            let d = res.distance();
            let p = if path { res.node_path() } else { None };
            (d, p)
        }
    };
}

/// one query: exact distance, and (if `paths`) a valid shortest node path
pub fn check_query(
    ctx: &mut Ctx,
    name: &str,
    g: &G,
    d: &[Vec<u32>],
    server: &mut dyn FnMut(u32, u32, bool) -> Answer,
    from: usize,
    to: usize,
    paths: bool,
) -> Result<(), String> {
    ctx.step();
    let (got, path) = server(from as u32, to as u32, paths);
    let want = opt(d[from][to]);
    if got != want {
        return Err(format!("{}: query {}->{} returned {:?}, shortest distance is {:?}", name, from, to, got, want));
    }
    if paths {
        match (path, want) {
            (None, None) => {}
            (Some(p), Some(dist)) => {
                ctx.step();
                check_node_path(g, from as u32, to as u32, dist, &p).map_err(|e| format!("{}: {}", name, e))?;
            }
            (p, w) => return Err(format!("{}: query {}->{} path {:?} for distance {:?}", name, from, to, p, w)),
        }
    }
    Ok(())
}

/// all pairs, in the order of a fixed traversal, on one server (so state of one query meets the next)
pub fn check_all_pairs(
    ctx: &mut Ctx,
    name: &str,
    g: &G,
    d: &[Vec<u32>],
    server: &mut dyn FnMut(u32, u32, bool) -> Answer,
    paths: bool,
) -> Result<(), String> {
    for from in 0..g.n {
        for to in 0..g.n {
            check_query(ctx, name, g, d, server, from, to, paths)?;
        }
    }
    Ok(())
}
