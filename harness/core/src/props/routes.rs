//! T01: route-pairs; W05: vehicles.
use crate::{
    model::*,
    oracle::contract,
    util::{guard, hash_str, Check, Ctx, Rng},
};
use osmgraphing::{
    configs, io,
    network::{EdgeIdx, Graph, NodeIdx},
    routing::{dijkstra, dijkstra::Dijkstra},
};
use std::{
    collections::{BTreeSet, HashMap},
    fmt::Write as _,
    path::Path,
};

use super::routing::m_text;

pub fn reachable_pairs(s: &Snap) -> BTreeSet<(i64, i64)> {
    let n = s.nodes.len();
    let mut out = vec![vec![]; n];
    for e in &s.edges {
        out[e.src].push(e.dst);
    }
    let mut pairs = BTreeSet::new();
    for a in 0..n {
        let mut seen = vec![false; n];
        seen[a] = true;
        let mut stack = vec![a];
        while let Some(x) = stack.pop() {
            for &y in &out[x] {
                if !seen[y] {
                    seen[y] = true;
                    stack.push(y);
                    pairs.insert((s.nodes[a].id, s.nodes[y].id));
                }
            }
        }
    }
    pairs
}

fn pairs_cfg(ctx: &Ctx, name: &str, file: &Path, seed: Option<u64>, limit: usize) -> Check<configs::writing::routing::Config> {
    let mut y = format!(
        "writing:\n  route-pairs:\n    file: '{}'\n    random_or_all:\n      max_count: {}\n",
        file.display(), limit
    );
    if let Some(s) = seed {
        let _ = writeln!(y, "      seed: {}", s);
    }
    let p = ctx.write(name, &y);
    match guard("reading a writing-config panicked", || {
        configs::writing::routing::Config::try_from_yaml(&p)
    })? {
        Ok(c) => Ok(c),
        Err(e) => viol!("a valid writing-config is refused: {}\n{}", e, y),
    }
}

fn write_pairs(
    ctx: &Ctx,
    g: &Graph,
    routing: &configs::routing::Config,
    tag: &str,
    seed: Option<u64>,
    limit: usize,
) -> Check<String> {
    let file = ctx.path(&format!("{}.route-pairs", tag));
    let cfg = pairs_cfg(ctx, &format!("{}.yaml", tag), &file, seed, limit)?;
    let r = guard("writing route-pairs panicked", || io::routing::Writer::write(g, routing, &cfg))?;
    if let Err(e) = r {
        viol!("writing route-pairs failed: {}", e);
    }
    Ok(std::fs::read_to_string(&file).unwrap_or_default())
}

/// The functional lines: count, then pairs.
fn read_pairs(text: &str) -> Check<Vec<(i64, i64, usize)>> {
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let count: usize = match lines.get(0).and_then(|l| l.trim().parse().ok()) {
        Some(c) => c,
        None => viol!("the route-pairs have no count:\n{}", text),
    };
    ensure!(
        lines.len() == count + 1,
        "the count of routes is {}, but there are {} lines", count, lines.len() - 1
    );
    let mut pairs = vec![];
    for l in &lines[1..] {
        let w: Vec<&str> = l.split_whitespace().collect();
        match (w.len(), w.get(0).map(|x| x.parse()), w.get(1).map(|x| x.parse()), w.get(2).map(|x| x.parse())) {
            (3, Some(Ok(a)), Some(Ok(b)), Some(Ok(c))) => pairs.push((a, b, c)),
            _ => viol!("the line '{}' is not readable", l),
        }
    }
    Ok(pairs)
}

pub fn parse_pairs(ctx: &Ctx, g: &Graph, m: &Model, file: &Path) -> Check<Result<Vec<(i64, i64, usize)>, String>> {
    let y = format!(
        "routing:\n  algorithm: Dijkstra\n  route-pairs-file: '{}'\n  metrics:\n  - id: '{}'\n",
        file.display(), m.metrics[0].1
    );
    ctx.write("routes.yaml", &y);
    let cfg = routing_cfg(&y, g)?;
    let r = guard("reading route-pairs panicked", || io::routing::Parser::parse(&cfg))?;
    Ok(r.map(|v| v.iter().map(|(p, n)| (p.src, p.dst, *n)).collect()).map_err(|e| e.to_string()))
}

/// A ring with some further edges, so there is a path between any two of its many nodes.
fn ring_model(rng: &mut Rng, at_least: usize) -> Model {
    let mut m = gen_model(rng, GenOpts { max_nodes: 3, max_dim: 2, edge_ids: Some(false), ..GenOpts::default() });
    let n = rng.range(at_least, at_least + 20);
    let first = m.nodes[0].clone();
    let metrics = m.metrics.len();
    m.nodes = (0..n as i64)
        .map(|i| MNode { id: 7 * i + 3, lat: 40.0 + 0.01 * i as f64, ..first.clone() })
        .collect();
    let further = rng.below(2 * n);
    let ends: Vec<(usize, usize)> = (0..n + further)
        .map(|k| if k < n { (k, (k + 1) % n) } else { (rng.below(n), rng.below(n)) })
        .collect();
    let mut seen = BTreeSet::new();
    m.edges = ends
        .into_iter()
        .filter(|(a, b)| a != b && seen.insert((*a, *b)))
        .map(|(a, b)| MEdge {
            src: m.nodes[a].id,
            dst: m.nodes[b].id,
            id: None,
            metrics: (0..metrics).map(|_| (1 + rng.below(50)) as f64).collect(),
            sc: None,
        })
        .collect();
    m
}

pub fn t01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max = *rng.pick(&[3, 8, 14, 30]);
    let mut m = gen_model(rng, GenOpts { max_nodes: max, max_dim: 3, huge: 0, ..GenOpts::default() });
    // many tries are needed to find many routes
    let is_giant = crate::util::take_giant();
    let is_big = rng.chance(1, 25) || is_giant;
    if is_big {
        m = ring_model(rng, if is_giant { 260 } else { 40 });
    }
    let mut alphas = gen_alphas(rng, m.metrics.len());
    let mut algo = "Dijkstra";
    if is_big {
        ctx.count("big_graphs", 1);
    } else if rng.chance(1, 20) {
        // without nodes
        m.edges.clear();
    } else if rng.chance(1, 4) {
        flat_levels(&mut m);
        if alphas.iter().all(|a| *a == 0.0) {
            alphas[0] = 1.0;
        }
        if let Some(c) = contract(rng, &m, &alphas, 300) {
            m = c;
            algo = "CHDijkstra";
        }
    }
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::None, None, "")?;
    let s = Snap::of(&g)?;
    let routing = routing_cfg(&routing_yaml(&m, &alphas, algo, rng), &g)?;
    let reachable = reachable_pairs(&s);
    let n = s.nodes.len();
    let limit = match rng.below(6) {
        // more pairs than numbers of two bytes
        _ if is_giant => n * n,
        x if is_big && x > 0 => reachable.len() - rng.below(reachable.len() / 2),
        0 => n * n,
        1 => n * n + 1 + rng.below(100),
        2 => (n * n).saturating_sub(1),
        3 => rng.below(n * n + 2),
        4 => rng.below(5),
        _ => reachable.len() / 10,
    };
    let seed = match rng.below(4) {
        0 => None,
        1 => Some(42),
        2 => Some(rng.below(1000) as u64),
        _ => Some(rng.next()),
    };
    let text = write_pairs(ctx, &g, &routing, "first", seed, limit)?;
    let pairs = read_pairs(&text)?;
    let set: BTreeSet<(i64, i64)> = pairs.iter().map(|p| (p.0, p.1)).collect();
    ensure!(set.len() == pairs.len(), "pairs occur several times: {:?}", pairs);
    for p in &pairs {
        ensure!(p.0 != p.1, "start and destination are the same: {:?}", p);
        ensure!(p.2 == 1, "a route is requested {} times: {:?}", p.2, p);
        ensure!(reachable.contains(&(p.0, p.1)), "there is no path for {:?}", p);
    }
    if n * n <= limit {
        ensure!(
            set == reachable,
            "all {} pairs of nodes are within the limit {}, but of reachable pairs {:?}, only {:?} are written",
            n * n, limit, reachable, set
        );
        ctx.count("all_pairs", 1);
    } else {
        ensure!(set.len() <= limit, "{} pairs are written with limit {}", set.len(), limit);
        ctx.count("limited_pairs", 1);
        // thousands of tries are enough
        if reachable.len() >= 100 && limit <= reachable.len() / 10 {
            ensure!(
                set.len() == limit,
                "only {} of {} requested pairs are found, though {} pairs have a path",
                set.len(), limit, reachable.len()
            );
            ctx.count("full_limits", 1);
        }
    }
    ctx.count("pairs", set.len());
    // the seed
    let again = write_pairs(ctx, &g, &routing, "again", seed.or(Some(42)), limit)?;
    ensure!(again == text, "the same seed gives another file:\n{}\n{}", text, again);
    if n * n > limit && limit >= 10 && limit <= reachable.len() / 10 {
        // seeds differing in some of the lowest bits, or of the highest ones
        for (name, bits) in [("low", 0), ("middle", 16), ("high", 32), ("highest", 48)].iter() {
            let mut differs = false;
            for k in 1..4u64 {
                let other = seed.unwrap_or(42) ^ ((k * 1001) << *bits);
                let t = write_pairs(ctx, &g, &routing, &format!("{}-{}", name, k), Some(other), limit)?;
                differs |= read_pairs(&t)? != pairs;
                if differs {
                    break;
                }
            }
            ensure!(differs, "the {} bits of the seed do not influence the choice of pairs:\n{}", name, text);
        }
        ctx.count("other_seeds", 1);
    }
    // reading
    match parse_pairs(ctx, &g, &m, &ctx.path("first.route-pairs"))? {
        Ok(v) => ensure!(v == pairs, "written pairs {:?} are read as {:?}", pairs, v),
        Err(e) => viol!("written route-pairs are refused: {}\n{}", e, text),
    }
    // own files with any counts and order
    let ids: Vec<i64> = s.nodes.iter().map(|n| n.id).collect();
    if !ids.is_empty() {
        let mut own = vec![];
        let most = if is_giant { 65_540 } else { rng.below(12) };
        for _ in 0..most {
            let (a, b) = (*rng.pick(&ids), *rng.pick(&ids));
            let c = *rng.pick(&[0, 1, 1, 2, 5, 1000, 70_000, 1 << 33, usize::MAX]);
            own.push((a, b, c));
        }
        let mut t = String::new();
        let junk = |t: &mut String, rng: &mut Rng| {
            while rng.chance(1, 6) {
                t.push_str(["\n", "# 3\n", "#\n"][rng.below(3)]);
            }
        };
        junk(&mut t, rng);
        let _ = writeln!(t, "{}", own.len());
        for (a, b, c) in &own {
            junk(&mut t, rng);
            let _ = writeln!(t, "{}{}{} {}", a, [" ", "\t", "  "][rng.below(3)], b, c);
        }
        junk(&mut t, rng);
        let p = ctx.write("own.route-pairs", &t);
        match parse_pairs(ctx, &g, &m, &p)? {
            Ok(v) => ensure!(v == own, "pairs {:?} are read as {:?}", own, v),
            Err(e) => viol!("valid route-pairs are refused: {}\n{}", e, t),
        }
        ctx.count("own_pairs_read", own.len());
    } else {
        ctx.count("graphs_without_nodes", 1);
    }
    if !pairs.is_empty() {
        let sig = hash_str(&text);
        ctx.nontrivial(sig);
    }
    ctx.sample(|| text);
    Ok(())
}

/// Vehicles of a file: id and its nodes.
pub fn read_vehicles(text: &str) -> Check<Vec<(String, Vec<i64>)>> {
    let mut vehicles: Vec<(String, Vec<i64>)> = vec![];
    let mut is_open = false;
    let attr = |l: &str, name: &str| -> Option<String> {
        let k = format!("{}=\"", name);
        let at = l.find(&k)? + k.len();
        let end = l[at..].find('"')? + at;
        Some(l[at..end].to_owned())
    };
    let mut depth = 0;
    for l in text.lines() {
        let l = l.trim();
        if l.starts_with("<?xml") {
            continue;
        }
        if l == "<data>" {
            depth += 1;
        } else if l == "</data>" {
            depth -= 1;
        } else if l.starts_with("<vehicle ") {
            ensure!(!is_open, "a vehicle within a vehicle:\n{}", text);
            is_open = true;
            match attr(l, "id") {
                Some(id) => vehicles.push((id, vec![])),
                None => viol!("a vehicle has no id: {}", l),
            }
        } else if l == "</vehicle>" {
            ensure!(is_open, "a vehicle ends without start");
            is_open = false;
        } else if l.starts_with("<node ") {
            ensure!(is_open, "a node out of a vehicle: {}", l);
            match attr(l, "id").and_then(|x| x.parse().ok()) {
                Some(id) => vehicles.last_mut().unwrap().1.push(id),
                None => viol!("a node has no id: {}", l),
            }
        } else if !l.is_empty() {
            viol!("an unexpected line: {}", l);
        }
    }
    ensure!(depth == 0 && !is_open, "the file is not complete");
    Ok(vehicles)
}

pub fn w05(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max = *rng.pick(&[3, 8, 14, 40]);
    let mut m = gen_model(rng, GenOpts { max_nodes: max, max_dim: 2, ..GenOpts::default() });
    let mut alphas = gen_alphas(rng, m.metrics.len());
    if rng.chance(1, 2) {
        flat_levels(&mut m);
        alphas[0] += 1.0;
        if let Some(c) = contract(rng, &m, &alphas, 300) {
            m = c;
        }
    }
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::None, None, "")?;
    let s = Snap::of(&g)?;
    let routing = routing_cfg(&routing_yaml(&m, &alphas, "Dijkstra", rng), &g)?;
    let mut router = Dijkstra::new();
    let mut paths = vec![];
    let mut want: Vec<(String, Vec<i64>)> = vec![];
    let mut walks = 0;
    let is_giant = crate::util::take_giant();
    let most = match rng.chance(1, 100) {
        _ if is_giant => 65_536 + rng.below(9000),
        true => rng.below(3000),
        false => rng.below(25),
    };
    for k in 0..most {
        let (a, mut b) = (rng.below(s.nodes.len()), rng.below(s.nodes.len()));
        // paths are not built by routers only
        if rng.chance(1, 3) {
            b = a;
            let mut edges = vec![];
            let mut nodes = vec![];
            let long = if !is_giant && rng.chance(1, 40) { 3000 } else { 5 };
            let len = match *rng.pick(&[0, 1, 2, 8, 40, long]) {
                _ if is_giant && k % 20_000 == 19_999 => 66_000,
                len => len,
            };
            for _ in 0..len {
                let next: Vec<usize> = (0..s.edges.len()).filter(|k| s.edges[*k].src == b).collect();
                if next.is_empty() {
                    break;
                }
                let k = *rng.pick(&next);
                if nodes.is_empty() {
                    nodes.push(s.nodes[b].id);
                }
                b = s.edges[k].dst;
                nodes.push(s.nodes[b].id);
                edges.push(EdgeIdx(k));
            }
            want.push((format!("{}->{}", s.nodes[a].id, s.nodes[b].id), nodes));
            paths.push(osmgraphing::routing::paths::Path::new(NodeIdx(a), s.nodes[a].id, NodeIdx(b), s.nodes[b].id, edges));
            walks += 1;
            continue;
        }
        let p = guard("a query panicked", || {
            router.compute_best_path(dijkstra::Query {
                src_idx: NodeIdx(a),
                dst_idx: NodeIdx(b),
                graph: &g,
                routing_cfg: &routing,
            })
        })?;
        let mut p = match p {
            Some(p) => p,
            None => continue,
        };
        if rng.chance(2, 3) {
            p = match guard("flattening panicked", || p.clone().try_flatten(&g))? {
                Ok(p) => p,
                Err(e) => viol!("a path can't be flattened: {}", e),
            };
        }
        let mut nodes: Vec<i64> = vec![];
        for e in super::routing::path_edges(&p) {
            let e = &s.edges[e];
            if nodes.is_empty() {
                nodes.push(s.nodes[e.src].id);
            }
            nodes.push(s.nodes[e.dst].id);
        }
        want.push((format!("{}->{}", s.nodes[a].id, s.nodes[b].id), nodes));
        paths.push(p);
        // the same route again
        if rng.chance(1, 5) {
            let again = want.last().unwrap().clone();
            want.push(again);
            let again = paths.last().unwrap().clone();
            paths.push(again);
        }
    }
    let file = ctx.path("vehicles.xml");
    let cfg = configs::writing::smarts::Config { file: file.clone() };
    let r = guard("writing vehicles panicked", || io::smarts::Writer::write(&paths, &g, &cfg))?;
    if let Err(e) = r {
        viol!("writing vehicles failed: {}", e);
    }
    let text = std::fs::read_to_string(&file).unwrap_or_default();
    let got = read_vehicles(&text)?;
    ensure!(
        got.len() == want.len(),
        "{} vehicles are written for {} paths", got.len(), want.len()
    );
    // every path has its vehicle
    let count = |v: &[(String, Vec<i64>)]| {
        let mut c: HashMap<(String, Vec<i64>), usize> = HashMap::new();
        for x in v {
            *c.entry(x.clone()).or_default() += 1;
        }
        c
    };
    let (a, b) = (count(&got), count(&want));
    for (k, n) in &b {
        ensure!(
            a.get(k) == Some(n),
            "vehicle {} with nodes {:?} is written {:?} times instead of {} times; written are {:?}",
            k.0, k.1, a.get(k).unwrap_or(&0), n, got
        );
    }
    ensure!(got == want, "vehicles are written in another order than their paths: {:?} instead of {:?}", got, want);
    ctx.count("vehicles", want.len());
    ctx.count("built_by_hand", walks);
    ctx.count("nodes_of_vehicles", want.iter().map(|w| w.1.len()).sum());
    ctx.count("vehicles_of_several_edges", want.iter().filter(|w| w.1.len() > 2).count());
    if !want.is_empty() {
        let sig = hash_str(&text);
        ctx.nontrivial(sig);
    }
    ctx.sample(|| format!("{}\n{}", m_text(&m), text));
    Ok(())
}
