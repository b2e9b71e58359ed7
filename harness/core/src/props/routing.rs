use crate::{
    model::*,
    oracle::{contract, shuffle_lines, Net},
    util::{close, guard, hash_str, mix, Check, Ctx, Rng},
};
use osmgraphing::{
    configs::routing::Config,
    network::{EdgeIdx, Graph, NodeIdx},
    routing::{
        dijkstra::{self, Dijkstra},
        paths::Path,
    },
};

pub fn query(
    router: &mut Dijkstra,
    g: &Graph,
    cfg: &Config,
    src: usize,
    dst: usize,
) -> Check<Option<Path>> {
    guard("a routing-query panicked", || {
        router.compute_best_path(dijkstra::Query {
            src_idx: NodeIdx(src),
            dst_idx: NodeIdx(dst),
            graph: g,
            routing_cfg: cfg,
        })
    })
}

pub fn weighted(snap: &Snap, m: &Model, alphas: &[f64], edges: &[usize]) -> f64 {
    edges
        .iter()
        .map(|&e| {
            snap.in_model_order(m, &snap.edges[e])
                .iter()
                .zip(alphas)
                .map(|(x, a)| x * a)
                .sum::<f64>()
        })
        .sum()
}

/// gap-free from src to dst
pub fn check_walk(snap: &Snap, edges: &[usize], src: usize, dst: usize) -> Check {
    let mut at = src;
    for (i, &e) in edges.iter().enumerate() {
        ensure!(e < snap.edges.len(), "the path contains edge {} being not in the graph", e);
        ensure!(
            snap.edges[e].src == at,
            "gap in path {:?} at position {}: node {} is left, but edge {} starts in {}",
            edges, i, at, e, snap.edges[e].src
        );
        at = snap.edges[e].dst;
    }
    ensure!(
        at == dst,
        "the path {:?} from node {} ends in node {} instead of {}",
        edges, src, at, dst
    );
    Ok(())
}

pub fn path_edges(p: &Path) -> Vec<usize> {
    p.iter().map(|e| **e).collect()
}

const TOL: f64 = 1e-4;

/// The comparison's accuracy may be lost with every edge.
fn slack(best: f64, edges: usize) -> f64 {
    1e-6 * (2 + 3 * edges) as f64 + 1e-11 * best.abs()
}

fn pairs(rng: &mut Rng, n: usize, max: usize) -> Vec<(usize, usize)> {
    if n * n <= max {
        (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect()
    } else {
        (0..max).map(|_| (rng.below(n), rng.below(n))).collect()
    }
}

fn check_same_net(snap: &Snap, net: &Net) -> Check {
    let ids: Vec<i64> = snap.nodes.iter().map(|n| n.id).collect();
    ensure!(ids == net.ids, "the graph's nodes are {:?} instead of {:?}", ids, net.ids);
    Ok(())
}

fn algo(ch: bool) -> &'static str {
    if ch {
        "CHDijkstra"
    } else {
        "Dijkstra"
    }
}

pub fn r01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let big = rng.chance(1, 12);
    let wild = rng.chance(1, 2);
    let m = gen_model(
        rng,
        GenOpts {
            max_nodes: if big { 150 } else { 26 },
            max_dim: 5,
            huge: 400,
            wild,
            ..GenOpts::default()
        },
    );
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::None, None, "")?;
    let snap = Snap::of(&g)?;
    for _ in 0..2 {
        let alphas = gen_alphas(rng, m.metrics.len());
        let yaml = routing_yaml(&m, &alphas, "Dijkstra", rng);
        let cfg = routing_cfg(&yaml, &g)?;
        ctx.write("routing.yaml", &yaml);
        let net = Net::new(&m, &alphas);
        check_same_net(&snap, &net)?;
        let n = net.ids.len();
        let mut router = Dijkstra::new();
        let mut last = None;
        let mut reach = 0;
        let mut multi_hop = 0;
        for (s, d) in {
            let mut p = pairs(rng, n, if n > 20_000 { 12 } else if big { 150 } else { 700 });
            p.sort();
            p
        } {
            if last.as_ref().map_or(true, |(k, _)| *k != s) {
                last = Some((s, net.dists(s)));
            }
            let best = last.as_ref().unwrap().1[d];
            // a fresh router now and then, reusing is part of R04
            if rng.chance(1, 4) {
                router = Dijkstra::new();
            }
            let p = query(&mut router, &g, &cfg, s, d)?;
            ctx.count("queries", 1);
            match p {
                None => ensure!(
                    best == f64::INFINITY,
                    "no path found from id {} to id {}, but there is one of cost {}\n{}",
                    net.ids[s], net.ids[d], best, yaml
                ),
                Some(p) => {
                    reach += 1;
                    let edges = path_edges(&p);
                    ensure!(
                        best < f64::INFINITY,
                        "a path {:?} is found from id {} to id {}, but there is none",
                        edges, net.ids[s], net.ids[d]
                    );
                    check_walk(&snap, &edges, s, d)?;
                    if s == d {
                        ensure!(edges.is_empty(), "path from {} to itself is {:?}", s, edges);
                    }
                    let c = weighted(&snap, &m, &alphas, &edges);
                    ensure!(
                        c <= best + slack(best, edges.len()),
                        "path from id {} to id {} costs {}, but {} is possible\n{}",
                        net.ids[s], net.ids[d], c, best, yaml
                    );
                    ensure!(
                        c >= best - slack(best, edges.len()),
                        "path from id {} to id {} costs {}, but the optimum of the map is {}\n{}",
                        net.ids[s], net.ids[d], c, best, yaml
                    );
                    if edges.len() > 1 {
                        multi_hop += 1;
                    }
                }
            }
        }
        ctx.count("paths", reach);
        ctx.count("paths_with_several_edges", multi_hop);
        if multi_hop > 0 {
            let sig = hash_str(&format!("{:?}{:?}", m.edges, alphas));
            ctx.nontrivial(sig);
        }
        ctx.sample(|| format!("{}\nalphas {:?}\n{}", m_text(&m), alphas, yaml));
    }
    Ok(())
}

pub fn m_text(m: &Model) -> String {
    format!(
        "{} nodes, metrics {:?}, edges (src dst id metrics sc): {}",
        m.nodes.len(),
        m.metrics,
        m.edges
            .iter()
            .map(|e| format!("({} {} {:?} {:?} {:?})", e.src, e.dst, e.id, e.metrics, e.sc))
            .collect::<Vec<_>>()
            .join(" ")
    )
}

/// Expands the shortcuts of the built graph independently. None: too many edges.
fn expand(snap: &Snap, edges: &[usize], limit: usize) -> Option<Vec<usize>> {
    let mut out = Vec::new();
    let mut stack: Vec<usize> = edges.iter().rev().cloned().collect();
    let mut steps = 0;
    while let Some(e) = stack.pop() {
        steps += 1;
        if steps > limit {
            return None;
        }
        match snap.edges[e].sc {
            Some(sc) => {
                stack.push(sc[1]);
                stack.push(sc[0]);
            }
            None => out.push(e),
        }
    }
    Some(out)
}

pub fn r02(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max_nodes = if rng.chance(1, 10) { 40 } else { 16 };
    let wild = rng.chance(1, 2);
    let mut m = gen_model(
        rng,
        GenOpts {
            max_nodes,
            max_dim: 3,
            wild,
            ..GenOpts::default()
        },
    );
    let alphas = gen_alphas(rng, m.metrics.len());
    // the original
    flat_levels(&mut m);
    let contracted = match contract(rng, &m, &alphas, 400) {
        Some(c) => c,
        None => {
            ctx.count("skipped_too_many_shortcuts", 1);
            return Ok(());
        }
    };
    let l = Layout::random(&m, rng);
    let g0 = build_ok(ctx, rng, "original", &m, &l, Noise::None, None, "")?;
    let l = Layout::random(&contracted, rng);
    let g1 = build_ok(ctx, rng, "contracted", &contracted, &l, Noise::None, None, "")?;
    let snap0 = Snap::of(&g0)?;
    let snap1 = Snap::of(&g1)?;
    let net = Net::new(&m, &alphas);
    check_same_net(&snap0, &net)?;
    check_same_net(&snap1, &net)?;
    let n = net.ids.len();
    let plain = routing_yaml(&m, &alphas, "Dijkstra", rng);
    let ch = routing_yaml(&m, &alphas, "CHDijkstra", rng);
    ctx.write("routing.plain.yaml", &plain);
    ctx.write("routing.ch.yaml", &ch);
    let mut used_shortcuts = 0;
    let runs = [
        ("CHDijkstra on the contracted graph", &g1, &snap1, routing_cfg(&ch, &g1)?),
        ("Dijkstra on the contracted graph", &g1, &snap1, routing_cfg(&plain, &g1)?),
        ("CHDijkstra on the original graph", &g0, &snap0, routing_cfg(&ch, &g0)?),
        ("Dijkstra on the original graph", &g0, &snap0, routing_cfg(&plain, &g0)?),
    ];
    for (s, d) in pairs(rng, n, 200) {
        let best = net.dists(s)[d];
        for (what, g, snap, cfg) in runs.iter() {
            let p = query(&mut Dijkstra::new(), g, cfg, s, d)?;
            ctx.count("queries", 1);
            match p {
                None => ensure!(
                    best == f64::INFINITY,
                    "{}: no path from id {} to id {}, but there is one of cost {}",
                    what, net.ids[s], net.ids[d], best
                ),
                Some(p) => {
                    ensure!(
                        best < f64::INFINITY,
                        "{}: a path from id {} to id {}, but there is none",
                        what, net.ids[s], net.ids[d]
                    );
                    let edges = path_edges(&p);
                    check_walk(snap, &edges, s, d)?;
                    let c = weighted(snap, &m, &alphas, &edges);
                    // Lines that are equal up to the accuracy may be merged, e.g. a shortcut and an edge: every edge of a best
                    // path may have been replaced by one whose metrics are higher by the accuracy.
                    let merged = 1e-6 * (n + 1) as f64 * alphas.iter().sum::<f64>();
                    let tol = slack(best, expand(snap, &edges, 100_000).map_or(0, |x| x.len())) + merged;
                    ensure!(
                        (c - best).abs() <= tol,
                        "{}: path from id {} to id {} costs {}, but the optimum is {}",
                        what, net.ids[s], net.ids[d], c, best
                    );
                    let flat = match guard("flattening panicked", || p.try_flatten(g))? {
                        Ok(f) => f,
                        Err(e) => viol!("{}: flattening failed: {}", what, e),
                    };
                    let fe = path_edges(&flat);
                    check_walk(snap, &fe, s, d)?;
                    ensure!(
                        fe.iter().all(|&e| snap.edges[e].sc.is_none()),
                        "{}: flattened path {:?} contains a shortcut", what, fe
                    );
                    let c = weighted(snap, &m, &alphas, &fe);
                    ensure!(
                        (c - best).abs() <= tol,
                        "{}: flattened path from id {} to id {} costs {}, but the optimum is {}",
                        what, net.ids[s], net.ids[d], c, best
                    );
                    if fe.len() != edges.len() {
                        used_shortcuts += 1;
                    }
                }
            }
        }
    }
    ctx.count("paths_with_shortcuts", used_shortcuts);
    if used_shortcuts > 0 {
        let sig = hash_str(&format!("{:?}{:?}", contracted.edges, alphas));
        ctx.nontrivial(sig);
    }
    ctx.sample(|| format!("alphas {:?}, contracted: {}", alphas, m_text(&contracted)));
    Ok(())
}

/// Adds shortcuts for random two-edge-walks without any relation to optimality.
fn random_shortcuts(rng: &mut Rng, m: &mut Model, count: usize) {
    let mut next_id = m.edges.iter().filter_map(|e| e.id).max().unwrap_or(0) + 1;
    m.has_shortcuts = true;
    for _ in 0..count {
        let i = rng.below(m.edges.len());
        let next: Vec<usize> = (0..m.edges.len())
            .filter(|&j| m.edges[j].src == m.edges[i].dst)
            .collect();
        if next.is_empty() {
            continue;
        }
        // deep nesting is preferred
        let j = if rng.chance(1, 2) {
            *next.last().unwrap()
        } else {
            *rng.pick(&next)
        };
        let metrics: Vec<f64> = m.edges[i]
            .metrics
            .iter()
            .zip(&m.edges[j].metrics)
            .map(|(x, y)| stored(*x) + stored(*y))
            .collect();
        if metrics.iter().any(|x| *x > 1e7) {
            continue;
        }
        next_id += 1;
        m.edges.push(MEdge {
            src: m.edges[i].src,
            dst: m.edges[j].dst,
            id: m.edges[i].id.map(|_| next_id),
            metrics,
            sc: Some([i, j]),
        });
    }
}

pub fn r03(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    if rng.chance(1, 6) {
        return r03_cycles(ctx, rng);
    }
    if rng.chance(1, 12) {
        return r03_deep(ctx, rng);
    }
    let mut m = gen_model(
        rng,
        GenOpts {
            max_nodes: 14,
            max_dim: 4,
            huge: 400,
            ..GenOpts::default()
        },
    );
    flat_levels(&mut m);
    let count = rng.below(30);
    random_shortcuts(rng, &mut m, count);
    let mut m = shuffle_lines(rng, &m);
    // shortcuts get so cheap, that they are part of the found paths
    if rng.chance(1, 2) {
        for e in m.edges.iter_mut().filter(|e| e.sc.is_some()) {
            for x in &mut e.metrics {
                *x = stored(*x) * 0.5;
            }
        }
    }
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::None, None, "")?;
    let snap = Snap::of(&g)?;
    let alphas = gen_alphas(rng, m.metrics.len());
    let is_ch = rng.chance(1, 2);
    let yaml = routing_yaml(&m, &alphas, algo(is_ch), rng);
    ctx.write("routing.yaml", &yaml);
    let cfg = routing_cfg(&yaml, &g)?;
    let mut router = Dijkstra::new();
    let mut with_sc = 0;
    let most = if snap.nodes.len() > 20_000 { 20 } else { 200 };
    for (s, d) in pairs(rng, snap.nodes.len(), most) {
        let p = match query(&mut router, &g, &cfg, s, d)? {
            Some(p) => p,
            None => continue,
        };
        ctx.count("paths", 1);
        let edges = path_edges(&p);
        if check_path(ctx, &g, &snap, p, &edges, s, d)? {
            with_sc += 1;
        }
    }
    // walks built by hand may use shortcuts and edges repeatedly
    for _ in 0..rng.below(12) {
        let s = rng.below(snap.nodes.len());
        let mut d = s;
        let mut edges = vec![];
        for _ in 0..*rng.pick(&[0, 1, 3, 12, 40]) {
            let mut next: Vec<usize> = (0..snap.edges.len()).filter(|k| snap.edges[*k].src == d).collect();
            let short: Vec<usize> = next.iter().copied().filter(|k| snap.edges[*k].sc.is_some()).collect();
            if !short.is_empty() && rng.chance(1, 2) {
                next = short;
            }
            if next.is_empty() {
                break;
            }
            let k = *rng.pick(&next);
            d = snap.edges[k].dst;
            edges.push(k);
        }
        let p = Path::new(
            NodeIdx(s),
            snap.nodes[s].id,
            NodeIdx(d),
            snap.nodes[d].id,
            edges.iter().map(|k| EdgeIdx(*k)).collect(),
        );
        ctx.count("walks_built_by_hand", 1);
        if check_path(ctx, &g, &snap, p, &edges, s, d)? {
            with_sc += 1;
        }
    }
    ctx.count("paths_with_shortcuts", with_sc);
    if with_sc > 0 {
        let sig = hash_str(&format!("{:?}{:?}", m.edges, alphas));
        ctx.nontrivial(sig);
    }
    ctx.sample(|| format!("alphas {:?} {}: {}", alphas, algo(is_ch), m_text(&m)));
    Ok(())
}

/// Checks of a path being independent of the algorithm. True, if it had shortcuts.
fn check_path(
    ctx: &mut Ctx,
    g: &Graph,
    snap: &Snap,
    mut p: Path,
    edges: &[usize],
    s: usize,
    d: usize,
) -> Check<bool> {
    ensure!(*p.src_idx() == s && *p.dst_idx() == d, "the path has wrong end-nodes");
    check_walk(snap, edges, s, d)?;
    let mut sums = vec![0.0; snap.metric_ids.len()];
    for &e in edges {
        for (a, b) in sums.iter_mut().zip(&snap.edges[e].metrics) {
            *a += b;
        }
    }
    let costs: Vec<f64> = guard("calculating costs panicked", || {
        p.calc_costs(g).iter().cloned().collect::<Vec<f64>>()
    })?;
    ensure!(
        costs.len() == sums.len() && costs.iter().zip(&sums).all(|(a, b)| close(*a, *b, 1e-9, 1e-9)),
        "path {:?} reports costs {:?}, but its edges sum up to {:?}",
        edges, costs, sums
    );
    let again: Vec<f64> = guard("reading costs panicked", || {
        p.calc_costs(g);
        p.costs().iter().cloned().collect::<Vec<f64>>()
    })?;
    ensure!(again == costs, "costs change from {:?} to {:?}", costs, again);

    let expected = match expand(snap, edges, 3_000_000) {
        Some(e) => e,
        None => return Ok(false),
    };
    let flat = match guard("flattening panicked", || p.try_flatten(g))? {
        Ok(f) => f,
        Err(e) => viol!("flattening of {:?} failed: {}", edges, e),
    };
    ensure!(*flat.src_idx() == s && *flat.dst_idx() == d, "the flat path has wrong end-nodes");
    let fe = path_edges(&flat);
    ensure!(
        fe == expected,
        "path {:?} is flattened to {:?} instead of {:?}",
        edges, fe, expected
    );
    // shortcuts of the workload replace connected edges
    check_walk(snap, &fe, s, d)?;
    let mut sums = vec![0.0; snap.metric_ids.len()];
    for &e in &fe {
        for (a, b) in sums.iter_mut().zip(&snap.edges[e].metrics) {
            *a += b;
        }
    }
    let costs: Vec<f64> = guard("reading costs of the flat path panicked", || {
        flat.costs().iter().cloned().collect::<Vec<f64>>()
    })?;
    ensure!(
        costs.len() == sums.len() && costs.iter().zip(&sums).all(|(a, b)| close(*a, *b, 1e-9, 1e-9)),
        "flat path {:?} reports costs {:?}, but its edges sum up to {:?}",
        fe, costs, sums
    );
    ctx.count("flattened_edges", fe.len());
    Ok(fe != edges)
}

/// shortcuts referring to each other
fn r03_cycles(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut m = gen_model(
        rng,
        GenOpts {
            max_nodes: 8,
            max_dim: 2,
            ..GenOpts::default()
        },
    );
    flat_levels(&mut m);
    let count = rng.below(6);
    random_shortcuts(rng, &mut m, count);
    // make some edges refer to anything
    m.has_shortcuts = true;
    let k = m.edges.len();
    for _ in 0..rng.range(1, 4) {
        let i = rng.below(k);
        let a = rng.below(k);
        let b = if rng.chance(1, 3) { i } else { rng.below(k) };
        m.edges[i].sc = Some(if rng.chance(1, 2) { [a, b] } else { [b, a] });
    }
    let l = Layout::random(&m, rng);
    let g = match build(ctx, rng, "map", &m, &l, Noise::None, None, "")? {
        Ok(g) => g,
        // refusing is fine as well
        Err(_) => {
            ctx.count("cyclic_maps_refused", 1);
            return Ok(());
        }
    };
    let snap = Snap::of(&g)?;
    // which edges depend on a circle?
    let n = snap.edges.len();
    let mut state = vec![0u8; n]; // 0 unknown, 1 in progress, 2 fine, 3 cyclic
    fn visit(e: usize, snap: &Snap, state: &mut Vec<u8>) -> bool {
        match state[e] {
            1 | 3 => return true,
            2 => return false,
            _ => (),
        }
        state[e] = 1;
        let mut cyclic = false;
        if let Some(sc) = snap.edges[e].sc {
            for x in sc.iter() {
                if visit(*x, snap, state) {
                    cyclic = true;
                    break;
                }
            }
        }
        state[e] = if cyclic { 3 } else { 2 };
        cyclic
    }
    let mut cyclic_paths = 0;
    let alphas = vec![1.0; m.metrics.len()];
    let cfg = routing_cfg(&routing_yaml(&m, &alphas, "Dijkstra", rng), &g)?;
    for (s, d) in pairs(rng, snap.nodes.len(), 64) {
        if let Some(p) = query(&mut Dijkstra::new(), &g, &cfg, s, d)? {
            let edges = path_edges(&p);
            check_walk(&snap, &edges, s, d)?;
            let mut cyclic = false;
            for &e in &edges {
                for x in state.iter_mut() {
                    if *x == 1 {
                        *x = 0;
                    }
                }
                // a fresh search per edge, because a circle marks everything leading to it
                let mut st = vec![0u8; n];
                cyclic |= visit(e, &snap, &mut st);
            }
            let res = guard("flattening panicked", || p.try_flatten(&g).map(|f| path_edges(&f)))?;
            match res {
                Ok(f) => {
                    ensure!(!cyclic, "flattening {:?} gives {:?} despite of a circle", edges, f);
                    ensure!(
                        Some(&f) == expand(&snap, &edges, 3_000_000).as_ref(),
                        "path {:?} is flattened to {:?}",
                        edges, f
                    );
                }
                Err(e) => {
                    ensure!(cyclic, "flattening {:?} fails without a circle: {}", edges, e);
                    cyclic_paths += 1;
                }
            }
        }
    }
    ctx.count("paths_with_circular_shortcuts", cyclic_paths);
    if cyclic_paths > 0 {
        let sig = hash_str(&format!("{:?}", m.edges));
        ctx.nontrivial(sig);
    }
    ctx.sample(|| format!("circular shortcuts: {}", m_text(&m)));
    Ok(())
}

/// A chain, whose shortcuts are nested once per node.
fn r03_deep(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let most = if ctx.thorough { [60, 600, 4000, 20_000] } else { [60, 600, 600, 3000] };
    let most = *rng.pick(&most);
    let n = rng.range(3, most);
    let left = rng.chance(1, 2);
    let mut m = Model {
        nodes: (0..=n as i64)
            .map(|i| MNode { id: i, lat: 1.0, lon: 2.0, level: 0 })
            .collect(),
        edges: (0..n as i64)
            .map(|i| MEdge { src: i, dst: i + 1, id: None, metrics: vec![1.0], sc: None })
            .collect(),
        metrics: vec![("F64", "x".into())],
        has_levels: false,
        has_edge_ids: false,
        has_shortcuts: true,
    };
    let mut prev = if left { 0 } else { n - 1 };
    for i in 1..n {
        let (a, b) = if left { (prev, i) } else { (n - 1 - i, prev) };
        let e = MEdge {
            src: m.edges[a].src,
            dst: m.edges[b].dst,
            id: None,
            metrics: vec![m.edges[a].metrics[0] + m.edges[b].metrics[0] - 0.25],
            sc: Some([a, b]),
        };
        prev = m.edges.len();
        m.edges.push(e);
    }
    let m = shuffle_lines(rng, &m);
    let l = Layout::plain(&m);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::None, None, "")?;
    let snap = Snap::of(&g)?;
    let cfg = routing_cfg(&routing_yaml(&m, &[1.0], "Dijkstra", rng), &g)?;
    if let Some(p) = query(&mut Dijkstra::new(), &g, &cfg, 0, n)? {
        let edges = path_edges(&p);
        ensure!(edges.len() == 1, "the nested shortcut is not used: {:?}", edges);
        check_path(ctx, &g, &snap, p, &edges, 0, n)?;
        ctx.count("nested_paths", 1);
        ctx.nontrivial(mix(n as u64, left as u64));
    } else {
        viol!("no path on a chain");
    }
    Ok(())
}

pub fn r04(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    // several graphs of different size
    let k = rng.range(1, 4);
    let mut world: Vec<(Model, Graph, Snap, Vec<(Vec<f64>, Config)>, bool)> = Vec::new();
    fn place(ctx: &mut Ctx, rng: &mut Rng, i: usize) -> Check<(Model, Graph, Snap, Vec<(Vec<f64>, Config)>, bool)> {
        let max_nodes = [2, 4, 12, 40][rng.below(4)];
        let mut m = gen_model(
            rng,
            GenOpts {
                max_nodes,
                max_dim: 3,
                // giant ones only
                huge: usize::MAX,
                ..GenOpts::default()
            },
        );
        flat_levels(&mut m);
        let alphas = gen_alphas(rng, m.metrics.len());
        let contracted = if rng.chance(1, 2) {
            contract(rng, &m, &alphas, 300)
        } else {
            None
        };
        let is_contracted = contracted.is_some();
        let m = contracted.unwrap_or(m);
        let l = Layout::random(&m, rng);
        let g = build_ok(ctx, rng, &format!("map{}", i), &m, &l, Noise::None, None, "")?;
        let snap = Snap::of(&g)?;
        // CH is valid for the weighting of the contraction only
        let mut cfgs = vec![
            (alphas.clone(), routing_cfg(&routing_yaml(&m, &alphas, "Dijkstra", rng), &g)?),
            (alphas.clone(), routing_cfg(&routing_yaml(&m, &alphas, "CHDijkstra", rng), &g)?),
        ];
        let other = gen_alphas(rng, m.metrics.len());
        cfgs.push((other.clone(), routing_cfg(&routing_yaml(&m, &other, "Dijkstra", rng), &g)?));
        Ok((m, g, snap, cfgs, is_contracted))
    }
    for i in 0..k {
        let x = place(ctx, rng, i)?;
        world.push(x);
    }
    let mut router = Dijkstra::new();
    let len = if world[0].2.nodes.len() > 20_000 { 25 } else { rng.range(5, 60) };
    let mut history = Vec::new();
    let mut found = 0;
    let mut switches = 0;
    let mut prev = (usize::MAX, usize::MAX);
    // Long lives: many queries touching a single node each, so all other nodes keep what earlier
    // queries left behind, until the number of queries reaches limits of counters.
    let idle = match rng.below(400) {
        0 => 65_536,
        1..=8 => 256,
        9..=12 => 1_024,
        _ => 0,
    };
    let idle_at = rng.range(1, len.min(30));
    let mut old: Vec<(usize, usize, usize, usize)> = Vec::new();
    for step in 0..len {
        if idle > 0 && step == idle_at {
            let w = rng.below(k);
            let (_, g, snap, cfgs, _) = &world[w];
            let s = rng.below(snap.nodes.len());
            for _ in idle_at..idle {
                let p = query(&mut router, g, &cfgs[0].1, s, s)?;
                ensure!(
                    p.map_or(false, |p| path_edges(&p).is_empty()),
                    "no empty path from {} to itself after queries {:?}", s, history
                );
            }
            history.push((w, usize::MAX, s, idle - idle_at));
            ctx.count("long_lives", 1);
            ctx.count("queries", idle - idle_at);
        }
        // graphs and configs change in place, as when balancing
        if idle == 0 && rng.chance(1, 10) {
            let w = rng.below(k);
            match rng.below(4) {
                0 => {
                    let x = place(ctx, rng, w)?;
                    world[w] = x;
                }
                1 => {
                    let (m, g, _, cfgs, _) = &mut world[w];
                    let other = gen_alphas(rng, m.metrics.len());
                    let cfg = routing_cfg(&routing_yaml(m, &other, "Dijkstra", rng), g)?;
                    cfgs[2].0 = other;
                    cfgs[2].1.alphas = cfg.alphas;
                }
                _ if !world[w].4 => {
                    let (_, g, snap, _, _) = &mut world[w];
                    let mut metrics = g.metrics_mut();
                    for (e, edge) in snap.edges.iter_mut().enumerate() {
                        if rng.chance(1, 2) {
                            for (c, x) in edge.metrics.iter_mut().enumerate() {
                                *x = (1 + rng.below(64)) as f64 * 0.25;
                                metrics[EdgeIdx(e)][c] = *x;
                            }
                        }
                    }
                }
                _ => (),
            }
            history.push((w, usize::MAX, usize::MAX, usize::MAX));
            ctx.count("changes_in_place", 1);
        }
        let w = rng.below(k);
        let c = rng.below(world[w].3.len());
        let n = world[w].2.nodes.len();
        let mut next = (w, c, rng.below(n), if rng.chance(1, 10) { 0 } else { rng.below(n) });
        // stay in the graph which has been used as many queries ago as a counter has values
        if idle > 0 && step >= idle_at && step - idle_at < old.len() && rng.chance(3, 4) {
            let w = old[step - idle_at].0;
            let n = world[w].2.nodes.len();
            next = (w, rng.below(world[w].3.len()), rng.below(n), rng.below(n));
        }
        // the same question again
        if idle == 0 && rng.chance(1, 4) && !old.is_empty() {
            let (w, c, s, d) = *rng.pick(&old);
            if s.max(d) < world[w].2.nodes.len() {
                next = (w, c, s, d);
            }
        }
        old.push(next);
        let (w, c, s, d) = next;
        let (m, g, snap, cfgs, _) = &world[w];
        let (alphas, cfg) = &cfgs[c];
        history.push((w, c, s, d));
        let reused = query(&mut router, g, cfg, s, d).map_err(|v| {
            crate::util::Viol(format!("{} after queries (graph, cfg, src, dst) {:?}", v.0, history))
        })?;
        let fresh = query(&mut Dijkstra::new(), g, cfg, s, d)?;
        ctx.count("queries", 1);
        if (w, c) != prev {
            switches += 1;
            prev = (w, c);
        }
        match (reused, fresh) {
            (None, None) => (),
            (Some(a), Some(b)) => {
                let (ea, eb) = (path_edges(&a), path_edges(&b));
                check_walk(snap, &ea, s, d)
                    .map_err(|v| crate::util::Viol(format!("{} after {:?}", v.0, history)))?;
                let (ca, cb) = (
                    weighted(snap, m, alphas, &ea),
                    weighted(snap, m, alphas, &eb),
                );
                ensure!(
                    close(ca, cb, 1e-11, TOL),
                    "a reused router finds costs {}, a fresh one {}, after queries \
                     (graph, cfg, src, dst) {:?}",
                    ca, cb, history
                );
                found += 1;
            }
            (a, b) => viol!(
                "a reused router finds {:?}, a fresh one {:?}, after queries (graph, cfg, src, dst) {:?}",
                a.map(|p| path_edges(&p)), b.map(|p| path_edges(&p)), history
            ),
        }
    }
    ctx.count("paths", found);
    ctx.count("switches_of_graph_or_config", switches);
    if found > 1 && history.len() > 1 {
        let sig = hash_str(&format!("{:?}{}", history, m_text(&world[0].0)));
        ctx.nontrivial(sig);
    }
    ctx.sample(|| {
        format!(
            "graphs with {:?} nodes; history (graph, cfg, src, dst): {:?}",
            world.iter().map(|w| w.2.nodes.len()).collect::<Vec<_>>(),
            history
        )
    });
    Ok(())
}
