//! Exploration of alternative routes.
use crate::{
    model::{build_ok, gen_model, routing_cfg, stored, GenOpts, Layout, MEdge, Model, Noise, Snap},
    props::routing::{check_walk, m_text, path_edges},
    util::{close, guard, hash_str, Check, Ctx, Rng},
};
use osmgraphing::{
    network::NodeIdx,
    routing::{
        dijkstra::{self, Dijkstra},
        explorating::ConvexHullExplorator,
    },
};
use std::fmt::Write as _;

const TOL: f64 = 1e-4;

/// All non-dominated costs of paths from a node, per node; none if there are too many.
fn pareto(n: usize, edges: &[(usize, usize, Vec<f64>)], src: usize, most: usize) -> Option<Vec<Vec<Vec<f64>>>> {
    let dim = edges.get(0).map_or(0, |e| e.2.len());
    let mut fronts: Vec<Vec<Vec<f64>>> = vec![Vec::new(); n];
    fronts[src].push(vec![0.0; dim]);
    let mut queue = vec![(src, vec![0.0; dim])];
    let mut total = 0;
    while let Some((u, c)) = queue.pop() {
        if !fronts[u].contains(&c) {
            continue;
        }
        for (_, v, w) in edges.iter().filter(|e| e.0 == u) {
            let nc: Vec<f64> = c.iter().zip(w).map(|(a, b)| a + b).collect();
            if fronts[*v].iter().any(|f| f.iter().zip(&nc).all(|(a, b)| a <= b)) {
                continue;
            }
            fronts[*v].retain(|f| !f.iter().zip(&nc).all(|(a, b)| b <= a));
            fronts[*v].push(nc.clone());
            total += 1;
            if total > most {
                return None;
            }
            queue.push((*v, nc));
        }
    }
    Some(fronts)
}

/// Is there a weighting (non-negative, sum 1), such that no vector of the front is cheaper?
/// None, if not decided here.
fn supported(c: &[f64], front: &[Vec<f64>]) -> Option<bool> {
    let scale = front.iter().flatten().chain(c).fold(1.0f64, |a, b| a.max(b.abs()));
    let eps = TOL * scale;
    match c.len() {
        1 => Some(front.iter().all(|f| f[0] >= c[0] - eps)),
        2 => {
            // a * (f0 - c0) + (1 - a) * (f1 - c1) >= -eps
            let (mut lo, mut hi) = (0.0f64, 1.0f64);
            for f in front {
                let (x, y) = (f[0] - c[0], f[1] - c[1]);
                let (k, r) = (x - y, -eps - y);
                // a * k >= r
                if k > 0.0 {
                    lo = lo.max(r / k);
                } else if k < 0.0 {
                    hi = hi.min(r / k);
                } else if r > 0.0 {
                    return Some(false);
                }
            }
            Some(lo <= hi + 1e-12)
        }
        3 => {
            // the triangle of weightings is cut
            let mut poly = vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
            for f in front {
                let val = |p: &[f64; 3]| (0..3).map(|i| p[i] * (f[i] - c[i])).sum::<f64>() + eps;
                let mut next: Vec<[f64; 3]> = Vec::new();
                for i in 0..poly.len() {
                    let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
                    let (va, vb) = (val(&a), val(&b));
                    if va >= 0.0 {
                        next.push(a);
                    }
                    if (va > 0.0 && vb < 0.0) || (va < 0.0 && vb > 0.0) {
                        let t = va / (va - vb);
                        let mut p = [0.0; 3];
                        for k in 0..3 {
                            p[k] = a[k] + t * (b[k] - a[k]);
                        }
                        next.push(p);
                    }
                }
                poly = next;
                if poly.is_empty() {
                    return Some(false);
                }
            }
            Some(true)
        }
        _ => {
            // at least nothing may be clearly better in everything
            if front.iter().any(|f| f.iter().zip(c).all(|(a, b)| *a < b - eps)) {
                Some(false)
            } else {
                None
            }
        }
    }
}

fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

pub fn e01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    // one explorator and one router for everything
    let mut explorator = ConvexHullExplorator::new();
    let mut router = Dijkstra::new();
    for g in 0..rng.range(1, 3) {
        one_graph(ctx, rng, g, &mut explorator, &mut router)?;
    }
    Ok(())
}

fn one_graph(
    ctx: &mut Ctx,
    rng: &mut Rng,
    number: usize,
    explorator: &mut ConvexHullExplorator,
    router: &mut Dijkstra,
) -> Check {
    let mut m: Model = gen_model(rng, GenOpts { max_nodes: 12, max_dim: 4, widest: 6, ..GenOpts::default() });
    // unique optima
    let mut generic = rng.chance(2, 3);
    let mut chain = rng.chance(1, 3) && m.nodes.len() > 2 && !m.has_shortcuts;
    if chain {
        // many combinations of conflicting parallel edges
        generic = true;
        let n = m.nodes.len().min(6);
        let dim = m.metrics.len();
        let mut edges = Vec::new();
        for i in 1..n {
            for _ in 0..rng.range(2, 3) {
                let mut metrics: Vec<f64> = (0..dim).map(|_| 0.1 + 10.0 * rng.f() * rng.f()).collect();
                let a = 0.3 + 3.0 * rng.f();
                metrics[0] = a;
                if dim > 1 {
                    metrics[1] = (0.8 + 0.4 * rng.f()) / a;
                }
                edges.push(MEdge {
                    src: m.nodes[i - 1].id,
                    dst: m.nodes[i].id,
                    id: if m.has_edge_ids { Some(edges.len() + 3) } else { None },
                    metrics,
                    sc: None,
                });
            }
        }
        m.edges = edges;
    } else if m.metrics.len() == 2 && m.nodes.len() > 1 && !m.has_shortcuts && rng.chance(1, 8) {
        // many alternatives, all of them being the best for some weighting
        generic = true;
        chain = true;
        let count = if rng.chance(1, 2) { rng.range(2, 90) } else { rng.range(2, 20) };
        let (radius, part) = ([1.0, 10.0, 1000.0][rng.below(3)], [0.0, rng.f()][rng.below(2)]);
        let mut edges = Vec::new();
        for i in 0..count {
            let x = (i as f64 + part * rng.f()) / count as f64 * std::f64::consts::FRAC_PI_2;
            edges.push(MEdge {
                src: m.nodes[0].id,
                dst: m.nodes[1].id,
                id: if m.has_edge_ids { Some(edges.len() + 3) } else { None },
                metrics: vec![radius * (1.1 - x.cos()), radius * (1.1 - x.sin())],
                sc: None,
            });
        }
        m.edges = edges;
    } else if generic {
        // conflicting metrics lead to more alternatives
        for e in m.edges.iter_mut() {
            for x in e.metrics.iter_mut() {
                *x = 0.1 + 10.0 * rng.f() * rng.f();
            }
            if e.metrics.len() > 1 && rng.chance(2, 3) {
                let a = rng.f();
                e.metrics[0] = 0.1 + 9.0 * a;
                e.metrics[1] = 0.1 + 9.0 * (1.0 - a) * (0.5 + rng.f());
            }
        }
    }
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, &format!("map{}", number), &m, &l, Noise::None, None, "")?;
    let s = Snap::of(&g)?;
    let n = s.nodes.len();
    if n == 0 {
        return Ok(());
    }
    let dim = m.metrics.len();

    for _ in 0..2 {
        let mut considered: Vec<usize> = (0..dim).filter(|_| rng.chance(3, 4)).collect();
        if considered.is_empty() {
            considered.push(rng.below(dim));
        }
        let unlimited = rng.chance(1, 2);
        let scales: Vec<f64> = (0..dim)
            .map(|_| {
                if unlimited || rng.chance(1, 3) {
                    f64::INFINITY
                } else {
                    [1.0, 1.05, 1.3, 2.0, 5.0, 0.9][rng.below(6)]
                }
            })
            .collect();
        let algo = ["Dijkstra", "CHDijkstra"][rng.below(2)];
        if algo == "CHDijkstra" && m.has_levels {
            continue;
        }
        let mut yaml = format!("routing:\n  algorithm: {}\n  metrics:\n", algo);
        for i in &considered {
            let _ = writeln!(yaml, "  - id: '{}'", m.metrics[*i].1);
            if rng.chance(1, 3) {
                let _ = writeln!(yaml, "    alpha: {:?}", 0.1 + rng.f());
            }
            if scales[*i] < f64::INFINITY {
                let _ = writeln!(yaml, "    tolerated-scale: '{}'", scales[*i]);
            } else if rng.chance(1, 2) {
                let _ = writeln!(yaml, "    tolerated-scale: 'inf'");
            }
        }
        let cfg = routing_cfg(&yaml, &g)?;
        ctx.write("routing.yaml", &yaml);
        // costs of considered metrics only
        let edges: Vec<(usize, usize, Vec<f64>)> = s
            .edges
            .iter()
            .map(|e| {
                let all = s.in_model_order(&m, e);
                (e.src, e.dst, considered.iter().map(|i| all[*i]).collect())
            })
            .collect();
        // own model of the map
        for e in &m.edges {
            for x in &e.metrics {
                ensure!(stored(*x) > 0.0, "harness: metric {}", x);
            }
        }

        for _ in 0..6 {
            let mut src = rng.below(n);
            let mut dst = if rng.chance(1, 15) { src } else { rng.below(n) };
            if chain && rng.chance(1, 2) {
                let ends = [m.nodes[0].id, m.edges[m.edges.len() - 1].dst];
                src = s.nodes.iter().position(|x| x.id == ends[0]).unwrap_or(src);
                dst = s.nodes.iter().position(|x| x.id == ends[1]).unwrap_or(dst);
            }
            let fronts = match pareto(n, &edges, src, 4000) {
                Some(f) => f,
                None => {
                    ctx.count("too_many_alternatives", 1);
                    continue;
                }
            };
            let front = &fronts[dst];
            if considered.len() > 4 && front.len() > 10 {
                ctx.count("too_many_alternatives", 1);
                continue;
            }
            let paths = guard("exploring panicked", || {
                explorator.fully_explorate(
                    dijkstra::Query {
                        src_idx: NodeIdx(src),
                        dst_idx: NodeIdx(dst),
                        graph: &g,
                        routing_cfg: &cfg,
                    },
                    router,
                )
            })?;
            ctx.count("explorations", 1);
            ctx.count("explored_paths", paths.len());
            let show = || format!("from {} to {}\n{}\n{}", s.nodes[src].id, s.nodes[dst].id, yaml, m_text(&m));
            if front.is_empty() {
                ensure!(paths.is_empty(), "{} paths are explored, but there is none {}", paths.len(), show());
                ctx.count("unreachable", 1);
                continue;
            }
            let mut costs: Vec<Vec<f64>> = Vec::new();
            let mut seen: Vec<Vec<usize>> = Vec::new();
            for p in &paths {
                let e = path_edges(p);
                check_walk(&s, &e, src, dst)?;
                ensure!(!seen.contains(&e), "a path is explored twice: {:?} {}", e, show());
                // reported costs
                let mut sum = vec![0.0; s.metric_ids.len()];
                for i in &e {
                    for (k, x) in s.edges[*i].metrics.iter().enumerate() {
                        sum[k] += x;
                    }
                }
                let told: Vec<f64> = guard("no costs", || p.costs().iter().cloned().collect())?;
                ensure!(
                    told.len() == sum.len() && told.iter().zip(&sum).all(|(a, b)| close(*a, *b, 1e-9, 1e-9)),
                    "an explored path reports costs {:?} instead of {:?}", told, sum
                );
                let c: Vec<f64> = considered
                    .iter()
                    .map(|i| sum[s.col(&m.metrics[*i].1).unwrap()])
                    .collect();
                match supported(&c, front) {
                    Some(ok) => {
                        ensure!(ok, "an explored path with costs {:?} is not optimal for any weighting {}\nfront {:?}", c, show(), front);
                        ctx.count("paths_optimal_for_a_weighting", 1);
                    }
                    None => ctx.count("paths_not_dominated", 1),
                }
                for (k, i) in considered.iter().enumerate() {
                    let best = front.iter().map(|f| f[k]).fold(f64::INFINITY, f64::min);
                    ensure!(
                        scales[*i] == f64::INFINITY || c[k] <= best * scales[*i] + TOL * (1.0 + best),
                        "an explored path costs {} in {}, tolerated is {} * {} {}",
                        c[k], m.metrics[*i].1, scales[*i], best, show()
                    );
                }
                seen.push(e);
                costs.push(c);
            }
            if considered.iter().any(|i| scales[*i] < f64::INFINITY) {
                ctx.count("limited", 1);
            }
            // what has to be found
            let all_unlimited = considered.iter().all(|i| scales[*i] == f64::INFINITY);
            let k = considered.len();
            let mut initial: Vec<Vec<f64>> = Vec::new();
            for mask in 1..(1usize << k) {
                let w: Vec<f64> = (0..k).map(|i| (mask >> i & 1) as f64).collect();
                let best = front.iter().map(|f| dot(f, &w)).fold(f64::INFINITY, f64::min);
                if all_unlimited {
                    ensure!(
                        costs.iter().any(|c| dot(c, &w) <= best + TOL * (1.0 + best)),
                        "no explored path is the best for the weighting {:?} (cost {}): {:?} {}",
                        w, best, costs, show()
                    );
                }
                if generic {
                    let b = front.iter().min_by(|a, b| dot(a, &w).partial_cmp(&dot(b, &w)).unwrap()).unwrap();
                    let tolerated = considered.iter().enumerate().all(|(j, i)| {
                        let single = front.iter().map(|f| f[j]).fold(f64::INFINITY, f64::min);
                        scales[*i] == f64::INFINITY || b[j] <= single * scales[*i] - TOL * (1.0 + single)
                            || (scales[*i] == 1.0 && b[j] <= single)
                    });
                    if tolerated {
                        ensure!(
                            costs.iter().any(|c| dot(c, &w) <= best + TOL * (1.0 + best)),
                            "no explored path is the best for the weighting {:?} (cost {}), though tolerated: {:?} {}",
                            w, best, costs, show()
                        );
                        ctx.count("tolerated_optima_found", 1);
                    }
                    if !initial.contains(b) {
                        initial.push(b.clone());
                    }
                }
            }
            // with two metrics, everything in between is found
            if generic && all_unlimited && k == 2 && initial.len() == 3 {
                let mut more = 0;
                for step in 0..=200 {
                    let a = step as f64 / 200.0;
                    let w = [a, 1.0 - a];
                    let best = front.iter().map(|f| dot(f, &w)).fold(f64::INFINITY, f64::min);
                    ensure!(
                        costs.iter().any(|c| dot(c, &w) <= best + TOL * (1.0 + best)),
                        "no explored path is the best for the weighting {:?} (cost {}): {:?} {}",
                        w, best, costs, show()
                    );
                    if initial.iter().all(|c| dot(c, &w) > best + TOL * (1.0 + best)) {
                        more += 1;
                    }
                }
                ctx.count("completely_explored", 1);
                if more > 0 {
                    ctx.count("explored_beyond_initial_paths", 1);
                }
            }
            if paths.len() > 40 {
                ctx.count("explorations_of_many_alternatives", 1);
            }
            if paths.len() > 1 {
                ctx.nontrivial(hash_str(&format!("{:?} {} {} {}", m.edges, src, dst, yaml)));
                ctx.count("explorations_with_alternatives", 1);
            }
        }
        ctx.sample(|| format!("{}\n{}", yaml, m_text(&m)));
    }
    Ok(())
}
