use crate::{
    model::*,
    oracle::{contract, shuffle_lines},
    util::{guard, hash_str, Check, Ctx, Rng},
};
use osmgraphing::network::{EdgeIdx, Graph, NodeIdx, RoutePair};
use std::collections::{BTreeMap, HashMap};

use super::routing::m_text;

/// Everything identifying an edge of a map.
pub type Key = (i64, i64, Option<usize>, Vec<u64>);

pub fn key_of_model(m: &Model, e: &MEdge) -> Key {
    (
        e.src,
        e.dst,
        if m.has_edge_ids { e.id } else { None },
        e.metrics.iter().map(|x| stored(*x).to_bits()).collect(),
    )
}

pub fn key_of_snap(m: &Model, s: &Snap, e: &SEdge) -> Key {
    (
        s.nodes[e.src].id,
        s.nodes[e.dst].id,
        e.id,
        s.in_model_order(m, e).iter().map(|x| x.to_bits()).collect(),
    )
}

pub fn show(k: &Key) -> String {
    format!(
        "{} -> {} (id {:?}, metrics {:?})",
        k.0,
        k.1,
        k.2,
        k.3.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
    )
}

/// The built graph has exactly the model's content.
pub fn check_content(m: &Model, s: &Snap) -> Check {
    // nodes: later lines overwrite
    let mut lines: HashMap<i64, &MNode> = HashMap::new();
    for n in &m.nodes {
        lines.insert(n.id, n);
    }
    let mut used: Vec<i64> = m.edges.iter().flat_map(|e| vec![e.src, e.dst]).collect();
    used.sort();
    used.dedup();
    let mut ids: Vec<i64> = s.nodes.iter().map(|n| n.id).collect();
    ids.sort();
    ensure!(ids == used, "the graph has nodes {:?}, but the map's edges use {:?}", ids, used);
    for n in &s.nodes {
        let l = lines[&n.id];
        ensure!(
            n.lat.to_bits() == l.lat.to_bits() && n.lon.to_bits() == l.lon.to_bits(),
            "node {} has coordinates ({}, {}) instead of ({}, {})",
            n.id, n.lat, n.lon, l.lat, l.lon
        );
        let level = if m.has_levels { l.level } else { 0 };
        ensure!(n.level == level, "node {} has level {} instead of {}", n.id, n.level, level);
    }
    // metrics
    let mut a: Vec<&String> = s.metric_ids.iter().collect();
    let mut b: Vec<&String> = m.metrics.iter().map(|x| &x.1).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "the graph has metrics {:?} instead of {:?}", a, b);
    for (unit, id) in &m.metrics {
        let c = s.col(id).unwrap();
        ensure!(&s.units[c] == unit, "metric {} has unit {} instead of {}", id, s.units[c], unit);
    }
    // edges
    let mut in_file: BTreeMap<Key, usize> = BTreeMap::new();
    for e in &m.edges {
        *in_file.entry(key_of_model(m, e)).or_default() += 1;
    }
    let mut groups: HashMap<(i64, i64, Option<usize>), usize> = HashMap::new();
    for k in in_file.keys() {
        *groups.entry((k.0, k.1, k.2)).or_default() += 1;
    }
    let mut in_graph: BTreeMap<Key, usize> = BTreeMap::new();
    for e in &s.edges {
        ensure!(
            e.src < s.nodes.len() && e.dst < s.nodes.len(),
            "edge {:?} refers to a node out of range", e
        );
        *in_graph.entry(key_of_snap(m, s, e)).or_default() += 1;
    }
    for (k, n) in &in_graph {
        match in_file.get(k) {
            None => viol!("the graph has edge {}, which is not in the map", show(k)),
            Some(f) => {
                // without other parallel edges in between, repeated lines are one edge
                let max = if groups[&(k.0, k.1, k.2)] == 1 { 1 } else { *f };
                ensure!(
                    *n <= max,
                    "the graph has edge {} {} times, the map has {} lines of it",
                    show(k), n, f
                );
            }
        }
    }
    for k in in_file.keys() {
        ensure!(in_graph.contains_key(k), "the graph misses edge {}", show(k));
    }
    Ok(())
}

pub fn g01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max_nodes = if rng.chance(1, 10) { 120 } else { 20 };
    let mut m = gen_model(
        rng,
        GenOpts {
            max_nodes,
            max_dim: 5,
            wild: true,
            huge: 400,
            ..GenOpts::default()
        },
    );
    // metrics are optional
    if rng.chance(1, 10) {
        m.metrics.clear();
        for e in &mut m.edges {
            e.metrics.clear();
        }
    }
    // repeated lines
    let mut repeated = 0;
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 6) {
            let e = rng.pick(&m.edges).clone();
            let at = rng.below(m.edges.len() + 1);
            m.edges.insert(at, e);
            repeated += 1;
        }
        let n = rng.pick(&m.nodes).clone();
        m.nodes.push(n);
    }
    let l = Layout::random(&m, rng);
    let noise = if rng.chance(1, 4) { Noise::None } else { Noise::Some };
    let g = build_ok(ctx, rng, "map", &m, &l, noise, None, "")?;
    let s = Snap::of(&g)?;
    check_content(&m, &s)?;
    ctx.count("edge_lines", m.edges.len());
    ctx.count("repeated_edge_lines", repeated);
    ctx.count("nodes", s.nodes.len());

    // another order of lines, columns and noise
    let mut m2 = m.clone();
    rng.shuffle(&mut m2.edges);
    if repeated == 0 {
        rng.shuffle(&mut m2.nodes);
    }
    let l2 = Layout::random(&m2, rng);
    let g2 = build_ok(ctx, rng, "map2", &m2, &l2, Noise::Some, Some(false), "")?;
    let s2 = Snap::of(&g2)?;
    check_content(&m2, &s2)?;
    ensure!(
        s.nodes == s2.nodes,
        "another order of lines changes the nodes from {:?} to {:?}",
        s.nodes, s2.nodes
    );
    ctx.count("maps", 2);
    let sig = hash_str(&format!("{:?}{:?}", m.edges, l));
    if m.edges.len() > 1 {
        ctx.nontrivial(sig);
    }
    ctx.sample(|| std::fs::read_to_string(ctx_path(&g)).unwrap_or_default());
    Ok(())
}

fn ctx_path(g: &Graph) -> std::path::PathBuf {
    g.cfg().map_file.clone()
}

pub fn check_views(g: &Graph, s: &Snap) -> Check<usize> {
    guard("a lookup panicked", || views(g, s))?
}

fn views(g: &Graph, s: &Snap) -> Check<usize> {
    let nodes = g.nodes();
    let fwd = g.fwd_edges();
    let bwd = g.bwd_edges();
    let n = nodes.count();
    let k = fwd.count();
    let mut lookups = 0;
    ensure!(bwd.count() == k, "{} forward-edges, but {} backward-edges", k, bwd.count());
    let via_iter: Vec<usize> = nodes.iter().map(|i| *i).collect();
    ensure!(via_iter == (0..n).collect::<Vec<_>>(), "iterating nodes gives {:?}", via_iter);
    let via_iter: Vec<usize> = fwd.iter().map(|i| *i).collect();
    ensure!(via_iter == (0..k).collect::<Vec<_>>(), "iterating edges gives {:?}", via_iter);

    // nodes by id
    let known: HashMap<i64, usize> = s.node_map();
    ensure!(known.len() == n, "node-ids are not unique");
    for i in 0..n {
        let id = nodes.id(NodeIdx(i));
        ensure!(nodes.idx_from(id) == Ok(NodeIdx(i)), "lookup of node-id {} gives {:?}", id, nodes.idx_from(id));
        let node = match nodes.create_from(id) {
            Some(node) => node,
            None => viol!("node of id {} can't be created", id),
        };
        ensure!(
            *node.idx() == i && node.id() == id && node.ch_level() == s.nodes[i].level
                && node.coord().lat.to_bits() == s.nodes[i].lat.to_bits()
                && node.coord().lon.to_bits() == s.nodes[i].lon.to_bits(),
            "node {} is created as {:?}", i, node
        );
        for other in &[id.wrapping_add(1), id.wrapping_sub(1)] {
            if !known.contains_key(other) {
                ensure!(nodes.idx_from(*other).is_err(), "unknown node-id {} is found", other);
                ensure!(nodes.create_from(*other).is_none(), "unknown node-id {} is found", other);
            }
        }
        lookups += 1;
    }

    // edges of nodes
    let mut out: Vec<Vec<usize>> = vec![vec![]; n];
    let mut inc: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, e) in s.edges.iter().enumerate() {
        out[e.src].push(i);
        inc[e.dst].push(i);
    }
    for i in 0..n {
        let mut f: Vec<usize> = vec![];
        for h in fwd.starting_from(NodeIdx(i)) {
            let e = &s.edges[*h.idx()];
            ensure!(*h.dst_idx() == e.dst, "outgoing edge {} of node {} leads to {}", h.idx(), i, h.dst_idx());
            ensure!(h.metrics().iter().cloned().collect::<Vec<_>>() == e.metrics, "metrics of edge {} differ", h.idx());
            ensure!(h.is_shortcut() == e.sc.is_some(), "edge {} is shortcut: {}", h.idx(), h.is_shortcut());
            ensure!(h.sc_edges().map(|x| [*x[0], *x[1]]) == e.sc, "shortcuts of edge {} differ", h.idx());
            f.push(*h.idx());
        }
        f.sort();
        ensure!(f == out[i], "node {} has outgoing edges {:?}, but listed are {:?}", i, out[i], f);
        let mut b: Vec<usize> = vec![];
        for h in bwd.starting_from(NodeIdx(i)) {
            let e = &s.edges[*h.idx()];
            ensure!(*h.dst_idx() == e.src, "incoming edge {} of node {} starts in {}", h.idx(), i, h.dst_idx());
            ensure!(h.metrics().iter().cloned().collect::<Vec<_>>() == e.metrics, "metrics of edge {} differ", h.idx());
            ensure!(h.is_shortcut() == e.sc.is_some(), "edge {} is shortcut: {}", h.idx(), h.is_shortcut());
            b.push(*h.idx());
        }
        b.sort();
        ensure!(b == inc[i], "node {} has incoming edges {:?}, but listed are {:?}", i, inc[i], b);
        lookups += f.len() + b.len();
    }
    // edges between nodes
    let limit = if n <= 40 { n } else { 12 };
    for a in 0..limit {
        for b in 0..limit {
            let (a, b) = (n - 1 - a, n - 1 - b);
            let exists = out[a].iter().any(|&e| s.edges[e].dst == b);
            let f = fwd.between(NodeIdx(a), NodeIdx(b)).map(|h| *h.idx());
            ensure!(f.is_some() == exists, "edge between {} and {}: exists {}, but found {:?}", a, b, exists, f);
            if let Some(e) = f {
                ensure!(s.edges[e].src == a && s.edges[e].dst == b, "edge between {} and {} is {:?}", a, b, s.edges[e]);
            }
            let r = bwd.between(NodeIdx(b), NodeIdx(a)).map(|h| *h.idx());
            ensure!(r.is_some() == exists, "backward-edge between {} and {}: exists {}, but found {:?}", b, a, exists, r);
            if let Some(e) = r {
                ensure!(s.edges[e].src == a && s.edges[e].dst == b, "backward-edge between {} and {} is {:?}", b, a, s.edges[e]);
            }
            lookups += 2;
        }
    }
    // edges by id
    let ids: HashMap<usize, usize> = s.edges.iter().enumerate().filter_map(|(i, e)| e.id.map(|id| (id, i))).collect();
    for (i, e) in s.edges.iter().enumerate() {
        if let Some(id) = e.id {
            match fwd.try_idx_from(id) {
                Ok(x) => ensure!(*x == i, "edge-id {} of edge {} is found at {}", id, i, x),
                Err(m) => viol!("edge-id {} is not found: {}", id, m),
            }
            match bwd.try_idx_from(id) {
                Ok(x) => ensure!(*x == i, "edge-id {} of edge {} is found at {}", id, i, x),
                Err(m) => viol!("edge-id {} is not found: {}", id, m),
            }
            ensure!(fwd.id(EdgeIdx(i)) == id && *fwd.idx_from(id) == i, "id of edge {} differs", i);
            if !ids.contains_key(&(id + 1)) {
                ensure!(fwd.try_idx_from(id + 1).is_err(), "unknown edge-id {} is found", id + 1);
            }
            lookups += 2;
        }
        ensure!(fwd.try_id(EdgeIdx(i)) == e.id && bwd.try_id(EdgeIdx(i)) == e.id, "id of edge {} differs", i);
        ensure!(*fwd.dst_idx(EdgeIdx(i)) == e.dst && *bwd.dst_idx(EdgeIdx(i)) == e.src, "nodes of edge {} differ", i);
        for x in &[&fwd, &bwd] {
            ensure!(x.is_shortcut(EdgeIdx(i)) == e.sc.is_some(), "edge {} is shortcut: {}", i, x.is_shortcut(EdgeIdx(i)));
            ensure!(
                x.sc_edges(EdgeIdx(i)).map(|y| [*y[0], *y[1]]) == e.sc,
                "edge {} replaces {:?} instead of {:?}", i, x.sc_edges(EdgeIdx(i)), e.sc
            );
            ensure!(x.metrics()[EdgeIdx(i)].iter().cloned().collect::<Vec<_>>() == e.metrics, "metrics of edge {} differ", i);
        }
        let h = bwd.half_edge(EdgeIdx(i));
        ensure!(
            *h.dst_idx() == e.src && *h.idx() == i && h.is_shortcut() == e.sc.is_some()
                && h.metrics().iter().cloned().collect::<Vec<_>>() == e.metrics,
            "backward half-edge {} differs", i
        );
        if n > 40 && i % (k / 200 + 1) == 0 {
            let f = fwd.between(NodeIdx(e.src), NodeIdx(e.dst)).map(|h| *h.idx());
            let b = bwd.between(NodeIdx(e.dst), NodeIdx(e.src)).map(|h| *h.idx());
            for x in &[f, b] {
                ensure!(
                    x.map_or(false, |x| s.edges[x].src == e.src && s.edges[x].dst == e.dst),
                    "edge between {} and {} is {:?}", e.src, e.dst, x
                );
            }
        }
        // pairs of nodes
        if i % (k / 200 + 1) == 0 {
            let ids = RoutePair { src: s.nodes[e.src].id, dst: s.nodes[e.dst].id };
            let idx = ids.into_idx(g);
            let (a, b) = (ids.into_node(g), idx.into_node(g));
            ensure!(
                (*idx.src, *idx.dst) == (e.src, e.dst)
                    && (a.src.idx(), a.dst.idx(), a.src.id(), a.dst.id()) == (idx.src, idx.dst, ids.src, ids.dst)
                    && (b.src.idx(), b.dst.idx(), b.src.id(), b.dst.id()) == (idx.src, idx.dst, ids.src, ids.dst),
                "the pair of nodes {} and {} becomes {:?} and {:?}", ids.src, ids.dst, a.src, a.dst
            );
            let _ = format!("{} {:?}", a.src, b.dst);
        }
        let h = fwd.half_edge(EdgeIdx(i));
        ensure!(*h.dst_idx() == e.dst && *h.idx() == i, "half-edge {} differs", i);
        let _ = format!("{}", h);
    }
    ensure!(
        fwd.try_idx_from(usize::MAX).is_err() || ids.contains_key(&usize::MAX),
        "an unknown edge-id is found"
    );
    // text
    let text = format!("{}", g);
    ensure!(!text.is_empty(), "the graph's text is empty");
    // lines of edges show the edges' nodes (other formats aren't judged)
    for line in text.lines() {
        let is_fwd = line.starts_with("fwd-edge: {");
        if !is_fwd && !line.starts_with("bwd-edge: {") {
            continue;
        }
        let number = |from: &str| -> Option<usize> {
            let at = line.find(from)? + from.len();
            let digits: String = line[at..].chars().take_while(|c| c.is_ascii_digit()).collect();
            digits.parse().ok()
        };
        let own = number("{ idx: ").or_else(|| number(", idx: "));
        if let (Some(i), Some(a), Some(b)) = (own, number(" (idx: "), number("->(idx: ")) {
            let (a, b) = if is_fwd { (a, b) } else { (b, a) };
            ensure!(
                i < s.edges.len() && (s.edges[i].src, s.edges[i].dst) == (a, b),
                "the text shows edge {} with nodes {} and {}, but it's {:?}",
                line, a, b, s.edges.get(i)
            );
            lookups += 1;
        }
    }
    ensure!(g.metrics().dim() == s.metric_ids.len(), "dimension differs");
    Ok(lookups)
}

pub fn g02(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max_nodes = [3, 20, 21, 22, 60][rng.below(5)];
    let mut m = gen_model(
        rng,
        GenOpts {
            max_nodes,
            max_dim: 3,
            huge: 400,
            ..GenOpts::default()
        },
    );
    match rng.below(3) {
        0 => {
            flat_levels(&mut m);
            let alphas = gen_alphas(rng, m.metrics.len());
            if let Some(c) = contract(rng, &m, &alphas, 300) {
                m = c;
            }
        }
        // sinks and sources of highest and lowest id
        1 => {
            let hi = m.nodes.iter().map(|n| n.id).max().unwrap();
            if rng.chance(1, 2) {
                m.edges.retain(|e| e.src != hi || e.dst == hi);
            } else {
                m.edges.retain(|e| e.dst != hi || e.src == hi);
            }
        }
        _ => (),
    }
    let generating = if !m.has_edge_ids && rng.chance(1, 2) {
        "  generating:\n    nodes: []\n    edges:\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n"
    } else {
        ""
    };
    let normalize = rng.chance(1, 3)
        && !m.edges.is_empty()
        && (0..m.metrics.len()).all(|k| m.edges.iter().map(|e| e.metrics[k]).sum::<f64>() > 0.01 * m.edges.len() as f64);
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::None, Some(normalize), generating)?;
    let s = Snap::of(&g)?;
    let lookups = check_views(&g, &s)?;
    ctx.count("lookups", lookups);
    ctx.count("edges", s.edges.len());
    ctx.count("nodes", s.nodes.len());
    let left: std::collections::HashSet<usize> = s.edges.iter().map(|e| e.src).collect();
    let reached: std::collections::HashSet<usize> = s.edges.iter().map(|e| e.dst).collect();
    ctx.count("nodes_without_leaving_edges", s.nodes.len() - left.len());
    ctx.count("nodes_without_arriving_edges", s.nodes.len() - reached.len());
    if s.edges.len() > 1 {
        let sig = hash_str(&format!("{:?}", s.edges));
        ctx.nontrivial(sig);
    }
    ctx.sample(|| m_text(&m));
    Ok(())
}

/// Every shortcut of the graph refers to the edges of its line.
pub fn check_shortcuts(m: &Model, s: &Snap) -> Check<usize> {
    // what a line stands for, with the edges of its shortcuts
    type Full = (Key, Option<(Key, Key)>);
    let full_line = |e: &MEdge| -> Full {
        (
            key_of_model(m, e),
            e.sc.map(|sc| (key_of_model(m, &m.edges[sc[0]]), key_of_model(m, &m.edges[sc[1]]))),
        )
    };
    let mut lines: HashMap<Full, usize> = HashMap::new();
    let mut by_key: HashMap<Key, Vec<Full>> = HashMap::new();
    for e in &m.edges {
        let f = full_line(e);
        by_key.entry(f.0.clone()).or_default().push(f.clone());
        *lines.entry(f).or_default() += 1;
    }
    let mut checked = 0;
    for (i, e) in s.edges.iter().enumerate() {
        if let Some(sc) = e.sc {
            ensure!(
                sc[0] < s.edges.len() && sc[1] < s.edges.len(),
                "shortcut {} refers to {:?}, but there are {} edges",
                i, sc, s.edges.len()
            );
            checked += 1;
        }
        let f: Full = (
            key_of_snap(m, s, e),
            e.sc.map(|sc| (key_of_snap(m, s, &s.edges[sc[0]]), key_of_snap(m, s, &s.edges[sc[1]]))),
        );
        if !lines.contains_key(&f) {
            viol!(
                "edge {} ({}) refers to {:?}, but its line(s) to {:?}",
                i,
                show(&f.0),
                f.1.map(|(a, b)| [show(&a), show(&b)]),
                by_key.get(&f.0).map(|v| v
                    .iter()
                    .map(|x| x.1.as_ref().map(|(a, b)| [show(a), show(b)]))
                    .collect::<Vec<_>>())
            );
        }
    }
    Ok(checked)
}

pub fn g03(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut m = gen_model(
        rng,
        GenOpts {
            max_nodes: 14,
            max_dim: 3,
            // sums of shortcuts are exact and differ above the accuracy
            zero: false,
            real: false,
            huge: 400,
            ..GenOpts::default()
        },
    );
    flat_levels(&mut m);
    if rng.chance(1, 2) {
        let alphas = gen_alphas(rng, m.metrics.len());
        if let Some(c) = contract(rng, &m, &alphas, 300) {
            m = c;
        }
    }
    // shortcuts to anything, also to shortcuts
    let k = m.edges.len();
    m.has_shortcuts = true;
    let most = if k > 2000 { k / 10 } else { 8 };
    let mut next = m.edges.iter().filter_map(|e| e.id).max().unwrap_or(0) + 1;
    for _ in 0..rng.below(most) {
        let mut e = rng.pick(&m.edges).clone();
        e.sc = Some([rng.below(k), rng.below(k)]);
        e.id = e.id.map(|_| next);
        next += 1;
        for x in &mut e.metrics {
            *x += 0.25 * rng.below(3) as f64;
        }
        m.edges.push(e);
    }
    // repeated lines in front, between and behind
    let mut repeated = 0;
    if rng.chance(2, 3) {
        for _ in 0..rng.range(1, 8) {
            let e = rng.pick(&m.edges).clone();
            m.edges.push(e);
            repeated += 1;
        }
    }
    let m = shuffle_lines(rng, &m);
    if rng.chance(1, 3) {
        // other levels, hence another order of edges
    }
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::Some, None, "")?;
    let s = Snap::of(&g)?;
    check_content(&m, &s)?;
    let checked = check_shortcuts(&m, &s)?;
    ctx.count("shortcuts", checked);
    ctx.count("repeated_edge_lines", repeated);

    // once more after writing and reading
    let s2 = super::writing::rewrite(ctx, rng, &g, &m, &s, "again")?.1;
    ensure!(
        s.edges.iter().map(|e| e.sc).collect::<Vec<_>>() == s2.edges.iter().map(|e| e.sc).collect::<Vec<_>>(),
        "shortcuts change by writing and reading: {:?} to {:?}",
        s.edges, s2.edges
    );
    if checked > 0 {
        let sig = hash_str(&format!("{:?}", m.edges));
        ctx.nontrivial(sig);
    }
    ctx.sample(|| m_text(&m));
    Ok(())
}
