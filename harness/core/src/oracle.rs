//! Reference-algorithms working on the model only.
use crate::{
    model::{stored, MEdge, Model},
    util::Rng,
};
use std::collections::HashMap;

/// A weighted digraph over 0..n with the model's edges.
pub struct Net {
    pub ids: Vec<i64>,
    pub idx: HashMap<i64, usize>,
    /// (src, dst, cost)
    pub edges: Vec<(usize, usize, f64)>,
    pub out: Vec<Vec<usize>>,
}

pub fn cost_of(metrics: &[f64], alphas: &[f64]) -> f64 {
    metrics.iter().zip(alphas).map(|(m, a)| stored(*m) * a).sum()
}

impl Net {
    /// Nodes are those of an edge.
    pub fn new(m: &Model, alphas: &[f64]) -> Net {
        let mut ids: Vec<i64> = m.edges.iter().flat_map(|e| vec![e.src, e.dst]).collect();
        ids.sort();
        ids.dedup();
        let idx: HashMap<i64, usize> = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
        let mut out = vec![Vec::new(); ids.len()];
        let mut edges = Vec::new();
        for e in &m.edges {
            let (s, d) = (idx[&e.src], idx[&e.dst]);
            out[s].push(edges.len());
            edges.push((s, d, cost_of(&e.metrics, alphas)));
        }
        Net {
            ids,
            idx,
            edges,
            out,
        }
    }

    /// Label-correcting (queue-based Bellman-Ford); exact for non-negative costs.
    pub fn dists(&self, src: usize) -> Vec<f64> {
        let mut d = vec![f64::INFINITY; self.ids.len()];
        d[src] = 0.0;
        let mut queue = std::collections::VecDeque::new();
        let mut queued = vec![false; self.ids.len()];
        queue.push_back(src);
        while let Some(u) = queue.pop_front() {
            queued[u] = false;
            for &e in &self.out[u] {
                let (_, v, c) = self.edges[e];
                let nd = d[u] + c;
                if nd < d[v] {
                    d[v] = nd;
                    if !queued[v] {
                        queued[v] = true;
                        queue.push_back(v);
                    }
                }
            }
        }
        d
    }
}

/// Contracts the nodes in a random order. Returns the model with levels and shortcuts,
/// being a correct contraction-hierarchy for the given weighting.
/// The input must not contain shortcuts and its metrics have to be the stored ones.
pub fn contract(rng: &mut Rng, m: &Model, alphas: &[f64], max_shortcuts: usize) -> Option<Model> {
    if m.edges.len() > 50_000 {
        return None;
    }
    let mut out = m.clone();
    for e in &mut out.edges {
        for x in &mut e.metrics {
            *x = stored(*x);
        }
    }
    let mut ids: Vec<i64> = out.edges.iter().flat_map(|e| vec![e.src, e.dst]).collect();
    ids.sort();
    ids.dedup();
    let witness = rng.chance(1, 2);
    // Edges of the remaining graph, as indices of out.edges
    let mut alive: Vec<usize> = (0..out.edges.len()).collect();
    let mut order = ids.clone();
    match rng.below(3) {
        // random
        0 | 1 => rng.shuffle(&mut order),
        // by degree
        _ => {
            let mut deg: HashMap<i64, usize> = HashMap::new();
            for e in &out.edges {
                *deg.entry(e.src).or_default() += 1;
                *deg.entry(e.dst).or_default() += 1;
            }
            order.sort_by_key(|i| deg[i]);
        }
    }
    let mut next_id = out.edges.iter().filter_map(|e| e.id).max().unwrap_or(0) + 1;
    let num_originals = out.edges.len();
    let mut levels: HashMap<i64, usize> = HashMap::new();
    // Levels only have to grow with the order, by steps of any size.
    let steps = [1, 1, 3, 40, 300, 70_000, 1 << 34];
    let max_step = steps[rng.below(steps.len())];
    let mut level = [0, 0, 1, 250, 65_530][rng.below(5)];
    // The last nodes may be left uncontracted, sharing the highest level.
    let num_contracted = match rng.below(3) {
        0 => order.len() - rng.below(order.len() / 2 + 1),
        _ => order.len(),
    };
    for (i, v) in order.iter().enumerate() {
        levels.insert(*v, level);
        if i >= num_contracted {
            continue;
        }
        level += rng.range(1, max_step);
        let ins: Vec<usize> = alive
            .iter()
            .cloned()
            .filter(|&e| out.edges[e].dst == *v && out.edges[e].src != *v)
            .collect();
        let outs: Vec<usize> = alive
            .iter()
            .cloned()
            .filter(|&e| out.edges[e].src == *v && out.edges[e].dst != *v)
            .collect();
        // remove v
        alive.retain(|&e| out.edges[e].src != *v && out.edges[e].dst != *v);
        for &i in &ins {
            for &o in &outs {
                let (a, b) = (out.edges[i].src, out.edges[o].dst);
                if a == b {
                    continue;
                }
                let metrics: Vec<f64> = out.edges[i]
                    .metrics
                    .iter()
                    .zip(&out.edges[o].metrics)
                    .map(|(x, y)| x + y)
                    .collect();
                let c = cost_of(&metrics, alphas);
                if witness {
                    // a cheaper (or equal) way of at most two edges not using v
                    let direct = alive.iter().any(|&e| {
                        out.edges[e].src == a
                            && out.edges[e].dst == b
                            && cost_of(&out.edges[e].metrics, alphas) <= c
                    });
                    let two = !direct
                        && alive.iter().any(|&e| {
                            out.edges[e].src == a
                                && alive.iter().any(|&f| {
                                    out.edges[f].src == out.edges[e].dst
                                        && out.edges[f].dst == b
                                        && cost_of(&out.edges[e].metrics, alphas)
                                            + cost_of(&out.edges[f].metrics, alphas)
                                            <= c
                                })
                        });
                    if direct || two {
                        continue;
                    }
                }
                let id = out.edges[i].id.map(|_| {
                    next_id += 1;
                    next_id
                });
                alive.push(out.edges.len());
                out.edges.push(MEdge {
                    src: a,
                    dst: b,
                    id,
                    metrics,
                    sc: Some([i, o]),
                });
                if out.edges.len() - num_originals > max_shortcuts {
                    return None;
                }
            }
        }
    }
    for n in &mut out.nodes {
        n.level = *levels.get(&n.id).unwrap_or(&0);
    }
    out.has_levels = true;
    out.has_shortcuts = true;
    Some(shuffle_lines(rng, &out))
}

/// Changes the order of the edge-lines and updates the references.
pub fn shuffle_lines(rng: &mut Rng, m: &Model) -> Model {
    let mut perm: Vec<usize> = (0..m.edges.len()).collect(); // new -> old
    rng.shuffle(&mut perm);
    let mut inv = vec![0; perm.len()];
    for (new, old) in perm.iter().enumerate() {
        inv[*old] = new;
    }
    let mut out = m.clone();
    out.edges = perm
        .iter()
        .map(|&old| {
            let mut e = m.edges[old].clone();
            e.sc = e.sc.map(|s| [inv[s[0]], inv[s[1]]]);
            e
        })
        .collect();
    out
}
