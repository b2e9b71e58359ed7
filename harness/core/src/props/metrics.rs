//! M01 - M03: values of metrics after building, normalising, generating and merging.
use crate::{
    model::*,
    util::{close, hash_str, Check, Ctx, Rng},
};
use std::{collections::HashMap, fmt::Write as _};

use super::writing::{edges_cfg, edges_writing_yaml, write_edges};

/// A model, whose edge-lines are identified by their ids or end-nodes.
fn distinct_model(rng: &mut Rng, max_nodes: usize, max_dim: usize, widest: usize, huge: usize, edge_ids: Option<bool>) -> Model {
    let with_ids = edge_ids.unwrap_or_else(|| rng.chance(2, 3));
    gen_model(
        rng,
        GenOpts {
            max_nodes,
            max_dim,
            wild: true,
            edge_ids: Some(with_ids),
            parallel: with_ids,
            widest,
            huge,
            ..GenOpts::default()
        },
    )
}

type EdgeKey = (i64, i64, Option<usize>);

fn by_key(s: &Snap) -> HashMap<EdgeKey, usize> {
    s.edges
        .iter()
        .enumerate()
        .map(|(i, e)| ((s.nodes[e.src].id, s.nodes[e.dst].id, e.id), i))
        .collect()
}

fn key(m: &Model, e: &MEdge) -> EdgeKey {
    (e.src, e.dst, if m.has_edge_ids { e.id } else { None })
}

/// Exports metrics; one row per edge in the graph's order.
fn export(
    ctx: &Ctx,
    g: &osmgraphing::network::Graph,
    tag: &str,
    ids: &[String],
    denormalize: Option<bool>,
) -> Check<Vec<Vec<f64>>> {
    let file = ctx.path(&format!("{}.csv", tag));
    let ids: Vec<Option<String>> = ids.iter().map(|i| Some(i.clone())).collect();
    let yaml = edges_writing_yaml(&file, &ids, Some(true), denormalize);
    let cfg = edges_cfg(ctx, &format!("{}.yaml", tag), &yaml)?;
    if let Err(e) = write_edges(g, &cfg)? {
        viol!("exporting metrics failed: {}", e);
    }
    let text = std::fs::read_to_string(&file).unwrap_or_default();
    let mut rows = vec![];
    for line in text.lines().skip(1) {
        let row: Option<Vec<f64>> = line.split_whitespace().map(|w| w.parse().ok()).collect();
        match row {
            Some(r) if r.len() == ids.len() => rows.push(r),
            _ => viol!("the exported line '{}' is not readable", line),
        }
    }
    Ok(rows)
}

pub fn m01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut m = distinct_model(rng, 14, 5, 8, 250, None);
    let dim = m.metrics.len();
    // special values
    const FINE: [&str; 12] = [
        "0", "-0.0", "0.0", "1e-7", "1e-6", "1.3e-6", "5e-324", "1e-300", "3e-6", "1e15", "2.5e-5", "123456789.125",
    ];
    const BAD: [&str; 13] = [
        "-1", "-0.5", "-1e-3", "-1e15", "NaN", "nan", "-NaN", "-3e-5", "-inf", "-12.25", "inf", "1e400", "+infinity",
    ];
    let mut special = 0;
    let mut bad = 0;
    if rng.chance(2, 3) {
        for _ in 0..rng.range(1, 5) {
            let k = rng.below(m.edges.len());
            let c = rng.below(dim);
            m.edges[k].metrics[c] = match rng.chance(1, 20) {
                true => 1e308,
                false => rng.pick(&FINE).parse().unwrap(),
            };
            special += 1;
        }
    }
    if rng.chance(1, 12) {
        // a whole metric
        let c = rng.below(dim);
        let v: f64 = rng.pick(&FINE).parse().unwrap();
        for e in &mut m.edges {
            e.metrics[c] = v;
        }
    }
    if rng.chance(1, 4) {
        let k = rng.below(m.edges.len());
        let c = rng.below(dim);
        m.edges[k].metrics[c] = rng.pick(&BAD).parse().unwrap();
        bad += 1;
    }
    let l = Layout::random(&m, rng);
    let flag = [None, Some(false)][rng.below(2)];
    // a further metric, that is not of the map
    let custom = if dim < osmgraphing::defaults::capacity::SMALL_VEC_INLINE_SIZE && rng.chance(1, 4) {
        Some(*rng.pick(&[0.5, 7.25, 1000.0, 0.0]))
    } else {
        None
    };
    let generating = match custom {
        Some(v) => format!(
            "  generating:\n    nodes: []\n    edges:\n    - custom: {{ id: 'own', default: {:?} }}\n",
            v
        ),
        None => String::new(),
    };
    let noise = if rng.chance(1, 2) { Noise::None } else { Noise::Some };
    let plain = build(ctx, rng, "plain", &m, &l, noise, flag, &generating)?;
    let normalized = build(ctx, rng, "normalized", &m, &l, noise, Some(true), &generating)?;
    let sig = hash_str(&format!("{:?}{:?}", m.edges, custom));
    if bad > 0 {
        let values: Vec<f64> = m
            .edges
            .iter()
            .flat_map(|e| e.metrics.clone())
            .filter(|x| !(*x > -1e-5 && x.is_finite()))
            .collect();
        ensure!(plain.is_err(), "the value(s) {:?} of a map are accepted", values);
        ensure!(normalized.is_err(), "the value(s) {:?} of a map are accepted when normalising", values);
        ctx.count("bad_values_refused", 1);
        ctx.nontrivial(sig);
        return Ok(());
    }
    let plain = match plain {
        Ok(g) => g,
        Err(e) => viol!("a well-formed map is refused: {}", e),
    };
    let s = Snap::of(&plain)?;
    ensure!(s.means.is_none(), "there are means {:?} without normalising", s.means);
    ensure!(s.edges.len() == m.edges.len(), "{} edges of {} lines", s.edges.len(), m.edges.len());
    let at = by_key(&s);
    for e in &m.edges {
        let i = match at.get(&key(&m, e)) {
            Some(i) => *i,
            None => viol!("edge {:?} is missing", e),
        };
        let got = s.in_model_order(&m, &s.edges[i]);
        for c in 0..dim {
            ensure!(
                got[c] > 0.0 && got[c].to_bits() == stored(e.metrics[c]).to_bits(),
                "value {:?} of metric {} of edge {} -> {} is stored as {:?}",
                e.metrics[c], m.metrics[c].1, e.src, e.dst, got[c]
            );
        }
        if let Some(v) = custom {
            let c = s.col("own").unwrap_or(usize::MAX);
            ensure!(
                s.edges[i].metrics.get(c) == Some(&v),
                "the metric's default {} is stored as {:?}", v, s.edges[i].metrics.get(c)
            );
        }
    }
    ctx.count("values", dim * m.edges.len());
    ctx.count("special_values", special);

    // normalised
    let n = s.edges.len() as f64;
    let means: Vec<f64> = (0..s.metric_ids.len())
        .map(|c| s.edges.iter().map(|e| e.metrics[c]).sum::<f64>() / n)
        .collect();
    let normalized = match normalized {
        Ok(g) => g,
        Err(e) => {
            ensure!(
                means.iter().any(|x| *x < 1.6e-6 || x.is_infinite()),
                "a well-formed map of means {:?} is refused when normalising: {}", means, e
            );
            ctx.count("means_of_zero_or_infinity_refused", 1);
            return Ok(());
        }
    };
    ensure!(
        means.iter().all(|x| *x > 1.4e-6 && x.is_finite()),
        "metrics of means {:?} are normalised", means
    );
    let t = Snap::of(&normalized)?;
    ensure!(t.metric_ids == s.metric_ids && t.units == s.units, "normalising changes metrics");
    ensure!(t.nodes == s.nodes && t.edges.len() == s.edges.len(), "normalising changes nodes or edges");
    match &t.means {
        None => viol!("means are not kept"),
        Some(x) => {
            for c in 0..means.len() {
                ensure!(
                    x.len() == means.len() && close(x[c], means[c], 1e-9, 0.0),
                    "means are {:?} instead of {:?}", x, means
                );
            }
        }
    }
    let mut clamped = vec![vec![false; means.len()]; s.edges.len()];
    for (i, (a, b)) in s.edges.iter().zip(&t.edges).enumerate() {
        ensure!(
            (a.src, a.dst, a.id, a.sc) == (b.src, b.dst, b.id, b.sc),
            "normalising changes edge {} from {:?} to {:?}", i, a, b
        );
        for c in 0..means.len() {
            let want = a.metrics[c] / means[c];
            let got = b.metrics[c];
            let is_clamped = got == TINY && want < 1.6e-6;
            ensure!(
                got > 0.0 && (is_clamped || (want > 1.4e-6 && close(want, got, 1e-9, 0.0))),
                "value {:?} with mean {:?} is normalised to {:?} instead of {:?}",
                a.metrics[c], means[c], got, want
            );
            clamped[i][c] = is_clamped;
            ctx.count("normalised_values_clamped", is_clamped as usize);
        }
    }
    ctx.count("normalised_maps", 1);
    // and back
    let ids = t.metric_ids.clone();
    let rows = export(ctx, &normalized, "denormalized", &ids, Some(true))?;
    let kept_rows = export(ctx, &normalized, "kept", &ids, [None, Some(false)][rng.below(2)])?;
    ensure!(
        rows.len() == s.edges.len() && kept_rows.len() == s.edges.len(),
        "{} and {} lines of {} edges are exported", rows.len(), kept_rows.len(), s.edges.len()
    );
    for i in 0..rows.len() {
        for c in 0..ids.len() {
            let a = s.edges[i].metrics[c];
            ensure!(
                clamped[i][c] || close(a, rows[i][c], 1e-9, 0.0),
                "the original value {:?} is denormalised to {:?} (mean {:?})", a, rows[i][c], means[c]
            );
            ensure!(
                kept_rows[i][c].to_bits() == t.edges[i].metrics[c].to_bits(),
                "the value {:?} is exported as {:?}", t.edges[i].metrics[c], kept_rows[i][c]
            );
        }
    }
    ctx.count("denormalised_values", rows.len() * ids.len());
    ctx.nontrivial(sig);
    ctx.sample(|| format!("{:?} means {:?}", m.edges.iter().map(|e| &e.metrics).collect::<Vec<_>>(), means));
    Ok(())
}

//------------------------------------------------------------------------------------------------//
// generating

const R_KM: f64 = 6371.0;

/// great-circle distance by the angle's tangent
pub fn distance_km(a: &SNode, b: &SNode) -> f64 {
    let (p, q) = (a.lat.to_radians(), b.lat.to_radians());
    let dp = (b.lat - a.lat).to_radians();
    let dl = (b.lon - a.lon).to_radians();
    let half = (dl / 2.0).sin();
    let x = q.cos() * dl.sin();
    // = cos(p) sin(q) - sin(p) cos(q) cos(dl), without cancellation
    let y = dp.sin() + 2.0 * p.sin() * q.cos() * half * half;
    let z = p.sin() * q.sin() + p.cos() * q.cos() * dl.cos();
    x.hypot(y).atan2(z) * R_KM
}

/// factor of a conversion, if there is one
fn factor(from: &str, to: &str) -> Option<f64> {
    if from == to || from == "F64" || to == "F64" {
        return Some(1.0);
    }
    let size = |u: &str| match u {
        "Meters" => Some(("length", 1.0)),
        "Kilometers" => Some(("length", 1000.0)),
        "Seconds" => Some(("time", 1.0)),
        "Minutes" => Some(("time", 60.0)),
        "Hours" => Some(("time", 3600.0)),
        _ => None,
    };
    match (size(from), size(to)) {
        (Some((a, x)), Some((b, y))) if a == b => Some(x / y),
        _ => None,
    }
}

#[derive(Clone, Debug)]
struct Col {
    id: String,
    unit: &'static str,
    values: Vec<f64>,
}

fn eq(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || close(a, b, 1e-11, 0.0)
}

pub fn m02(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut m = distinct_model(rng, 10, 4, 8, 300, None);
    // units fitting each other are more interesting
    if rng.chance(1, 2) {
        for (i, x) in m.metrics.iter_mut().enumerate() {
            x.0 = ["Kilometers", "KilometersPerHour", "Hours", "Meters"][(i + rng.below(2)) % 4];
        }
    }
    // combinations of units, which are possible or nearly so
    let mut planned: Option<&'static str> = None;
    if m.metrics.len() > 1 && rng.chance(1, 3) {
        let (u, a, b) = *rng.pick(&[
            ("Seconds", "Kilometers", "KilometersPerHour"),
            ("Minutes", "Kilometers", "KilometersPerHour"),
            ("Hours", "Kilometers", "KilometersPerHour"),
            ("KilometersPerHour", "Kilometers", "Hours"),
        ]);
        let mut units = [u, a, b];
        if rng.chance(7, 8) {
            units[rng.below(3)] = *rng.pick(&UNITS);
        }
        m.metrics[0].0 = units[1];
        m.metrics[1].0 = units[2];
        planned = Some(units[0]);
    }
    // near and far coordinates
    if rng.chance(1, 2) {
        for n in &mut m.nodes {
            n.lat = 48.0 + rng.below(1000) as f64 * 1e-4;
            n.lon = 9.0 + rng.below(1000) as f64 * 1e-4;
        }
    }
    let l = Layout::random(&m, rng);
    let plain = build_ok(ctx, rng, "plain", &m, &l, Noise::None, None, "")?;
    let s = Snap::of(&plain)?;
    let mut cols: Vec<Col> = s
        .metric_ids
        .iter()
        .enumerate()
        .map(|(c, id)| Col {
            id: id.clone(),
            unit: m.metrics.iter().find(|x| &x.1 == id).unwrap().0,
            values: s.edges.iter().map(|e| e.metrics[c]).collect(),
        })
        .collect();
    let mut metas: Vec<String> = vec!["src-id".into(), "dst-id".into()];
    if m.has_edge_ids {
        metas.push("edge-id".into());
    }
    let mut refused: Option<String> = None;
    // nodes
    let mut yaml = String::from("  generating:\n    nodes:");
    let mut node_ids: Vec<String> = vec!["node-id".into(), "lat".into(), "lon".into()];
    if m.has_levels {
        node_ids.push("ch-level".into());
    }
    let node_gens = if rng.chance(1, 3) { rng.range(1, 2) } else { 0 };
    for k in 0..node_gens {
        let is_wrong = rng.chance(1, 8);
        let mut id = format!("node-{}", k);
        let mut info = "NodeIdx";
        if is_wrong && rng.chance(1, 2) {
            id = rng.pick(&node_ids).clone();
            refused = Some("duplicate id of nodes".to_owned());
        } else if is_wrong {
            info = *rng.pick(&["NodeId", "CHLevel", "Latitude"]);
            refused = Some("column of nodes, which cannot be generated".to_owned());
        }
        let _ = write!(yaml, "\n    - meta: {{ info: '{}', id: '{}' }}", info, id);
        node_ids.push(id);
        ctx.count("columns_of_nodes", 1);
    }
    if node_gens == 0 {
        yaml.push_str(" []");
    }
    yaml.push_str("\n    edges:\n");
    let mut ids_generated = false;
    let mut dim = cols.len();
    let steps = rng.range(1, 5);
    let mut kinds = String::new();
    for step in 0..steps {
        let wrong = rng.chance(1, 20);
        let fresh = format!("{}-{}", ["new", "a", "Z z", "x.y"][rng.below(4)], step);
        // an existing id has to be refused
        let (new_id, is_dup) = if wrong && rng.chance(1, 2) {
            let current: Vec<&String> = metas.iter().chain(cols.iter().map(|c| &c.id)).collect();
            ((*rng.pick(&current)).clone(), true)
        } else {
            (fresh, false)
        };
        let unit = *rng.pick(&UNITS);
        let src = cols[rng.below(cols.len())].clone();
        let is_unknown = wrong && !is_dup && rng.chance(1, 2);
        let src_id = if is_unknown { "missing".to_owned() } else { src.id.clone() };
        let planned = if step == 0 { planned } else { None };
        let kind = if planned.is_some() { 3 } else { rng.below(6) };
        let _ = write!(kinds, "{}", kind);
        let mut fail = |why: &str| {
            if refused.is_none() {
                refused = Some(why.to_owned());
            }
        };
        match kind {
            0 => {
                let unit = if wrong { unit } else { "Kilometers" };
                let _ = writeln!(yaml, "    - haversine: {{ unit: '{}', id: '{}' }}", unit, new_id);
                dim += 1;
                if unit != "Kilometers" {
                    fail("unit of haversine");
                }
                if is_dup {
                    fail("duplicate id");
                }
                let values = s.edges.iter().map(|e| distance_km(&s.nodes[e.src], &s.nodes[e.dst])).collect();
                cols.push(Col { id: new_id, unit: "Kilometers", values });
                ctx.count("haversine", 1);
            }
            1 | 2 => {
                let is_copy = kind == 1;
                // mostly possible conversions
                let unit = if rng.chance(9, 10) {
                    let fit: Vec<&&str> = UNITS.iter().filter(|u| factor(src.unit, u).is_some()).collect();
                    **rng.pick(&fit)
                } else {
                    unit
                };
                let keeps_id = !is_copy && !is_dup && rng.chance(1, 3);
                let new_id = if keeps_id { src_id.clone() } else { new_id };
                let _ = writeln!(
                    yaml,
                    "    - {}:\n        from: {{ unit: '{}', id: '{}' }}\n        to: {{ unit: '{}', id: '{}' }}",
                    if is_copy { "copy" } else { "convert" }, src.unit, src_id, unit, new_id
                );
                if is_copy {
                    dim += 1;
                }
                if is_dup && new_id != src_id {
                    fail("duplicate id");
                } else if is_dup {
                    // converting in-place
                    if is_copy {
                        fail("duplicate id");
                    }
                }
                if is_unknown {
                    fail("unknown metric");
                    continue;
                }
                let f = match factor(src.unit, unit) {
                    Some(f) => f,
                    None => {
                        fail("conversion");
                        continue;
                    }
                };
                let values: Vec<f64> = src.values.iter().map(|x| x * f).collect();
                let col = Col { id: new_id, unit, values };
                if is_copy {
                    cols.push(col);
                } else {
                    let k = cols.iter().position(|c| c.id == src.id).unwrap();
                    cols[k] = col;
                }
                ctx.count(if is_copy { "copy" } else { "convert" }, 1);
            }
            3 => {
                // a / b
                let mut pairs: Vec<(usize, usize, &'static str)> = vec![];
                for (i, a) in cols.iter().enumerate() {
                    for (j, b) in cols.iter().enumerate() {
                        match (a.unit, b.unit) {
                            ("Kilometers", "KilometersPerHour") => {
                                for u in &["Seconds", "Minutes", "Hours"] {
                                    pairs.push((i, j, *u));
                                }
                            }
                            ("Kilometers", "Hours") => pairs.push((i, j, "KilometersPerHour")),
                            _ => (),
                        }
                    }
                }
                let by_id = |id: &str| cols.iter().position(|c| c.id == id).unwrap();
                let (i, j, u) = if let Some(u) = planned {
                    (by_id(&m.metrics[0].1), by_id(&m.metrics[1].1), u)
                } else if !pairs.is_empty() && rng.chance(9, 10) {
                    *rng.pick(&pairs)
                } else if rng.chance(1, 8) {
                    (rng.below(cols.len()), rng.below(cols.len()), unit)
                } else {
                    continue;
                };
                let (a, b) = (cols[i].clone(), cols[j].clone());
                let id_a = if is_unknown { "missing".to_owned() } else { a.id.clone() };
                let _ = writeln!(
                    yaml,
                    "    - calc:\n        result: {{ unit: '{}', id: '{}' }}\n        a: {{ unit: '{}', id: '{}' }}\n        b: {{ unit: '{}', id: '{}' }}",
                    u, new_id, a.unit, id_a, b.unit, b.id
                );
                dim += 1;
                if is_dup {
                    fail("duplicate id");
                }
                if is_unknown {
                    fail("unknown metric");
                    continue;
                }
                if !pairs.contains(&(i, j, u)) {
                    ctx.count("impossible_calcs", 1);
                    fail("calculation");
                    continue;
                }
                let f = match u {
                    "Seconds" => 3600.0,
                    "Minutes" => 60.0,
                    _ => 1.0,
                };
                let values = a.values.iter().zip(&b.values).map(|(x, y)| x / y * f).collect();
                cols.push(Col { id: new_id, unit: u, values });
                ctx.count("calc", 1);
            }
            4 => {
                let default = match rng.below(3) {
                    0 => None,
                    1 => Some(rng.below(1000) as f64 * 0.125),
                    _ => Some(rng.f() * 100.0),
                };
                let unit = if rng.chance(1, 2) { None } else { Some(unit) };
                let _ = writeln!(yaml, "    - custom:\n        id: '{}'", new_id);
                if let Some(u) = unit {
                    let _ = writeln!(yaml, "        unit: '{}'", u);
                }
                if let Some(d) = default {
                    let _ = writeln!(yaml, "        default: {:?}", d);
                }
                dim += 1;
                if is_dup {
                    fail("duplicate id");
                }
                cols.push(Col {
                    id: new_id,
                    unit: unit.unwrap_or("F64"),
                    values: vec![default.unwrap_or(0.0); s.edges.len()],
                });
                ctx.count("custom", 1);
            }
            _ => {
                let mut info = ["SrcIdx", "SrcLat", "SrcLon", "DstIdx", "DstLat", "DstLon"][rng.below(6)];
                if !m.has_edge_ids && !ids_generated && rng.chance(1, 2) {
                    info = "EdgeId";
                    ids_generated = true;
                } else if rng.chance(1, 15) {
                    info = *rng.pick(&["ShortcutIdx0", "ShortcutIdx1", "SrcId", "DstId"]);
                    fail("column of edges, which cannot be generated");
                }
                let _ = writeln!(yaml, "    - meta: {{ info: '{}', id: '{}' }}", info, new_id);
                if is_dup {
                    fail("duplicate id");
                }
                metas.push(new_id);
            }
        }
    }
    if dim > osmgraphing::defaults::capacity::SMALL_VEC_INLINE_SIZE && refused.is_none() {
        refused = Some("too many metrics".to_owned());
    }
    if yaml.ends_with("edges:\n") {
        yaml = yaml.trim_end().to_owned() + " []\n";
    }
    let flag = [None, Some(false)][rng.below(2)];
    let g = build(ctx, rng, "generated", &m, &l, Noise::None, flag, &yaml)?;
    let sig = hash_str(&format!("{}{:?}", yaml, m.edges));
    let g = match (g, &refused) {
        (Err(_), Some(_)) => {
            ctx.count("refused", 1);
            ctx.nontrivial(sig);
            return Ok(());
        }
        (Ok(_), Some(why)) => viol!("a recipe is accepted in spite of: {}\n{}", why, yaml),
        (Err(e), None) => viol!("a valid recipe is refused: {}\n{}", e, yaml),
        (Ok(g), None) => g,
    };
    let t = Snap::of(&g)?;
    ensure!(
        t.metric_ids.len() == cols.len(),
        "there are metrics {:?} instead of {:?}\n{}",
        t.metric_ids, cols.iter().map(|c| &c.id).collect::<Vec<_>>(), yaml
    );
    ensure!(
        t.nodes == s.nodes && t.edges.len() == s.edges.len(),
        "generating metrics changes nodes or the number of edges"
    );
    for (i, (a, b)) in s.edges.iter().zip(&t.edges).enumerate() {
        let id = if ids_generated { Some(i) } else { a.id };
        ensure!(
            (a.src, a.dst, id, a.sc) == (b.src, b.dst, b.id, b.sc),
            "generating metrics changes edge {:?} to {:?}", a, b
        );
    }
    // as edge-ids of graphs without ids are not unique
    ctx.count("edge_ids_generated", ids_generated as usize);
    for col in &cols {
        let c = match t.col(&col.id) {
            Some(c) => c,
            None => viol!("metric {} is missing in {:?}\n{}", col.id, t.metric_ids, yaml),
        };
        ensure!(
            t.units[c] == col.unit,
            "metric {} has unit {} instead of {}\n{}", col.id, t.units[c], col.unit, yaml
        );
        for (i, want) in col.values.iter().enumerate() {
            let got = t.edges[i].metrics[c];
            let is_geo = yaml.contains("haversine");
            ensure!(
                eq(*want, got) || (is_geo && close(*want, got, 1e-8, 1e-8)),
                "metric {} of edge {} is {:?} instead of {:?}\n{}", col.id, i, got, want, yaml
            );
            // other metrics are as before
            if let Some(k) = s.col(&col.id) {
                if !yaml.contains("convert") {
                    ensure!(
                        got.to_bits() == s.edges[i].metrics[k].to_bits(),
                        "metric {} has changed from {:?} to {:?}", col.id, s.edges[i].metrics[k], got
                    );
                }
            }
            ctx.count("values", 1);
        }
    }
    // and they can be exported under their ids
    let ids: Vec<String> = cols.iter().map(|c| c.id.clone()).collect();
    if ids.iter().all(|i| !i.contains(' ')) {
        let rows = export(ctx, &g, "export", &ids, None)?;
        ensure!(rows.len() == t.edges.len(), "{} of {} edges are exported", rows.len(), t.edges.len());
        for (i, row) in rows.iter().enumerate() {
            for (c, id) in ids.iter().enumerate() {
                let v = t.edges[i].metrics[t.col(id).unwrap()];
                ensure!(
                    row[c].to_bits() == v.to_bits() || (v.is_nan() && row[c].is_nan()),
                    "metric {} of edge {} is {:?}, but exported as {:?}", id, i, v, row[c]
                );
            }
        }
        ctx.count("exported_rows", rows.len());
    }
    // normalising comes last
    if rng.chance(1, 3) {
        let n = t.edges.len() as f64;
        let means: Vec<f64> = (0..t.metric_ids.len())
            .map(|c| t.edges.iter().map(|e| e.metrics[c]).sum::<f64>() / n)
            .collect();
        match build(ctx, rng, "normalized", &m, &l, Noise::None, Some(true), &yaml)? {
            Err(e) => ensure!(
                means.iter().any(|x| !x.is_finite() || x.abs() < 1.6e-6),
                "a recipe leading to means {:?} is refused when normalising: {}\n{}", means, e, yaml
            ),
            Ok(g) => {
                let u = Snap::of(&g)?;
                ensure!(
                    u.metric_ids == t.metric_ids && u.edges.len() == t.edges.len(),
                    "normalising changes metrics or edges\n{}", yaml
                );
                for (a, b) in t.edges.iter().zip(&u.edges) {
                    for c in 0..means.len() {
                        let want = a.metrics[c] / means[c];
                        let ok = close(want, b.metrics[c], 1e-9, 0.0) && want > 1.4e-6;
                        ensure!(
                            ok || (want < 1.6e-6 && b.metrics[c] == TINY),
                            "value {:?} of metric {} (mean {:?}) is normalised to {:?}\n{}",
                            a.metrics[c], t.metric_ids[c], means[c], b.metrics[c], yaml
                        );
                    }
                }
                ctx.count("normalised_recipes", 1);
            }
        }
    }
    ctx.nontrivial(sig);
    ctx.sample(|| yaml.clone());
    Ok(())
}

//------------------------------------------------------------------------------------------------//
// merging

pub fn m03(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let with_ids = rng.chance(2, 3);
    let m = distinct_model(rng, 12, 3, 6, 300, Some(with_ids));
    let l = Layout::random(&m, rng);
    let mut gen = String::from("  generating:\n    nodes: []\n    edges:\n");
    if !with_ids {
        gen.push_str("    - meta: { info: 'EdgeId', id: 'edge-id' }\n");
    }
    let plain = build_ok(ctx, rng, "plain", &m, &l, Noise::None, None, if with_ids { "" } else { &gen })?;
    let s = Snap::of(&plain)?;
    let mut ids = s.metric_ids.clone();
    let mut want: Vec<Vec<f64>> = s.edges.iter().map(|e| e.metrics.clone()).collect();
    for k in 0..rng.below(3) {
        let v = rng.below(9) as f64 * 0.5;
        let id = format!("own-{}", k);
        let _ = writeln!(gen, "    - custom: {{ id: '{}', default: {:?} }}", id, v);
        ids.push(id);
        want.iter_mut().for_each(|w| w.push(v));
    }
    let mut refused: Option<&str> = None;
    let mut lines_total = 0;
    let merges = if rng.chance(1, 4) { 2 } else { 1 };
    for k in 0..merges {
        // columns
        let id_name = ["edge-id", "eid", "the id"][rng.below(3)];
        let mut metrics: Vec<usize> = (0..ids.len()).collect();
        rng.shuffle(&mut metrics);
        metrics.truncate(rng.range(1, ids.len()));
        // None: edge-id, Some(MAX): ignored
        let mut cols: Vec<Option<usize>> = metrics.iter().map(|c| Some(*c)).collect();
        for _ in 0..rng.below(3) {
            cols.push(Some(usize::MAX));
        }
        cols.push(None);
        rng.shuffle(&mut cols);
        // rows
        let mut rows: Vec<(usize, Vec<f64>)> = vec![];
        let mut order: Vec<usize> = (0..s.edges.len()).collect();
        rng.shuffle(&mut order);
        if rng.chance(1, 2) {
            let n = rng.range(1, order.len());
            order.truncate(n);
        }
        if rng.chance(1, 4) {
            let again = *rng.pick(&order);
            order.push(again);
        }
        for e in order {
            let values = metrics
                .iter()
                .map(|_| match rng.below(9) {
                    0 => 0.0,
                    1 => -(rng.below(100) as f64) * 0.25,
                    2 => *rng.pick(&[-0.0, 1e-300, 1e300, 1e9, -1e-9, 0.1, f64::MAX]),
                    3 | 4 => rng.f() * 1000.0 + 0.001,
                    5 | 6 => (1 + rng.below(100)) as f64,
                    _ => (1 + rng.below(10_000)) as f64 * 0.125,
                })
                .collect();
            rows.push((e, values));
        }
        lines_total += rows.len();
        // a fault
        let fault = if rng.chance(1, 3) { rng.range(1, 8) } else { 0 };
        let at = rng.below(rows.len());
        let header = match rng.below(3) {
            0 => None,
            _ => Some(true),
        };
        let with_header = rng.chance(1, 2);
        let mut text = String::new();
        let junk = |text: &mut String, rng: &mut Rng| {
            while rng.chance(1, 8) {
                text.push_str(["\n", "# comment\n", "#7 8 9\n"][rng.below(3)]);
            }
        };
        junk(&mut text, rng);
        if with_header {
            let n = rng.range(1, 4);
            // header-lines may look like data
            let line = if rng.chance(1, 2) {
                vec!["some header words"; n].join(" ")
            } else {
                let id = s.edges[0].id.unwrap_or(0);
                cols.iter().map(|c| c.map_or(id.to_string(), |_| "5".to_owned())).collect::<Vec<_>>().join(" ")
            };
            let _ = writeln!(text, "{}", line);
        }
        let known: std::collections::HashSet<usize> = s.edges.iter().filter_map(|e| e.id).collect();
        for (r, (e, values)) in rows.iter().enumerate() {
            junk(&mut text, rng);
            let mut words: Vec<String> = cols
                .iter()
                .map(|c| match c {
                    None => s.edges[*e].id.unwrap().to_string(),
                    Some(usize::MAX) => ["_", "x", "-3"][rng.below(3)].to_owned(),
                    Some(c) => {
                        let k = metrics.iter().position(|x| x == c).unwrap();
                        fmt_f(rng, Noise::Some, values[k])
                    }
                })
                .collect();
            let id_at = cols.iter().position(|c| c.is_none()).unwrap();
            let metric_at = cols.iter().rposition(|c| matches!(c, Some(x) if *x != usize::MAX)).unwrap();
            let mut is_short = false;
            if r == at {
                match fault {
                    1 => {
                        let mut unknown = 0;
                        while known.contains(&unknown) {
                            unknown += 1;
                        }
                        words[id_at] = unknown.to_string();
                        refused = Some("an unknown edge-id");
                    }
                    2 => {
                        words[id_at] = ["x", "-1", "1.5", "_"][rng.below(4)].to_owned();
                        refused = Some("an unreadable edge-id");
                    }
                    3 => {
                        words[metric_at] = ["x", "1,5", "_", "0x10", "--1"][rng.below(5)].to_owned();
                        refused = Some("an unreadable value");
                    }
                    4 => {
                        let needed = id_at.max(metric_at);
                        words.truncate(rng.range(0, needed));
                        is_short = true;
                        if words.is_empty() {
                            words.push("1".to_owned());
                        }
                        if needed == 0 {
                            is_short = false;
                        }
                        if is_short && words.len() <= needed {
                            refused = Some("missing columns");
                        }
                    }
                    _ => (),
                }
            }
            if !is_short && rng.chance(1, 8) {
                words.push("999".to_owned());
            }
            let _ = writeln!(text, "{}", words.join([" ", "  ", "\t"][rng.below(3)]));
        }
        let ext = if fault == 7 { "txt" } else { "csv" };
        let file = ctx.path(&format!("data-{}.{}", k, ext));
        if fault != 8 {
            std::fs::write(&file, &text).expect("scratch-file");
        } else {
            refused = Some("a missing file");
        }
        if fault == 7 {
            refused = Some("a wrong extension");
        }
        // config
        let _ = writeln!(gen, "    - merge:\n        from: '{}'", file.display());
        if !with_header {
            let _ = writeln!(gen, "        with_header-line: false");
        } else if header.is_some() {
            let _ = writeln!(gen, "        with_header-line: true");
        }
        let shown = if fault == 5 {
            refused = Some("a missing column of edge-ids");
            "other id"
        } else {
            id_name
        };
        let _ = writeln!(gen, "        edge-id: '{}'\n        edges-info:", shown);
        for (i, c) in cols.iter().enumerate() {
            let _ = match c {
                None => writeln!(gen, "        - id: '{}'", id_name),
                Some(usize::MAX) => writeln!(gen, "        - ignored"),
                Some(c) => {
                    let is_last = !cols[i + 1..].iter().any(|c| matches!(c, Some(x) if *x != usize::MAX));
                    if fault == 6 && is_last {
                        refused = Some("an unknown metric");
                        writeln!(gen, "        - id: 'unknown metric'")
                    } else {
                        writeln!(gen, "        - id: '{}'", ids[*c])
                    }
                }
            };
        }
        if refused.is_none() {
            for (e, values) in &rows {
                for (c, v) in metrics.iter().zip(values) {
                    want[*e][*c] = *v;
                }
            }
        }
    }
    let g = build(ctx, rng, "merged", &m, &l, Noise::None, None, &gen)?;
    let sig = hash_str(&format!("{}{:?}", gen, want));
    let g = match (g, refused) {
        (Err(_), Some(_)) => {
            ctx.count("refused", 1);
            ctx.nontrivial(sig);
            return Ok(());
        }
        (Ok(_), Some(why)) => viol!("merging succeeds in spite of {}\n{}", why, gen),
        (Err(e), None) => viol!("merging fails: {}\n{}", e, gen),
        (Ok(g), None) => g,
    };
    let t = Snap::of(&g)?;
    ensure!(
        t.nodes == s.nodes && t.edges.len() == s.edges.len() && t.metric_ids == ids,
        "merging changes nodes, edges or metrics"
    );
    for (i, e) in t.edges.iter().enumerate() {
        let before = &s.edges[i];
        ensure!(
            (e.src, e.dst, e.id, e.sc) == (before.src, before.dst, before.id, before.sc),
            "merging changes edge {:?} to {:?}", before, e
        );
        for c in 0..ids.len() {
            ensure!(
                e.metrics[c].to_bits() == want[i][c].to_bits(),
                "after merging, metric {} of edge {} (id {:?}) is {:?} instead of {:?}\n{}",
                ids[c], i, e.id, e.metrics[c], want[i][c], gen
            );
        }
    }
    ctx.count("merged_lines", lines_total);
    ctx.count("values", ids.len() * s.edges.len());
    ctx.nontrivial(sig);
    ctx.sample(|| gen.clone());
    Ok(())
}
