//! W01 - W04: the writers of graphs, edge-data, route-pairs and vehicles.
use crate::{
    faults::{self, Fault, Op},
    model::*,
    oracle::{contract, shuffle_lines},
    util::{close, guard, hash_bytes, hash_str, Check, Ctx, Rng},
};
use osmgraphing::{
    configs::{self, writing::network::edges::Config as EdgesConfig, writing::network::graph::Config as GraphConfig},
    io,
    network::{Graph, NodeIdx},
    routing::{dijkstra, dijkstra::Dijkstra, paths::Path as RoutePath},
};
use std::{
    fmt::Write as _,
    path::{Path, PathBuf},
};

use super::routing::m_text;

//------------------------------------------------------------------------------------------------//
// columns of exported edges

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum XCol {
    E(ECol),
    SrcIdx,
    SrcLat,
    SrcLon,
    DstIdx,
    DstLat,
    DstLon,
}

const PLACES: [XCol; 6] =
    [XCol::SrcIdx, XCol::SrcLat, XCol::SrcLon, XCol::DstIdx, XCol::DstLat, XCol::DstLon];

pub fn ncol_id(c: NCol) -> Option<&'static str> {
    match c {
        NCol::Id => Some("node-id"),
        NCol::Lat => Some("lat"),
        NCol::Lon => Some("lon"),
        NCol::Level => Some("ch-level"),
        NCol::Ignored => None,
    }
}

pub fn xcol_id(m: &Model, c: XCol) -> Option<String> {
    Some(match c {
        XCol::E(ECol::Src) => "src-id".into(),
        XCol::E(ECol::Dst) => "dst-id".into(),
        XCol::E(ECol::Id) => "edge-id".into(),
        XCol::E(ECol::Sc0) => "sc-0".into(),
        XCol::E(ECol::Sc1) => "sc-1".into(),
        XCol::E(ECol::Metric(i)) => m.metrics[i].1.clone(),
        XCol::E(ECol::Ignored) => return None,
        XCol::SrcIdx => "src-idx".into(),
        XCol::SrcLat => "src-lat".into(),
        XCol::SrcLon => "src-lon".into(),
        XCol::DstIdx => "dst-idx".into(),
        XCol::DstLat => "dst-lat".into(),
        XCol::DstLon => "dst-lon".into(),
    })
}

pub fn gen_yaml_for(cols: &[XCol], with_id: bool) -> String {
    let mut infos: Vec<(&str, &str)> = vec![];
    if with_id {
        infos.push(("EdgeId", "edge-id"));
    }
    for (c, info, id) in &[
        (XCol::SrcIdx, "SrcIdx", "src-idx"),
        (XCol::SrcLat, "SrcLat", "src-lat"),
        (XCol::SrcLon, "SrcLon", "src-lon"),
        (XCol::DstIdx, "DstIdx", "dst-idx"),
        (XCol::DstLat, "DstLat", "dst-lat"),
        (XCol::DstLon, "DstLon", "dst-lon"),
    ] {
        if cols.contains(c) {
            infos.push((info, id));
        }
    }
    if infos.is_empty() {
        return String::new();
    }
    let mut s = String::from("  generating:\n    nodes: []\n    edges:\n");
    for (info, id) in infos {
        let _ = writeln!(s, "    - meta: {{ info: '{}', id: '{}' }}", info, id);
    }
    s
}

fn ids_yaml(indent: &str, ids: &[Option<String>]) -> String {
    let mut s = String::new();
    for id in ids {
        match id {
            Some(id) => {
                let _ = writeln!(s, "{}- id: '{}'", indent, id);
            }
            None => {
                let _ = writeln!(s, "{}- ignored", indent);
            }
        }
    }
    s
}

pub fn graph_writing_yaml(
    file: &Path,
    nodes: &[Option<String>],
    edges: &[Option<String>],
    with_shortcuts: Option<bool>,
    denormalize: Option<bool>,
) -> String {
    let mut s = format!(
        "writing:\n  graph:\n    map-file: '{}'\n    nodes:\n{}    edges:\n",
        file.display(),
        ids_yaml("    ", nodes)
    );
    if let Some(x) = with_shortcuts {
        let _ = writeln!(s, "      with_shortcuts: {}", x);
    }
    if let Some(x) = denormalize {
        let _ = writeln!(s, "      will_denormalize_metrics_by_mean: {}", x);
    }
    let _ = write!(s, "      ids:\n{}", ids_yaml("      ", edges));
    s
}

pub fn edges_writing_yaml(
    file: &Path,
    edges: &[Option<String>],
    with_shortcuts: Option<bool>,
    denormalize: Option<bool>,
) -> String {
    let mut s = format!("writing:\n  edges-info:\n    file: '{}'\n", file.display());
    if let Some(x) = with_shortcuts {
        let _ = writeln!(s, "    with_shortcuts: {}", x);
    }
    if let Some(x) = denormalize {
        let _ = writeln!(s, "    will_denormalize_metrics_by_mean: {}", x);
    }
    let _ = write!(s, "    ids:\n{}", ids_yaml("    ", edges));
    s
}

pub fn node_ids_of(l: &Layout) -> Vec<Option<String>> {
    l.nodes.iter().map(|c| ncol_id(*c).map(|x| x.to_owned())).collect()
}

pub fn edge_ids_of(m: &Model, cols: &[XCol]) -> Vec<Option<String>> {
    cols.iter().map(|c| xcol_id(m, *c)).collect()
}

pub fn graph_cfg(ctx: &Ctx, name: &str, yaml: &str) -> Check<GraphConfig> {
    let p = ctx.write(name, yaml);
    match guard("reading a writing-config panicked", || GraphConfig::try_from_yaml(&p))? {
        Ok(c) => Ok(c),
        Err(e) => viol!("a valid writing-config is refused: {}\n{}", e, yaml),
    }
}

pub fn edges_cfg(ctx: &Ctx, name: &str, yaml: &str) -> Check<EdgesConfig> {
    let p = ctx.write(name, yaml);
    match guard("reading a writing-config panicked", || EdgesConfig::try_from_yaml(&p))? {
        Ok(c) => Ok(c),
        Err(e) => viol!("a valid writing-config is refused: {}\n{}", e, yaml),
    }
}

pub fn write_graph(g: &Graph, cfg: &GraphConfig) -> Check<Result<(), String>> {
    Ok(guard("writing the graph panicked", || {
        io::network::graph::Writer::write(g, cfg)
    })?
    .map_err(|e| e.to_string()))
}

pub fn write_edges(g: &Graph, cfg: &EdgesConfig) -> Check<Result<(), String>> {
    Ok(guard("writing edges panicked", || io::network::edges::Writer::write(g, cfg))?
        .map_err(|e| e.to_string()))
}

//------------------------------------------------------------------------------------------------//
// expected content

#[derive(Clone, Debug)]
enum Val {
    Text(String),
    /// exactly this value
    F(f64),
    Near(f64),
}

fn fits(v: &Val, text: &str) -> bool {
    match v {
        Val::Text(t) => t == text,
        Val::F(x) => text.parse::<f64>().map_or(false, |y| y.to_bits() == x.to_bits()),
        Val::Near(x) => text.parse::<f64>().map_or(false, |y| close(*x, y, 1e-9, 0.0)),
    }
}

fn node_row(s: &Snap, l: &Layout, i: usize) -> Vec<Val> {
    l.nodes
        .iter()
        .map(|c| match c {
            NCol::Id => Val::Text(s.nodes[i].id.to_string()),
            NCol::Lat => Val::F(s.nodes[i].lat),
            NCol::Lon => Val::F(s.nodes[i].lon),
            NCol::Level => Val::Text(s.nodes[i].level.to_string()),
            NCol::Ignored => Val::Text("_".into()),
        })
        .collect()
}

fn edge_row(m: &Model, s: &Snap, cols: &[XCol], i: usize, denormalize: bool) -> Vec<Val> {
    let e = &s.edges[i];
    let (a, b) = (&s.nodes[e.src], &s.nodes[e.dst]);
    cols.iter()
        .map(|c| match c {
            XCol::E(ECol::Src) => Val::Text(a.id.to_string()),
            XCol::E(ECol::Dst) => Val::Text(b.id.to_string()),
            XCol::E(ECol::Id) => Val::Text(e.id.map_or("?".into(), |i| i.to_string())),
            XCol::E(ECol::Sc0) => Val::Text(e.sc.map_or("-1".into(), |x| x[0].to_string())),
            XCol::E(ECol::Sc1) => Val::Text(e.sc.map_or("-1".into(), |x| x[1].to_string())),
            XCol::E(ECol::Metric(k)) => {
                let c = s.col(&m.metrics[*k].1).unwrap();
                match (&s.means, denormalize) {
                    (Some(means), true) => Val::Near(e.metrics[c] * means[c]),
                    _ => Val::F(e.metrics[c]),
                }
            }
            XCol::E(ECol::Ignored) => Val::Text("_".into()),
            XCol::SrcIdx => Val::Text(e.src.to_string()),
            XCol::SrcLat => Val::F(a.lat),
            XCol::SrcLon => Val::F(a.lon),
            XCol::DstIdx => Val::Text(e.dst.to_string()),
            XCol::DstLat => Val::F(b.lat),
            XCol::DstLon => Val::F(b.lon),
        })
        .collect()
}

fn check_line(what: &str, line: &str, row: &[Val]) -> Check {
    let words: Vec<&str> = line.split_whitespace().collect();
    ensure!(
        words.len() == row.len() && row.iter().zip(&words).all(|(v, t)| fits(v, t)),
        "{}: the line '{}' was written, but expected is {:?}",
        what, line, row
    );
    Ok(())
}

pub fn check_fmi_text(
    text: &str,
    m: &Model,
    s: &Snap,
    l: &Layout,
    with_shortcuts: bool,
    denormalize: bool,
) -> Check<usize> {
    let lines: Vec<&str> = text
        .lines()
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let edges: Vec<usize> = (0..s.edges.len())
        .filter(|i| with_shortcuts || s.edges[*i].sc.is_none())
        .collect();
    let dim = l.edges.iter().filter(|c| matches!(c, ECol::Metric(_))).count();
    let counts = [dim, s.nodes.len(), edges.len()];
    for (i, c) in counts.iter().enumerate() {
        let l = lines.get(i).copied().unwrap_or("");
        ensure!(
            l.trim() == c.to_string(),
            "count {} of the written map is '{}' instead of {}", i, l, c
        );
    }
    ensure!(
        lines.len() == 3 + s.nodes.len() + edges.len(),
        "the written map has {} lines for 3 counts, {} nodes and {} edges",
        lines.len(), s.nodes.len(), edges.len()
    );
    for i in 0..s.nodes.len() {
        check_line(&format!("node {}", i), lines[3 + i], &node_row(s, l, i))?;
    }
    let cols: Vec<XCol> = l.edges.iter().map(|c| XCol::E(*c)).collect();
    for (k, i) in edges.iter().enumerate() {
        check_line(
            &format!("edge {}", i),
            lines[3 + s.nodes.len() + k],
            &edge_row(m, s, &cols, *i, denormalize),
        )?;
    }
    Ok(lines.len())
}

/// same content with columns of metrics in any order
pub fn same(m: &Model, a: &Snap, b: &Snap, rel: f64) -> Check {
    ensure!(
        a.nodes == b.nodes,
        "nodes differ: {:?} and {:?}", a.nodes, b.nodes
    );
    ensure!(
        a.edges.len() == b.edges.len(),
        "{} and {} edges", a.edges.len(), b.edges.len()
    );
    for (i, (x, y)) in a.edges.iter().zip(&b.edges).enumerate() {
        let (mx, my) = (a.in_model_order(m, x), b.in_model_order(m, y));
        let eq = mx
            .iter()
            .zip(&my)
            .all(|(p, q)| p.to_bits() == q.to_bits() || close(*p, *q, rel, 0.0));
        ensure!(
            eq && (x.src, x.dst, x.id, x.sc) == (y.src, y.dst, y.id, y.sc),
            "edge {} differs: {:?} {:?} and {:?} {:?}", i, x, mx, y, my
        );
    }
    for (_, id) in &m.metrics {
        let (p, q) = (a.col(id), b.col(id));
        ensure!(p.is_some() && q.is_some(), "metric {} is missing", id);
        ensure!(
            a.units[p.unwrap()] == b.units[q.unwrap()],
            "unit of {} differs", id
        );
    }
    Ok(())
}

/// Writes everything and reads it again.
pub fn rewrite(
    ctx: &Ctx,
    rng: &mut Rng,
    g: &Graph,
    m: &Model,
    _s: &Snap,
    tag: &str,
) -> Check<(Graph, Snap)> {
    let l = Layout::random(m, rng);
    let file = ctx.path(&format!("{}.fmi", tag));
    let cols: Vec<XCol> = l.edges.iter().map(|c| XCol::E(*c)).collect();
    let yaml = graph_writing_yaml(&file, &node_ids_of(&l), &edge_ids_of(m, &cols), Some(true), None);
    let cfg = graph_cfg(ctx, &format!("{}.writing.yaml", tag), &yaml)?;
    if let Err(e) = write_graph(g, &cfg)? {
        viol!("writing the graph failed: {}", e);
    }
    let yaml = parsing_yaml(m, &l, &file, None, "");
    match load_yaml(ctx, &format!("{}.yaml", tag), &yaml)? {
        Ok(g) => {
            let s = Snap::of(&g)?;
            Ok((g, s))
        }
        Err(e) => viol!("the written map is refused: {}", e),
    }
}

fn any_model(rng: &mut Rng, max_nodes: usize, huge: usize, edge_ids: Option<bool>) -> Model {
    let mut m = gen_model(
        rng,
        GenOpts {
            max_nodes,
            max_dim: 5,
            wild: true,
            huge,
            edge_ids,
            ..GenOpts::default()
        },
    );
    match rng.below(3) {
        0 => {
            flat_levels(&mut m);
            let alphas = gen_alphas(rng, m.metrics.len());
            if let Some(c) = contract(rng, &m, &alphas, 300) {
                m = c;
            }
        }
        // shortcuts to anything
        1 => {
            let k = m.edges.len();
            m.has_shortcuts = true;
            let mut next = m.edges.iter().filter_map(|e| e.id).max().unwrap_or(0) + 1;
            for _ in 0..rng.below(5) {
                let mut e = rng.pick(&m.edges).clone();
                e.sc = Some([rng.below(k), rng.below(k)]);
                e.id = e.id.map(|_| next);
                next += 1;
                for x in &mut e.metrics {
                    *x += 0.25;
                }
                m.edges.push(e);
            }
            m = shuffle_lines(rng, &m);
        }
        _ => (),
    }
    m
}

/// Are there values or differences so small, that the documented accuracy changes them?
fn is_delicate(s: &Snap) -> bool {
    let tiny = s.means.is_some() && s.edges.iter().any(|e| e.metrics.iter().any(|x| *x < 3e-6));
    let twins = s.means.is_some()
        && s.edges.windows(2).any(|w| {
            (w[0].src, w[0].dst, w[0].id) == (w[1].src, w[1].dst, w[1].id)
                && w[0].metrics.iter().zip(&w[1].metrics).all(|(a, b)| (a - b).abs() < 5e-6)
        });
    tiny || twins
}

pub fn w01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max = if rng.chance(1, 8) { 80 } else { 14 };
    let m = any_model(rng, max, 400, None);
    let normalize = rng.chance(1, 3);
    let l0 = Layout::random(&m, rng);
    let g = match build(ctx, rng, "map", &m, &l0, Noise::Some, Some(normalize), "")? {
        Ok(g) => g,
        Err(e) => {
            // a mean of (nearly) zero
            ensure!(
                normalize && m.metrics.iter().enumerate().any(|(k, _)| {
                    let sum: f64 = m.edges.iter().map(|e| stored(e.metrics[k])).sum();
                    sum / (m.edges.len() as f64) < 1e-3
                }),
                "a well-formed map is refused: {}", e
            );
            ctx.count("mean_of_zero_refused", 1);
            return Ok(());
        }
    };
    let s = Snap::of(&g)?;

    let mut l = Layout::random(&m, rng);
    let with = if rng.chance(1, 2) { Some(true) } else { [None, Some(false)][rng.below(2)] };
    let denorm = [None, Some(true), Some(false)][rng.below(3)];
    let selection = rng.chance(1, 4);
    if selection {
        // any columns in any order
        l.nodes = (0..rng.range(1, 5)).map(|_| *rng.pick(&l.nodes)).collect();
        l.edges = (0..rng.range(1, 7)).map(|_| *rng.pick(&l.edges)).collect();
    }
    let cols: Vec<XCol> = l.edges.iter().map(|c| XCol::E(*c)).collect();
    let file = ctx.path("written.fmi");
    let yaml = graph_writing_yaml(&file, &node_ids_of(&l), &edge_ids_of(&m, &cols), with, denorm);
    let cfg = graph_cfg(ctx, "writing.yaml", &yaml)?;
    if let Err(e) = write_graph(&g, &cfg)? {
        viol!("writing the graph failed: {}\n{}", e, yaml);
    }
    let text = std::fs::read_to_string(&file).expect("written file");
    let (is_with, is_denorm) = (with == Some(true), denorm == Some(true));
    let lines = check_fmi_text(&text, &m, &s, &l, is_with, is_denorm)?;
    ctx.count("written_lines_compared", lines);
    ctx.count("shortcuts", s.edges.iter().filter(|e| e.sc.is_some()).count());
    let is_now_normalized = normalize && !is_denorm;
    let comments: Vec<&str> = text.lines().filter(|l| l.starts_with('#')).collect();
    ensure!(
        comments.iter().any(|l| l.contains("not normalized")) != is_now_normalized,
        "the comments tell, that metrics are {}normalized: {:?}",
        if is_now_normalized { "not " } else { "" }, comments
    );

    // read it again
    let complete = !selection && (is_with || s.edges.iter().all(|e| e.sc.is_none()));
    if complete && !is_delicate(&s) {
        let yaml = parsing_yaml(&m, &l, &file, None, "");
        let g2 = match load_yaml(ctx, "again.yaml", &yaml)? {
            Ok(g) => g,
            Err(e) => viol!("the written map is refused: {}", e),
        };
        let s2 = Snap::of(&g2)?;
        let mut expected = s.clone();
        if let (Some(means), true) = (&s.means, is_denorm) {
            for e in &mut expected.edges {
                for (x, mean) in e.metrics.iter_mut().zip(means) {
                    *x *= mean;
                }
            }
        }
        same(&m, &expected, &s2, if is_denorm { 1e-9 } else { 0.0 })?;
        ctx.count("read_again", 1);
        let file2 = ctx.path("written2.fmi");
        let yaml = graph_writing_yaml(&file2, &node_ids_of(&l), &edge_ids_of(&m, &cols), Some(true), denorm);
        let cfg = graph_cfg(ctx, "writing2.yaml", &yaml)?;
        if let Err(e) = write_graph(&g2, &cfg)? {
            viol!("writing the graph again failed: {}", e);
        }
        let text2 = std::fs::read_to_string(&file2).expect("written file");
        let body = |t: &str| -> String {
            t.lines().filter(|l| !l.starts_with('#')).collect::<Vec<_>>().join("\n")
        };
        let eq = if is_now_normalized {
            body(&text) == body(&text2)
        } else {
            text == text2
        };
        ensure!(eq, "writing the read graph again gives other bytes:\n{}\n---\n{}", text, text2);
        let sig = hash_str(&text);
        ctx.nontrivial(sig);
    } else if complete {
        ctx.count("delicate_not_read_again", 1);
    } else {
        let sig = hash_str(&text);
        ctx.nontrivial(sig);
    }

    // an unknown column
    if rng.chance(1, 6) {
        let file = ctx.path("unknown.fmi");
        let mut nodes = node_ids_of(&l);
        let mut edges = edge_ids_of(&m, &cols);
        if rng.chance(1, 2) {
            nodes.push(Some("nope".into()));
        } else {
            edges.push(Some("nope".into()));
        }
        if !(s.edges.iter().all(|e| e.sc.is_some()) && with != Some(true)) {
            let yaml = graph_writing_yaml(&file, &nodes, &edges, with, denorm);
            let cfg = graph_cfg(ctx, "unknown.yaml", &yaml)?;
            ensure!(
                write_graph(&g, &cfg)?.is_err(),
                "writing an unknown column succeeds:\n{}", yaml
            );
            ctx.count("unknown_columns_refused", 1);
        }
    }
    ctx.sample(|| text);
    Ok(())
}

pub fn w02(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max = if rng.chance(1, 8) { 60 } else { 14 };
    let m = any_model(rng, max, 400, None);
    let l0 = Layout::random(&m, rng);
    // columns
    let mut all: Vec<XCol> = Layout::plain(&m).edges.iter().map(|c| XCol::E(*c)).collect();
    if !m.has_edge_ids {
        all.push(XCol::E(ECol::Id));
    }
    all.extend_from_slice(&PLACES);
    for _ in 0..rng.below(3) {
        all.push(XCol::E(ECol::Ignored));
    }
    rng.shuffle(&mut all);
    let k = if rng.chance(1, 2) { all.len() } else { rng.range(1, all.len()) };
    let mut cols = all[..k].to_vec();
    if rng.chance(1, 5) {
        let c = *rng.pick(&cols);
        cols.push(c);
    }
    let normalize = rng.chance(1, 4) && m.edges.iter().all(|e| e.metrics.iter().all(|x| *x > 0.01));
    let generating = gen_yaml_for(&all, !m.has_edge_ids);
    let g = build_ok(ctx, rng, "map", &m, &l0, Noise::None, Some(normalize), &generating)?;
    let s = Snap::of(&g)?;
    let with = [None, Some(true), Some(true), Some(false)][rng.below(4)];
    let denorm = [None, Some(true), Some(false)][rng.below(3)];
    let file = ctx.path("edges.csv");
    let yaml = edges_writing_yaml(&file, &edge_ids_of(&m, &cols), with, denorm);
    let cfg = edges_cfg(ctx, "writing.yaml", &yaml)?;
    if let Err(e) = write_edges(&g, &cfg)? {
        viol!("writing edges failed: {}\n{}", e, yaml);
    }
    let text = std::fs::read_to_string(&file).expect("written file");
    let lines: Vec<&str> = text.lines().collect();
    let header = edge_ids_of(&m, &cols)
        .into_iter()
        .map(|c| c.unwrap_or("_".into()))
        .collect::<Vec<_>>()
        .join(" ");
    ensure!(
        lines.get(0).map(|l| *l) == Some(&header[..]),
        "the header is {:?} instead of '{}'", lines.get(0), header
    );
    let edges: Vec<usize> = (0..s.edges.len())
        .filter(|i| with == Some(true) || s.edges[*i].sc.is_none())
        .collect();
    ensure!(
        lines.len() == 1 + edges.len(),
        "{} lines for a header and {} edges", lines.len(), edges.len()
    );
    for (k, i) in edges.iter().enumerate() {
        check_line(
            &format!("edge {}, columns {}", i, header),
            lines[1 + k],
            &edge_row(&m, &s, &cols, *i, denorm == Some(true)),
        )?;
    }
    ctx.count("written_lines_compared", lines.len());
    ctx.count("coordinate_or_position_values", edges.len() * cols.iter().filter(|c| !matches!(c, XCol::E(_))).count());

    // external values
    if rng.chance(1, 2) {
        let values: Vec<usize> = (0..s.edges.len())
            .map(|i| if rng.chance(1, 2) { i * 3 + 1 } else { (rng.next() >> rng.below(64)) as usize })
            .collect();
        let mut cfg = cfg.clone();
        cfg.file = ctx.path("external.csv");
        cfg.ids = vec![Some("edge-id".into()), Some("val".into())];
        let r = guard("writing external values panicked", || {
            io::network::edges::Writer::write_external_values(&values, &g, &cfg)
        })?;
        if let Err(e) = r {
            viol!("writing external values failed: {}", e);
        }
        let t = std::fs::read_to_string(&cfg.file).expect("written file");
        let mut expected = String::from("edge-id val\n");
        for i in &edges {
            let _ = writeln!(expected, "{} {}", s.edges[*i].id.unwrap(), values[*i]);
        }
        ensure!(t == expected, "external values are written as\n{}\ninstead of\n{}", t, expected);
        ctx.count("external_values", edges.len());
    }

    // merge it back into a graph with other values
    let mergeable = m.has_edge_ids && cols.contains(&XCol::E(ECol::Id)) && !normalize;
    if mergeable {
        let mut base = m.clone();
        for e in &mut base.edges {
            for x in &mut e.metrics {
                *x = 7.5;
            }
        }
        let named: Vec<String> = edge_ids_of(&m, &cols)
            .iter()
            .zip(&cols)
            .map(|(id, c)| match c {
                XCol::E(ECol::Id) | XCol::E(ECol::Metric(_)) => format!("id: '{}'", id.as_ref().unwrap()),
                _ => "ignored".into(),
            })
            .collect();
        let mut y = format!(
            "  generating:\n    nodes: []\n    edges:\n    - merge:\n        from: '{}'\n        edge-id: 'edge-id'\n        edges-info:\n",
            file.display()
        );
        for n in named {
            let _ = writeln!(y, "        - {}", n);
        }
        let l1 = Layout::random(&base, rng);
        let g2 = build_ok(ctx, rng, "base", &base, &l1, Noise::None, None, &y)?;
        let s2 = Snap::of(&g2)?;
        ensure!(s2.edges.len() == s.edges.len(), "another count of edges");
        for (i, (a, b)) in s.edges.iter().zip(&s2.edges).enumerate() {
            for (k, (_, id)) in m.metrics.iter().enumerate() {
                let written = cols.contains(&XCol::E(ECol::Metric(k))) && (with == Some(true) || a.sc.is_none());
                let expected = if written { a.metrics[s.col(id).unwrap()] } else { 7.5 };
                let got = b.metrics[s2.col(id).unwrap()];
                ensure!(
                    got.to_bits() == expected.to_bits(),
                    "after merging back, {} of edge {} is {} instead of {}", id, i, got, expected
                );
            }
        }
        ctx.count("merged_back", 1);
    }
    // an unknown column
    if rng.chance(1, 6) && !edges.is_empty() {
        let mut ids = edge_ids_of(&m, &cols);
        ids.push(Some("nope".into()));
        let yaml = edges_writing_yaml(&ctx.path("unknown.csv"), &ids, with, denorm);
        let cfg = edges_cfg(ctx, "unknown.yaml", &yaml)?;
        ensure!(write_edges(&g, &cfg)?.is_err(), "writing an unknown column succeeds:\n{}", yaml);
        ctx.count("unknown_columns_refused", 1);
    }
    let sig = hash_str(&text);
    ctx.nontrivial(sig);
    ctx.sample(|| text);
    Ok(())
}

//------------------------------------------------------------------------------------------------//
// all writers of the library

pub struct Exports {
    graph: GraphConfig,
    edges: EdgesConfig,
    values: Vec<f64>,
    routing: configs::routing::Config,
    pairs: configs::writing::routing::Config,
    paths: Vec<RoutePath>,
}

pub const WRITERS: [&str; 5] = ["graph", "edges", "external values", "route-pairs", "smarts"];

fn ext_of(w: usize) -> &'static str {
    ["fmi", "csv", "csv", "route-pairs", "xml"][w]
}

impl Exports {
    fn new(ctx: &Ctx, rng: &mut Rng, m: &Model, g: &Graph, s: &Snap, limit: usize) -> Check<Exports> {
        let l = Layout::random(m, rng);
        let cols: Vec<XCol> = l.edges.iter().map(|c| XCol::E(*c)).collect();
        let dummy = ctx.path("dummy.fmi");
        let y = graph_writing_yaml(&dummy, &node_ids_of(&l), &edge_ids_of(m, &cols), Some(true), None);
        let graph = graph_cfg(ctx, "w.graph.yaml", &y)?;
        // exported edges can show more than a map
        let mut cols = cols;
        cols.extend_from_slice(&PLACES);
        rng.shuffle(&mut cols);
        if rng.chance(1, 2) {
            cols.truncate(rng.range(1, cols.len()));
        }
        let y = edges_writing_yaml(&ctx.path("dummy.csv"), &edge_ids_of(m, &cols), Some(true), None);
        let edges = edges_cfg(ctx, "w.edges.yaml", &y)?;
        let alphas = vec![1.0; m.metrics.len()];
        let y = routing_yaml(m, &alphas, "Dijkstra", rng);
        let routing = routing_cfg(&y, g)?;
        let y = format!(
            "writing:\n  route-pairs:\n    file: '{}'\n    random_or_all:\n      seed: 7\n      max_count: {}\n",
            ctx.path("dummy.route-pairs").display(), limit
        );
        let p = ctx.write("w.pairs.yaml", &y);
        let pairs = match guard("reading a writing-config panicked", || {
            configs::writing::routing::Config::try_from_yaml(&p)
        })? {
            Ok(c) => c,
            Err(e) => viol!("a valid writing-config is refused: {}\n{}", e, y),
        };
        let mut paths = vec![];
        let mut router = Dijkstra::new();
        for _ in 0..40 {
            let (a, b) = (rng.below(s.nodes.len()), rng.below(s.nodes.len()));
            let p = guard("a query panicked", || {
                router.compute_best_path(dijkstra::Query {
                    src_idx: NodeIdx(a),
                    dst_idx: NodeIdx(b),
                    graph: g,
                    routing_cfg: &routing,
                })
            })?;
            paths.extend(p);
        }
        let values = (0..s.edges.len()).map(|i| i as f64 * 1.5).collect();
        Ok(Exports { graph, edges, values, routing, pairs, paths })
    }

    fn run(&self, w: usize, g: &Graph, file: &Path) -> Result<(), String> {
        match w {
            0 => {
                let mut c = self.graph.clone();
                c.map_file = file.to_owned();
                io::network::graph::Writer::write(g, &c).map_err(|e| e.to_string())
            }
            1 => {
                let mut c = self.edges.clone();
                c.file = file.to_owned();
                io::network::edges::Writer::write(g, &c).map_err(|e| e.to_string())
            }
            2 => {
                let mut c = self.edges.clone();
                c.file = file.to_owned();
                io::network::edges::Writer::write_external_values(&self.values, g, &c)
                    .map_err(|e| e.to_string())
            }
            3 => {
                let configs::writing::routing::Category::RandomOrAll { seed, max_count } = self.pairs.category;
                let c = configs::writing::routing::Config {
                    file: file.to_owned(),
                    category: configs::writing::routing::Category::RandomOrAll { seed, max_count },
                };
                io::routing::Writer::write(g, &self.routing, &c).map_err(|e| e.to_string())
            }
            _ => {
                let c = configs::writing::smarts::Config { file: file.to_owned() };
                io::smarts::Writer::write(&self.paths, g, &c).map_err(|e| e.to_string())
            }
        }
    }
}

fn exports_for(ctx: &mut Ctx, rng: &mut Rng, max_nodes: usize) -> Check<(Model, Graph, Snap, Exports)> {
    let m = any_model(rng, max_nodes, 0, Some(true));
    let l = Layout::random(&m, rng);
    let g = build_ok(ctx, rng, "map", &m, &l, Noise::None, None, &gen_yaml_for(&PLACES, false))?;
    let s = Snap::of(&g)?;
    let limit = *rng.pick(&[0, 3, 30, 400]);
    let x = Exports::new(ctx, rng, &m, &g, &s, limit)?;
    Ok((m, g, s, x))
}

fn digest_dir(dir: &Path, skip: &[PathBuf]) -> Vec<(PathBuf, u64)> {
    let mut v: Vec<(PathBuf, u64)> = std::fs::read_dir(dir)
        .expect("scratch-dir")
        .flatten()
        .map(|e| e.path())
        .filter(|p| !skip.contains(p))
        .map(|p| {
            let h = std::fs::read(&p).map_or(1, |b| hash_bytes(&b));
            (p, h)
        })
        .collect();
    v.sort();
    v
}

pub fn w03(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let (m, g, _s, x) = exports_for(ctx, rng, 12)?;
    for w in 0..WRITERS.len() {
        let kind = rng.below(8);
        let target = ctx.path(&format!("target.{}", ext_of(w)));
        let other = ctx.path("other.txt");
        let _ = std::fs::remove_file(&target);
        let _ = std::fs::remove_file(&other);
        let what = match kind {
            0 => {
                std::fs::write(&target, "").expect("scratch-file");
                "an empty file"
            }
            1 | 2 => {
                std::fs::write(&target, "precious content\n").expect("scratch-file");
                "a file"
            }
            3 => {
                std::fs::write(&other, "precious content of a linked file\n").expect("scratch-file");
                std::os::unix::fs::symlink(&other, &target).expect("link");
                "a link to a file"
            }
            4 => {
                std::os::unix::fs::symlink(&other, &target).expect("link");
                "a dangling link"
            }
            5 => {
                std::fs::create_dir(&target).expect("scratch-dir");
                "a directory"
            }
            6 => {
                let text = "x".repeat(rng.range(5_000, 30_000));
                std::fs::write(&target, text).expect("scratch-file");
                "a big file"
            }
            _ => {
                // its own previous export
                if let Err(e) = guard("an export panicked", || x.run(w, &g, &target))? {
                    viol!("exporting {} to a new file failed: {}", WRITERS[w], e);
                }
                "its previous export"
            }
        };
        let before = digest_dir(&ctx.dir, &[]);
        let r = guard("an export panicked", || x.run(w, &g, &target))?;
        ensure!(
            r.is_err(),
            "exporting {} succeeds, although the target is {}", WRITERS[w], what
        );
        let after = digest_dir(&ctx.dir, &[]);
        ensure!(
            before == after,
            "exporting {} to {} changed files: before {:?}, after {:?}", WRITERS[w], what, before, after
        );
        ctx.count(&format!("refused: {}", what), 1);
        if kind == 5 {
            std::fs::remove_dir(&target).expect("scratch-dir");
        } else {
            std::fs::remove_file(&target).expect("scratch-file");
        }

        // a new target: nothing else is touched
        let before = digest_dir(&ctx.dir, &[]);
        if let Err(e) = guard("an export panicked", || x.run(w, &g, &target))? {
            viol!("exporting {} to a new file failed: {}", WRITERS[w], e);
        }
        let after = digest_dir(&ctx.dir, &[target.clone()]);
        ensure!(
            before == after,
            "exporting {} changed other files: before {:?}, after {:?}", WRITERS[w], before, after
        );
        let full = std::fs::read(&target).expect("written file");
        std::fs::remove_file(&target).expect("scratch-file");
        ctx.count("exports_to_new_files", 1);

        // several exports to the same target at the same time
        if rng.chance(1, 3) {
            let n = 6;
            let barrier = std::sync::Barrier::new(n);
            let results: Vec<Check<Result<(), String>>> = std::thread::scope(|sc| {
                let handles: Vec<_> = (0..n)
                    .map(|_| {
                        let (barrier, x, g, target) = (&barrier, &x, &g, &target);
                        sc.spawn(move || {
                            barrier.wait();
                            guard("an export panicked", || x.run(w, g, target))
                        })
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            let mut ok = 0;
            for r in results {
                if r?.is_ok() {
                    ok += 1;
                }
            }
            ensure!(ok == 1, "{} of {} simultaneous exports of {} to one file succeed", ok, n, WRITERS[w]);
            let now = std::fs::read(&target).expect("written file");
            ensure!(now == full, "simultaneous exports of {} to one file mix up its content", WRITERS[w]);
            std::fs::remove_file(&target).expect("scratch-file");
            ctx.count("simultaneous_exports", n);
        }
        let sig = crate::util::mix(ctx.case_seed, (w * 16 + kind) as u64);
        ctx.nontrivial(sig);
    }
    ctx.sample(|| m_text(&m));
    Ok(())
}

fn with_file_size_limit<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
        let new = libc::rlimit {
            rlim_cur: limit as libc::rlim_t,
            rlim_max: old.rlim_max,
        };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
        let t = f();
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &old), 0);
        t
    }
}

pub fn w04(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    // some files exceed the buffers of the writers
    let big = rng.chance(1, 3);
    let (m, g, s, x) = exports_for(ctx, rng, if big { 260 } else { 8 })?;
    if big {
        // Any value can be the one, with which a buffer is full.
        for _ in 0..6 {
            let x = Exports::new(ctx, rng, &m, &g, &s, 3)?;
            for w in 0..3 {
                let target = ctx.path(&format!("target.{}", ext_of(w)));
                let (r, calls) = faults::count(Op::Write, || guard("an export panicked", || x.run(w, &g, &target)));
                ensure!(r?.is_ok(), "exporting {} to a new file failed", WRITERS[w]);
                let full = std::fs::read(&target).expect("written file");
                std::fs::remove_file(&target).expect("scratch-file");
                for at in 0..calls {
                    let fault = Fault::Once(*rng.pick(&faults::ERRORS));
                    let (r, fired) = faults::with(Op::Write, at, fault, || guard("an export panicked", || x.run(w, &g, &target)));
                    let got = std::fs::read(&target).unwrap_or_default();
                    let _ = std::fs::remove_file(&target);
                    ensure!(
                        r?.is_err() || got == full,
                        "exporting {} reports success, but the file isn't complete ({} instead of {} bytes, {:?} at write {} of {})",
                        WRITERS[w], got.len(), full.len(), fault, at, calls
                    );
                    if fired > 0 {
                        ctx.count("failed_writes_of_full_buffers", 1);
                    }
                }
            }
        }
    }
    for w in 0..WRITERS.len() {
        let target = ctx.path(&format!("target.{}", ext_of(w)));
        if let Err(e) = guard("an export panicked", || x.run(w, &g, &target))? {
            viol!("exporting {} to a new file failed: {}", WRITERS[w], e);
        }
        let full = std::fs::read(&target).expect("written file");
        std::fs::remove_file(&target).expect("scratch-file");
        let n = full.len();
        let limits: Vec<usize> = if n <= 500 {
            (0..=n + 1).collect()
        } else {
            let mut v: Vec<usize> = (0..=40).collect();
            v.extend(n - 40..=n + 1);
            // around the buffers
            let mut b = 4096;
            while b < n {
                v.extend(b - 2..=b + 2);
                b += 4096;
            }
            for _ in 0..40 {
                v.push(rng.below(n));
            }
            v.retain(|l| *l <= n + 1);
            v
        };
        for limit in limits {
            let r = guard("an export panicked", || {
                with_file_size_limit(limit as u64, || x.run(w, &g, &target))
            });
            // also after a panic
            let r = match r {
                Ok(r) => r,
                Err(v) => {
                    unsafe {
                        let mut old: libc::rlimit = std::mem::zeroed();
                        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
                        old.rlim_cur = old.rlim_max;
                        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
                    }
                    return Err(v);
                }
            };
            let got = std::fs::read(&target).unwrap_or_default();
            match r {
                Ok(()) => {
                    ensure!(
                        got == full,
                        "exporting {} reports success, but only {} of {} bytes are written (no space after byte {})",
                        WRITERS[w], got.len(), n, limit
                    );
                    ctx.count("complete", 1);
                }
                Err(e) => {
                    ensure!(
                        limit < n,
                        "exporting {} fails, although there is enough space: {}", WRITERS[w], e
                    );
                    ctx.count("reported", 1);
                }
            }
            let _ = std::fs::remove_file(&target);
            ctx.count("write_faults", 1);
        }
        // single calls failing, being interrupted or writing only a part
        let (r, calls) = faults::count(Op::Write, || guard("an export panicked", || x.run(w, &g, &target)));
        ensure!(r?.is_ok(), "exporting {} to a new file failed", WRITERS[w]);
        std::fs::remove_file(&target).expect("scratch-file");
        let mut plans = vec![(0, Fault::Short(1 + rng.below(7))), (0, Fault::Short(1 + rng.below(5000)))];
        if n > 20_000 {
            plans.remove(0);
        }
        for k in 0..calls {
            if calls <= 12 || rng.below(calls) < 12 {
                plans.push((k, Fault::Once(*rng.pick(&faults::ERRORS))));
                plans.push((k, Fault::From(*rng.pick(&faults::ERRORS))));
                plans.push((k, Fault::Once(libc::EINTR)));
            }
        }
        for (at, fault) in plans {
            let (r, fired) = faults::with(Op::Write, at, fault, || guard("an export panicked", || x.run(w, &g, &target)));
            let got = std::fs::read(&target).unwrap_or_default();
            let _ = std::fs::remove_file(&target);
            let is_harmless = fired == 0 || fault == Fault::Once(libc::EINTR) || matches!(fault, Fault::Short(_));
            match r? {
                Ok(()) => {
                    ensure!(
                        got == full,
                        "exporting {} reports success, but the file isn't complete ({} instead of {} bytes, {:?} at write {} of {})",
                        WRITERS[w], got.len(), n, fault, at, calls
                    );
                    ctx.count("complete", 1);
                }
                Err(e) => {
                    ensure!(
                        !is_harmless,
                        "exporting {} fails, although writing succeeds after all ({:?} at write {}): {}", WRITERS[w], fault, at, e
                    );
                    ctx.count("reported", 1);
                }
            }
            if fired > 0 {
                ctx.count("failed_or_partial_writes", 1);
            }
        }
        if n > 8192 {
            ctx.count("files_exceeding_the_buffer", 1);
        }
        let sig = crate::util::mix(hash_bytes(&full), w as u64);
        ctx.nontrivial(sig);
    }
    ctx.sample(|| m_text(&m));
    Ok(())
}
