//! An independent model of maps, its text- and config-form, and snapshots of built graphs.
use crate::util::{guard, Check, Ctx, Rng};
use osmgraphing::{
    configs,
    io::network::graph::Parser,
    network::{EdgeIdx, Graph, MetricIdx, NodeIdx},
};
use std::{collections::HashMap, fmt::Write as _, path::Path};

pub const TINY: f64 = 0.000_001;

#[derive(Clone, Debug)]
pub struct MNode {
    pub id: i64,
    pub lat: f64,
    pub lon: f64,
    pub level: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MEdge {
    pub src: i64,
    pub dst: i64,
    pub id: Option<usize>,
    pub metrics: Vec<f64>,
    /// positions of edge-lines
    pub sc: Option<[usize; 2]>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub edges: Vec<MEdge>,
    /// (unit, id)
    pub metrics: Vec<(&'static str, String)>,
    pub has_levels: bool,
    pub has_edge_ids: bool,
    pub has_shortcuts: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NCol {
    Id,
    Lat,
    Lon,
    Level,
    Ignored,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ECol {
    Src,
    Dst,
    Id,
    Sc0,
    Sc1,
    Metric(usize),
    Ignored,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub nodes: Vec<NCol>,
    pub edges: Vec<ECol>,
}

impl Layout {
    pub fn plain(m: &Model) -> Layout {
        let mut nodes = vec![NCol::Id, NCol::Lat, NCol::Lon];
        if m.has_levels {
            nodes.push(NCol::Level);
        }
        let mut edges = vec![ECol::Src, ECol::Dst];
        if m.has_edge_ids {
            edges.push(ECol::Id);
        }
        for i in 0..m.metrics.len() {
            edges.push(ECol::Metric(i));
        }
        if m.has_shortcuts {
            edges.push(ECol::Sc0);
            edges.push(ECol::Sc1);
        }
        Layout { nodes, edges }
    }

    pub fn random(m: &Model, rng: &mut Rng) -> Layout {
        let mut l = Layout::plain(m);
        for _ in 0..rng.below(3) {
            l.nodes.push(NCol::Ignored);
        }
        for _ in 0..rng.below(3) {
            l.edges.push(ECol::Ignored);
        }
        rng.shuffle(&mut l.nodes);
        rng.shuffle(&mut l.edges);
        l
    }
}

pub fn node_col_yaml(c: NCol) -> String {
    match c {
        NCol::Id => "meta: { info: 'NodeId', id: 'node-id' }".into(),
        NCol::Level => "meta: { info: 'CHLevel', id: 'ch-level' }".into(),
        NCol::Lat => "metric: { unit: 'Latitude', id: 'lat' }".into(),
        NCol::Lon => "metric: { unit: 'Longitude', id: 'lon' }".into(),
        NCol::Ignored => "ignored".into(),
    }
}

pub fn edge_col_yaml(m: &[(&'static str, String)], c: ECol) -> String {
    match c {
        ECol::Src => "meta: { info: 'SrcId', id: 'src-id' }".into(),
        ECol::Dst => "meta: { info: 'DstId', id: 'dst-id' }".into(),
        ECol::Id => "meta: { info: 'EdgeId', id: 'edge-id' }".into(),
        ECol::Sc0 => "meta: { info: 'ShortcutIdx0', id: 'sc-0' }".into(),
        ECol::Sc1 => "meta: { info: 'ShortcutIdx1', id: 'sc-1' }".into(),
        ECol::Metric(i) => format!("metric: {{ unit: '{}', id: '{}' }}", m[i].0, m[i].1),
        ECol::Ignored => "ignored".into(),
    }
}

/// The yaml-section `parsing`.
pub fn parsing_yaml(
    m: &Model,
    l: &Layout,
    map_file: &Path,
    normalize: Option<bool>,
    generating: &str,
) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "parsing:\n  map-file: '{}'\n  nodes:", map_file.display());
    for c in &l.nodes {
        let _ = writeln!(s, "  - {}", node_col_yaml(*c));
    }
    let _ = writeln!(s, "  edges:");
    if let Some(n) = normalize {
        let _ = writeln!(s, "    will_normalize_metrics_by_mean: {}", n);
    }
    let _ = writeln!(s, "    data:");
    for c in &l.edges {
        let _ = writeln!(s, "    - {}", edge_col_yaml(&m.metrics, *c));
    }
    s.push_str(generating);
    s
}

#[derive(Clone, Copy, PartialEq)]
pub enum Noise {
    None,
    /// comments, blank lines, other number-formats, further header-lines
    Some,
}

pub fn fmt_f(rng: &mut Rng, noise: Noise, x: f64) -> String {
    if noise == Noise::None {
        return format!("{}", x);
    }
    match rng.below(7) {
        0 => format!("{:e}", x),
        1 if x >= 0.0 && x.is_sign_positive() => format!("+{}", x),
        2 => {
            let s = format!("{}", x);
            if s.contains('.') {
                s + "000"
            } else {
                s + ".0"
            }
        }
        _ => format!("{}", x),
    }
}

pub fn node_line(rng: &mut Rng, noise: Noise, l: &Layout, n: &MNode) -> String {
    let cols: Vec<String> = l
        .nodes
        .iter()
        .map(|c| match c {
            NCol::Id => format!("{}", n.id),
            NCol::Lat => fmt_f(rng, noise, n.lat),
            NCol::Lon => fmt_f(rng, noise, n.lon),
            NCol::Level => format!("{}", n.level),
            NCol::Ignored => format!("{}", ["x", "-7", "0.5", "_"][rng.below(4)]),
        })
        .collect();
    join(rng, noise, &cols)
}

pub fn edge_line(rng: &mut Rng, noise: Noise, l: &Layout, e: &MEdge) -> String {
    let cols: Vec<String> = l
        .edges
        .iter()
        .map(|c| match c {
            ECol::Src => format!("{}", e.src),
            ECol::Dst => format!("{}", e.dst),
            ECol::Id => {
                let id = e.id.unwrap_or(0);
                if e.sc.is_some() && noise == Noise::Some && rng.chance(1, 2) {
                    format!("ch{}", id)
                } else {
                    format!("{}", id)
                }
            }
            ECol::Sc0 => e.sc.map_or("-1".into(), |s| s[0].to_string()),
            ECol::Sc1 => e.sc.map_or("-1".into(), |s| s[1].to_string()),
            ECol::Metric(i) => fmt_f(rng, noise, e.metrics[*i]),
            ECol::Ignored => format!("{}", ["x", "-7", "0.5", "_"][rng.below(4)]),
        })
        .collect();
    join(rng, noise, &cols)
}

fn join(rng: &mut Rng, noise: Noise, cols: &[String]) -> String {
    if noise == Noise::None {
        return cols.join(" ");
    }
    let mut s = String::new();
    if rng.chance(1, 12) {
        s.push(' ');
    }
    for (i, c) in cols.iter().enumerate() {
        if i > 0 {
            s.push_str(["\t", "  ", " ", " ", " "][rng.below(5)]);
        }
        s.push_str(c);
    }
    // columns, that are not described, are allowed at the end
    if rng.chance(1, 10) {
        s.push_str(" 77");
    }
    if rng.chance(1, 12) {
        s.push_str("\r");
    }
    s
}

/// The text of a map-file. Node-lines are in the model's order.
pub fn fmi_text(m: &Model, l: &Layout, rng: &mut Rng, noise: Noise) -> String {
    let mut s = String::new();
    let junk = |s: &mut String, rng: &mut Rng| {
        if noise == Noise::Some {
            while rng.chance(1, 8) {
                s.push_str(["\n", "# comment\n", "# 12\n", "#\n", "#1 2 3\n"][rng.below(5)]);
            }
        }
    };
    junk(&mut s, rng);
    if noise == Noise::Some && rng.chance(1, 4) {
        s.push_str("some header of words\n");
    }
    junk(&mut s, rng);
    if noise == Noise::None || rng.chance(2, 3) {
        let _ = writeln!(s, "{}", m.metrics.len());
    }
    junk(&mut s, rng);
    let _ = writeln!(s, "{}", m.nodes.len());
    junk(&mut s, rng);
    let _ = writeln!(s, "{}", m.edges.len());
    for n in &m.nodes {
        junk(&mut s, rng);
        s.push_str(&node_line(rng, noise, l, n));
        s.push('\n');
    }
    for e in &m.edges {
        junk(&mut s, rng);
        s.push_str(&edge_line(rng, noise, l, e));
        s.push('\n');
    }
    junk(&mut s, rng);
    // no newline at the end of the file
    if noise == Noise::Some && rng.chance(1, 6) && s.ends_with('\n') {
        s.pop();
    }
    s
}

/// Parses config and map. Outer error: panic; inner error: refused.
pub fn load_yaml(ctx: &Ctx, name: &str, yaml: &str) -> Check<Result<Graph, String>> {
    let cfg_path = ctx.write(name, yaml);
    let cfg = guard("reading the parsing-config panicked", || {
        configs::parsing::Config::try_from_yaml(&cfg_path)
    })?;
    let cfg = match cfg {
        Ok(cfg) => cfg,
        Err(e) => return Ok(Err(format!("config: {}", e))),
    };
    let graph = guard("building the graph panicked", || {
        Parser::parse_and_finalize(cfg)
    })?;
    Ok(graph.map_err(|e| e.to_string()))
}

pub fn build(
    ctx: &Ctx,
    rng: &mut Rng,
    tag: &str,
    m: &Model,
    l: &Layout,
    noise: Noise,
    normalize: Option<bool>,
    generating: &str,
) -> Check<Result<Graph, String>> {
    let map = ctx.path(&format!("{}.fmi", tag));
    std::fs::write(&map, fmi_text(m, l, rng, noise)).expect("scratch-file");
    let yaml = parsing_yaml(m, l, &map, normalize, generating);
    load_yaml(ctx, &format!("{}.yaml", tag), &yaml)
}

/// As `build`, but the graph has to be accepted.
pub fn build_ok(
    ctx: &Ctx,
    rng: &mut Rng,
    tag: &str,
    m: &Model,
    l: &Layout,
    noise: Noise,
    normalize: Option<bool>,
    generating: &str,
) -> Check<Graph> {
    match build(ctx, rng, tag, m, l, noise, normalize, generating)? {
        Ok(g) => Ok(g),
        Err(e) => viol!("a well-formed map is refused: {}", e),
    }
}

//------------------------------------------------------------------------------------------------//
// snapshots

#[derive(Clone, Debug, PartialEq)]
pub struct SNode {
    pub id: i64,
    pub lat: f64,
    pub lon: f64,
    pub level: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SEdge {
    pub src: usize,
    pub dst: usize,
    pub id: Option<usize>,
    pub metrics: Vec<f64>,
    pub sc: Option<[usize; 2]>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub nodes: Vec<SNode>,
    pub edges: Vec<SEdge>,
    pub metric_ids: Vec<String>,
    pub units: Vec<String>,
    pub means: Option<Vec<f64>>,
}

impl Snap {
    pub fn of(g: &Graph) -> Check<Snap> {
        guard("reading the graph's content panicked", || Snap::raw(g))
    }

    fn raw(g: &Graph) -> Snap {
        let nodes = g.nodes();
        let fwd = g.fwd_edges();
        let bwd = g.bwd_edges();
        let metrics = g.metrics();
        let dim = metrics.dim();
        Snap {
            nodes: (0..nodes.count())
                .map(|i| {
                    let c = nodes.coord(NodeIdx(i));
                    SNode {
                        id: nodes.id(NodeIdx(i)),
                        lat: c.lat,
                        lon: c.lon,
                        level: nodes.level(NodeIdx(i)),
                    }
                })
                .collect(),
            edges: (0..fwd.count())
                .map(|i| {
                    let i = EdgeIdx(i);
                    SEdge {
                        src: *bwd.dst_idx(i),
                        dst: *fwd.dst_idx(i),
                        id: fwd.try_id(i),
                        metrics: metrics[i].iter().cloned().collect(),
                        sc: fwd.sc_edges(i).map(|s| [*s[0], *s[1]]),
                    }
                })
                .collect(),
            metric_ids: g.cfg().edges.metrics.ids.iter().map(|i| i.0.clone()).collect(),
            units: g
                .cfg()
                .edges
                .metrics
                .units
                .iter()
                .map(|u| format!("{:?}", u))
                .collect(),
            means: if dim > 0 && metrics.mean(MetricIdx(0)).is_some() {
                Some((0..dim).map(|i| metrics.mean(MetricIdx(i)).unwrap()).collect())
            } else {
                None
            },
        }
    }

    pub fn col(&self, id: &str) -> Option<usize> {
        self.metric_ids.iter().position(|m| m == id)
    }

    pub fn node_map(&self) -> HashMap<i64, usize> {
        self.nodes.iter().enumerate().map(|(i, n)| (n.id, i)).collect()
    }

    /// metric-values of an edge in the order of the model's metrics
    pub fn in_model_order(&self, m: &Model, e: &SEdge) -> Vec<f64> {
        m.metrics
            .iter()
            .map(|(_, id)| self.col(id).map_or(f64::NAN, |c| e.metrics[c]))
            .collect()
    }
}

/// The value stored for a value of a map.
pub fn stored(x: f64) -> f64 {
    if x.abs() < 1.4e-6 {
        TINY
    } else {
        x
    }
}

//------------------------------------------------------------------------------------------------//
// generators

#[derive(Clone, Copy, Debug)]
pub struct GenOpts {
    pub max_nodes: usize,
    pub max_dim: usize,
    pub parallel: bool,
    pub loops: bool,
    pub unused_nodes: bool,
    pub zero: bool,
    pub edge_ids: Option<bool>,
    pub real: bool,
    /// values with many digits and of very different sizes
    pub wild: bool,
    /// there are rarely more than `max_dim` metrics, but at most this
    pub widest: usize,
    /// one of so many maps has thousands of nodes and edges (0: none)
    pub huge: usize,
}

impl Default for GenOpts {
    fn default() -> GenOpts {
        GenOpts {
            max_nodes: 24,
            max_dim: 4,
            parallel: true,
            loops: true,
            unused_nodes: true,
            zero: true,
            edge_ids: None,
            real: true,
            wild: false,
            widest: 8,
            huge: 0,
        }
    }
}

pub const UNITS: [&str; 8] = [
    "Meters",
    "Kilometers",
    "Seconds",
    "Minutes",
    "Hours",
    "KilometersPerHour",
    "LaneCount",
    "F64",
];

/// Names sort differently from their order.
pub const METRIC_IDS: [&str; 9] = ["zeta", "alpha", "m-2", "M", "kilo meters", "b", "x 9", "Über", "a"];

pub fn gen_ids(rng: &mut Rng, n: usize) -> Vec<i64> {
    let style = rng.below(8);
    let mut ids: Vec<i64> = (0..n as i64)
        .map(|i| match style {
            0 => i,
            1 => i * 7 - 40,
            2 => i64::MAX - 3 * i,
            3 => i64::MIN + 5 * i,
            // equal in their lower bits
            4 => (i << 32) + 7,
            5 => (i / 2) + ((i % 2) << [16, 31, 32, 33, 48, 62][n % 6]),
            6 => (i << 8) - 256,
            _ => (i << 33) + (rng.below(1 << 20) as i64) - (1 << 36),
        })
        .collect();
    rng.shuffle(&mut ids);
    ids
}

fn gen_value(rng: &mut Rng, style: usize, zero: bool) -> f64 {
    let v = match style {
        0 => rng.below(41) as f64 * 0.25,
        1 => rng.below(4) as f64,
        // differences are above the accuracy
        2 => (100 + rng.below(1_000_000)) as f64 / 10_000.0,
        3 => 2f64.powi(rng.below(24) as i32 - 8),
        4 => (1 + rng.below(9)) as f64 * 1000.0 + rng.below(4) as f64 * 0.25,
        // all digits
        5 => (1 + rng.below(1 << 30)) as f64 / (1u64 << 23) as f64 * 1.234_567_890_123_456,
        _ => (1 + rng.below(1 << 30)) as f64 / 7.0 * 10f64.powi(rng.below(12) as i32 - 6),
    };
    if v == 0.0 && !zero {
        0.25
    } else {
        v
    }
}

pub fn gen_model(rng: &mut Rng, o: GenOpts) -> Model {
    let is_huge = o.huge > 0 && rng.chance(1, o.huge);
    // more nodes or edges than numbers of two bytes
    let is_giant = o.huge > 0 && crate::util::take_giant();
    let few_nodes = is_giant && rng.chance(1, 4);
    let n = match rng.below(8) {
        _ if few_nodes => 300 + rng.below(1000),
        _ if is_giant => 65_560 + rng.below(3000),
        _ if is_huge => *rng.pick(&[700, 3000, 7000]) + rng.below(200),
        0 => rng.range(1, 3),
        1 | 2 => rng.range(2, 6),
        _ => rng.range(2, o.max_nodes.max(2)),
    };
    let ids = gen_ids(rng, n);
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    let both = |pairs: &mut Vec<(usize, usize)>, a: usize, b: usize| {
        pairs.push((a, b));
        pairs.push((b, a));
    };
    let topo = match rng.below(9) {
        _ if few_nodes => 9,
        _ if is_giant => *rng.pick(&[2, 3, 4, 7, 8]),
        t => t,
    };
    match topo {
        // much more edges than nodes
        9 => {
            for _ in 0..65_560 + rng.below(3000) {
                pairs.push((rng.below(n), rng.below(n)));
            }
        }
        // random, sparse to dense
        0 | 1 => {
            let per_node = 1 + rng.below(4);
            let m = rng.range(1, (n * per_node).max(2));
            for _ in 0..m {
                pairs.push((rng.below(n), rng.below(n)));
            }
        }
        // grid
        2 => {
            let w = (n as f64).sqrt().ceil() as usize;
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    both(&mut pairs, i, i + 1);
                }
                if i + w < n {
                    both(&mut pairs, i, i + w);
                }
            }
        }
        // line or ring
        3 => {
            for i in 0..n - 1 {
                pairs.push((i, i + 1));
                if rng.chance(1, 2) {
                    pairs.push((i + 1, i));
                }
            }
            if rng.chance(1, 2) || is_giant {
                pairs.push((n - 1, 0));
            }
        }
        // star
        4 => {
            for i in 1..n {
                match rng.below(3) {
                    0 => pairs.push((0, i)),
                    1 => pairs.push((i, 0)),
                    _ => both(&mut pairs, 0, i),
                }
            }
        }
        // components
        5 => {
            let k = rng.range(2, 4);
            for _ in 0..n * 2 {
                let a = rng.below(n);
                let b = rng.below(n);
                if a % k == b % k {
                    pairs.push((a, b));
                }
            }
        }
        // dense
        6 => {
            let n = n.min(9);
            for a in 0..n {
                for b in 0..n {
                    if a != b && rng.chance(3, 4) {
                        pairs.push((a, b));
                    }
                }
            }
        }
        // tree with some further edges
        7 => {
            for i in 1..n {
                let p = rng.below(i);
                both(&mut pairs, p, i);
            }
            for _ in 0..rng.below(n) {
                pairs.push((rng.below(n), rng.below(n)));
            }
        }
        // ladder with cheap detours
        _ => {
            for i in 0..n.saturating_sub(2) {
                pairs.push((i, i + 1));
                pairs.push((i, i + 2));
                if rng.chance(1, 3) {
                    pairs.push((i + 2, i));
                }
            }
        }
    }
    if !o.loops {
        pairs.retain(|(a, b)| a != b);
    }
    if o.parallel {
        for _ in 0..rng.below(4) {
            if !pairs.is_empty() {
                let p = *rng.pick(&pairs);
                pairs.push(p);
            }
        }
    } else {
        let mut seen = std::collections::HashSet::new();
        pairs.retain(|p| seen.insert(*p));
    }
    if pairs.is_empty() {
        pairs.push((0, n - 1));
        if n == 1 && !o.loops {
            // a graph needs two nodes then
            return gen_model(rng, o);
        }
    }
    rng.shuffle(&mut pairs);

    let most = o.widest.min(osmgraphing::defaults::capacity::SMALL_VEC_INLINE_SIZE);
    let dim = if rng.chance(1, 12) && o.max_dim < most {
        rng.range(o.max_dim, most)
    } else {
        rng.range(1, o.max_dim)
    };
    let mut names: Vec<&str> = METRIC_IDS.iter().copied().filter(|n| *n != "b").collect();
    rng.shuffle(&mut names);
    let metrics: Vec<(&'static str, String)> = (0..dim)
        .map(|i| (*rng.pick(&UNITS), names[i].to_owned()))
        .collect();
    let styles: Vec<usize> = (0..dim)
        .map(|_| {
            let s = rng.below(if o.wild { 7 } else { 5 });
            if s == 2 && !o.real {
                0
            } else {
                s
            }
        })
        .collect();
    let has_edge_ids = o.edge_ids.unwrap_or_else(|| rng.chance(1, 2));
    let style = rng.below(5);
    let mut eids: Vec<usize> = (0..pairs.len())
        .map(|i| match style {
            0 => i,
            // equal in their lower bits
            3 => (i << 32) + 3,
            4 => (i << 8) + 3,
            1 => i * 3 + 5,
            _ => 1_000_000_000_000 + i * 17,
        })
        .collect();
    rng.shuffle(&mut eids);

    let has_levels = rng.chance(1, 3);
    let level_style = rng.below(3);
    let coord_style = rng.below(6);
    let mut nodes: Vec<MNode> = (0..n)
        .map(|i| MNode {
            id: ids[i],
            lat: gen_degree(rng, coord_style, 80.0),
            lon: gen_degree(rng, coord_style, 170.0),
            level: if has_levels { gen_level(rng, level_style) } else { 0 },
        })
        .collect();
    let edges = pairs
        .iter()
        .enumerate()
        .map(|(i, (a, b))| MEdge {
            src: ids[*a],
            dst: ids[*b],
            id: if has_edge_ids { Some(eids[i]) } else { None },
            metrics: styles.iter().map(|s| gen_value(rng, *s, o.zero)).collect(),
            sc: None,
        })
        .collect::<Vec<_>>();
    if !o.unused_nodes {
        let used: std::collections::HashSet<i64> =
            edges.iter().flat_map(|e| vec![e.src, e.dst]).collect();
        nodes.retain(|n| used.contains(&n.id));
    }
    rng.shuffle(&mut nodes);
    Model {
        nodes,
        edges,
        metrics,
        has_levels,
        has_edge_ids,
        has_shortcuts: false,
    }
}

fn gen_degree(rng: &mut Rng, style: usize, max: f64) -> f64 {
    let x = (rng.below(1 << 40) as f64 / (1u64 << 39) as f64 - 1.0) * max;
    match style {
        0 | 1 => (x * 10_000.0).round() / 10_000.0,
        // as precise as osm
        2 => (x * 1e7).round() / 1e7,
        // all digits
        3 => x,
        // close together
        4 => 48.0 + x * 1e-9,
        _ => *rng.pick(&[0.0, 1e-9, -1e-9, max, -max, 0.5, 12.345_678_901_234_567, -1.0, x]),
    }
}

fn gen_level(rng: &mut Rng, style: usize) -> usize {
    match style {
        0 => rng.below(5),
        1 => rng.below(1_000_000),
        _ => [0, 1, 255, 256, 257, 65_535, 65_536, 70_000, 1 << 33, (1 << 33) + 1][rng.below(10)],
    }
}

/// Sets all levels to the same value, so any routing-algorithm is allowed.
pub fn flat_levels(m: &mut Model) {
    for n in &mut m.nodes {
        n.level = 3;
    }
}

/// non-negative weights for every metric
pub fn gen_alphas(rng: &mut Rng, dim: usize) -> Vec<f64> {
    let style = rng.below(6);
    let mut a: Vec<f64> = (0..dim)
        .map(|_| match style {
            0 => 1.0,
            1 => rng.below(5) as f64 * 0.25,
            2 => [0.0, 1.0][rng.below(2)],
            3 => rng.f(),
            4 => [0.5, 4.0, 100.0][rng.below(3)],
            _ => rng.below(3) as f64,
        })
        .collect();
    if rng.chance(1, 3) {
        // a single metric
        let k = rng.below(dim);
        for (i, x) in a.iter_mut().enumerate() {
            *x = if i == k { 1.0 } else { 0.0 };
        }
    }
    a
}

pub fn routing_yaml(m: &Model, alphas: &[f64], algo: &str, rng: &mut Rng) -> String {
    let mut s = format!("routing:\n  algorithm: {}\n  metrics:\n", algo);
    let mut order: Vec<usize> = (0..alphas.len()).collect();
    rng.shuffle(&mut order);
    let mut written = 0;
    for i in order {
        // weights of zero may be omitted
        if alphas[i] == 0.0 && rng.chance(1, 2) {
            continue;
        }
        written += 1;
        if alphas[i] == 1.0 && rng.chance(1, 2) {
            let _ = writeln!(s, "  - id: '{}'", m.metrics[i].1);
        } else {
            let _ = writeln!(s, "  - id: '{}'\n    alpha: {:?}", m.metrics[i].1, alphas[i]);
        }
    }
    if written == 0 {
        s = format!("routing:\n  algorithm: {}\n  metrics: []\n", algo);
    }
    s
}

pub fn routing_cfg(yaml: &str, g: &Graph) -> Check<configs::routing::Config> {
    match guard("reading the routing-config panicked", || {
        configs::routing::Config::try_from_str(yaml, g.cfg())
    })? {
        Ok(c) => Ok(c),
        Err(e) => viol!("a valid routing-config is refused: {}\n{}", e, yaml),
    }
}
