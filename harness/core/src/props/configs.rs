//! C01: a config means exactly what it says, and inconsistent configs are refused.
use crate::util::{guard, hash_str, Check, Ctx, Rng};
use osmgraphing::{
    configs::{
        self,
        parsing::{edges, generating, nodes},
        SimpleId,
    },
    defaults,
    io::network::{
        edges::Writer as EdgesWriter,
        graph::{Parser, Writer as GraphWriter},
    },
    network::vehicles,
};
use std::path::PathBuf;

//------------------------------------------------------------------------------------------------//
// yaml

#[derive(Clone, Debug)]
pub enum Y {
    /// string
    S(String),
    /// number, boolean, as it is
    R(String),
    L(Vec<Y>),
    M(Vec<(String, Y)>),
}

fn s(x: &str) -> Y {
    Y::S(x.to_owned())
}
fn r(x: impl ToString) -> Y {
    Y::R(x.to_string())
}
fn m(v: Vec<(&str, Y)>) -> Y {
    Y::M(v.into_iter().map(|(k, y)| (k.to_owned(), y)).collect())
}

impl Y {
    fn shuffle(&mut self, rng: &mut Rng) {
        match self {
            Y::M(v) => {
                rng.shuffle(v);
                for (_, y) in v {
                    y.shuffle(rng);
                }
            }
            Y::L(v) => {
                for y in v {
                    y.shuffle(rng);
                }
            }
            _ => (),
        }
    }
    fn map(&mut self) -> &mut Vec<(String, Y)> {
        match self {
            Y::M(v) => v,
            y => panic!("no map: {:?}", y),
        }
    }
    fn list(&mut self) -> &mut Vec<Y> {
        match self {
            Y::L(v) => v,
            y => panic!("no list: {:?}", y),
        }
    }
    fn at(&mut self, path: &[&str]) -> &mut Y {
        let mut y = self;
        for k in path {
            y = match y {
                Y::M(v) => &mut v.iter_mut().find(|(x, _)| x == k).unwrap_or_else(|| panic!("no key {}", k)).1,
                y => panic!("no map: {:?}", y),
            };
        }
        y
    }
    fn remove(&mut self, key: &str) {
        self.map().retain(|(k, _)| k != key);
    }
    fn put(&mut self, key: &str, y: Y) {
        self.map().push((key.to_owned(), y));
    }
    fn scalar(&self, rng: &mut Rng) -> Option<String> {
        match self {
            Y::S(x) => {
                let simple = x.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
                    && x.chars().next().map_or(false, |c| c.is_ascii_alphabetic())
                    && x.len() > 5;
                Some(match rng.below(3) {
                    0 if simple => x.clone(),
                    1 => format!("\"{}\"", x.replace('\\', "\\\\").replace('"', "\\\"")),
                    _ => format!("'{}'", x.replace('\'', "''")),
                })
            }
            Y::R(x) => Some(x.clone()),
            _ => None,
        }
    }
    fn flow(&self, rng: &mut Rng) -> String {
        match self {
            Y::L(v) => format!(
                "[ {} ]",
                v.iter().map(|y| y.flow(rng)).collect::<Vec<_>>().join(", ")
            ),
            Y::M(v) => format!(
                "{{ {} }}",
                v.iter().map(|(k, y)| format!("{}: {}", k, y.flow(rng))).collect::<Vec<_>>().join(", ")
            ),
            y => y.scalar(rng).unwrap(),
        }
    }
    fn depth(&self) -> usize {
        match self {
            Y::L(v) => 1 + v.iter().map(|y| y.depth()).max().unwrap_or(0),
            Y::M(v) => 1 + v.iter().map(|(_, y)| y.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn is_flow(&self, rng: &mut Rng) -> bool {
        match self {
            Y::L(v) if v.is_empty() => true,
            Y::M(v) if v.is_empty() => true,
            y => match y.depth() {
                1 => rng.chance(2, 3),
                2 => rng.chance(1, 4),
                _ => rng.chance(1, 12),
            },
        }
    }
    fn value(&self, indent: usize, rng: &mut Rng, out: &mut String) {
        if let Some(x) = self.scalar(rng) {
            out.push(' ');
            out.push_str(&x);
            if rng.chance(1, 20) {
                out.push_str(" # a: comment");
            }
            out.push('\n');
        } else if self.is_flow(rng) {
            out.push(' ');
            let x = self.flow(rng);
            out.push_str(&x);
            out.push('\n');
        } else {
            out.push('\n');
            self.block(indent, rng, out);
        }
    }
    fn block(&self, indent: usize, rng: &mut Rng, out: &mut String) {
        let pad = " ".repeat(indent);
        match self {
            Y::L(v) => {
                for y in v {
                    out.push_str(&pad);
                    out.push('-');
                    y.value(indent + 2, rng, out);
                }
            }
            Y::M(v) => {
                for (k, y) in v {
                    if rng.chance(1, 20) {
                        out.push_str("\n# comment\n");
                    }
                    out.push_str(&pad);
                    out.push_str(k);
                    out.push(':');
                    y.value(indent + 2, rng, out);
                }
            }
            _ => unreachable!(),
        }
    }
    fn text(&self, rng: &mut Rng) -> String {
        let mut t = String::new();
        self.block(0, rng, &mut t);
        t
    }
}

//------------------------------------------------------------------------------------------------//
// what is meant

const UNITS: [&str; 8] =
    ["Meters", "Kilometers", "Seconds", "Minutes", "Hours", "KilometersPerHour", "LaneCount", "F64"];

#[derive(Clone, Debug, PartialEq)]
enum Col {
    Meta(&'static str, String),
    Metric(&'static str, String),
    Ignored,
}

impl Col {
    fn y(&self) -> Y {
        match self {
            Col::Meta(info, id) => m(vec![("meta", m(vec![("info", s(info)), ("id", s(id))]))]),
            Col::Metric(unit, id) => m(vec![("metric", m(vec![("unit", s(unit)), ("id", s(id))]))]),
            Col::Ignored => s("ignored"),
        }
    }
}

fn ids_y(ids: &[Option<String>]) -> Y {
    Y::L(ids
        .iter()
        .map(|id| match id {
            Some(id) => m(vec![("id", s(id))]),
            None => s("ignored"),
        })
        .collect())
}

fn opt_bool(rng: &mut Rng) -> Option<bool> {
    match rng.below(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    }
}

fn put_opt<T: ToString>(y: &mut Y, key: &str, v: &Option<T>) {
    if let Some(v) = v {
        y.put(key, r(v.to_string()));
    }
}

/// Distinct ids, many of them similar.
struct Ids(Vec<String>);
impl Ids {
    fn new(rng: &mut Rng) -> Ids {
        let mut v: Vec<String> = [
            "m", "m1", "m11", "M1", "meters", "Meters", "km", "KM", "k m", "a:b", "ü", "it's", "x#y", "workload", "workload-2",
            "src", "src-id", "id", "edge-id", "dst", "dst-id", "lat", "lon", "_", "-", "true", "1", "null", "node-id", "lvl", "sc", "sc0", "sc1",
            "ignored", "inf", "~", "[", "{a}", "hours", "hours ", " hours", "h\\n",
        ]
        .iter()
        .map(|x| x.to_string())
        .collect();
        // long ones differing only at their ends
        for n in [20, 40, 70, 300] {
            v.push("long-".repeat(n / 5) + "a");
            v.push("long-".repeat(n / 5) + "b");
        }
        rng.shuffle(&mut v);
        Ids(v)
    }
    fn take(&mut self) -> String {
        self.0.pop().expect("more ids")
    }
}

#[derive(Debug)]
struct Spec {
    map_file: PathBuf,
    vehicles: Option<(&'static str, bool)>,
    nodes: Vec<Col>,
    normalize: Option<bool>,
    edges: Vec<Col>,
    generating: Option<(Vec<String>, Vec<Gen>)>,
    unused_id: String,
}

#[derive(Clone, Debug)]
enum Gen {
    Meta(&'static str, String),
    Custom(Option<&'static str>, String, Option<f64>),
    Haversine(&'static str, String),
    Merge(Option<bool>, String, Vec<Option<String>>),
}

fn metrics_of(cols: &[Col]) -> Vec<(&'static str, String)> {
    cols.iter()
        .filter_map(|c| match c {
            Col::Metric(u, id) => Some((*u, id.clone())),
            _ => None,
        })
        .collect()
}

fn gen_spec(ctx: &Ctx, rng: &mut Rng) -> Spec {
    let dim = defaults::capacity::SMALL_VEC_INLINE_SIZE;
    let mut ids = Ids::new(rng);
    let mut node_cols = vec![
        Col::Meta("NodeId", ids.take()),
        Col::Metric("Latitude", ids.take()),
        Col::Metric("Longitude", ids.take()),
    ];
    if rng.chance(1, 2) {
        node_cols.push(Col::Meta("CHLevel", ids.take()));
    }
    for _ in 0..rng.below(3) {
        node_cols.push(Col::Ignored);
    }
    rng.shuffle(&mut node_cols);
    let mut edge_cols = vec![Col::Meta("SrcId", ids.take()), Col::Meta("DstId", ids.take())];
    let with_id = rng.chance(1, 2);
    if with_id {
        edge_cols.push(Col::Meta("EdgeId", ids.take()));
    }
    if rng.chance(1, 4) {
        edge_cols.push(Col::Meta("ShortcutIdx0", ids.take()));
        edge_cols.push(Col::Meta("ShortcutIdx1", ids.take()));
    }
    let metrics = rng.range(0, dim);
    for _ in 0..metrics {
        let unit = *rng.pick(&UNITS);
        edge_cols.push(Col::Metric(unit, ids.take()));
    }
    for _ in 0..rng.below(3) {
        edge_cols.push(Col::Ignored);
    }
    rng.shuffle(&mut edge_cols);
    let mut left = dim - metrics;
    let generating = if rng.chance(1, 2) {
        let mut gens = Vec::new();
        for info in ["SrcIdx", "SrcLat", "SrcLon", "DstIdx", "DstLat", "DstLon"] {
            if rng.chance(1, 4) {
                gens.push(Gen::Meta(info, ids.take()));
            }
        }
        if !with_id && rng.chance(1, 2) {
            gens.push(Gen::Meta("EdgeId", ids.take()));
        }
        let wanted = rng.below(3);
        for _ in 0..wanted {
            if left > 0 {
                left -= 1;
                if rng.chance(1, 2) {
                    let unit = if rng.chance(1, 2) { Some(*rng.pick(&UNITS)) } else { None };
                    let default = match rng.below(3) {
                        0 => None,
                        1 => Some(rng.range(1, 9) as f64),
                        _ => Some(rng.range(1, 999) as f64 / 8.0),
                    };
                    gens.push(Gen::Custom(unit, ids.take(), default));
                } else {
                    let unit = "Kilometers";
                    gens.push(Gen::Haversine(unit, ids.take()));
                }
            }
        }
        rng.shuffle(&mut gens);
        let node_gens = if rng.chance(1, 2) { vec![ids.take()] } else { vec![] };
        Some((node_gens, gens))
    } else {
        None
    };
    Spec {
        map_file: ctx.path(*rng.pick(&["a.fmi", "b.FMI", "dir.with.dots.fmi"])),
        vehicles: if rng.chance(1, 2) {
            Some((*rng.pick(&["Car", "Bicycle", "Pedestrian"]), rng.chance(1, 2)))
        } else {
            None
        },
        nodes: node_cols,
        normalize: opt_bool(rng),
        edges: edge_cols,
        generating,
        unused_id: ids.take(),
    }
}

fn gen_y(g: &Gen) -> Y {
    match g {
        Gen::Meta(info, id) => m(vec![("meta", m(vec![("info", s(info)), ("id", s(id))]))]),
        Gen::Custom(unit, id, default) => {
            let mut y = m(vec![("id", s(id))]);
            if let Some(u) = unit {
                y.put("unit", s(u));
            }
            put_opt(&mut y, "default", default);
            m(vec![("custom", y)])
        }
        Gen::Haversine(unit, id) => m(vec![("haversine", m(vec![("unit", s(unit)), ("id", s(id))]))]),
        Gen::Merge(header, id, ids) => {
            let mut y = m(vec![("from", s("some/where.csv")), ("edge-id", s(id)), ("edges-info", ids_y(ids))]);
            put_opt(&mut y, "with_header-line", header);
            m(vec![("merge", y)])
        }
    }
}

fn parsing_y(sp: &Spec) -> Y {
    let mut edges = m(vec![("data", Y::L(sp.edges.iter().map(|c| c.y()).collect()))]);
    put_opt(&mut edges, "will_normalize_metrics_by_mean", &sp.normalize);
    let mut y = m(vec![
        ("map-file", s(&sp.map_file.display().to_string())),
        ("nodes", Y::L(sp.nodes.iter().map(|c| c.y()).collect())),
        ("edges", edges),
    ]);
    if let Some((cat, picky)) = sp.vehicles {
        y.put("vehicles", m(vec![("category", s(cat)), ("are_drivers_picky", r(picky))]));
    }
    if let Some((node_gens, gens)) = &sp.generating {
        y.put(
            "generating",
            m(vec![
                (
                    "nodes",
                    Y::L(node_gens
                        .iter()
                        .map(|id| m(vec![("meta", m(vec![("info", s("NodeIdx")), ("id", s(id))]))]))
                        .collect()),
                ),
                ("edges", Y::L(gens.iter().map(gen_y).collect())),
            ]),
        );
    }
    y
}

fn unit_name(u: &edges::metrics::UnitInfo) -> &'static str {
    use edges::metrics::UnitInfo::*;
    match u {
        Meters => "Meters",
        Kilometers => "Kilometers",
        Seconds => "Seconds",
        Minutes => "Minutes",
        Hours => "Hours",
        KilometersPerHour => "KilometersPerHour",
        LaneCount => "LaneCount",
        F64 => "F64",
    }
}
fn gen_unit_name(u: &generating::edges::metrics::UnitInfo) -> &'static str {
    unit_name(&edges::metrics::UnitInfo::from(*u))
}
fn info_name(i: &edges::MetaInfo) -> &'static str {
    use edges::MetaInfo::*;
    match i {
        EdgeId => "EdgeId",
        SrcId => "SrcId",
        SrcIdx => "SrcIdx",
        SrcLat => "SrcLat",
        SrcLon => "SrcLon",
        DstId => "DstId",
        DstIdx => "DstIdx",
        DstLat => "DstLat",
        DstLon => "DstLon",
        ShortcutIdx0 => "ShortcutIdx0",
        ShortcutIdx1 => "ShortcutIdx1",
    }
}

fn check_parsing(sp: &Spec, c: &configs::parsing::Config) -> Check {
    ensure!(c.map_file == sp.map_file, "map-file {:?} became {:?}", sp.map_file, c.map_file);
    let (cat, picky) = sp.vehicles.unwrap_or(("Car", true));
    let got = match c.vehicles.category {
        vehicles::Category::Car => "Car",
        vehicles::Category::Bicycle => "Bicycle",
        vehicles::Category::Pedestrian => "Pedestrian",
    };
    ensure!(got == cat && c.vehicles.are_drivers_picky == picky,
        "vehicles {:?} became {} {}", sp.vehicles, got, c.vehicles.are_drivers_picky);
    let got: Vec<Col> = c
        .nodes
        .categories
        .iter()
        .map(|x| match x {
            nodes::Category::Meta { info, id } => Col::Meta(
                match info {
                    nodes::MetaInfo::NodeId => "NodeId",
                    nodes::MetaInfo::NodeIdx => "NodeIdx",
                    nodes::MetaInfo::CHLevel => "CHLevel",
                },
                id.0.clone(),
            ),
            nodes::Category::Metric { unit, id } => Col::Metric(
                match unit {
                    nodes::metrics::UnitInfo::Latitude => "Latitude",
                    nodes::metrics::UnitInfo::Longitude => "Longitude",
                    nodes::metrics::UnitInfo::Height => "Height",
                },
                id.0.clone(),
            ),
            nodes::Category::Ignored => Col::Ignored,
        })
        .collect();
    ensure!(got == sp.nodes, "node-columns {:?} became {:?}", sp.nodes, got);
    let got: Vec<Col> = c
        .edges
        .categories
        .iter()
        .map(|x| match x {
            edges::Category::Meta { info, id } => Col::Meta(info_name(info), id.0.clone()),
            edges::Category::Metric { unit, id } => Col::Metric(unit_name(unit), id.0.clone()),
            edges::Category::Ignored => Col::Ignored,
        })
        .collect();
    ensure!(got == sp.edges, "edge-columns {:?} became {:?}", sp.edges, got);
    ensure!(c.edges.metrics.are_normalized == sp.normalize.unwrap_or(false),
        "normalize {:?} became {}", sp.normalize, c.edges.metrics.are_normalized);
    let want = metrics_of(&sp.edges);
    let got: Vec<(&str, String)> = c
        .edges
        .metrics
        .units
        .iter()
        .zip(c.edges.metrics.ids.iter())
        .map(|(u, id)| (unit_name(u), id.0.clone()))
        .collect();
    ensure!(got == want && c.edges.metrics.units.len() == want.len() && c.edges.metrics.ids.len() == want.len(),
        "metrics {:?} became {:?}", want, got);
    for (i, (_, id)) in want.iter().enumerate() {
        let idx = guard("looking up a metric panicked", || c.edges.metrics.try_idx_of(id))?;
        match idx {
            Ok(idx) => ensure!(*idx == i, "metric {:?} is looked up at {} instead of {}", id, *idx, i),
            Err(e) => viol!("metric {:?} isn't found: {}", id, e),
        }
    }
    ensure!(c.edges.metrics.try_idx_of(&sp.unused_id).is_err(), "unknown metric {:?} is found", sp.unused_id);
    match (&sp.generating, &c.generating) {
        (None, None) => (),
        (Some((node_gens, gens)), Some(g)) => {
            let got: Vec<&str> = g
                .nodes
                .categories
                .iter()
                .map(|x| match x {
                    generating::nodes::Category::Meta { info: _, id } => id.0.as_ref(),
                })
                .collect();
            ensure!(got == *node_gens, "generated node-data {:?} became {:?}", node_gens, got);
            ensure!(g.edges.categories.len() == gens.len(), "{:?} became {:?}", gens, g.edges.categories);
            for (want, got) in gens.iter().zip(&g.edges.categories) {
                use generating::edges::Category as C;
                let ok = match (want, got) {
                    (Gen::Meta(info, id), C::Meta { info: i, id: d }) => {
                        *info == info_name(&edges::MetaInfo::from(*i)) && *id == d.0
                    }
                    (Gen::Custom(unit, id, default), C::Custom { unit: u, id: d, default: x }) => {
                        unit.unwrap_or("F64") == gen_unit_name(u) && *id == d.0 && default.unwrap_or(0.0) == *x
                    }
                    (Gen::Haversine(unit, id), C::Haversine { unit: u, id: d }) => {
                        *unit == gen_unit_name(u) && *id == d.0
                    }
                    (
                        Gen::Merge(header, id, ids),
                        C::Merge { from, is_file_with_header, edge_id, edges_info },
                    ) => {
                        let got: Vec<Option<String>> = edges_info
                            .iter()
                            .map(|x| match x {
                                generating::edges::merge::Category::Id(id) => Some(id.0.clone()),
                                generating::edges::merge::Category::Ignored => None,
                            })
                            .collect();
                        *from == PathBuf::from("some/where.csv")
                            && *is_file_with_header == header.unwrap_or(true)
                            && *id == edge_id.0
                            && got == *ids
                    }
                    _ => false,
                };
                ensure!(ok, "generating {:?} became {:?}", want, got);
            }
        }
        (want, got) => viol!("generating {:?} became {:?}", want, got),
    }
    Ok(())
}

/// A map with three nodes and edges in the columns of the config.
fn map_text(nodes: &[Col], edges: &[Col]) -> String {
    let mut t = String::from("3\n3\n");
    for i in 0..3 {
        let cols: Vec<String> = nodes
            .iter()
            .map(|c| match c {
                Col::Meta("NodeId", _) => format!("{}", 10 + i),
                Col::Meta(_, _) => "0".to_owned(),
                Col::Metric(_, _) => format!("{}.5", i),
                Col::Ignored => "zzz".to_owned(),
            })
            .collect();
        t.push_str(&cols.join(" "));
        t.push('\n');
    }
    for i in 0..3 {
        let cols: Vec<String> = edges
            .iter()
            .map(|c| match c {
                Col::Meta("SrcId", _) => format!("{}", 10 + i),
                Col::Meta("DstId", _) => format!("{}", 10 + (i + 1) % 3),
                Col::Meta("EdgeId", _) => format!("{}", 70 + i),
                Col::Meta(_, _) => "-1".to_owned(),
                Col::Metric(_, _) => format!("{}.25", i + 1),
                Col::Ignored => "zzz".to_owned(),
            })
            .collect();
        t.push_str(&cols.join(" "));
        t.push('\n');
    }
    t
}

//------------------------------------------------------------------------------------------------//

#[derive(Debug)]
struct Routing {
    file: Option<String>,
    algo: &'static str,
    /// id, alpha, tolerated-scale as text, its value
    entries: Vec<(String, Option<f64>, Option<(Y, f64)>)>,
}

fn gen_routing(sp: &Spec, rng: &mut Rng) -> Routing {
    let mut ids: Vec<String> = metrics_of(&sp.edges).into_iter().map(|x| x.1).collect();
    rng.shuffle(&mut ids);
    let keep = rng.range(0, ids.len());
    ids.truncate(keep);
    Routing {
        file: if rng.chance(1, 2) { Some((*rng.pick(&["x.route-pairs", "a b/c.route-pairs"])).to_owned()) } else { None },
        algo: {
            #[cfg(feature = "gpl")]
            let a = *rng.pick(&["Dijkstra", "CHDijkstra", "Explorator/Dijkstra", "Explorator/CHDijkstra"]);
            #[cfg(not(feature = "gpl"))]
            let a = *rng.pick(&["Dijkstra", "CHDijkstra"]);
            a
        },
        entries: ids
            .into_iter()
            .map(|id| {
                let alpha = match rng.below(4) {
                    0 => None,
                    1 => Some(0.0),
                    2 => Some(rng.range(1, 400) as f64),
                    _ => Some(rng.range(1, 4000) as f64 / 16.0),
                };
                let tol = match rng.below(5) {
                    0 | 1 => None,
                    2 => Some((s(*rng.pick(&["inf", "INF", "Inf", "infinity", "Infinity"])), f64::INFINITY)),
                    3 => {
                        let x = rng.range(8, 40) as f64 / 8.0;
                        Some((r(x), x))
                    }
                    _ => {
                        let x = rng.range(8, 40) as f64 / 8.0;
                        Some((s(&x.to_string()), x))
                    }
                };
                (id, alpha, tol)
            })
            .collect(),
    }
}

fn routing_y(ro: &Routing) -> Y {
    let algo = match ro.algo.split_once('/') {
        Some((_, a)) => m(vec![("Explorator", m(vec![("algo", s(a))]))]),
        None => s(ro.algo),
    };
    let mut y = m(vec![
        ("algorithm", algo),
        (
            "metrics",
            Y::L(ro
                .entries
                .iter()
                .map(|(id, alpha, tol)| {
                    let mut e = m(vec![("id", s(id))]);
                    put_opt(&mut e, "alpha", alpha);
                    if let Some((t, _)) = tol {
                        e.put("tolerated-scale", t.clone());
                    }
                    e
                })
                .collect()),
        ),
    ]);
    if let Some(f) = &ro.file {
        y.put("route-pairs-file", s(f));
    }
    y
}

fn check_routing(sp: &Spec, ro: &Routing, c: &configs::routing::Config) -> Check {
    use configs::routing::RoutingAlgo as A;
    ensure!(c.route_pairs_file == ro.file.as_ref().map(PathBuf::from), "route-pairs-file {:?} became {:?}", ro.file, c.route_pairs_file);
    let algo = match c.routing_algo {
        A::Dijkstra => "Dijkstra",
        A::CHDijkstra => "CHDijkstra",
        #[cfg(feature = "gpl")]
        A::Explorator { algo: configs::routing::ExploratorAlgo::Dijkstra } => "Explorator/Dijkstra",
        #[cfg(feature = "gpl")]
        A::Explorator { algo: configs::routing::ExploratorAlgo::CHDijkstra } => "Explorator/CHDijkstra",
    };
    ensure!(algo == ro.algo, "algorithm {} became {}", ro.algo, algo);
    let mut alphas = Vec::new();
    let mut tols = Vec::new();
    for (_, id) in metrics_of(&sp.edges) {
        match ro.entries.iter().find(|e| e.0 == id) {
            Some((_, a, t)) => {
                alphas.push(a.unwrap_or(1.0));
                tols.push(t.as_ref().map_or(f64::INFINITY, |t| t.1));
            }
            None => {
                alphas.push(0.0);
                tols.push(f64::INFINITY);
            }
        }
    }
    ensure!(c.alphas.to_vec() == alphas, "weights {:?} of {:?} became {:?}", alphas, ro.entries, c.alphas);
    ensure!(c.tolerated_scales.to_vec() == tols, "tolerances {:?} of {:?} became {:?}", tols, ro.entries, c.tolerated_scales);
    Ok(())
}

//------------------------------------------------------------------------------------------------//

#[derive(Debug)]
pub struct EdgesInfo {
    file: String,
    shortcuts: Option<bool>,
    denormalize: Option<bool>,
    ids: Vec<Option<String>>,
}

/// Seeds are numbers of 64 bits, and every one of them has to arrive.
fn any_seed(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => rng.next(),
        1 => rng.next() >> rng.below(64),
        2 => u64::MAX - rng.next() % 3,
        3 => u32::MAX as u64 - 1 + rng.next() % 4,
        _ => rng.next() % 1_000_000,
    }
}

fn gen_id_list(rng: &mut Rng, known: &[String]) -> Vec<Option<String>> {
    let n = rng.range(1, 6);
    (0..n)
        .map(|_| if rng.chance(1, 5) || known.is_empty() { None } else { Some(rng.pick(known).clone()) })
        .collect()
}

fn gen_edges_info(rng: &mut Rng, known: &[String], file: String) -> EdgesInfo {
    EdgesInfo { file, shortcuts: opt_bool(rng), denormalize: opt_bool(rng), ids: gen_id_list(rng, known) }
}

fn edges_info_y(e: &EdgesInfo, with_file: bool) -> Y {
    let mut y = m(vec![("ids", ids_y(&e.ids))]);
    if with_file {
        y.put("file", s(&e.file));
    }
    put_opt(&mut y, "with_shortcuts", &e.shortcuts);
    put_opt(&mut y, "will_denormalize_metrics_by_mean", &e.denormalize);
    y
}

fn plain(ids: &[Option<SimpleId>]) -> Vec<Option<String>> {
    ids.iter().map(|x| x.as_ref().map(|x| x.0.clone())).collect()
}

fn check_edges_info(e: &EdgesInfo, c: &configs::writing::network::edges::Config, header: bool) -> Check {
    ensure!(c.file == PathBuf::from(&e.file), "file {:?} became {:?}", e.file, c.file);
    ensure!(c.is_writing_shortcuts == e.shortcuts.unwrap_or(false), "with_shortcuts {:?} became {}", e.shortcuts, c.is_writing_shortcuts);
    ensure!(c.is_denormalizing == e.denormalize.unwrap_or(false), "will_denormalize {:?} became {}", e.denormalize, c.is_denormalizing);
    ensure!(c.is_writing_header == header, "the header-flag is {}", c.is_writing_header);
    ensure!(plain(&c.ids) == e.ids, "columns {:?} became {:?}", e.ids, c.ids);
    Ok(())
}

//------------------------------------------------------------------------------------------------//

#[cfg(feature = "gpl")]
mod gpl {
    use super::*;
    use configs::{balancing, evaluating_balance};

    #[derive(Debug)]
    pub struct Monitoring {
        pub info: EdgesInfo,
        pub smarts: Option<bool>,
    }
    #[derive(Debug)]
    pub struct Balancing {
        pub seed: Option<u64>,
        pub threads: Option<usize>,
        pub updates: usize,
        pub metric: String,
        pub correction: Option<f64>,
        pub min: Option<f64>,
        pub throw: Option<bool>,
        pub mon: Monitoring,
        pub ratio: Option<String>,
        pub ch_threads: Option<usize>,
        pub dim: usize,
        pub osm_ids: bool,
        pub ext_ids: bool,
        pub accuracy: Option<f64>,
    }
    #[derive(Debug)]
    pub struct Evaluating {
        pub seed: Option<u64>,
        pub threads: Option<usize>,
        pub mon: Monitoring,
    }

    fn opt<T>(rng: &mut Rng, x: T) -> Option<T> {
        if rng.chance(1, 2) {
            Some(x)
        } else {
            None
        }
    }

    pub fn gen_monitoring(rng: &mut Rng, known: &[String]) -> Monitoring {
        let info = gen_edges_info(rng, known, "edges-info.csv".to_owned());
        Monitoring { info, smarts: opt_bool(rng) }
    }

    pub fn gen_balancing(rng: &mut Rng, known: &[String]) -> Balancing {
        let (a, b, c, d, e) = (any_seed(rng), rng.range(1, 64), rng.range(1, 100), rng.range(1, 16), rng.range(1, 9));
        let mon = gen_monitoring(rng, known);
        Balancing {
            seed: opt(rng, a),
            threads: opt(rng, b),
            updates: rng.below(9),
            metric: "workload".to_owned(),
            correction: opt(rng, c as f64 / 64.0),
            min: opt(rng, c as f64 / 128.0),
            throw: opt_bool(rng),
            mon,
            ratio: opt(rng, format!("{}.5", c)),
            ch_threads: opt(rng, d),
            dim: e,
            osm_ids: rng.chance(1, 2),
            ext_ids: rng.chance(1, 2),
            accuracy: opt(rng, 1.0 / 1024.0),
        }
    }

    pub fn monitoring_y(mo: &Monitoring) -> Y {
        let mut y = m(vec![("edges-info", edges_info_y(&mo.info, true))]);
        put_opt(&mut y, "export_vehicles_for_SMARTS", &mo.smarts);
        y
    }

    pub fn balancing_y(b: &Balancing) -> Y {
        let mut ch = m(vec![
            ("fmi-graph", s("the graph.fmi")),
            ("contracted-graph", s("the graph.ch.fmi")),
            ("dimension", r(b.dim)),
            ("is_printing_osm-ids", r(b.osm_ids)),
            ("is_using_external_edge-ids", r(b.ext_ids)),
        ]);
        if let Some(x) = &b.ratio {
            ch.put("contraction-ratio", s(x));
        }
        put_opt(&mut ch, "number_of_threads", &b.ch_threads);
        put_opt(&mut ch, "cost-accuracy", &b.accuracy);
        let method = match b.correction {
            Some(x) => m(vec![("explicit_euler", m(vec![("correction", r(x))]))]),
            None => s("averaging"),
        };
        let mut y = m(vec![
            ("results-dir", s("some/results")),
            ("iter-0-cfg", s("first.yaml")),
            ("iter-i-cfg", s("then.yaml")),
            ("optimizing_with", m(vec![("metric-id", s(&b.metric)), ("method", method)])),
            ("number_of_metric-updates", r(b.updates)),
            ("multi-ch-constructor", ch),
            ("monitoring", monitoring_y(&b.mon)),
        ]);
        put_opt(&mut y, "seed", &b.seed);
        put_opt(&mut y, "number_of_threads", &b.threads);
        put_opt(&mut y, "min_new_metric", &b.min);
        put_opt(&mut y, "throw_err_when_new_metric_is_zero", &b.throw);
        y
    }

    fn check_monitoring(mo: &Monitoring, c: &balancing::MonitoringConfig) -> Check {
        check_edges_info(&mo.info, &c.edges_info, true)?;
        ensure!(c.is_writing_for_smarts == mo.smarts.unwrap_or(false), "SMARTS-flag {:?} became {}", mo.smarts, c.is_writing_for_smarts);
        Ok(())
    }

    pub fn check_balancing(b: &Balancing, c: &balancing::Config) -> Check {
        ensure!(c.seed == b.seed.unwrap_or(42), "seed {:?} became {}", b.seed, c.seed);
        ensure!(c.num_threads == b.threads.unwrap_or(4), "threads {:?} became {}", b.threads, c.num_threads);
        ensure!(c.num_iter == b.updates + 1, "{} metric-updates became {} iterations", b.updates, c.num_iter);
        ensure!(c.optimization.metric_id.0 == b.metric, "metric {:?} became {:?}", b.metric, c.optimization.metric_id);
        let method = match c.optimization.method {
            balancing::OptimizationMethod::ExplicitEuler { correction } => Some(correction),
            balancing::OptimizationMethod::Averaging => None,
        };
        ensure!(method == b.correction, "method {:?} became {:?}", b.correction, c.optimization.method);
        ensure!(c.min_new_metric == b.min, "minimum {:?} became {:?}", b.min, c.min_new_metric);
        ensure!(c.is_err_when_metric_is_zero == b.throw.unwrap_or(true), "throw {:?} became {}", b.throw, c.is_err_when_metric_is_zero);
        ensure!(c.results_dir == PathBuf::from("some/results"), "results-dir became {:?}", c.results_dir);
        ensure!(c.iter_0_cfg == PathBuf::from("first.yaml"), "iter-0-cfg became {:?}", c.iter_0_cfg);
        ensure!(c.iter_i_cfg == PathBuf::from("then.yaml"), "iter-i-cfg became {:?}", c.iter_i_cfg);
        let ch = &c.multi_ch_constructor;
        ensure!(
            ch.fmi_graph == PathBuf::from("the graph.fmi")
                && ch.ch_fmi_graph == PathBuf::from("the graph.ch.fmi")
                && ch.dim == b.dim
                && ch.is_printing_osm_ids == b.osm_ids
                && ch.is_using_external_edge_ids == b.ext_ids
                && ch.contraction_ratio == b.ratio.clone().unwrap_or_else(|| "99.8".to_owned())
                && ch.num_threads == b.ch_threads.unwrap_or(4)
                && b.accuracy.map_or(true, |x| x == ch.cost_accuracy),
            "multi-ch-constructor of {:?} became {:?}", b, ch
        );
        check_monitoring(&b.mon, &c.monitoring)
    }

    pub fn gen_evaluating(rng: &mut Rng, known: &[String]) -> Evaluating {
        let (a, b) = (any_seed(rng), rng.range(1, 64));
        let mon = gen_monitoring(rng, known);
        Evaluating { seed: opt(rng, a), threads: opt(rng, b), mon }
    }

    pub fn evaluating_y(e: &Evaluating) -> Y {
        let mut y = m(vec![("results-dir", s("some/results")), ("monitoring", monitoring_y(&e.mon))]);
        put_opt(&mut y, "seed", &e.seed);
        put_opt(&mut y, "number_of_threads", &e.threads);
        y
    }

    pub fn check_evaluating(e: &Evaluating, c: &evaluating_balance::Config) -> Check {
        ensure!(c.seed == e.seed.unwrap_or(42), "seed {:?} became {}", e.seed, c.seed);
        ensure!(c.num_threads == e.threads.unwrap_or(4), "threads {:?} became {}", e.threads, c.num_threads);
        ensure!(c.results_dir == PathBuf::from("some/results"), "results-dir became {:?}", c.results_dir);
        check_monitoring(&e.mon, &c.monitoring)
    }
}

//------------------------------------------------------------------------------------------------//

#[derive(Clone, Copy, Debug, PartialEq)]
enum Section {
    Parsing,
    Routing,
    EdgesInfo,
    Graph,
    RoutePairs,
    Balancing,
    Evaluating,
}

/// Does something wrong to the named section, whose config has to be refused.
fn spoil(rng: &mut Rng, y: &mut Y, sp: &Spec, section: Section) -> String {
    let bad_key = *rng.pick(&["foo", "Seed", "max-count", "id", "data", "metrics_", "map_file", "with-shortcuts", "alphas", "tolerated_scale", "comment"]);
    let base: &[&str] = match section {
        Section::Parsing => &["parsing"],
        Section::Routing => &["routing"],
        Section::EdgesInfo => &["writing", "edges-info"],
        Section::Graph => &["writing", "graph"],
        Section::RoutePairs => &["writing", "route-pairs"],
        Section::Balancing => &["balancing"],
        Section::Evaluating => &["evaluating_balance"],
    };
    // where unknown keys are possible
    let mut maps: Vec<Vec<&str>> = vec![base.to_vec()];
    let mut required: Vec<(Vec<&str>, &str)> = Vec::new();
    // values, which have no meaning
    let mut values: Vec<(Vec<&str>, &str, Y)> = Vec::new();
    let sub = |x: &[&'static str]| -> Vec<&str> { [base, x].concat() };
    match section {
        Section::Parsing => {
            maps.push(sub(&["edges"]));
            for k in ["map-file", "nodes", "edges"] {
                required.push((base.to_vec(), k));
            }
            required.push((sub(&["edges"]), "data"));
            values.push((sub(&["edges"]), "will_normalize_metrics_by_mean", s("maybe")));
            values.push((sub(&["edges"]), "data", s("none")));
            values.push((base.to_vec(), "nodes", m(vec![("NodeId", s("x"))])));
            values.push((base.to_vec(), "map-file", s("map.osm")));
            values.push((base.to_vec(), "map-file", s("map")));
            if sp.vehicles.is_some() {
                maps.push(sub(&["vehicles"]));
                required.push((sub(&["vehicles"]), "category"));
                required.push((sub(&["vehicles"]), "are_drivers_picky"));
                values.push((sub(&["vehicles"]), "category", s("Truck")));
                values.push((sub(&["vehicles"]), "category", s("car")));
                values.push((sub(&["vehicles"]), "are_drivers_picky", r(3)));
            }
            if sp.generating.is_some() {
                maps.push(sub(&["generating"]));
                values.push((sub(&["generating"]), "edges", s("all")));
            }
        }
        Section::Routing => {
            if let Y::M(_) = y.at(&["routing", "algorithm"]) {
                maps.push(sub(&["algorithm", "Explorator"]));
                required.push((sub(&["algorithm", "Explorator"]), "algo"));
                values.push((sub(&["algorithm", "Explorator"]), "algo", s("Explorator")));
            }
            required.push((base.to_vec(), "algorithm"));
            required.push((base.to_vec(), "metrics"));
            values.push((base.to_vec(), "algorithm", s("AStar")));
            values.push((base.to_vec(), "algorithm", s("dijkstra")));
            values.push((base.to_vec(), "metrics", s("all")));
            values.push((base.to_vec(), "metrics", Y::L(vec![m(vec![("id", s(&sp.unused_id))])])));
            values.push((base.to_vec(), "metrics", Y::L(vec![m(vec![("alpha", r(1.5))])])));
        }
        Section::EdgesInfo => {
            required.push((base.to_vec(), "file"));
            required.push((base.to_vec(), "ids"));
            values.push((base.to_vec(), "file", s("edges.txt")));
            values.push((base.to_vec(), "with_shortcuts", s("no shortcuts")));
            values.push((base.to_vec(), "will_denormalize_metrics_by_mean", r(7)));
            values.push((base.to_vec(), "ids", Y::L(vec![m(vec![("name", s("x"))])])));
            values.push((base.to_vec(), "ids", Y::L(vec![s("ignore")])));
        }
        Section::Graph => {
            maps.push(sub(&["edges"]));
            for k in ["map-file", "nodes", "edges"] {
                required.push((base.to_vec(), k));
            }
            required.push((sub(&["edges"]), "ids"));
            values.push((base.to_vec(), "map-file", s("map.csv")));
            values.push((base.to_vec(), "nodes", Y::L(vec![s("ignore")])));
            values.push((sub(&["edges"]), "with_shortcuts", s("sometimes")));
            values.push((sub(&["edges"]), "ids", Y::L(vec![m(vec![("name", s("x"))])])));
        }
        Section::RoutePairs => {
            required.push((base.to_vec(), "file"));
            required.push((base.to_vec(), "random_or_all"));
            required.push((sub(&["random_or_all"]), "max_count"));
            maps.push(sub(&["random_or_all"]));
            values.push((base.to_vec(), "file", s("routes.csv")));
            values.push((sub(&["random_or_all"]), "max_count", r(-3)));
            values.push((sub(&["random_or_all"]), "max_count", s("many")));
            values.push((sub(&["random_or_all"]), "seed", r(-1)));
        }
        Section::Balancing => {
            for k in ["results-dir", "iter-0-cfg", "iter-i-cfg", "optimizing_with", "number_of_metric-updates", "multi-ch-constructor", "monitoring"] {
                required.push((base.to_vec(), k));
            }
            maps.push(sub(&["optimizing_with"]));
            if let Y::M(_) = y.at(&["balancing", "optimizing_with", "method"]) {
                let at = sub(&["optimizing_with", "method", "explicit_euler"]);
                maps.push(at.clone());
                required.push((at.clone(), "correction"));
                values.push((at, "correction", s("half")));
            }
            maps.push(sub(&["multi-ch-constructor"]));
            maps.push(sub(&["monitoring"]));
            maps.push(sub(&["monitoring", "edges-info"]));
            required.push((sub(&["optimizing_with"]), "metric-id"));
            required.push((sub(&["optimizing_with"]), "method"));
            values.push((sub(&["optimizing_with"]), "method", s("euler")));
            values.push((base.to_vec(), "number_of_metric-updates", r(-1)));
            values.push((base.to_vec(), "number_of_threads", r(-1)));
            values.push((base.to_vec(), "min_new_metric", s("low")));
            values.push((sub(&["multi-ch-constructor"]), "dimension", s("many")));
            values.push((sub(&["monitoring"]), "export_vehicles_for_SMARTS", r(5)));
        }
        Section::Evaluating => {
            required.push((base.to_vec(), "results-dir"));
            required.push((base.to_vec(), "monitoring"));
            maps.push(sub(&["monitoring"]));
            maps.push(sub(&["monitoring", "edges-info"]));
            values.push((base.to_vec(), "number_of_threads", r(-1)));
            values.push((base.to_vec(), "seed", s("random")));
        }
    }
    match rng.below(4) {
        0 => {
            let at = rng.pick(&maps).clone();
            let target = y.at(&at);
            if target.map().iter().any(|(k, _)| k == bad_key) {
                target.put("fooo", r(1));
            } else {
                target.put(bad_key, r(1));
            }
            format!("unknown key in {:?}", at)
        }
        1 => {
            let (at, k) = rng.pick(&required).clone();
            y.at(&at).remove(k);
            format!("missing {} in {:?}", k, at)
        }
        2 => {
            let (at, k, v) = rng.pick(&values).clone();
            let target = y.at(&at);
            target.remove(k);
            target.put(k, v.clone());
            format!("{:?} {} is {:?}", at, k, v)
        }
        _ => match section {
            // unknown keys, names and duplicates in lists
            Section::Parsing => {
                let which = rng.below(9);
                match which {
                    8 => {
                        // data generated for nodes
                        let mut gen = m(vec![("info", s("NodeIdx")), ("id", s("new"))]);
                        match rng.below(4) {
                            0 => gen.put(bad_key_or(bad_key, "id"), r(1)),
                            1 => gen.remove("id"),
                            2 => gen.remove("info"),
                            _ => {
                                gen.remove("info");
                                gen.put("info", s(*rng.pick(&["NodeId", "nodeidx", "SrcIdx", "CHLevel"])));
                            }
                        }
                        gen.shuffle(rng);
                        let text = format!("{:?}", gen);
                        if sp.generating.is_none() {
                            y.at(&["parsing"]).put("generating", m(vec![("nodes", Y::L(vec![])), ("edges", Y::L(vec![]))]));
                        }
                        y.at(&["parsing", "generating", "nodes"]).list().push(m(vec![("meta", gen)]));
                        text
                    }
                    6 => {
                        // one key too much
                        let path: &[&str] = if rng.chance(1, 2) { &["parsing", "nodes"] } else { &["parsing", "edges", "data"] };
                        let list = y.at(path).list();
                        let maps: Vec<usize> = (0..list.len()).filter(|i| matches!(list[*i], Y::M(_))).collect();
                        let i = *rng.pick(&maps);
                        list[i].map()[0].1.put("comment", r(1));
                        format!("unknown key in column {} of {:?}", i, path)
                    }
                    7 => {
                        let (unit, unit2) = (*rng.pick(&UNITS), *rng.pick(&UNITS));
                        let mut side = m(vec![("unit", s(unit)), ("id", s("a"))]);
                        let mut gen = match rng.below(10) {
                            6 => m(vec![("meta", m(vec![("info", s("SrcIdx")), ("id", s("new")), ("unit", s(unit))]))]),
                            7 => m(vec![("haversine", m(vec![("unit", s("Kilometers")), ("id", s("new")), ("default", r(1.5))]))]),
                            8 => m(vec![("haversine", m(vec![("unit", s("Kilometers"))]))]),
                            9 => m(vec![("merge", m(vec![("from", s("x.csv")), ("edge-id", s("e")), ("edges-info", ids_y(&[None])), ("is_file_with_header", r(false)), ("id", s("x"))]))]),
                            0 => m(vec![("custom", m(vec![("id", s("new")), ("defualt", r(1.5))]))]),
                            1 => m(vec![("custom", m(vec![("default", r(1.5))]))]),
                            2 => {
                                side.put("default", r(1.5));
                                m(vec![("copy", m(vec![("from", side), ("to", m(vec![("unit", s(unit2)), ("id", s("b"))]))]))])
                            }
                            3 => m(vec![("convert", m(vec![("from", side)]))]),
                            4 => m(vec![("merge", m(vec![("from", s("x.csv")), ("edge-id", s("e")), ("edges-info", ids_y(&[None])), ("with_header", r(false))]))]),
                            _ => m(vec![("median", m(vec![("unit", s(unit)), ("id", s("b"))]))]),
                        };
                        gen.shuffle(rng);
                        let text = format!("{:?}", gen);
                        if sp.generating.is_none() {
                            y.at(&["parsing"]).put("generating", m(vec![("nodes", Y::L(vec![])), ("edges", Y::L(vec![]))]));
                        }
                        y.at(&["parsing", "generating", "edges"]).list().push(gen);
                        text
                    }
                    0 | 1 => {
                        // any two edge-columns with the same id
                        let ids: Vec<usize> = (0..sp.edges.len()).filter(|i| sp.edges[*i] != Col::Ignored).collect();
                        let a = *rng.pick(&ids);
                        let b = *rng.pick(&ids);
                        let b = if a == b { ids[(ids.iter().position(|x| *x == a).unwrap() + 1) % ids.len()] } else { b };
                        let id = match &sp.edges[a] {
                            Col::Meta(_, id) | Col::Metric(_, id) => id.clone(),
                            Col::Ignored => unreachable!(),
                        };
                        let mut cols = sp.edges.clone();
                        match &mut cols[b] {
                            Col::Meta(_, x) | Col::Metric(_, x) => *x = id,
                            Col::Ignored => unreachable!(),
                        }
                        *y.at(&["parsing", "edges", "data"]) = Y::L(cols.iter().map(|c| c.y()).collect());
                        "duplicate edge-id".to_owned()
                    }
                    2 => {
                        let u = *rng.pick(&["Miles", "meters", "", "SrcId"]);
                        y.at(&["parsing", "edges", "data"]).list().push(m(vec![("metric", m(vec![("unit", s(u)), ("id", s("new"))]))]));
                        format!("unknown unit {:?}", u)
                    }
                    3 => {
                        let u = *rng.pick(&["SrcLat", "Idx", "srcid", "Meters", "NodeId"]);
                        y.at(&["parsing", "edges", "data"]).list().push(m(vec![("meta", m(vec![("info", s(u)), ("id", s("new"))]))]));
                        format!("unknown edge-info {:?}", u)
                    }
                    4 => {
                        let u = *rng.pick(&["Latitude", "Idx", "nodeid", "EdgeId"]);
                        y.at(&["parsing", "nodes"]).list().push(m(vec![("meta", m(vec![("info", s(u)), ("id", s("new"))]))]));
                        format!("unknown node-info {:?}", u)
                    }
                    _ => {
                        let which = *rng.pick(&["nodes", "edges"]);
                        let path: &[&str] = if which == "nodes" { &["parsing", "nodes"] } else { &["parsing", "edges", "data"] };
                        let list = y.at(path).list();
                        let i = rng.below(list.len());
                        if let Y::M(v) = &mut list[i] {
                            if rng.chance(1, 2) {
                                // the id or info is missing
                                let key = v[0].1.map()[rng.below(2)].0.clone();
                                v[0].1.remove(&key);
                            } else {
                                v[0].0 = (*rng.pick(&["Meta", "metrics", "column"])).to_owned();
                            }
                        } else {
                            list[i] = s("Ignored");
                        }
                        format!("wrong column {} of {}", i, which)
                    }
                }
            }
            Section::Routing => {
                let list = y.at(&["routing", "metrics"]).list();
                if list.is_empty() {
                    list.push(m(vec![("id", s(&sp.unused_id))]));
                }
                let i = rng.below(list.len());
                match rng.below(4) {
                    0 => list[i].put(bad_key_or(bad_key, "id"), r(1)),
                    1 => {
                        list[i].remove("id");
                        list[i].put("id", s(&sp.unused_id));
                    }
                    2 => {
                        list[i].remove("alpha");
                        list[i].put("alpha", s("much"));
                    }
                    _ => {
                        list[i].remove("tolerated-scale");
                        list[i].put("tolerated-scale", s(*rng.pick(&["much", "", "1,5", "infinite"])));
                    }
                }
                format!("wrong entry {}", i)
            }
            _ => {
                let at = maps[0].clone();
                let dup = {
                    let v = y.at(&at).map();
                    let i = rng.below(v.len());
                    v[i].clone()
                };
                y.at(&at).put(&dup.0, dup.1);
                format!("key {} twice in {:?}", dup.0, at)
            }
        },
    }
}

fn bad_key_or<'a>(key: &'a str, not: &str) -> &'a str {
    if key == not {
        "iid"
    } else {
        key
    }
}

pub fn c01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    match rng.below(8) {
        0 => columns(ctx, rng),
        1 => files(ctx, rng),
        _ => sections(ctx, rng),
    }
}

/// Many sections in one file; at most one of them is spoiled.
fn sections(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut sp = gen_spec(ctx, rng);
    if let Some((_, gens)) = &mut sp.generating {
        if rng.chance(1, 3) {
            let ids = gen_id_list(rng, &["edge-id".to_owned(), "workload".to_owned()]);
            gens.push(Gen::Merge(opt_bool(rng), "edge-id".to_owned(), ids));
        }
    }
    let known: Vec<String> = sp
        .edges
        .iter()
        .filter_map(|c| match c {
            Col::Meta(_, id) | Col::Metric(_, id) => Some(id.clone()),
            Col::Ignored => None,
        })
        .collect();
    let ro = gen_routing(&sp, rng);
    let csv = (*rng.pick(&["edges.csv", "some where/edges.CSV"])).to_owned();
    let ei = gen_edges_info(rng, &known, csv);
    let fmi = (*rng.pick(&["out.fmi", "some where/out.ch.fmi"])).to_owned();
    let gr = gen_edges_info(rng, &known, fmi);
    let gr_nodes = gen_id_list(rng, &["a".to_owned(), "b".to_owned(), "A".to_owned()]);
    let seed = any_seed(rng);
    let count = match rng.below(4) {
        0 => (any_seed(rng) >> 1) as usize,
        _ => rng.below(1_000_000),
    };
    let seed = if rng.chance(1, 2) { Some(seed) } else { None };

    let mut graph_y = m(vec![
        ("map-file", s(&gr.file)),
        ("nodes", ids_y(&gr_nodes)),
        ("edges", edges_info_y(&gr, false)),
    ]);
    graph_y.shuffle(rng);
    let mut pairs = m(vec![("max_count", r(count))]);
    put_opt(&mut pairs, "seed", &seed);
    let writing = m(vec![
        ("graph", graph_y),
        ("edges-info", edges_info_y(&ei, true)),
        ("route-pairs", m(vec![("file", s("some/x.route-pairs")), ("random_or_all", pairs)])),
    ]);
    let mut y = m(vec![("parsing", parsing_y(&sp)), ("routing", routing_y(&ro)), ("writing", writing)]);
    let mut all = vec![Section::Parsing, Section::Routing, Section::EdgesInfo, Section::Graph, Section::RoutePairs];
    #[cfg(feature = "gpl")]
    let (ba, ev) = (gpl::gen_balancing(rng, &known), gpl::gen_evaluating(rng, &known));
    #[cfg(feature = "gpl")]
    {
        y.put("balancing", gpl::balancing_y(&ba));
        y.put("evaluating_balance", gpl::evaluating_y(&ev));
        all.push(Section::Balancing);
        all.push(Section::Evaluating);
    }
    if rng.chance(1, 4) {
        y.put("something-else", s("not read"));
    }
    y.shuffle(rng);

    let spoiled = if rng.chance(2, 3) {
        let section = *rng.pick(&all);
        let what = spoil(rng, &mut y, &sp, section);
        Some((section, what))
    } else {
        None
    };
    let text = y.text(rng);
    let path = ctx.write("config.yaml", &text);
    ctx.nontrivial(hash_str(&text));

    let verdict = |section: Section, ok: bool, e: &dyn Fn() -> String| -> Check<bool> {
        match &spoiled {
            Some((bad, what)) if *bad == section => {
                ensure!(!ok, "{:?} is accepted, but: {}\n{}", section, what, text);
                Ok(false)
            }
            _ => {
                ensure!(ok, "a correct config ({:?}) is refused: {}\n{}", section, e(), text);
                Ok(true)
            }
        }
    };
    fn told<T>(x: &Result<T, osmgraphing::helpers::err::Msg>) -> String {
        x.as_ref().err().map(|e| e.to_string()).unwrap_or_default()
    }

    let mut accepted = 0;
    let c = guard("reading a parsing-config panicked", || configs::parsing::Config::try_from_yaml(&path))?;
    if verdict(Section::Parsing, c.is_ok(), &|| told(&c))? {
        let c = c.unwrap();
        check_parsing(&sp, &c)?;
        accepted += 1;
        for via_str in [false, true] {
            let x = guard("reading a routing-config panicked", || {
                if via_str {
                    configs::routing::Config::try_from_str(&text, &c)
                } else {
                    configs::routing::Config::try_from_yaml(&path, &c)
                }
            })?;
            if verdict(Section::Routing, x.is_ok(), &|| told(&x))? {
                check_routing(&sp, &ro, &x.unwrap())?;
                accepted += 1;
            }
        }
    }
    let c = guard("reading a writing-config panicked", || configs::writing::network::edges::Config::try_from_yaml(&path))?;
    if verdict(Section::EdgesInfo, c.is_ok(), &|| told(&c))? {
        check_edges_info(&ei, &c.unwrap(), true)?;
        accepted += 1;
    }
    let c = guard("reading a writing-config panicked", || configs::writing::network::graph::Config::try_from_yaml(&path))?;
    if verdict(Section::Graph, c.is_ok(), &|| told(&c))? {
        let c = c.unwrap();
        ensure!(c.map_file == PathBuf::from(&gr.file), "map-file {:?} became {:?}", gr.file, c.map_file);
        ensure!(plain(&c.nodes.ids) == gr_nodes, "node-columns {:?} became {:?}", gr_nodes, c.nodes.ids);
        check_edges_info(&gr, &c.edges, false)?;
        accepted += 1;
    }
    let c = guard("reading a writing-config panicked", || configs::writing::routing::Config::try_from_yaml(&path))?;
    if verdict(Section::RoutePairs, c.is_ok(), &|| told(&c))? {
        let c = c.unwrap();
        ensure!(c.file == PathBuf::from("some/x.route-pairs"), "file became {:?}", c.file);
        let configs::writing::routing::Category::RandomOrAll { seed: a, max_count: b } = c.category;
        ensure!(a == seed.unwrap_or(42) && b == count, "seed {:?} and count {} became {} and {}", seed, count, a, b);
        accepted += 1;
    }
    #[cfg(feature = "gpl")]
    for via_str in [false, true] {
        let c = guard("reading a balancing-config panicked", || {
            if via_str {
                configs::balancing::Config::try_from_str(&text)
            } else {
                configs::balancing::Config::try_from_yaml(&path)
            }
        })?;
        if verdict(Section::Balancing, c.is_ok(), &|| told(&c))? {
            gpl::check_balancing(&ba, &c.unwrap())?;
            accepted += 1;
        }
        let c = guard("reading an evaluation-config panicked", || {
            if via_str {
                configs::evaluating_balance::Config::try_from_str(&text)
            } else {
                configs::evaluating_balance::Config::try_from_yaml(&path)
            }
        })?;
        if verdict(Section::Evaluating, c.is_ok(), &|| told(&c))? {
            gpl::check_evaluating(&ev, &c.unwrap())?;
            accepted += 1;
        }
    }
    if accepted > 0 && rng.chance(1, 3) {
        // same content, but not a config's file
        let other = ctx.write(*rng.pick(&["config.yml", "config.txt", "config", "config.yaml.bak", "config.fmi"]), &text);
        let mut results: Vec<(&str, bool)> = Vec::new();
        if let Ok(c) = guard("reading a parsing-config panicked", || configs::parsing::Config::try_from_yaml(&path))? {
            results.push(("routing", guard("reading a config panicked", || configs::routing::Config::try_from_yaml(&other, &c).is_err())?));
        }
        results.push(("parsing", guard("reading a config panicked", || configs::parsing::Config::try_from_yaml(&other).is_err())?));
        results.push(("edges-info", guard("reading a config panicked", || configs::writing::network::edges::Config::try_from_yaml(&other).is_err())?));
        results.push(("graph", guard("reading a config panicked", || configs::writing::network::graph::Config::try_from_yaml(&other).is_err())?));
        results.push(("route-pairs", guard("reading a config panicked", || configs::writing::routing::Config::try_from_yaml(&other).is_err())?));
        #[cfg(feature = "gpl")]
        {
            results.push(("balancing", guard("reading a config panicked", || configs::balancing::Config::try_from_yaml(&other).is_err())?));
            results.push(("evaluating_balance", guard("reading a config panicked", || configs::evaluating_balance::Config::try_from_yaml(&other).is_err())?));
        }
        for (name, refused) in results {
            ensure!(refused, "{} is accepted as {}-config:\n{}", other.display(), name, text);
            ctx.count("files_refused", 1);
        }
    }
    ctx.count("configs_with_all_values_compared", accepted);
    if let Some((section, what)) = &spoiled {
        ctx.count(&format!("refused: {:?}", section), 1);
        ctx.sample(|| format!("refused because of {}:\n{}", what, text));
    } else {
        ctx.sample(|| format!("accepted:\n{}", text));
    }
    Ok(())
}

/// Columns, which are needed, too many or unknown, are noticed at latest when building or writing.
fn columns(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let dim = defaults::capacity::SMALL_VEC_INLINE_SIZE;
    let mut sp = gen_spec(ctx, rng);
    sp.map_file = ctx.path("map.fmi");
    sp.normalize = None;
    let what = rng.below(8);
    let has = |cols: &[Col], name: &str| cols.iter().filter(|c| matches!(c, Col::Meta(i, _) if *i == name)).count();
    let drop = |cols: &mut Vec<Col>, name: &str| {
        cols.retain(|c| !matches!(c, Col::Meta(i, _) | Col::Metric(i, _) if *i == name))
    };
    let mut bad = None;
    match what {
        0 => {
            let name = *rng.pick(&["NodeId", "Latitude", "Longitude"]);
            drop(&mut sp.nodes, name);
            bad = Some(format!("no {}", name));
        }
        1 => {
            let name = *rng.pick(&["SrcId", "DstId"]);
            drop(&mut sp.edges, name);
            bad = Some(format!("no {}", name));
        }
        2 => {
            let have = metrics_of(&sp.edges).len()
                + sp.generating.as_ref().map_or(0, |g| g.1.iter().filter(|x| !matches!(x, Gen::Meta(_, _))).count());
            let extra = rng.range(1, 3);
            let more = (dim + extra).saturating_sub(have);
            for i in 0..more {
                let unit = *rng.pick(&UNITS);
                let at = rng.below(sp.edges.len() + 1);
                let into_generating = rng.chance(1, 3) && sp.generating.is_some();
                if into_generating {
                    sp.generating.as_mut().unwrap().1.push(Gen::Custom(Some("F64"), format!("more-{}", i), Some(1.0)));
                } else {
                    sp.edges.insert(at, Col::Metric(unit, format!("more-{}", i)));
                }
            }
            bad = Some("too many metrics".to_owned());
        }
        3 => {
            let both = has(&sp.edges, "ShortcutIdx0") > 0;
            if both {
                let name = *rng.pick(&["ShortcutIdx0", "ShortcutIdx1"]);
                if rng.chance(1, 2) {
                    drop(&mut sp.edges, name);
                } else {
                    sp.edges.push(Col::Meta(name, "one-more".to_owned()));
                }
            } else {
                sp.edges.push(Col::Meta("ShortcutIdx1", "one-more".to_owned()));
            }
            bad = Some("wrong number of shortcut-columns".to_owned());
        }
        _ => (),
    }
    ctx.write("map.fmi", &map_text(&sp.nodes, &sp.edges));
    // Whether nodes' columns are missing is a matter of the config alone, even if a map has no
    // nodes or brings its coordinates along.
    if what == 0 {
        match rng.below(3) {
            0 => {
                ctx.write("map.fmi", "0\n0\n0\n");
                ctx.count("refused: columns of empty maps", 1);
            }
            1 => {
                sp.map_file = ctx.path("map.osm.pbf");
                let x = crate::osm::gen_extract(rng, 8, 4);
                let e = crate::osm::Enc::random(rng);
                let (bytes, _) = crate::osm::encode(rng, &x, &e);
                if let Err(e) = std::fs::write(&sp.map_file, bytes) {
                    viol!("harness: {}", e);
                }
                sp.edges = vec![
                    Col::Meta("SrcId", "from".to_owned()),
                    Col::Meta("DstId", "to".to_owned()),
                    Col::Metric("KilometersPerHour", "kmh".to_owned()),
                ];
                sp.generating = None;
                ctx.count("refused: columns of extracts", 1);
            }
            _ => (),
        }
    }
    let mut y = m(vec![("parsing", parsing_y(&sp))]);
    y.shuffle(rng);
    let text = y.text(rng);
    let path = ctx.write("config.yaml", &text);
    ctx.nontrivial(hash_str(&text));
    let graph = guard("reading a config panicked", || configs::parsing::Config::try_from_yaml(&path))?;
    let graph = match graph {
        Ok(cfg) => guard("building panicked", || Parser::parse_and_finalize(cfg))?,
        Err(e) => Err(e),
    };
    if let Some(bad) = bad {
        ensure!(graph.is_err(), "a graph is built from a config with {}:\n{}", bad, text);
        ctx.count("refused: columns", 1);
        return Ok(());
    }
    let graph = match graph {
        Ok(g) => g,
        Err(e) => viol!("a correct config is refused: {}\n{}", e, text),
    };
    ctx.count("graphs_built", 1);
    // generated metrics are appended in order and can be looked up
    let mut want = metrics_of(&sp.edges);
    for g in sp.generating.iter().flat_map(|g| g.1.iter()) {
        match g {
            Gen::Custom(u, id, _) => want.push((u.unwrap_or("F64"), id.clone())),
            Gen::Haversine(u, id) => want.push((u, id.clone())),
            _ => (),
        }
    }
    let mc = &graph.cfg().edges.metrics;
    for (unit, id) in &want {
        match mc.try_idx_of(id) {
            Ok(i) => ensure!(mc.ids[*i].0 == *id && unit_name(&mc.units[*i]) == *unit, "metric {:?} is bound to {:?} {:?}", id, mc.ids[*i], mc.units[*i]),
            Err(e) => viol!("metric {:?} isn't found: {}", id, e),
        }
    }
    ensure!(mc.ids.len() == want.len(), "metrics {:?} became {:?}", want, mc.ids);

    // exports with unknown columns
    let mut known: Vec<String> = want.iter().map(|x| x.1.clone()).collect();
    known.extend(sp.edges.iter().filter_map(|c| if let Col::Meta(_, id) = c { Some(id.clone()) } else { None }));
    known.extend(sp.generating.iter().flat_map(|g| g.1.iter()).filter_map(|c| if let Gen::Meta(_, id) = c { Some(id.clone()) } else { None }));
    let mut ids = gen_id_list(rng, &known);
    let unknown = rng.chance(1, 2);
    if unknown {
        let at = rng.below(ids.len() + 1);
        ids.insert(at, Some(sp.unused_id.clone()));
    }
    let file = ctx.path("out.csv");
    let mut y = m(vec![(
        "writing",
        m(vec![("edges-info", m(vec![("file", s(&file.display().to_string())), ("ids", ids_y(&ids))]))]),
    )]);
    y.shuffle(rng);
    let text = y.text(rng);
    let path = ctx.write("writing.yaml", &text);
    let cfg = match guard("reading a config panicked", || configs::writing::network::edges::Config::try_from_yaml(&path))? {
        Ok(c) => c,
        Err(e) => viol!("a correct config is refused: {}\n{}", e, text),
    };
    let res = guard("writing panicked", || EdgesWriter::write(&graph, &cfg))?;
    ensure!(res.is_err() == unknown, "exporting columns {:?} gave {:?}, known are {:?}", ids, res.err().map(|e| e.to_string()), known);
    ctx.count(if unknown { "exports_of_unknown_columns_refused" } else { "exports_of_known_columns" }, 1);

    // the same for graphs
    let mut known_nodes: Vec<String> = sp.nodes.iter().filter_map(|c| match c {
        Col::Meta(_, id) | Col::Metric(_, id) => Some(id.clone()),
        Col::Ignored => None,
    }).collect();
    known_nodes.extend(sp.generating.iter().flat_map(|g| g.0.iter().cloned()));
    let mut node_ids = gen_id_list(rng, &known_nodes);
    let mut edge_ids = gen_id_list(rng, &known);
    let unknown = rng.chance(2, 3);
    if unknown {
        let list = if rng.chance(1, 2) { &mut node_ids } else { &mut edge_ids };
        let at = rng.below(list.len() + 1);
        list.insert(at, Some(sp.unused_id.clone()));
    }
    let file = ctx.path("out.fmi");
    let mut y = m(vec![(
        "writing",
        m(vec![(
            "graph",
            m(vec![
                ("map-file", s(&file.display().to_string())),
                ("nodes", ids_y(&node_ids)),
                ("edges", m(vec![("ids", ids_y(&edge_ids))])),
            ]),
        )]),
    )]);
    y.shuffle(rng);
    let text = y.text(rng);
    let path = ctx.write("writing.yaml", &text);
    let cfg = match guard("reading a config panicked", || configs::writing::network::graph::Config::try_from_yaml(&path))? {
        Ok(c) => c,
        Err(e) => viol!("a correct config is refused: {}\n{}", e, text),
    };
    let res = guard("writing panicked", || GraphWriter::write(&graph, &cfg))?;
    ensure!(res.is_err() == unknown, "exporting columns {:?} {:?} gave {:?}, known are {:?} {:?}", node_ids, edge_ids, res.err().map(|e| e.to_string()), known_nodes, known);
    ctx.count(if unknown { "exports_of_unknown_columns_refused" } else { "exports_of_known_columns" }, 1);
    Ok(())
}

/// Files, which are no configs.
fn files(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let sp = gen_spec(ctx, rng);
    let mut y = m(vec![("parsing", parsing_y(&sp))]);
    y.shuffle(rng);
    let text = y.text(rng);
    let good = ctx.write("good.yaml", &text);
    let good_cfg = match guard("reading a config panicked", || configs::parsing::Config::try_from_yaml(&good))? {
        Ok(c) => c,
        Err(e) => viol!("a correct config is refused: {}\n{}", e, text),
    };
    let path = match rng.below(7) {
        0 => ctx.write(*rng.pick(&["config.yml", "config.txt", "config", "yaml", "config.yaml.bak", "config.fmi"]), &text),
        1 => ctx.path("missing.yaml"),
        2 => {
            let p = ctx.path("dir.yaml");
            std::fs::create_dir_all(&p).expect("scratch-dir");
            p
        }
        3 => ctx.write("empty.yaml", *rng.pick(&["", "# only a comment\n", "---\n", "null\n", "[]\n", "text\n", "3\n"])),
        4 => {
            let p = ctx.path("binary.yaml");
            let mut b = text.clone().into_bytes();
            let at = rng.below(b.len());
            b[at] = 0xff;
            std::fs::write(&p, b).expect("scratch-file");
            p
        }
        5 => {
            // no yaml
            let bad = *rng.pick(&["\t- a", "}", "]", "'", "a: b: c", "{ a: [", "%"]);
            ctx.write("no.yaml", &format!("{}\n{}\n", text, bad))
        }
        _ => ctx.write("other.yaml", "writing: { }\nsomething: 1\n"),
    };
    let note = path.display().to_string();
    ctx.nontrivial(hash_str(&note));
    ctx.nontrivial(hash_str(&text));
    let mut results: Vec<(&str, bool)> = Vec::new();
    results.push(("parsing", guard("reading a config panicked", || configs::parsing::Config::try_from_yaml(&path).is_err())?));
    results.push(("routing", guard("reading a config panicked", || configs::routing::Config::try_from_yaml(&path, &good_cfg).is_err())?));
    results.push(("edges-info", guard("reading a config panicked", || configs::writing::network::edges::Config::try_from_yaml(&path).is_err())?));
    results.push(("graph", guard("reading a config panicked", || configs::writing::network::graph::Config::try_from_yaml(&path).is_err())?));
    results.push(("route-pairs", guard("reading a config panicked", || configs::writing::routing::Config::try_from_yaml(&path).is_err())?));
    #[cfg(feature = "gpl")]
    {
        results.push(("balancing", guard("reading a config panicked", || configs::balancing::Config::try_from_yaml(&path).is_err())?));
        results.push(("evaluating_balance", guard("reading a config panicked", || configs::evaluating_balance::Config::try_from_yaml(&path).is_err())?));
    }
    for (name, refused) in results {
        ensure!(refused, "{} is accepted as {}-config", note, name);
        ctx.count("files_refused", 1);
    }
    Ok(())
}
