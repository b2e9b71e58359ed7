//! Extracts of OpenStreetMap: what becomes of them, whatever the encoding and the schedule.
use crate::{
    model::{self, gen_model, load_yaml, GenOpts, Layout, Noise, SEdge, Snap},
    osm::{self, edges_of, encode, gen_extract, Enc, Extract, ONode, OWay},
    props::{metrics::distance_km, writing},
    util::{close, guard, hash_bytes, hash_str, Check, Ctx, Rng},
};
use osmgraphing::{configs, io::network::graph::Parser, network::Graph};
use std::{
    collections::{BTreeMap, HashMap},
    fmt::Write as _,
    path::Path,
    sync::atomic::{AtomicBool, Ordering},
};

const VEHICLES: [&str; 3] = ["Car", "Bicycle", "Pedestrian"];
const REAL: &str = "/repo/resources/isle_of_man_2020-03-14/graph.osm.pbf";

#[derive(Clone, Debug)]
struct Setup {
    vehicle: usize,
    picky: bool,
    /// default of the config
    unset: bool,
    kmh: bool,
    lanes: bool,
    generated: bool,
    edge_id: bool,
    ignored: usize,
    order: u64,
}

impl Setup {
    fn random(rng: &mut Rng) -> Setup {
        let unset = rng.chance(1, 8);
        let kmh = rng.chance(5, 6);
        let lanes = rng.chance(3, 4);
        let s = Setup {
            vehicle: if unset { 0 } else { rng.below(3) },
            picky: unset || rng.chance(1, 2),
            unset,
            kmh,
            lanes,
            generated: rng.chance(1, 3),
            edge_id: rng.chance(1, 4),
            ignored: rng.below(3),
            order: rng.next(),
        };
        s
    }

    fn yaml(&self, map: &Path) -> String {
        let mut y = format!("parsing:\n  map-file: '{}'\n", map.display());
        if !self.unset {
            let _ = writeln!(
                y,
                "  vehicles:\n    category: '{}'\n    are_drivers_picky: {}",
                VEHICLES[self.vehicle], self.picky
            );
        }
        y.push_str(
            "  nodes:\n  - meta: { info: 'NodeId', id: 'node-id' }\n  - metric: { unit: 'Latitude', id: 'lat' }\n  - metric: { unit: 'Longitude', id: 'lon' }\n  edges:\n    data:\n",
        );
        let mut cols = vec![
            "meta: { info: 'SrcId', id: 'src-id' }",
            "meta: { info: 'DstId', id: 'dst-id' }",
        ];
        for _ in 0..self.ignored {
            cols.push("ignored");
        }
        if self.kmh {
            cols.push("metric: { unit: 'KilometersPerHour', id: 'kmph' }");
        }
        if self.lanes {
            cols.push("metric: { unit: 'LaneCount', id: 'lanes' }");
        }
        Rng::new(self.order).shuffle(&mut cols);
        for c in cols {
            let _ = writeln!(y, "    - {}", c);
        }
        if self.generated || self.edge_id {
            y.push_str("  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'node-idx' }\n    edges:\n    - meta: { info: 'SrcIdx', id: 'src-idx' }\n");
            if self.edge_id {
                y.push_str("    - meta: { info: 'EdgeId', id: 'edge-id' }\n");
            }
            if self.generated {
                y.push_str("    - haversine: { unit: 'Kilometers', id: 'kilometers' }\n");
                if self.kmh {
                    y.push_str("    - calc:\n        result: { unit: 'Hours', id: 'hours' }\n        a: { unit: 'Kilometers', id: 'kilometers' }\n        b: { unit: 'KilometersPerHour', id: 'kmph' }\n");
                }
            }
        }
        y
    }
}

fn check_network(x: &Extract, su: &Setup, s: &Snap) -> Check<usize> {
    let expected = edges_of(x, su.vehicle, su.picky);
    let mut ids: Vec<i64> = expected.iter().flat_map(|e| vec![e.0, e.1]).collect();
    ids.sort();
    ids.dedup();
    let got: Vec<i64> = s.nodes.iter().map(|n| n.id).collect();
    let mut sorted = got.clone();
    sorted.sort();
    if sorted != ids {
        let missing: Vec<_> = ids.iter().filter(|i| sorted.binary_search(i).is_err()).take(5).collect();
        let extra: Vec<_> = sorted.iter().filter(|i| ids.binary_search(i).is_err()).take(5).collect();
        viol!(
            "the graph has {} nodes instead of the {} of usable ways; missing {:?}, additional {:?}; {:?}",
            got.len(), ids.len(), missing, extra, su
        );
    }
    let nodes: HashMap<i64, &ONode> = x.nodes.iter().map(|n| (n.id, n)).collect();
    for n in &s.nodes {
        let o = nodes[&n.id];
        ensure!(
            close(n.lat, o.lat as f64 * 1e-7, 0.0, 1e-9) && close(n.lon, o.lon as f64 * 1e-7, 0.0, 1e-9),
            "node {} is at ({}, {}) instead of ({}e-7, {}e-7)", n.id, n.lat, n.lon, o.lat, o.lon
        );
    }
    let key = |src: i64, dst: i64, kmh: f64, lanes: f64| {
        (src, dst, if su.kmh { kmh.to_bits() } else { 0 }, if su.lanes { lanes.to_bits() } else { 0 })
    };
    let mut listed: BTreeMap<(i64, i64, u64, u64), usize> = BTreeMap::new();
    let mut kinds: HashMap<(i64, i64), usize> = HashMap::new();
    for e in &expected {
        let n = listed.entry(key(e.0, e.1, e.2, e.3)).or_default();
        if *n == 0 {
            *kinds.entry((e.0, e.1)).or_default() += 1;
        }
        *n += 1;
    }
    let col = |id: &str| -> Check<usize> {
        match s.col(id) {
            Some(c) => Ok(c),
            None => viol!("the graph misses the metric {}", id),
        }
    };
    let (mut ck, mut cl) = (0, 0);
    if su.kmh {
        ck = col("kmph")?;
    }
    if su.lanes {
        cl = col("lanes")?;
    }
    let mut seen: BTreeMap<(i64, i64, u64, u64), usize> = BTreeMap::new();
    for e in &s.edges {
        let k = key(
            s.nodes[e.src].id,
            s.nodes[e.dst].id,
            if su.kmh { e.metrics[ck] } else { 0.0 },
            if su.lanes { e.metrics[cl] } else { 0.0 },
        );
        let n = seen.entry(k).or_default();
        *n += 1;
        let most = match listed.get(&k) {
            None => viol!(
                "the graph has the edge {} -> {} with {} km/h and {} lanes, which no usable way has ({:?})",
                k.0, k.1, f64::from_bits(k.2), f64::from_bits(k.3), su
            ),
            Some(_) if kinds[&(k.0, k.1)] == 1 && !su.edge_id => 1,
            Some(l) => *l,
        };
        ensure!(*n <= most, "the graph has the edge {} -> {} too often", k.0, k.1);
    }
    for k in listed.keys() {
        ensure!(
            seen.contains_key(k),
            "the graph misses the edge {} -> {} with {} km/h and {} lanes ({:?})",
            k.0, k.1, f64::from_bits(k.2), f64::from_bits(k.3), su
        );
    }
    if su.generated {
        let c = col("kilometers")?;
        for e in &s.edges {
            let d = distance_km(&s.nodes[e.src], &s.nodes[e.dst]);
            ensure!(
                close(e.metrics[c], d, 1e-8, 1e-9),
                "the edge {} -> {} is {} km long instead of {}",
                s.nodes[e.src].id, s.nodes[e.dst].id, e.metrics[c], d
            );
            if su.kmh {
                let h = e.metrics[col("hours")?];
                ensure!(
                    close(h, e.metrics[c] / e.metrics[ck], 1e-9, 1e-12),
                    "{} km with {} km/h take {} hours", e.metrics[c], e.metrics[ck], h
                );
            }
        }
    }
    Ok(s.edges.len())
}

/// the extract of the repository, read without the code under test
fn real_extract() -> Option<Extract> {
    use osmpbfreader::OsmObj;
    let file = std::fs::File::open(REAL).ok()?;
    let mut x = Extract { nodes: vec![], ways: vec![], relations: 0 };
    for obj in osmpbfreader::OsmPbfReader::new(file).iter() {
        match obj.ok()? {
            OsmObj::Node(n) => x.nodes.push(ONode {
                id: n.id.0,
                lat: n.decimicro_lat as i64,
                lon: n.decimicro_lon as i64,
                tags: vec![],
            }),
            OsmObj::Way(w) => x.ways.push(OWay {
                id: w.id.0,
                refs: w.nodes.iter().map(|n| n.0).collect(),
                tags: w.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            }),
            _ => (),
        }
    }
    Some(x)
}

pub fn b01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    if rng.chance(1, 150) {
        if let Some(x) = real_extract() {
            let su = Setup::random(rng);
            let g = match load_yaml(ctx, "real.yaml", &su.yaml(Path::new(REAL)))? {
                Ok(g) => g,
                Err(e) => viol!("the real extract is refused: {}", e),
            };
            let n = check_network(&x, &su, &Snap::of(&g)?)?;
            ctx.count("edges_of_the_real_extract", n);
            ctx.nontrivial(hash_str(&format!("{:?}", su)));
        }
        return Ok(());
    }
    let big = rng.chance(1, 12);
    let is_giant = crate::util::take_giant();
    let most = match big {
        _ if is_giant => 66_000 + rng.below(2000),
        true => 300,
        false => 14,
    };
    let x = gen_extract(rng, most, most);
    let mut enc = Enc::random(rng);
    if is_giant {
        enc.block_size = enc.block_size.max(2000);
    }
    let (file, parts) = encode(rng, &x, &enc);
    let map = ctx.path("map.osm.pbf");
    std::fs::write(&map, &file).expect("scratch-file");
    ctx.count("blocks", parts.starts.len() - 1);
    if rng.chance(1, 12) {
        // columns, which no extract provides
        let bad = *rng.pick(&[
            "metric: { unit: 'Seconds', id: 'bad' }", "metric: { unit: 'Minutes', id: 'bad' }",
            "metric: { unit: 'Hours', id: 'bad' }", "metric: { unit: 'Meters', id: 'bad' }",
            "metric: { unit: 'Kilometers', id: 'bad' }", "metric: { unit: 'F64', id: 'bad' }",
            "meta: { info: 'EdgeId', id: 'bad' }", "meta: { info: 'ShortcutIdx0', id: 'bad' }",
            "meta: { info: 'ShortcutIdx1', id: 'bad' }",
        ]);
        let yaml = Setup::random(rng).yaml(&map).replace("    data:\n", &format!("    data:\n    - {}\n", bad));
        ensure!(
            load_yaml(ctx, "bad.yaml", &yaml)?.is_err(),
            "an extract is accepted to provide the column {}", bad
        );
        ctx.count("unprovidable_columns_refused", 1);
    }
    // the same file for several vehicles
    for _ in 0..3 {
        let su = Setup::random(rng);
        let g = match load_yaml(ctx, "pbf.yaml", &su.yaml(&map))? {
            Ok(g) => g,
            Err(e) => viol!("a proper extract is refused: {}\n{:?}\n{}", e, enc, su.yaml(&map)),
        };
        let s = Snap::of(&g)?;
        match check_network(&x, &su, &s) {
            Ok(n) => {
                ctx.count("edges", n);
                ctx.count("networks", 1);
                if n == 0 {
                    ctx.count("networks_without_edges", 1);
                }
                if n > 1 {
                    ctx.nontrivial(hash_str(&format!("{:?} {:?}", s.edges, s.nodes)));
                }
                let key = format!("{} {}", VEHICLES[su.vehicle], if su.picky { "picky" } else { "not picky" });
                ctx.count(&key, 1);
            }
            Err(v) => viol!("{}\n{:?}\n{:?}", v.0, enc, if x.ways.len() < 20 { x.ways } else { vec![] }),
        }
    }
    let mut streets = 0usize;
    for w in &x.ways {
        if let Some(s) = osm::tag(w, "highway").and_then(osm::street_of) {
            streets |= 1 << s;
        }
    }
    for (i, s) in crate::osm_tables::STREETS.iter().enumerate() {
        if streets >> i & 1 == 1 {
            ctx.count(&format!("street {}", s.name), 1);
        }
    }
    ctx.sample(|| format!("{:?}\n{:?}", enc, x.ways));
    Ok(())
}

//------------------------------------------------------------------------------------------------//

fn bits(s: &Snap) -> u64 {
    let mut t = String::new();
    for n in &s.nodes {
        let _ = write!(t, "{} {:x} {:x} {};", n.id, n.lat.to_bits(), n.lon.to_bits(), n.level);
    }
    for e in &s.edges {
        let SEdge { src, dst, id, metrics, sc } = e;
        let _ = write!(t, "{} {} {:?} {:?} {:?};", src, dst, id, sc, metrics.iter().map(|m| m.to_bits()).collect::<Vec<_>>());
    }
    let _ = write!(t, "{:?} {:?} {:?}", s.metric_ids, s.units, s.means);
    hash_str(&t)
}

fn allowed_cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return vec![];
        }
        (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    }
}

fn use_cpus(cpus: &[usize]) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        for c in cpus {
            libc::CPU_SET(*c, &mut set);
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

/// differing numbers of cpus (the reader starts as many threads), differing load
fn disturbed<T>(rng: &mut Rng, f: impl FnOnce() -> T) -> (T, usize) {
    let all = allowed_cpus();
    let mut some = all.clone();
    rng.shuffle(&mut some);
    let k = rng.range(1, some.len().max(1));
    some.truncate(k);
    let stop = AtomicBool::new(false);
    let load = if rng.chance(1, 2) { 0 } else { rng.range(1, 4) };
    let stop_ref = &stop;
    // scoped threads, as the stress has to end with this call
    let out = std::thread::scope(|scope| {
        for _ in 0..load {
            scope.spawn(move || {
                let mut x = 1u64;
                while !stop_ref.load(Ordering::Relaxed) {
                    for _ in 0..2000 {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1);
                    }
                    if x & 7 == 0 {
                        std::thread::yield_now();
                    }
                }
            });
        }
        if !some.is_empty() {
            use_cpus(&some);
        }
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        if !all.is_empty() {
            use_cpus(&all);
        }
        stop.store(true, Ordering::Relaxed);
        out
    });
    match out {
        Ok(x) => (x, k),
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// digest of a graph's content and of its exports
fn digest(ctx: &Ctx, g: &Graph, tag: &str, su: &Setup) -> Check<(u64, u64, u64)> {
    let s = Snap::of(g)?;
    let mut metrics: Vec<Option<String>> = vec![Some("src-id".into()), Some("dst-id".into())];
    metrics.extend(s.metric_ids.iter().map(|m| Some(m.clone())));
    if su.edge_id {
        metrics.push(Some("edge-id".into()));
    }
    let file = ctx.path(&format!("{}.out.fmi", tag));
    let _ = std::fs::remove_file(&file);
    let nodes: Vec<Option<String>> = ["node-id", "lat", "lon"].iter().map(|x| Some(x.to_string())).collect();
    let yaml = writing::graph_writing_yaml(&file, &nodes, &metrics, None, None);
    let cfg = writing::graph_cfg(ctx, &format!("{}.w.yaml", tag), &yaml)?;
    if let Err(e) = writing::write_graph(g, &cfg)? {
        viol!("writing the graph failed: {}", e);
    }
    let a = hash_bytes(&std::fs::read(&file).expect("export"));
    let csv = ctx.path(&format!("{}.out.csv", tag));
    let _ = std::fs::remove_file(&csv);
    let yaml = writing::edges_writing_yaml(&csv, &metrics, None, None);
    let cfg = writing::edges_cfg(ctx, &format!("{}.e.yaml", tag), &yaml)?;
    if let Err(e) = writing::write_edges(g, &cfg)? {
        viol!("writing the edges failed: {}", e);
    }
    let b = hash_bytes(&std::fs::read(&csv).expect("export"));
    Ok((bits(&s), a, b))
}

fn explain(a: &Snap, b: &Snap) -> String {
    if a.nodes.len() != b.nodes.len() || a.edges.len() != b.edges.len() {
        return format!(
            "{} nodes and {} edges vs. {} nodes and {} edges",
            a.nodes.len(), a.edges.len(), b.nodes.len(), b.edges.len()
        );
    }
    for (i, (x, y)) in a.nodes.iter().zip(&b.nodes).enumerate() {
        if x != y {
            return format!("node {}: {:?} vs. {:?}", i, x, y);
        }
    }
    for (i, (x, y)) in a.edges.iter().zip(&b.edges).enumerate() {
        if x != y {
            return format!("edge {}: {:?} vs. {:?}", i, x, y);
        }
    }
    format!("{:?} {:?} vs. {:?} {:?}", a.metric_ids, a.means, b.metric_ids, b.means)
}

pub fn b02(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    match rng.below(40) {
        0 => return real_twice(ctx, rng),
        1..=7 => return fmi_twice(ctx, rng),
        _ => {}
    }
    let big = rng.chance(1, 5);
    let x = if big {
        gen_extract(rng, 2000, 1500)
    } else {
        gen_extract(rng, 40, 40)
    };
    let su = Setup::random(rng);
    let mut first: Option<((u64, u64, u64), Snap, String)> = None;
    let rounds = if ctx.thorough { 12 } else { 6 };
    let mut cpus = Vec::new();
    let mut file = Vec::new();
    let mut enc = Enc::random(rng);
    for round in 0..rounds {
        // sometimes the same file again
        if round == 0 || rng.chance(2, 3) {
            enc = Enc::random(rng);
            if round == 0 {
                enc.block_size = 8000;
            }
            file = encode(rng, &x, &enc).0;
        }
        let map = ctx.path(&format!("map{}.osm.pbf", round));
        std::fs::write(&map, &file).expect("scratch-file");
        let c: &Ctx = ctx;
        let several = rng.chance(1, 4);
        let (graphs, k) = disturbed(rng, || -> Check<Vec<Graph>> {
            if !several {
                return match load_yaml(c, "b02.yaml", &su.yaml(&map))? {
                    Ok(g) => Ok(vec![g]),
                    Err(e) => viol!("a proper extract is refused: {}", e),
                };
            }
            // several at once
            let yaml = c.write("b02.yaml", &su.yaml(&map));
            let results: Vec<Check<Result<Graph, String>>> = std::thread::scope(|scope| {
                let handles: Vec<_> = (0..3)
                    .map(|_| {
                        let yaml = &yaml;
                        scope.spawn(move || {
                            guard("building a graph panicked", || {
                                configs::parsing::Config::try_from_yaml(yaml)
                                    .and_then(Parser::parse_and_finalize)
                                    .map_err(|e| e.to_string())
                            })
                        })
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            let mut out = Vec::new();
            for r in results {
                match r? {
                    Ok(g) => out.push(g),
                    Err(e) => viol!("a proper extract is refused: {}", e),
                }
            }
            Ok(out)
        });
        cpus.push(k);
        for g in graphs? {
            let d = digest(ctx, &g, "b02", &su)?;
            let s = Snap::of(&g)?;
            ctx.count("builds", 1);
            match &first {
                None => {
                    if s.edges.len() > 1 {
                        ctx.nontrivial(d.0);
                    }
                    ctx.count("edges", s.edges.len());
                    first = Some((d, s, format!("{:?}", enc)));
                }
                Some((d0, s0, e0)) => {
                    ensure!(
                        d.0 == d0.0,
                        "building the same extract again ({} cpus, {:?}; before {}) gives another graph: {}",
                        k, enc, e0, explain(s0, &s)
                    );
                    ensure!(d == *d0, "exports of the same graph differ ({:?} vs. {:?})", d, d0);
                }
            }
        }
    }
    for k in cpus {
        ctx.count(if k == 1 { "builds_on_one_cpu" } else { "builds_on_several_cpus" }, 1);
    }
    ctx.sample(|| format!("{:?}", su));
    Ok(())
}

fn real_twice(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    if !Path::new(REAL).exists() {
        return Ok(());
    }
    let su = Setup::random(rng);
    let mut first: Option<((u64, u64, u64), Snap)> = None;
    for _ in 0..3 {
        let c: &Ctx = ctx;
        let (g, k) = disturbed(rng, || load_yaml(c, "b02.yaml", &su.yaml(Path::new(REAL))));
        let g = match g? {
            Ok(g) => g,
            Err(e) => viol!("the real extract is refused: {}", e),
        };
        let d = digest(ctx, &g, "b02", &su)?;
        let s = Snap::of(&g)?;
        ctx.count("builds_of_the_real_extract", 1);
        match &first {
            None => first = Some((d, s)),
            Some((d0, s0)) => {
                ensure!(d.0 == d0.0, "building the real extract again ({} cpus) gives another graph: {}", k, explain(s0, &s));
                ensure!(d == *d0, "exports of the same graph differ");
            }
        }
    }
    Ok(())
}

/// Thousands of edges, whose metrics' sums depend on the order of adding.
fn enlarge(rng: &mut Rng, m: &mut model::Model) {
    let n = rng.range(2000, 9000);
    let first = m.nodes[0].clone();
    let dim = m.metrics.len();
    m.nodes = (0..n as i64).map(|i| model::MNode { id: 3 * i, lat: 40.0 + 1e-4 * i as f64, ..first.clone() }).collect();
    let has_id = rng.chance(1, 2);
    m.has_edge_ids = has_id;
    m.has_shortcuts = false;
    m.edges = (0..n)
        .map(|i| model::MEdge {
            src: m.nodes[i].id,
            dst: m.nodes[(i + 1 + if i % 3 == 0 { rng.below(50) } else { 0 }) % n].id,
            id: if has_id { Some(i) } else { None },
            metrics: (0..dim).map(|_| (1 + rng.below(1_000_000)) as f64 / 7.0 / 10f64.powi(rng.below(4) as i32)).collect(),
            sc: None,
        })
        .collect();
}

fn fmi_twice(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let big = rng.chance(1, 5);
    let o = GenOpts { max_nodes: if big { 3 } else { 40 }, max_dim: 3, ..GenOpts::default() };
    let mut m = gen_model(rng, o);
    if big {
        enlarge(rng, &mut m);
    }
    let l = Layout::random(&m, rng);
    let text = model::fmi_text(&m, &l, rng, Noise::Some);
    let normalize = if (big || rng.chance(1, 3)) && !m.edges.is_empty() { Some(true) } else { None };
    let mut first: Option<Result<(u64, Snap), String>> = None;
    for round in 0..if big { 10 } else { 4 } {
        let map = ctx.path(&format!("m{}.fmi", round));
        std::fs::write(&map, &text).expect("scratch-file");
        let yaml = model::parsing_yaml(&m, &l, &map, normalize, "");
        let c: &Ctx = ctx;
        let (g, _) = disturbed(rng, || load_yaml(c, "b02.yaml", &yaml));
        ctx.count(if big { "builds_of_big_text_maps" } else { "builds_of_text_maps" }, 1);
        let r = match g? {
            Ok(g) => {
                let s = Snap::of(&g)?;
                Ok((bits(&s), s))
            }
            Err(e) => Err(e),
        };
        match (&first, &r) {
            (None, _) => first = Some(r),
            (Some(Ok(a)), Ok(b)) => {
                ensure!(a.0 == b.0, "building the same map again gives another graph: {}", explain(&a.1, &b.1))
            }
            (Some(Err(_)), Err(_)) => {}
            _ => viol!("the same map is refused and accepted"),
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------------------------//

/// panics of the reader for the binary format (a dependency), listed in known-findings.txt
fn is_known_panic(what: &str) -> bool {
    what.contains("/osmpbfreader-0.13.4/src/groups.rs")
}

/// damaged extracts
/// Writes an intact extract and returns its config.
pub fn some_extract(ctx: &mut Ctx, rng: &mut Rng) -> String {
    let mut x = gen_extract(rng, 20, 12);
    let (a, b) = (x.nodes[0].id, x.nodes[1].id);
    x.ways.push(OWay { id: 7, refs: vec![a, b], tags: vec![("highway".into(), "residential".into())] });
    let su = Setup::random(rng);
    let enc = Enc::random(rng);
    let (file, _) = encode(rng, &x, &enc);
    let map = ctx.path("intact.osm.pbf");
    std::fs::write(&map, &file).expect("scratch-file");
    su.yaml(&map)
}

pub fn damaged(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut x = gen_extract(rng, 20, 12);
    // at least one street
    let a = x.nodes[0].id;
    let b = x.nodes[1].id;
    let way = OWay { id: 7, refs: vec![a, b], tags: vec![("highway".into(), "residential".into())] };
    let at = rng.below(x.ways.len() + 1);
    x.ways.insert(at, way);
    let mut su = Setup::random(rng);
    su.generated = false;
    let mut enc = Enc::random(rng);
    let kind = rng.below(8);
    if kind == 1 || kind == 2 {
        enc.zlib = 4;
    }
    let mut removed = None;
    if kind == 3 {
        // a node of a used way is missing
        let used = edges_of(&x, su.vehicle, su.picky);
        if !used.is_empty() {
            let e = *rng.pick(&used);
            let id = if rng.chance(1, 2) { e.0 } else { e.1 };
            x.nodes.retain(|n| n.id != id);
            removed = Some(id);
        }
    }
    let (mut file, parts) = encode(rng, &x, &enc);
    let map = ctx.path("map.osm.pbf");
    let mut must_fail = removed.is_some();
    let what: String;
    match kind {
        0 => {
            // cut within a block
            let k = rng.below(parts.starts.len() - 1);
            let (from, to) = (parts.starts[k] + 4, parts.starts[k + 1]);
            let cut = rng.range(from, to - 1);
            file.truncate(cut);
            must_fail = true;
            what = format!("cut at byte {} within the block {}..{}", cut, from, to);
        }
        1 | 2 => {
            // checksummed data
            let p = *rng.pick(&parts.checked);
            // header of 2 bytes, header of the first stored part of 5 bytes
            let i = rng.range(p.0 + 7, p.1 - 1);
            let bit = rng.below(8);
            file[i] ^= 1 << bit;
            must_fail = true;
            what = format!("flipped bit {} of byte {} of the checksummed data {:?}", bit, i, p);
        }
        3 => what = format!("removed node {:?}", removed),
        4 => {
            let k = rng.range(1, 3);
            for _ in 0..k {
                let i = rng.below(file.len());
                file[i] ^= 1 << rng.below(8);
            }
            what = "flipped bits".into();
        }
        5 => {
            let i = rng.below(file.len());
            let v = rng.next() as u8;
            match rng.below(3) {
                0 => file[i] = v,
                1 => file.insert(i, v),
                _ => {
                    file.remove(i);
                }
            }
            what = "changed, inserted or removed a byte".into();
        }
        6 => {
            // a block of another kind of compression or without content
            let mut head = Vec::new();
            head.extend_from_slice(&[0x0a, 7]);
            head.extend_from_slice(b"OSMData");
            let blob: &[u8] = [&[0x22u8, 3, 1, 2, 3][..], &[0x10u8, 9][..]][rng.below(2)];
            head.extend_from_slice(&[0x18, blob.len() as u8]);
            let mut block = (head.len() as u32).to_be_bytes().to_vec();
            block.extend(head);
            block.extend_from_slice(blob);
            let k = rng.below(parts.starts.len());
            let at = parts.starts[k];
            let tail = file.split_off(at);
            file.extend(block);
            file.extend(tail);
            must_fail = true;
            what = format!("unsupported block at {}", at);
        }
        _ => {
            // something else
            file = match rng.below(3) {
                0 => b"this is text and no map at all\n1 2 3\n".to_vec(),
                1 => (0..rng.range(8, 300)).map(|_| rng.next() as u8 | 0x80).collect(),
                _ => {
                    let mut f = vec![0xffu8; 8];
                    f.extend(file);
                    f
                }
            };
            must_fail = true;
            what = "no extract".into();
        }
    }
    std::fs::write(&map, &file).expect("scratch-file");
    ctx.nontrivial(hash_bytes(&file));
    match load_yaml(ctx, "pbf.yaml", &su.yaml(&map)) {
        Err(v) if is_known_panic(&v.0) => ctx.count("known_panics_of_the_reader", 1),
        Err(v) => return Err(v),
        Ok(Err(_)) => {
            ctx.count("extracts_refused", 1);
            if removed.is_some() {
                ctx.count("extracts_with_missing_nodes_refused", 1);
            }
            if kind == 1 || kind == 2 {
                ctx.count("checksums_refused", 1);
            }
        }
        Ok(Ok(g)) => {
            ensure!(
                !must_fail,
                "a damaged extract is accepted ({}; {} nodes)\n{:?}\n{:?}",
                what, g.nodes().count(), enc, x.ways
            );
            // the graph has to be usable at least
            Snap::of(&g)?;
            ctx.count("damaged_extracts_accepted", 1);
        }
    }
    Ok(())
}
