//! X01: damaged files.
use crate::{
    faults::{self, Fault, Op},
    model::*,
    oracle::contract,
    util::{hash_bytes, Check, Ctx, Rng},
};
use std::{collections::HashSet, fmt::Write as _};

use super::{
    graph::{check_content, check_shortcuts},
    routes::parse_pairs,
};

/// Functional lines, if the text is readable.
fn functional(bytes: &[u8]) -> Option<Vec<String>> {
    let text = std::str::from_utf8(bytes).ok()?;
    Some(
        text.split('\n')
            .map(|l| l.strip_suffix('\r').unwrap_or(l).to_owned())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect(),
    )
}

enum Said {
    /// what the lines say
    Map(Model),
    /// has to be refused
    Bad(&'static str),
    /// refused or not: within the accuracy
    Open,
}

/// What a map-file says, read independently.
fn understand(bytes: &[u8], m: &Model, l: &Layout) -> Said {
    let lines = match functional(bytes) {
        Some(l) => l,
        None => return Said::Bad("the text is not utf-8"),
    };
    let words: Vec<Vec<&str>> = lines.iter().map(|l| l.split_whitespace().collect()).collect();
    let mut counts = vec![];
    let mut start = 0;
    let mut is_counting = false;
    for w in &words {
        if w.len() == 1 {
            is_counting = true;
            match w[0].parse::<usize>() {
                Ok(c) => counts.push(c),
                Err(_) => return Said::Bad("a count is not readable"),
            }
        } else if is_counting {
            break;
        }
        start += 1;
    }
    if counts.len() < 2 {
        return Said::Bad("counts are missing");
    }
    if counts.len() > 3 {
        return Said::Bad("there are more counts than known ones");
    }
    let edge_count = counts[counts.len() - 1];
    let node_count = counts[counts.len() - 2];
    let total = start as u128 + node_count as u128 + edge_count as u128;
    if total > words.len() as u128 {
        return Said::Bad("there are fewer lines than announced");
    }
    let mut out = m.clone();
    out.nodes.clear();
    out.edges.clear();
    for w in &words[start..start + node_count] {
        let mut n = MNode { id: 0, lat: 0.0, lon: 0.0, level: 0 };
        for (i, c) in l.nodes.iter().enumerate() {
            let t = match w.get(i) {
                Some(t) => *t,
                None => return Said::Bad("a node-line misses columns"),
            };
            let ok = match c {
                NCol::Id => t.parse().map(|x| n.id = x).is_ok(),
                NCol::Lat => t.parse().map(|x| n.lat = x).is_ok(),
                NCol::Lon => t.parse().map(|x| n.lon = x).is_ok(),
                NCol::Level => t.parse().map(|x| n.level = x).is_ok(),
                NCol::Ignored => true,
            };
            if !ok {
                return Said::Bad("a value of a node is not readable");
            }
        }
        out.nodes.push(n);
    }
    let mut is_open = false;
    for w in &words[start + node_count..start + node_count + edge_count] {
        let mut e = MEdge {
            src: 0,
            dst: 0,
            id: None,
            metrics: vec![0.0; m.metrics.len()],
            sc: None,
        };
        let mut sc = [None, None];
        for (i, c) in l.edges.iter().enumerate() {
            let t = match w.get(i) {
                Some(t) => *t,
                None => return Said::Bad("an edge-line misses columns"),
            };
            let ok = match c {
                ECol::Src => t.parse().map(|x| e.src = x).is_ok(),
                ECol::Dst => t.parse().map(|x| e.dst = x).is_ok(),
                ECol::Id => {
                    let t = t.strip_prefix("ch").unwrap_or(t);
                    t.parse().map(|x| e.id = Some(x)).is_ok()
                }
                ECol::Sc0 | ECol::Sc1 => {
                    let k = (*c == ECol::Sc1) as usize;
                    t == "-1" || t.parse::<usize>().map(|x| sc[k] = Some(x)).is_ok()
                }
                ECol::Metric(k) => t.parse().map(|x| e.metrics[*k] = x).is_ok(),
                ECol::Ignored => true,
            };
            if !ok {
                return Said::Bad("a value of an edge is not readable");
            }
        }
        e.sc = match sc {
            [Some(a), Some(b)] => Some([a, b]),
            [None, None] => None,
            _ => return Said::Bad("a shortcut has one edge only"),
        };
        for x in &e.metrics {
            if x.is_nan() || *x < -1e-5 {
                return Said::Bad("a metric is negative or not a number");
            }
            if *x < 0.0 || (*x > 1.3e-6 && *x < 1.7e-6) {
                is_open = true;
            }
        }
        out.edges.push(e);
    }
    let known: HashSet<i64> = out.nodes.iter().map(|n| n.id).collect();
    for e in &out.edges {
        if !known.contains(&e.src) || !known.contains(&e.dst) {
            return Said::Bad("an edge refers to an unknown node");
        }
        if let Some(sc) = e.sc {
            if sc[0] >= edge_count || sc[1] >= edge_count {
                return Said::Bad("a shortcut refers to an unknown edge");
            }
        }
    }
    // (nearly) repeated lines
    let near = |a: &MEdge, b: &MEdge| a.metrics.iter().zip(&b.metrics).all(|(x, y)| (x - y).abs() < 1e-5 || x == y);
    let same = |a: &MEdge, b: &MEdge| a.metrics.iter().zip(&b.metrics).all(|(x, y)| x.to_bits() == y.to_bits());
    let mut is_bad = false;
    for (i, a) in out.edges.iter().enumerate() {
        for b in &out.edges[..i] {
            if (a.src, a.dst, a.id) == (b.src, b.dst, b.id) && near(a, b) {
                if !same(a, b) || a.sc != b.sc {
                    is_open = true;
                }
            } else if m.has_edge_ids && a.id == b.id {
                is_bad = true;
            }
        }
    }
    if is_open {
        Said::Open
    } else if is_bad {
        Said::Bad("an edge-id is used for different edges")
    } else {
        Said::Map(out)
    }
}

const TOKENS: [&str; 26] = [
    "x", "-1", "0", "1", "2", "1e400", "NaN", "inf", "-5", "99999999999999999999", "18446744073709551615",
    "9223372036854775807", "0x1f", "ch3", "ch", "ché", "#", "1.5", "-0", "--1", "1,5", "é", "_", "-", "1e-400", "3 4",
];

/// Damages a text.
pub fn damage(rng: &mut Rng, bytes: &mut Vec<u8>) {
    let mut lines: Vec<Vec<u8>> = bytes.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let n = lines.len();
    match rng.below(15) {
        14 => {
            // only one column is left, mostly of the first line with several ones
            let first = lines.iter().position(|l| l.first() != Some(&b'#') && l.iter().any(|b| *b == b' '));
            let k = match first {
                Some(k) if rng.chance(2, 3) => k,
                _ => rng.below(n),
            };
            let text = String::from_utf8_lossy(&lines[k]).into_owned();
            let words: Vec<&str> = text.split_whitespace().collect();
            if !words.is_empty() {
                lines[k] = rng.pick(&words).as_bytes().to_vec();
            }
        }
        0 => {
            lines.remove(rng.below(n));
        }
        1 => {
            let l = lines[rng.below(n)].clone();
            let at = rng.below(n + 1);
            lines.insert(at, l);
        }
        2 => {
            let (a, b) = (rng.below(n), rng.below(n));
            lines.swap(a, b);
        }
        3 | 4 | 5 => {
            // a token
            let k = rng.below(n);
            let mut words: Vec<String> = String::from_utf8_lossy(&lines[k])
                .split_whitespace()
                .map(|w| w.to_owned())
                .collect();
            if words.is_empty() {
                words.push(rng.pick(&TOKENS).to_string());
            } else {
                let at = rng.below(words.len());
                match rng.below(4) {
                    0 => {
                        words.remove(at);
                    }
                    1 => words.insert(at, rng.pick(&TOKENS).to_string()),
                    2 => {
                        let from = rng.below(words.len());
                        words[at] = words[from].clone();
                    }
                    _ => words[at] = rng.pick(&TOKENS).to_string(),
                }
            }
            lines[k] = words.join(" ").into_bytes();
        }
        6 => {
            let all = lines.join(&b'\n');
            *bytes = all[..rng.below(all.len() + 1)].to_vec();
            return;
        }
        7 | 8 => {
            let mut all = lines.join(&b'\n');
            if !all.is_empty() {
                let at = rng.below(all.len());
                all[at] ^= 1 << rng.below(8);
            }
            *bytes = all;
            return;
        }
        9 => {
            let mut all = lines.join(&b'\n');
            let at = rng.below(all.len() + 1);
            let x = *rng.pick(&[0u8, 255, 0xc3, b'\n', b'\r', b' ', b'#', b'-', b'9', b'.']);
            all.insert(at, x);
            *bytes = all;
            return;
        }
        10 => {
            let mut all = lines.join(&b'\n');
            if !all.is_empty() {
                all.remove(rng.below(all.len()));
            }
            *bytes = all;
            return;
        }
        11 | 12 => {
            // counts
            let counts: Vec<usize> = (0..n)
                .filter(|k| !lines[*k].is_empty() && lines[*k].iter().all(|b| b.is_ascii_digit()))
                .collect();
            if !counts.is_empty() {
                let k = *rng.pick(&counts);
                let c: u128 = String::from_utf8_lossy(&lines[k]).parse().unwrap_or(0);
                let c = match rng.below(7) {
                    0 => c + 1,
                    1 => c.saturating_sub(1),
                    2 => u64::MAX as u128,
                    3 => u64::MAX as u128 + 1,
                    4 => 1 << 62,
                    5 => 0,
                    _ => 1 << 40,
                };
                lines[k] = c.to_string().into_bytes();
            }
        }
        _ => {
            // some lines
            let k = rng.below(n);
            let to = (k + rng.range(1, 4)).min(n);
            lines.drain(k..to);
        }
    }
    *bytes = lines.join(&b'\n');
}

pub fn fmi(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let mut m = gen_model(rng, GenOpts { max_nodes: 9, max_dim: 3, ..GenOpts::default() });
    if rng.chance(1, 2) {
        flat_levels(&mut m);
        let alphas = gen_alphas(rng, m.metrics.len());
        if let Some(c) = contract(rng, &m, &alphas, 60) {
            m = c;
        }
    }
    let l = Layout::random(&m, rng);
    let noise = if rng.chance(1, 2) { Noise::None } else { Noise::Some };
    let text = fmi_text(&m, &l, rng, noise);
    for _ in 0..6 {
        let mut bytes = text.clone().into_bytes();
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
            damage(rng, &mut bytes);
        }
        let file = ctx.path("map.fmi");
        std::fs::write(&file, &bytes).expect("scratch-file");
        let yaml = parsing_yaml(&m, &l, &file, None, "");
        let r = load_yaml(ctx, "map.yaml", &yaml)?;
        match (understand(&bytes, &m, &l), r) {
            (Said::Bad(why), Ok(_)) => viol!(
                "a damaged map is accepted, though {}:\n{}", why, String::from_utf8_lossy(&bytes)
            ),
            (Said::Bad(_), Err(e)) => {
                ensure!(!e.trim().is_empty(), "the error is not described");
                ctx.count("maps_refused", 1);
                ctx.nontrivial(hash_bytes(&bytes));
            }
            (Said::Map(said), Ok(g)) => {
                let s = Snap::of(&g)?;
                let shown = || String::from_utf8_lossy(&bytes).into_owned();
                check_content(&said, &s).map_err(|v| crate::util::Viol(format!("{}\nmap:\n{}", v.0, shown())))?;
                check_shortcuts(&said, &s).map_err(|v| crate::util::Viol(format!("{}\nmap:\n{}", v.0, shown())))?;
                ctx.count("damaged_maps_with_intact_meaning", 1);
                ctx.nontrivial(hash_bytes(&bytes));
            }
            (Said::Map(_), Err(_)) => ctx.count("readable_maps_refused", 1),
            (Said::Open, _) => ctx.count("maps_within_accuracy", 1),
        }
    }
    let last = ctx.path("map.fmi");
    ctx.sample(|| String::from_utf8_lossy(&std::fs::read(last).unwrap_or_default()).into_owned());
    Ok(())
}

/// Files, that are missing or of another kind.
fn odd_files(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let m = gen_model(rng, GenOpts { max_nodes: 4, max_dim: 2, ..GenOpts::default() });
    let l = Layout::plain(&m);
    let kind = rng.below(8);
    let name = ["no.fmi", "dir.fmi", "empty.fmi", "none", "map.xyz", "no.pbf", "dir.pbf", "empty-dir/map.fmi"][kind];
    let file = ctx.path(name);
    match kind {
        1 | 6 => std::fs::create_dir_all(&file).expect("scratch-dir"),
        2 => std::fs::write(&file, b"").expect("scratch-file"),
        3 | 4 => std::fs::write(&file, fmi_text(&m, &l, rng, Noise::None)).expect("scratch-file"),
        _ => (),
    }
    let mut yaml = parsing_yaml(&m, &l, &file, None, "");
    if kind == 5 || kind == 6 {
        yaml = yaml.replace(&format!("unit: '{}'", m.metrics[0].0), "unit: 'LaneCount'");
    }
    let r = load_yaml(ctx, "odd.yaml", &yaml)?;
    match r {
        Ok(_) => viol!("a graph is read from '{}', which is missing or no map", name),
        Err(e) => ensure!(!e.trim().is_empty(), "the error is not described"),
    }
    ctx.count("odd_files_refused", 1);
    Ok(())
}

fn route_pairs(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let m = gen_model(rng, GenOpts { max_nodes: 6, max_dim: 1, ..GenOpts::default() });
    let l = Layout::plain(&m);
    let g = build_ok(ctx, rng, "graph", &m, &l, Noise::None, None, "")?;
    for _ in 0..8 {
        let n = rng.range(1, 8);
        let mut text = String::from("# routes\n\n# count\n");
        let _ = writeln!(text, "{}\n\n# src dst count", n);
        for _ in 0..n {
            let (a, b) = (rng.pick(&m.nodes).id, rng.pick(&m.nodes).id);
            let _ = writeln!(text, "{} {} {}", a, b, rng.below(4));
        }
        let mut bytes = text.into_bytes();
        for _ in 0..*rng.pick(&[1, 1, 2]) {
            damage(rng, &mut bytes);
        }
        let file = ctx.path("damaged.route-pairs");
        std::fs::write(&file, &bytes).expect("scratch-file");
        // what it says
        let said: Result<Vec<(i64, i64, usize)>, &str> = (|| {
            let lines = functional(&bytes).ok_or("the text is not utf-8")?;
            let words: Vec<Vec<&str>> = lines.iter().map(|l| l.split_whitespace().collect()).collect();
            let mut count = None;
            let mut start = 0;
            let mut is_counting = false;
            for w in &words {
                if w.len() == 1 {
                    is_counting = true;
                    if count.is_some() {
                        return Err("there is more than one count");
                    }
                    count = Some(w[0].parse::<usize>().map_err(|_| "the count is not readable")?);
                } else if is_counting {
                    break;
                }
                start += 1;
            }
            let count = count.ok_or("the count is missing")?;
            if (start as u128 + count as u128) > words.len() as u128 {
                return Err("there are fewer lines than announced");
            }
            let mut v = vec![];
            for w in &words[start..start + count] {
                if w.len() != 3 {
                    return Err("a line has another number of columns");
                }
                v.push((
                    w[0].parse().map_err(|_| "an id is not readable")?,
                    w[1].parse().map_err(|_| "an id is not readable")?,
                    w[2].parse().map_err(|_| "a count is not readable")?,
                ));
            }
            Ok(v)
        })();
        let got = parse_pairs(ctx, &g, &m, &file)?;
        let shown = String::from_utf8_lossy(&bytes);
        match (said, got) {
            (Err(why), Ok(_)) => viol!("damaged route-pairs are accepted, though {}:\n{}", why, shown),
            (Err(_), Err(e)) => {
                ensure!(!e.trim().is_empty(), "the error is not described");
                ctx.count("route_pairs_refused", 1);
            }
            (Ok(a), Ok(b)) => ensure!(a == b, "route-pairs {:?} are read as {:?}:\n{}", a, b, shown),
            (Ok(_), Err(_)) => ctx.count("readable_route_pairs_refused", 1),
        }
        ctx.nontrivial(hash_bytes(&bytes));
    }
    Ok(())
}

fn edge_data(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let m = gen_model(rng, GenOpts { max_nodes: 6, max_dim: 2, edge_ids: Some(true), ..GenOpts::default() });
    let l = Layout::plain(&m);
    let plain = build_ok(ctx, rng, "plain", &m, &l, Noise::None, None, "")?;
    let s = Snap::of(&plain)?;
    for _ in 0..3 {
        let mut text = String::from("edge-id ignored value\n");
        for e in &s.edges {
            let _ = writeln!(text, "{} _ {}", e.id.unwrap(), (1 + rng.below(99)) as f64 * 0.5);
        }
        let mut bytes = text.into_bytes();
        for _ in 0..*rng.pick(&[1, 1, 2]) {
            damage(rng, &mut bytes);
        }
        let file = ctx.path("damaged.csv");
        std::fs::write(&file, &bytes).expect("scratch-file");
        let id = &m.metrics[0].1;
        let gen = format!(
            "  generating:\n    nodes: []\n    edges:\n    - merge:\n        from: '{}'\n        edge-id: 'edge-id'\n        edges-info:\n        - id: 'edge-id'\n        - ignored\n        - id: '{}'\n",
            file.display(), id
        );
        let c = s.col(id).unwrap();
        let said: Result<Vec<f64>, &str> = (|| {
            let lines = functional(&bytes).ok_or("the text is not utf-8")?;
            let mut values: Vec<f64> = s.edges.iter().map(|e| e.metrics[c]).collect();
            for l in lines.iter().skip(1) {
                let w: Vec<&str> = l.split_whitespace().collect();
                let id: usize = w.get(0).ok_or("a column is missing")?.parse().map_err(|_| "an id is not readable")?;
                let k = s.edges.iter().position(|e| e.id == Some(id)).ok_or("an id is unknown")?;
                values[k] = w.get(2).ok_or("a column is missing")?.parse().map_err(|_| "a value is not readable")?;
            }
            Ok(values)
        })();
        let got = build(ctx, rng, "merged", &m, &l, Noise::None, None, &gen)?;
        let shown = String::from_utf8_lossy(&bytes);
        match (said, got) {
            (Err(why), Ok(_)) => viol!("damaged edge-data is accepted, though {}:\n{}", why, shown),
            (Err(_), Err(e)) => {
                ensure!(!e.trim().is_empty(), "the error is not described");
                ctx.count("edge_data_refused", 1);
            }
            (Ok(values), Ok(g)) => {
                let t = Snap::of(&g)?;
                for (i, e) in t.edges.iter().enumerate() {
                    let (a, b) = (values[i], e.metrics[c]);
                    // negative values and values being no number needn't be accepted as they are
                    ensure!(
                        a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
                        "value {:?} of edge {} is read as {:?}:\n{}", a, i, b, shown
                    );
                }
            }
            (Ok(_), Err(_)) => ctx.count("readable_edge_data_refused", 1),
        }
        ctx.nontrivial(hash_bytes(&bytes));
    }
    Ok(())
}

/// Reading fails, is interrupted or gives only a part at any call.
fn read_faults(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    let max_nodes = *rng.pick(&[4, 4, 120]);
    let m = gen_model(rng, GenOpts { max_nodes, max_dim: 2, edge_ids: Some(true), ..GenOpts::default() });
    let l = Layout::plain(&m);
    let kind = rng.below(4);
    let plain = build_ok(ctx, rng, "plain", &m, &l, Noise::None, None, "")?;
    let s = Snap::of(&plain)?;
    let yaml;
    match kind {
        0 => yaml = parsing_yaml(&m, &l, &ctx.path("plain.fmi"), None, ""),
        1 => {
            let mut text = String::from("edge-id value\n");
            for e in &s.edges {
                let _ = writeln!(text, "{} {}", e.id.unwrap(), (1 + rng.below(99)) as f64 * 0.5);
            }
            let file = ctx.write("faulty.csv", &text);
            let gen = format!(
                "  generating:\n    nodes: []\n    edges:\n    - merge:\n        from: '{}'\n        edge-id: 'edge-id'\n        edges-info:\n        - id: 'edge-id'\n        - id: '{}'\n",
                file.display(), m.metrics[0].1
            );
            yaml = parsing_yaml(&m, &l, &ctx.path("plain.fmi"), None, &gen);
        }
        2 => yaml = super::pbf::some_extract(ctx, rng),
        _ => yaml = String::new(),
    }
    let pairs = ctx.path("faulty.route-pairs");
    if kind == 3 {
        let n = rng.range(1, 400);
        let mut text = format!("{}\n", n);
        for _ in 0..n {
            let _ = writeln!(text, "{} {} {}", rng.pick(&s.nodes).id, rng.pick(&s.nodes).id, rng.below(5));
        }
        std::fs::write(&pairs, text).expect("scratch-file");
    }
    let load = |ctx: &Ctx| -> Check<Result<String, String>> {
        Ok(if kind == 3 {
            parse_pairs(ctx, &plain, &m, &pairs)?.map(|p| format!("{:?}", p))
        } else {
            match load_yaml(ctx, "faulty.yaml", &yaml)? {
                Ok(g) => Ok(format!("{:?}", Snap::of(&g)?)),
                Err(e) => Err(e),
            }
        })
    };
    let what = ["a map", "a map with edge-data", "an extract", "route-pairs"][kind];
    let (want, calls) = faults::count(Op::Read, || load(ctx));
    let want = match want? {
        Ok(w) => w,
        Err(e) => viol!("{} can't be read: {}", what, e),
    };
    let mut plans = vec![(0, Fault::Short(1 + rng.below(7))), (0, Fault::Short(1 + rng.below(3000)))];
    for k in 0..calls {
        if calls <= 16 || rng.below(calls) < 16 {
            plans.push((k, Fault::Once(libc::EIO)));
            plans.push((k, Fault::From(*rng.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE]))));
            plans.push((k, Fault::Once(libc::EINTR)));
        }
    }
    for (at, fault) in plans {
        let (r, fired) = faults::with(Op::Read, at, fault, || load(ctx));
        let is_harmless = fired == 0 || fault == Fault::Once(libc::EINTR) || matches!(fault, Fault::Short(_));
        match r? {
            Ok(got) => {
                ensure!(got == want, "reading {} gives something else after {:?} at read {} of {}", what, fault, at, calls);
                if fired > 0 && !is_harmless {
                    ctx.count("complete_despite_failed_reads", 1);
                }
            }
            Err(e) => {
                ensure!(!is_harmless, "reading {} fails, although no read fails ({:?} at {} of {}): {}", what, fault, at, calls, e);
                ensure!(!e.trim().is_empty(), "the error is not described");
                ctx.count("failed_reads_reported", 1);
            }
        }
        if fired > 0 {
            ctx.count("failed_or_partial_reads", 1);
        }
    }
    ctx.nontrivial(crate::util::mix(hash_bytes(want.as_bytes()), kind as u64));
    Ok(())
}

pub fn x01(ctx: &mut Ctx, rng: &mut Rng) -> Check {
    match rng.below(13) {
        0 => odd_files(ctx, rng),
        1 => route_pairs(ctx, rng),
        2 => edge_data(ctx, rng),
        3 | 4 => super::pbf::damaged(ctx, rng),
        5 => read_faults(ctx, rng),
        _ => fmi(ctx, rng),
    }
}
