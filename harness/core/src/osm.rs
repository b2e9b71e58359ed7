//! Extracts of OpenStreetMap: a model, an own encoder of the binary format and what the tags mean.
use crate::{
    osm_tables::{Use, DEFAULT_SPEEDS, NOT_ONEWAY, ONEWAY, ONEWAY_REVERSE, SPEEDS, STREETS, UNUSED_TAGS},
    util::Rng,
};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct ONode {
    pub id: i64,
    /// 1e-7 degrees
    pub lat: i64,
    pub lon: i64,
    pub tags: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct OWay {
    pub id: i64,
    pub refs: Vec<i64>,
    pub tags: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct Extract {
    pub nodes: Vec<ONode>,
    pub ways: Vec<OWay>,
    pub relations: usize,
}

//------------------------------------------------------------------------------------------------//
// what the tags mean

/// street-type of a value of the tag `highway`, as position in the table
pub fn street_of(value: &str) -> Option<usize> {
    let v = value.trim_end().to_ascii_lowercase();
    STREETS.iter().position(|s| s.tags.contains(&v.as_str()))
}

pub fn tag<'a>(w: &'a OWay, key: &str) -> Option<&'a str> {
    w.tags.iter().find(|t| t.0 == key).map(|t| t.1.as_str())
}

pub fn kmh_of(w: &OWay, street: usize) -> f64 {
    let v = match tag(w, "maxspeed") {
        None => return STREETS[street].kmh as f64,
        Some(v) => v,
    };
    if !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) {
        if let Ok(x) = v.parse::<u64>() {
            if x <= 65_535 {
                return x.max(5) as f64;
            }
        }
        return STREETS[street].kmh as f64;
    }
    let v = v.trim().to_ascii_lowercase();
    SPEEDS
        .iter()
        .find(|s| s.0 == v)
        .map_or(STREETS[street].kmh as f64, |s| s.1 as f64)
}

/// directed edges (src, dst, kmh, lanes)
pub fn edges_of(x: &Extract, vehicle: usize, picky: bool) -> Vec<(i64, i64, f64, f64)> {
    let mut out = Vec::new();
    for w in &x.ways {
        let street = match tag(w, "highway").and_then(street_of) {
            Some(s) => s,
            None => continue,
        };
        match STREETS[street].usable[vehicle] {
            Use::Yes => {}
            Use::No => continue,
            Use::Unpicky if picky => continue,
            Use::Unpicky => {}
        }
        let kmh = kmh_of(w, street);
        let lanes = STREETS[street].lanes as f64;
        let oneway = tag(w, "oneway").map(|o| o.trim().to_ascii_lowercase());
        let (forth, back) = match oneway {
            Some(o) if ONEWAY.contains(&o.as_str()) => (true, false),
            Some(o) if ONEWAY_REVERSE.contains(&o.as_str()) => (false, true),
            _ => (true, true),
        };
        for p in w.refs.windows(2) {
            if forth {
                out.push((p[0], p[1], kmh, lanes));
            }
            if back {
                out.push((p[1], p[0], kmh, lanes));
            }
        }
    }
    out
}

//------------------------------------------------------------------------------------------------//
// generating

fn any_case(rng: &mut Rng, s: &str, trailing: bool) -> String {
    let mut out: String = match rng.below(8) {
        0 => s.to_ascii_uppercase(),
        1 => s
            .chars()
            .map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c })
            .collect(),
        _ => s.to_owned(),
    };
    if trailing && rng.chance(1, 10) {
        out.push(' ');
    }
    out
}

fn gen_tags(rng: &mut Rng) -> Vec<(String, String)> {
    let mut tags = Vec::new();
    if rng.chance(19, 20) {
        let v = match rng.below(12) {
            0 => {
                let t = rng.pick(UNUSED_TAGS).to_string();
                any_case(rng, &t, true)
            }
            1 => ["", "motorwa", "motorwayy", "residential;service2", "tertiary link", "путь", "-", "highway"][rng.below(8)]
                .to_string(),
            2 | 3 | 4 | 5 => {
                let s = rng.below(STREETS.len());
                let t = rng.pick(STREETS[s].tags).to_string();
                any_case(rng, &t, true)
            }
            _ => ["residential", "tertiary", "living_street", "residential", "service", "track", "cycleway", "path"]
                [rng.below(8)]
            .to_string(),
        };
        tags.push(("highway".to_string(), v));
    }
    if rng.chance(1, 2) {
        let v = match rng.below(8) {
            0 => {
                let t = rng.pick(DEFAULT_SPEEDS).to_string();
                any_case(rng, &t, true)
            }
            1 | 2 => {
                let t = rng.pick(SPEEDS).0.to_string();
                any_case(rng, &t, true)
            }
            3 => ["0", "1", "4", "5", "6", "007", "65535", "65536", "99999999999", "255", "256"][rng.below(11)].to_string(),
            4 => ["-50", "50.5", "fast", "", "50 km/h!", "50kmh", "1e2", "NaN"][rng.below(8)].to_string(),
            5 => [rng.range(1, 400), rng.range(1, 65_535)][rng.below(2)].to_string(),
            _ => (rng.range(1, 28) * 5).to_string(),
        };
        tags.push(("maxspeed".to_string(), v));
    }
    if rng.chance(1, 2) {
        let v = match rng.below(8) {
            0 | 1 => {
                let t = rng.pick(ONEWAY_REVERSE).to_string();
                any_case(rng, &t, true)
            }
            2 => {
                let t = rng.pick(NOT_ONEWAY).to_string();
                any_case(rng, &t, true)
            }
            3 => ["true", "", "0", "2", "yess", "reverse", "-11"][rng.below(7)].to_string(),
            _ => {
                let t = rng.pick(ONEWAY).to_string();
                any_case(rng, &t, true)
            }
        };
        tags.push(("oneway".to_string(), v));
    }
    // tags that don't matter
    for _ in 0..rng.below(3) {
        let (k, v) = [
            ("lanes", "4"),
            ("name", "Höhenweg"),
            ("junction", "roundabout"),
            ("access", "no"),
            ("Highway", "motorway"),
            ("maxspeed:forward", "30"),
            ("oneway:bicycle", "yes"),
            ("highway:old", "motorway"),
            ("building", "residential"),
            ("railway", "tram"),
        ][rng.below(10)];
        if !tags.iter().any(|t| t.0 == k) {
            tags.push((k.to_string(), v.to_string()));
        }
    }
    rng.shuffle(&mut tags);
    tags
}

pub fn gen_extract(rng: &mut Rng, max_nodes: usize, max_ways: usize) -> Extract {
    let is_giant = max_nodes > 65_536;
    let n = if is_giant { max_nodes } else { rng.range(2, max_nodes) };
    let style = rng.below(3);
    let mut ids: Vec<i64> = (0..n as i64)
        .map(|i| match style {
            0 => i + 1,
            1 => i * 7_919 + 4_000_000_000,
            _ => i * 13 - (n as i64) * 5,
        })
        .collect();
    if style != 1 && rng.chance(1, 3) {
        rng.shuffle(&mut ids);
    }
    let wide = rng.chance(1, 3);
    let nodes: Vec<ONode> = ids
        .iter()
        .map(|id| {
            let (lat, lon) = if wide {
                (
                    rng.below(1_800_000_001) as i64 - 900_000_000,
                    // within the range of 32 bits of the reader
                    rng.below(3_600_000_001) as i64 - 1_800_000_000,
                )
            } else {
                (
                    541_000_000 + rng.below(2_000_000) as i64,
                    -45_000_000 + rng.below(2_000_000) as i64,
                )
            };
            let tags = if rng.chance(1, 6) {
                vec![("highway".to_string(), "residential".to_string()), ("name".into(), "x".into())]
            } else {
                vec![]
            };
            ONode { id: *id, lat, lon, tags }
        })
        .collect();
    let w = if is_giant { max_ways } else { rng.below(max_ways + 1) };
    let mut ways: Vec<OWay> = Vec::new();
    for i in 0..w {
        let refs = if !ways.is_empty() && rng.chance(1, 8) {
            // parallel to another way
            let mut r = rng.pick(&ways).refs.clone();
            if rng.chance(1, 2) {
                r.reverse();
            }
            r
        } else {
            let len = match rng.below(10) {
                0 => rng.below(2),
                1 => 2,
                2 if n > 100 && !is_giant && rng.chance(1, 4) => rng.range(2, 2000),
                2 => rng.range(2, 30),
                _ => rng.range(2, 7),
            };
            let mut r: Vec<i64> = Vec::new();
            for k in 0..len {
                let mut id = *rng.pick(&ids);
                if k > 0 && n > 1 && r[k - 1] == id && !rng.chance(1, 6) {
                    while r[k - 1] == id {
                        id = *rng.pick(&ids);
                    }
                }
                r.push(id);
            }
            // round trips
            if len > 2 && rng.chance(1, 6) {
                let first = r[0];
                r.push(first);
            }
            r
        };
        ways.push(OWay { id: 100 + i as i64, refs, tags: gen_tags(rng) });
    }
    Extract { nodes, ways, relations: rng.below(3) }
}

//------------------------------------------------------------------------------------------------//
// encoding

#[derive(Clone, Debug)]
pub struct Enc {
    pub dense: usize,
    /// out of 4
    pub zlib: usize,
    pub granularity: i64,
    pub lat_offset: i64,
    pub lon_offset: i64,
    pub block_size: usize,
    pub ways_first: bool,
    pub several_groups: bool,
    pub shuffled_nodes: bool,
    /// blocks of very different sizes
    pub uneven: bool,
}

impl Enc {
    pub fn random(rng: &mut Rng) -> Enc {
        let odd = rng.chance(1, 4);
        Enc {
            dense: rng.below(3),
            zlib: rng.below(5),
            granularity: if odd { [1, 10, 50, 20][rng.below(4)] } else { 100 },
            lat_offset: if rng.chance(1, 4) { rng.below(2_000_000) as i64 * 100 - 70_000_000 } else { 0 },
            lon_offset: if rng.chance(1, 4) { rng.below(2_000_000) as i64 * 100 - 70_000_000 } else { 0 },
            block_size: match rng.below(4) {
                0 => 1,
                1 => rng.range(2, 5),
                2 => rng.range(5, 60),
                _ => 8000,
            },
            ways_first: rng.chance(1, 5),
            several_groups: rng.chance(1, 2),
            shuffled_nodes: rng.chance(1, 2),
            uneven: rng.chance(1, 3),
        }
    }
}

fn varint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}
fn zig(x: i64) -> u64 {
    ((x << 1) ^ (x >> 63)) as u64
}
fn key(out: &mut Vec<u8>, field: u64, wire: u64) {
    varint(out, field << 3 | wire);
}
fn num(out: &mut Vec<u8>, field: u64, x: u64) {
    key(out, field, 0);
    varint(out, x);
}
fn bytes(out: &mut Vec<u8>, field: u64, b: &[u8]) {
    key(out, field, 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
fn packed(out: &mut Vec<u8>, field: u64, xs: impl Iterator<Item = u64>) {
    let mut b = Vec::new();
    for x in xs {
        varint(&mut b, x);
    }
    if !b.is_empty() {
        bytes(out, field, &b);
    }
}
fn deltas(v: &[i64]) -> Vec<u64> {
    let mut last = 0i64;
    v.iter()
        .map(|x| {
            let d = x.wrapping_sub(last);
            last = *x;
            zig(d)
        })
        .collect()
}

fn zlib_stored(data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let chunks: Vec<&[u8]> = if data.is_empty() { vec![data] } else { data.chunks(65_535).collect() };
    for (i, c) in chunks.iter().enumerate() {
        out.push((i + 1 == chunks.len()) as u8);
        out.extend_from_slice(&(c.len() as u16).to_le_bytes());
        out.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        out.extend_from_slice(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65_521;
        b = (b + a) % 65_521;
    }
    out.extend_from_slice(&(b << 16 | a).to_be_bytes());
    out
}

/// Parts of a file, which are needed to damage it purposefully.
#[derive(Default, Debug, Clone)]
pub struct Parts {
    /// start of every block and the file's end
    pub starts: Vec<usize>,
    /// content of checksummed blocks of data
    pub checked: Vec<(usize, usize)>,
    /// content of other blocks of data
    pub raw: Vec<(usize, usize)>,
}

fn block(out: &mut Vec<u8>, parts: &mut Parts, ty: &str, data: &[u8], zlib: bool) {
    let mut blob = Vec::new();
    let payload;
    if zlib {
        num(&mut blob, 2, data.len() as u64);
        let z = zlib_stored(data);
        bytes(&mut blob, 3, &z);
        payload = z.len();
    } else {
        bytes(&mut blob, 1, data);
        payload = data.len();
    }
    let mut head = Vec::new();
    bytes(&mut head, 1, ty.as_bytes());
    num(&mut head, 3, blob.len() as u64);
    parts.starts.push(out.len());
    out.extend_from_slice(&(head.len() as u32).to_be_bytes());
    out.extend_from_slice(&head);
    out.extend_from_slice(&blob);
    if ty == "OSMData" {
        let end = out.len();
        let p = (end - payload, end);
        if zlib {
            parts.checked.push(p);
        } else {
            parts.raw.push(p);
        }
    }
}

/// divides into blocks
fn split<'a, T>(rng: &mut Rng, v: &'a [T], e: &Enc) -> Vec<&'a [T]> {
    if !e.uneven {
        return v.chunks(e.block_size).collect();
    }
    let mut out = Vec::new();
    let mut rest = v;
    while !rest.is_empty() {
        let most = if rng.chance(1, 2) { rest.len() } else { rest.len().min(3) };
        let (a, b) = rest.split_at(rng.range(1, most));
        out.push(a);
        rest = b;
    }
    out
}

struct Strings {
    list: Vec<Vec<u8>>,
    map: HashMap<String, u64>,
}
impl Strings {
    fn new() -> Strings {
        Strings { list: vec![Vec::new()], map: HashMap::new() }
    }
    fn get(&mut self, s: &str) -> u64 {
        if let Some(i) = self.map.get(s) {
            return *i;
        }
        let i = self.list.len() as u64;
        self.list.push(s.as_bytes().to_vec());
        self.map.insert(s.to_owned(), i);
        i
    }
}

fn primitive_block(rng: &mut Rng, st: &Strings, groups: &[Vec<u8>], e: &Enc) -> Vec<u8> {
    let mut out = Vec::new();
    let mut table = Vec::new();
    for s in &st.list {
        bytes(&mut table, 1, s);
    }
    bytes(&mut out, 1, &table);
    for g in groups {
        bytes(&mut out, 2, g);
    }
    if e.granularity != 100 || rng.chance(1, 2) {
        num(&mut out, 17, e.granularity as u64);
    }
    if e.lat_offset != 0 {
        num(&mut out, 19, e.lat_offset as u64);
    }
    if e.lon_offset != 0 {
        num(&mut out, 20, e.lon_offset as u64);
    }
    out
}

pub fn encode(rng: &mut Rng, x: &Extract, e: &Enc) -> (Vec<u8>, Parts) {
    let mut out = Vec::new();
    let mut parts = Parts::default();
    let mut header = Vec::new();
    bytes(&mut header, 4, b"OsmSchema-V0.6");
    bytes(&mut header, 4, b"DenseNodes");
    bytes(&mut header, 16, b"vmon");
    let zlib_header = rng.below(4) < e.zlib;
    block(&mut out, &mut parts, "OSMHeader", &header, zlib_header);

    let mut nodes: Vec<&ONode> = x.nodes.iter().collect();
    if e.shuffled_nodes {
        rng.shuffle(&mut nodes);
    }
    let lat = |n: &ONode| (n.lat * 100 - e.lat_offset) / e.granularity;
    let lon = |n: &ONode| (n.lon * 100 - e.lon_offset) / e.granularity;

    let mut node_blocks: Vec<Vec<u8>> = Vec::new();
    for chunk in split(rng, &nodes, e) {
        let mut st = Strings::new();
        let mut groups = Vec::new();
        let per_group = if e.several_groups { rng.range(1, chunk.len()) } else { chunk.len() };
        for part in chunk.chunks(per_group) {
            let dense = match e.dense {
                0 => false,
                1 => true,
                _ => rng.chance(1, 2),
            };
            let mut g = Vec::new();
            if dense {
                let mut d = Vec::new();
                let ids: Vec<i64> = part.iter().map(|n| n.id).collect();
                let lats: Vec<i64> = part.iter().map(|n| lat(n)).collect();
                let lons: Vec<i64> = part.iter().map(|n| lon(n)).collect();
                packed(&mut d, 1, deltas(&ids).into_iter());
                packed(&mut d, 8, deltas(&lats).into_iter());
                packed(&mut d, 9, deltas(&lons).into_iter());
                if part.iter().any(|n| !n.tags.is_empty()) {
                    let mut kv = Vec::new();
                    for n in part {
                        for t in &n.tags {
                            kv.push(st.get(&t.0));
                            kv.push(st.get(&t.1));
                        }
                        kv.push(0);
                    }
                    packed(&mut d, 10, kv.into_iter());
                }
                bytes(&mut g, 2, &d);
            } else {
                for n in part {
                    let mut o = Vec::new();
                    num(&mut o, 1, zig(n.id));
                    let ks: Vec<u64> = n.tags.iter().map(|t| st.get(&t.0)).collect();
                    let vs: Vec<u64> = n.tags.iter().map(|t| st.get(&t.1)).collect();
                    packed(&mut o, 2, ks.into_iter());
                    packed(&mut o, 3, vs.into_iter());
                    num(&mut o, 8, zig(lat(n)));
                    num(&mut o, 9, zig(lon(n)));
                    bytes(&mut g, 1, &o);
                }
            }
            groups.push(g);
        }
        node_blocks.push(primitive_block(rng, &st, &groups, e));
    }

    let mut way_blocks: Vec<Vec<u8>> = Vec::new();
    for chunk in split(rng, &x.ways, e) {
        let mut st = Strings::new();
        let mut groups = Vec::new();
        let per_group = if e.several_groups { rng.range(1, chunk.len()) } else { chunk.len() };
        for part in chunk.chunks(per_group) {
            let mut g = Vec::new();
            for w in part {
                let mut o = Vec::new();
                num(&mut o, 1, w.id as u64);
                let ks: Vec<u64> = w.tags.iter().map(|t| st.get(&t.0)).collect();
                let vs: Vec<u64> = w.tags.iter().map(|t| st.get(&t.1)).collect();
                packed(&mut o, 2, ks.into_iter());
                packed(&mut o, 3, vs.into_iter());
                packed(&mut o, 8, deltas(&w.refs).into_iter());
                bytes(&mut g, 3, &o);
            }
            groups.push(g);
        }
        way_blocks.push(primitive_block(rng, &st, &groups, e));
    }

    let mut rel_blocks: Vec<Vec<u8>> = Vec::new();
    if x.relations > 0 {
        let mut st = Strings::new();
        let mut g = Vec::new();
        for i in 0..x.relations {
            let mut o = Vec::new();
            num(&mut o, 1, i as u64 + 1);
            let ks = vec![st.get("highway"), st.get("type")];
            let vs = vec![st.get("motorway"), st.get("route")];
            packed(&mut o, 2, ks.into_iter());
            packed(&mut o, 3, vs.into_iter());
            let members: Vec<i64> = x.ways.iter().take(3).map(|w| w.id).collect();
            let role = st.get("forward");
            packed(&mut o, 8, members.iter().map(|_| role));
            packed(&mut o, 9, deltas(&members).into_iter());
            packed(&mut o, 10, members.iter().map(|_| 1));
            bytes(&mut g, 4, &o);
        }
        rel_blocks.push(primitive_block(rng, &st, &[g], e));
    }

    let blocks = if e.ways_first {
        way_blocks.into_iter().chain(rel_blocks).chain(node_blocks).collect::<Vec<_>>()
    } else {
        node_blocks.into_iter().chain(way_blocks).chain(rel_blocks).collect()
    };
    for b in blocks {
        let zlib = rng.below(4) < e.zlib;
        block(&mut out, &mut parts, "OSMData", &b, zlib);
    }
    parts.starts.push(out.len());
    (out, parts)
}
