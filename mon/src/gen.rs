//! Workload generators: numbers, strings, maps and ways of building consumers.
use crate::cx::{Cx, Rng};
use crate::model::*;
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::SourceMapJson;

pub const MAX: i64 = i32::MAX as i64;

/// Non-negative numbers: small ones, ones near powers of two, any width.
pub fn natural(rng: &mut Rng, max: i64) -> i64 {
    let v = match rng.below(10) {
        0..=3 => rng.range(0, 4),
        4 => rng.range(0, 40),
        5 => rng.range(0, 1000),
        6 | 7 => {
            let p = 1i64 << rng.range(1, 31);
            p + rng.range(-2, 2)
        }
        8 => {
            let w = rng.range(1, 31);
            rng.range(0, (1i64 << w) - 1)
        }
        _ => max - rng.range(0, 3),
    };
    v.clamp(0, max)
}

/// Any i32, with emphasis on the extremes and on powers of two.
pub fn any_i32(rng: &mut Rng) -> i32 {
    match rng.below(8) {
        0 => i32::MIN,
        1 => i32::MAX,
        2 => rng.range(-3, 3) as i32,
        3 => -(natural(rng, MAX) as i32),
        4 => natural(rng, MAX) as i32,
        5 => i32::MIN.wrapping_add(rng.range(0, 5) as i32),
        _ => rng.u64() as i32,
    }
}

#[derive(Clone, Copy)]
pub struct Coord {
    kind: u8,
}
impl Coord {
    pub fn new(rng: &mut Rng) -> Coord {
        Coord { kind: *rng.pick(&[0, 0, 0, 1, 1, 2, 3, 3]) }
    }
    pub fn get(self, rng: &mut Rng, max: i64) -> u32 {
        (match self.kind {
            0 => rng.range(0, 3),
            1 => rng.range(0, 15),
            2 => rng.range(0, 400),
            _ => natural(rng, max),
        })
        .clamp(0, max) as u32
    }
}

/// A query coordinate near one that occurs, or any.
pub fn near(rng: &mut Rng, base: u32, max: i64) -> u32 {
    (match rng.below(8) {
        0..=3 => base as i64,
        4 => base as i64 + 1,
        5 => base as i64 - 1,
        6 => base as i64 + rng.range(-5, 5),
        _ => natural(rng, max),
    })
    .clamp(0, max) as u32
}

const ODD: &[char] = &[
    '"', '\\', '/', '\u{0}', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1b}', '\u{1f}', ' ', '\u{7f}', '\u{80}',
    '\u{a0}', 'é', 'ß', 'İ', 'ı', '\u{301}', '\u{200b}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}',
    '中', '\u{d7ff}', '\u{e000}', '😀', '\u{10ffff}', '<', '>', '&', '\'', ';', ',', ':', '?', '#', '%', '{', '}', '[', ']', '|', '^', '`', '~', '.', '-',
];

/// Texts that code may be tempted to take for none.
pub const WORDS: &[&str] = &[
    " ", "\n", "\t", "\r\n", "  \n ", "\u{feff}", "\u{a0}", "\0", "null", "undefined", "none", "false", "0", "-1", "{}", "[]", "\"\"", "''", "\\", "?", "#",
];

pub fn unicode(rng: &mut Rng, max_len: u64) -> String {
    if max_len > 0 && rng.one_in(12) {
        return rng.pick(WORDS).to_string();
    }
    let n = rng.below(max_len + 1);
    let style = rng.below(4);
    (0..n)
        .map(|_| match style {
            0 => (b'a' + rng.below(26) as u8) as char,
            1 => *rng.pick(ODD),
            2 => {
                if rng.chance(60) {
                    (b' ' + rng.below(95) as u8) as char
                } else {
                    *rng.pick(ODD)
                }
            }
            _ => loop {
                let w = rng.range(1, 21);
                if let Some(c) = char::from_u32(rng.below(1 << w) as u32) {
                    break c;
                }
            },
        })
        .collect()
}

/// Lengths around those at which things tend to change.
pub fn length(rng: &mut Rng) -> usize {
    let at = *rng.pick(&[16, 24, 32, 32, 64, 64, 100, 128, 128, 256, 256, 512, 1024, 1024, 4096, 8192, 65536, 100_000]);
    (at + rng.range(-2, 3)) as usize
}

/// A text of such a length.
pub fn long(rng: &mut Rng) -> String {
    let unit = match rng.below(4) {
        0 => "é😀\n".to_string(),
        1 => "var x = \"0\";\r\n".to_string(),
        _ => format!("x{}", rng.below(10)),
    };
    let n = length(rng);
    let mut s = unit.repeat(n / unit.len() + 1);
    while s.len() > n {
        s.pop();
    }
    s
}

/// A JSON string literal, escaping at random what does not need it.
pub fn json_string(rng: &mut Rng, s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || rng.one_in(40) {
            let short = match c {
                '"' => "\\\"",
                '\\' => "\\\\",
                '\n' => "\\n",
                '\r' => "\\r",
                '\t' => "\\t",
                '/' => "\\/",
                '\u{8}' => "\\b",
                '\u{c}' => "\\f",
                _ => "",
            };
            if !short.is_empty() && rng.chance(50) {
                out.push_str(short);
            } else {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
    out
}

fn ws(rng: &mut Rng) -> &'static str {
    if rng.one_in(12) {
        *rng.pick(&[" ", "\n", "\t", "\r\n", "  "])
    } else {
        ""
    }
}

/// A JSON object with its members in a random order.
pub fn json_object(rng: &mut Rng, mut members: Vec<(&str, String)>) -> String {
    rng.shuffle(&mut members);
    let mut out = String::from("{");
    for (i, (k, v)) in members.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(ws(rng));
        out.push_str(&format!("\"{}\"", k));
        out.push_str(ws(rng));
        out.push(':');
        out.push_str(ws(rng));
        out.push_str(v);
    }
    out.push_str(ws(rng));
    out.push('}');
    out
}

/// Members the format does not have, some of them close to ones it has.
pub fn unknown_members(rng: &mut Rng, m: &mut Vec<(&'static str, String)>) {
    const KEYS: &[&str] = &[
        "x_extra", "source_root", "sources_content", "sourceroot", "SourceRoot", "SOURCES", "Version", "sourceContent", "sourceContents", "x_google_ignoreList",
        "ignoreList", "debugId", "debug_id", "x_facebook_sources", "lineCount", "mapping", "name", "source", "root", "content", "contents", "sourcesContents", "File", "", "sections ",
        "section", "lines", "col", "row", "path", "uri", "__proto__", "scopes", "rangeMappings", "é",
    ];
    if !rng.one_in(8) {
        return;
    }
    for _ in 0..rng.range(1, 3) {
        let k = *rng.pick(KEYS);
        if m.iter().any(|(n, _)| *n == k) {
            continue;
        }
        let v = match rng.below(8) {
            0 => "null".to_string(),
            1 => rng.range(-5, 100).to_string(),
            2 => "{\"a\":[1,2,null],\"version\":2}".to_string(),
            3 => "[\"zz.js\",null]".to_string(),
            4 => "true".to_string(),
            5 => "1.5e300".to_string(),
            6 => "[[],{},[{\"line\":-1}]]".to_string(),
            _ => "\"zz/\"".to_string(),
        };
        m.push((k, v));
    }
}

pub fn json_array(items: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", items.into_iter().collect::<Vec<_>>().join(","))
}

#[derive(Clone, Debug)]
pub struct GMap {
    pub sources: Vec<String>,
    pub names: Option<Vec<String>>,
    pub contents: Option<Vec<Option<String>>>,
    pub root: Option<String>,
    pub file: Option<String>,
    pub segs: Vec<Seg>,
    pub text: String,
}

impl GMap {
    pub fn json(&self, rng: &mut Rng) -> String {
        let mut m: Vec<(&'static str, String)> = vec![("version", "3".into())];
        let s = json_array(self.sources.iter().map(|s| json_string(rng, s)).collect::<Vec<_>>());
        m.push(("sources", s));
        m.push(("mappings", json_string(rng, &self.text)));
        if let Some(n) = &self.names {
            let n = json_array(n.iter().map(|s| json_string(rng, s)).collect::<Vec<_>>());
            m.push(("names", n));
        }
        if let Some(c) = &self.contents {
            let c = json_array(
                c.iter()
                    .map(|s| s.as_ref().map_or("null".to_string(), |s| json_string(rng, s)))
                    .collect::<Vec<_>>(),
            );
            m.push(("sourcesContent", c));
        }
        if let Some(f) = &self.file {
            m.push(("file", json_string(rng, f)));
        }
        if let Some(r) = &self.root {
            m.push(("sourceRoot", json_string(rng, r)));
        }
        unknown_members(rng, &mut m);
        json_object(rng, m)
    }
    pub fn name(&self, i: Option<u32>) -> Option<String> {
        i.and_then(|i| self.names.as_ref().and_then(|n| n.get(i as usize).cloned()))
    }
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub max_segs: u64,
    pub max_sources: u64,
    /// Largest generated line used (each costs a byte of text).
    pub max_line: i64,
    /// Largest column or original coordinate.
    pub max_coord: i64,
    pub unordered_lines: bool,
    /// At least so many, as far as the maxima allow.
    pub min_segs: u64,
    pub min_line: i64,
    pub min_sources: u64,
    pub min_names: u64,
}

/// A shape for this case: mostly small (many collisions), sometimes large.
pub fn shape(cx: &mut Cx) -> Shape {
    let r = &mut cx.rng;
    if cx.giant {
        let mut sh = Shape {
            max_segs: 300,
            max_sources: 6,
            max_line: 40,
            max_coord: MAX - 1,
            unordered_lines: r.one_in(5),
            min_segs: 0,
            min_line: 0,
            min_sources: 0,
            min_names: 0,
        };
        match r.below(5) {
            0 => (sh.min_segs, sh.max_segs, sh.max_line) = (20_000, 100_000, if r.chance(50) { 1 } else { 40 }),
            1 => (sh.min_line, sh.max_line) = (66_000, 1_000_000),
            2 => (sh.min_sources, sh.max_sources, sh.max_segs) = (66_000, 100_000, 3000),
            3 => (sh.min_names, sh.max_segs) = (66_000, 3000),
            _ => (sh.min_segs, sh.max_segs, sh.min_line, sh.max_line) = (20_000, 80_000, 20_000, 80_000),
        }
        return sh;
    }
    let big = if cx.idx < 200 { 0 } else { r.below(100) };
    let (max_segs, max_sources, max_line) = match big {
        0..=79 => (14, 4, 6),
        80..=93 => (60, 6, 40),
        94..=98 => (400, 70, 300),
        _ => {
            if cx.thorough || r.one_in(4) {
                (6000, 300, 70000)
            } else {
                (1500, 300, 3000)
            }
        }
    };
    Shape {
        max_segs,
        max_sources,
        max_line,
        max_coord: MAX - 1,
        unordered_lines: r.one_in(5),
        min_segs: 0,
        min_line: 0,
        min_sources: 0,
        min_names: 0,
    }
}

pub fn segments(rng: &mut Rng, sh: &Shape, nsrc: u64, nname: u64) -> Vec<Seg> {
    let n = rng.range(sh.min_segs.min(sh.max_segs) as i64, sh.max_segs as i64) as u64;
    let wide = (sh.max_coord == MAX - 1) as i64;
    let gcol = Coord::new(rng);
    let oline = Coord::new(rng);
    let ocol = Coord::new(rng);
    let lines = rng.range(sh.min_line.min(sh.max_line), sh.max_line.max(1));
    let no_orig = *rng.pick(&[0, 10, 30, 80]);
    let named = *rng.pick(&[0, 30, 60, 100]);
    // Some maps keep a single source or original line busy.
    let focus = rng.one_in(3);
    let mut segs: Vec<Seg> = (0..n)
        .map(|_| {
            let gl = rng.range(0, lines) as u32;
            // A column may be the largest number; a line has to be counted from one.
            let gc = gcol.get(rng, sh.max_coord + wide);
            let o = if nsrc == 0 || rng.chance(no_orig) {
                None
            } else {
                Some(Orig {
                    src: if focus && rng.chance(70) { 0 } else { rng.below(nsrc) as u32 },
                    line: oline.get(rng, sh.max_coord),
                    col: ocol.get(rng, sh.max_coord + wide),
                    name: if nname > 0 && rng.chance(named) { Some(rng.below(nname) as u32) } else { None },
                })
            };
            Seg { gl, gc, o }
        })
        .collect();
    // Exact repetitions and equal positions with another original.
    for _ in 0..rng.below(3) {
        if segs.is_empty() {
            break;
        }
        let mut s = *rng.pick(&segs);
        if rng.chance(50) {
            s.o = rng.pick(&segs).o;
        }
        segs.push(s);
    }
    segs.sort();
    segs.sort_by_key(|s| (s.gl, s.gc));
    segs
}

pub const ROOTS: &[&str] = &["", "/", "src", "src/", "/the/root", "http://h.io/x", "../up", "//cdn.io/y/"];
pub const URLS: &[&str] = &["", "out.js.map", "/maps/out.js.map", "http://h.io/m/out.js.map", "../d/out.js.map", "//cdn.io/m.map"];

/// A consistent map. Indices are within the lists, values within i32.
pub fn gmap(cx: &mut Cx, sh: &Shape) -> GMap {
    let rng = &mut cx.rng;
    let nsrc = match rng.below(20) {
        _ if sh.min_sources > 0 => rng.range(sh.min_sources.min(sh.max_sources) as i64, sh.max_sources as i64) as u64,
        0 => 0,
        1..=17 => rng.range(1, sh.max_sources.min(6) as i64) as u64,
        _ => rng.range(1, sh.max_sources as i64) as u64,
    };
    let nname = match rng.below(6) {
        _ if sh.min_names > 0 => rng.range(sh.min_names as i64, 2 * sh.min_names as i64) as u64,
        0 => 0,
        1..=4 => rng.range(1, 5) as u64,
        _ => rng.range(1, 1 + 2 * sh.max_sources as i64) as u64,
    };
    let mut segs = segments(rng, sh, nsrc, nname);
    if sh.unordered_lines {
        shuffle_within_lines(rng, &mut segs);
    }
    let mut text = encode(&segs);
    for _ in 0..(if rng.one_in(6) { rng.below(4) } else { 0 }) {
        text.push(';');
    }
    let exts = ["js", "ts", "css", "mjs"];
    let mut sources: Vec<String> = (0..nsrc)
        .map(|i| match rng.below(12) {
            0 => format!("http://h.io/abs/f{}.js", i),
            1 => format!("/p/f{}.js", i),
            2 => format!("../f{}.ts", i),
            3 => format!("d/f{}.css", i),
            4 => format!("./e/../f{}.js", i),
            _ => format!("f{}.{}", i, exts[rng.idx(4)]),
        })
        .collect();
    if nsrc > 1 && rng.one_in(10) {
        let (a, b) = (rng.idx(nsrc as usize), rng.idx(nsrc as usize));
        sources[a] = sources[b].clone();
    }
    let names = if nname == 0 && rng.chance(50) {
        None
    } else {
        Some((0..nname).map(|i| if rng.one_in(9) { unicode(rng, 6) } else { format!("n{}", i) }).collect())
    };
    let contents = contents(rng, nsrc as usize);
    GMap {
        sources,
        names,
        contents,
        root: if nsrc < 1000 && rng.chance(30) { Some(rng.pick(ROOTS).to_string()) } else { None },
        file: if rng.chance(30) { Some("out.js".into()) } else { None },
        segs,
        text,
    }
}

/// Now and then some references point a little beyond the lists.
pub fn dangle(rng: &mut Rng, map: &mut GMap) {
    if !rng.one_in(12) {
        return;
    }
    let (ns, nn) = (map.sources.len() as u32, map.names.as_ref().map_or(0, |n| n.len()) as u32);
    let share = *rng.pick(&[10, 40, 100]);
    for s in &mut map.segs {
        if let Some(o) = &mut s.o {
            if rng.chance(share) {
                match rng.below(3) {
                    0 => o.src = ns + rng.below(4) as u32,
                    1 => o.name = Some(nn + rng.below(4) as u32),
                    _ => (o.src, o.name) = (ns + rng.below(4) as u32, Some(nn + rng.below(4) as u32)),
                }
            }
        }
    }
    let tail = map.text.len() - map.text.trim_end_matches(';').len();
    map.text = encode(&map.segs) + &";".repeat(tail);
}

pub fn contents(rng: &mut Rng, nsrc: usize) -> Option<Vec<Option<String>>> {
    if rng.chance(40) {
        return None;
    }
    let n = match rng.below(8) {
        0 => rng.idx(nsrc + 1),
        1 => nsrc + rng.idx(3),
        _ => nsrc,
    };
    let nulls = *rng.pick(&[0, 0, 30, 90]);
    Some(
        (0..n)
            .map(|i| if rng.chance(nulls) { None } else if rng.one_in(8) { Some(String::new()) } else if rng.one_in(8) { Some(rng.pick(WORDS).to_string()) } else { Some(format!("content {}", i)) })
            .collect(),
    )
}

pub fn map_url(rng: &mut Rng) -> Option<String> {
    if rng.chance(35) {
        Some(rng.pick(URLS).to_string())
    } else {
        None
    }
}

pub const WAYS: u64 = 4;
/// Builds a basic consumer in one of the ways the interface offers.
pub fn basic(way: u64, json: &str, url: Option<&str>) -> BasicConsumer {
    match way % WAYS {
        0 => match create_consumer(json, url) {
            Ok(Consumer::BasicConsumer(b)) => b,
            Ok(_) => panic!("ORACLE create_consumer made an indexed consumer of a basic map"),
            Err(e) => panic!("ORACLE create_consumer refused a valid map: {}", e),
        },
        1 => BasicConsumer::new(json, url),
        2 => {
            let doc: SourceMapJson = serde_json::from_str(json).unwrap_or_else(|e| panic!("ORACLE valid map refused: {}", e));
            BasicConsumer::from_source_map_json(doc, url)
        }
        _ => match url {
            Some(u) => {
                let mut got = None;
                BasicConsumer::consume(json.to_string(), u.to_string(), |c| got = Some(c));
                got.unwrap_or_else(|| panic!("ORACLE consume did not call back"))
            }
            None => BasicConsumer::new(json, None),
        },
    }
}

pub fn indexed(way: u64, json: &str, url: Option<&str>) -> IndexedConsumer {
    match way % WAYS {
        0 => match create_consumer(json, url) {
            Ok(Consumer::IndexedConsumer(b)) => b,
            Ok(_) => panic!("ORACLE create_consumer made a basic consumer of an indexed map"),
            Err(e) => panic!("ORACLE create_consumer refused a valid indexed map: {}", e),
        },
        1 => IndexedConsumer::new(json, url),
        2 => {
            let doc: SourceMapJson = serde_json::from_str(json).unwrap_or_else(|e| panic!("ORACLE valid map refused: {}", e));
            IndexedConsumer::from_source_map_json(doc, url)
        }
        _ => match url {
            Some(u) => {
                let mut got = None;
                IndexedConsumer::consume(json.to_string(), u.to_string(), |c| got = Some(c));
                got.unwrap_or_else(|| panic!("ORACLE consume did not call back"))
            }
            None => IndexedConsumer::new(json, None),
        },
    }
}
