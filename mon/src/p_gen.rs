//! Monitors for encoding and generating: C01 to C08, C33.
use crate::cx::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, tr};
use rusty_source_map::consumer::*;
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::source_map::Position;
use rusty_source_map::{base64, base64_vlq, util};
use serde_json::Value;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct GM {
    pub g: (i32, i32),
    pub o: Option<(i32, i32)>,
    pub src: Option<String>,
    pub name: Option<String>,
}

impl GM {
    pub fn lib(&self) -> Mapping {
        Mapping {
            generated: Position { line: self.g.0, column: self.g.1 },
            original: self.o.map(|o| Position { line: o.0, column: o.1 }),
            source: self.src.clone(),
            name: self.name.clone(),
            last_generated_column: None,
        }
    }
    pub fn of(m: &Mapping) -> GM {
        GM {
            g: (m.generated.line, m.generated.column),
            o: m.original.as_ref().map(|o| (o.line, o.column)),
            src: m.source.clone(),
            name: m.name.clone(),
        }
    }
    fn valid(&self) -> bool {
        self.g.0 >= 1
            && self.g.1 >= 0
            && match self.o {
                Some(o) => o.0 >= 1 && o.1 >= 0 && self.src.is_some(),
                None => self.src.is_none() && self.name.is_none(),
            }
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(cx: &mut Cx) -> Out {
    // A case is one of the chunks of contiguous values the whole range splits into.
    let chunks = 1u64 << 14;
    let len = 1u64 << 18;
    let (chunk, from, n) = if cx.idx < 64 {
        // Boundaries: around every power of two of both signs.
        (u64::MAX, 0, 0)
    } else {
        ((cx.idx - 64) % chunks, 0, len)
    };
    let mut out = String::new();
    let mut check = |v: i32, cx: &mut Cx| -> Out {
        let got = base64_vlq::base64vlq_encode(v);
        out.clear();
        put_vlq(&mut out, v as i64);
        if got != out {
            tr!(cx, "base64vlq_encode({}) = {:?}, expected {:?}", v, got, out);
            let mut at = 0;
            let back = get_vlq(got.as_bytes(), &mut at);
            return Err(format!(
                "base64vlq_encode({}) = {:?} (decodes to {:?}, {} of {} bytes), the canonical text is {:?}",
                v, got, back, at, got.len(), out
            ));
        }
        Ok(())
    };
    if chunk == u64::MAX {
        let p = cx.idx % 32;
        for d in -600i64..=600 {
            for s in [1i64, -1] {
                let v = s * (1i64 << p) + d;
                if v >= i32::MIN as i64 && v <= MAX {
                    check(v as i32, cx)?;
                    cx.count("numbers encoded", 1);
                }
            }
        }
        for k in 0..300 {
            let n = match k {
                0..=69 => k,
                _ => any_i32(&mut cx.rng),
            };
            let want = if (0..64).contains(&n) { Some(ALPHABET[n as usize] as char) } else { None };
            let got = base64::encode(n);
            tr!(cx, "base64::encode({}) = {:?}", n, got);
            ensure!(got == want, "base64::encode({}) = {:?}, expected {:?}", n, got, want);
        }
        cx.count("single digits encoded", 300);
    } else {
        let start = (chunk * len + from) as u32;
        for i in 0..n as u32 {
            check(start.wrapping_add(i) as i32, cx)?;
        }
        cx.count("numbers encoded", n);
    }
    cx.sig((chunk, from, cx.idx % 32 * (chunk == u64::MAX) as u64));
    Ok(())
}

// ------------------------------------------------- histories of mappings

pub struct Pool {
    pub sources: Vec<String>,
    pub names: Vec<String>,
    gcol: Coord,
    oline: Coord,
    ocol: Coord,
    lines: i64,
    no_orig: u64,
    named: u64,
    /// A giant history is long, has many sources or has many names.
    giant: Option<u64>,
}

pub fn pool(cx: &mut Cx, plain: bool) -> Pool {
    let r = &mut cx.rng;
    let wide = r.one_in(12);
    let giant = if cx.giant { Some(r.below(4)) } else { None };
    let ns = if giant == Some(1) { r.range(66_000, 80_000) } else if wide { r.range(1, 150) } else { r.range(1, 5) };
    let nn = if giant == Some(2) { r.range(66_000, 80_000) } else if wide { r.range(0, 150) } else { r.range(0, 4) };
    let mk = |r: &mut Rng, i: i64, p: &str| {
        if !plain && r.one_in(8) {
            unicode(r, 5)
        } else {
            format!("{}{}.js", p, i)
        }
    };
    let mut sources: Vec<String> = (0..ns).map(|i| mk(r, i, "s")).collect();
    let mut names: Vec<String> = (0..nn).map(|i| mk(r, i, "n")).collect();
    if nn > 0 && r.one_in(4) {
        // A name that is also a source, and the other way around.
        names[0] = sources[0].clone();
    }
    if !plain && giant.is_none() && r.one_in(20) {
        // Long ones that differ at the end only.
        let stem = long(r);
        for (i, s) in sources.iter_mut().chain(names.iter_mut()).enumerate().take(8) {
            if r.chance(70) {
                *s = format!("{}{}", stem, i);
            }
        }
    }
    r.shuffle(&mut sources);
    let lines = match r.below(20) {
        _ if giant == Some(3) => r.range(200_000, 1_500_000),
        0..=13 => r.range(1, 4),
        14..=18 => r.range(1, 60),
        _ => {
            if cx.thorough {
                r.range(1, 200_000)
            } else {
                let far = if r.one_in(10) { 400_000 } else { 20_000 };
                r.range(1, far)
            }
        }
    };
    Pool {
        sources,
        names,
        gcol: Coord::new(r),
        oline: Coord::new(r),
        ocol: Coord::new(r),
        lines,
        no_orig: *r.pick(&[0, 15, 50]),
        named: *r.pick(&[0, 40, 100]),
        giant,
    }
}

pub fn valid_mapping(r: &mut Rng, p: &Pool) -> GM {
    let g = (r.range(1, p.lines) as i32, p.gcol.get(r, MAX) as i32);
    if r.chance(p.no_orig) {
        return GM { g, o: None, src: None, name: None };
    }
    GM {
        g,
        o: Some((p.oline.get(r, MAX - 1) as i32 + 1, p.ocol.get(r, MAX) as i32)),
        src: Some(r.pick(&p.sources).clone()),
        name: if !p.names.is_empty() && r.chance(p.named) { Some(r.pick(&p.names).clone()) } else { None },
    }
}

pub fn history(cx: &mut Cx, p: &Pool) -> Vec<GM> {
    let r = &mut cx.rng;
    if let Some(k @ 0..=2) = p.giant {
        // Long enough to use every source and name.
        let n = p.sources.len().max(p.names.len()).max(30_000);
        let mut v: Vec<GM> = (0..n)
            .map(|i| {
                let mut m = valid_mapping(r, p);
                if m.o.is_some() {
                    match k {
                        1 => m.src = Some(p.sources[i % p.sources.len()].clone()),
                        2 => m.name = Some(p.names[i % p.names.len()].clone()),
                        _ => {}
                    }
                }
                m
            })
            .collect();
        if r.chance(50) {
            v.sort_by_key(|m| m.g);
        }
        return v;
    }
    let n = match r.below(40) {
        _ if p.giant == Some(3) => r.range(2, 60) as u64,
        0..=25 => r.below(9),
        26..=37 => r.below(50),
        38 => r.below(400),
        _ => r.below(if cx.thorough { 5000 } else { 1200 }),
    };
    // Every mapping holds its texts: as many as fit.
    let longest = p.sources.iter().chain(&p.names).map(|t| t.len()).max().unwrap_or(0) as u64;
    let n = n.min(10_000_000 / longest.max(1));
    let mut v: Vec<GM> = vec![];
    for _ in 0..n {
        let m = if !v.is_empty() && r.one_in(7) {
            let mut m = r.pick(&v).clone();
            match r.below(4) {
                0 => {}
                1 => m.name = if m.o.is_some() && !p.names.is_empty() { Some(r.pick(&p.names).clone()) } else { None },
                2 if m.o.is_some() => m.src = Some(r.pick(&p.sources).clone()),
                _ => {
                    let g = m.g;
                    m = valid_mapping(r, p);
                    m.g = g;
                }
            }
            m
        } else {
            valid_mapping(r, p)
        };
        v.push(m);
    }
    match r.below(6) {
        0 => v.sort(),
        1 => v.sort_by_key(|m| m.g),
        2 => {
            v.sort();
            v.reverse();
        }
        3 => {
            v.sort();
            if v.len() > 1 {
                let (a, b) = (r.idx(v.len()), r.idx(v.len()));
                v.swap(a, b);
            }
        }
        _ => {}
    }
    v
}

#[derive(Debug, Clone, PartialEq)]
pub struct Doc {
    pub json: Value,
    pub sources: Vec<String>,
    pub names: Vec<String>,
    pub contents: Option<Vec<Option<String>>>,
    pub segs: Vec<Seg>,
    pub maps: Vec<GM>,
}

fn strings(v: &Value, what: &str) -> Result<Vec<String>, String> {
    v.as_array()
        .and_then(|a| a.iter().map(|s| s.as_str().map(|s| s.to_string())).collect::<Option<Vec<_>>>())
        .ok_or_else(|| format!("emitted {} is not a list of strings: {}", what, v))
}

/// Decodes an emitted document on the oracle's own terms.
pub fn read_doc(text: &str) -> Result<Doc, String> {
    let json: Value = serde_json::from_str(text).map_err(|e| format!("emitted text is not JSON ({}): {}", e, text))?;
    let obj = json.as_object().ok_or("emitted text is not an object")?;
    ensure!(obj.get("version") == Some(&Value::from(3)), "emitted version is {:?}", obj.get("version"));
    let sources = strings(obj.get("sources").unwrap_or(&Value::Null), "sources")?;
    let names = strings(obj.get("names").unwrap_or(&Value::Null), "names")?;
    let contents = match obj.get("sourcesContent") {
        None => None,
        Some(Value::Array(a)) => Some(
            a.iter()
                .map(|c| match c {
                    Value::Null => Ok(None),
                    Value::String(s) => Ok(Some(s.clone())),
                    o => Err(format!("sourcesContent holds {}", o)),
                })
                .collect::<Result<Vec<_>, String>>()?,
        ),
        Some(o) => return Err(format!("sourcesContent is {}", o)),
    };
    let text = obj.get("mappings").and_then(|m| m.as_str()).ok_or("no mappings text emitted")?;
    let segs = decode_strict(text).map_err(|e| format!("mappings text {:?}: {}", text, e))?;
    let mut maps = vec![];
    for s in &segs {
        let fit = |v: u32| i32::try_from(v).map_err(|_| format!("value {} does not fit", v));
        maps.push(GM {
            g: (s.gl as i32 + 1, fit(s.gc)?),
            o: match s.o {
                Some(o) => Some((fit(o.line)? + 1, fit(o.col)?)),
                None => None,
            },
            src: match s.o {
                Some(o) => Some(sources.get(o.src as usize).ok_or_else(|| format!("source index {} of {} sources", o.src, sources.len()))?.clone()),
                None => None,
            },
            name: match s.o.and_then(|o| o.name) {
                Some(n) => Some(names.get(n as usize).ok_or_else(|| format!("name index {} of {} names", n, names.len()))?.clone()),
                None => None,
            },
        });
    }
    Ok(Doc { json, sources, names, contents, segs, maps })
}

fn check_lossless(added: &[GM], doc: &Doc) -> Out {
    let mut times: HashMap<&GM, i64> = HashMap::new();
    for m in added {
        *times.entry(m).or_insert(0) += 1;
    }
    let mut seen: HashSet<&GM> = HashSet::new();
    for m in &doc.maps {
        match times.get_mut(m) {
            None => return Err(format!("the document holds {:?}, which was never added", m)),
            Some(n) => {
                *n -= 1;
                ensure!(*n >= 0, "the document holds {:?} more often than it was added", m);
            }
        }
        seen.insert(m);
    }
    for m in added {
        ensure!(seen.contains(m), "{:?} was added but is not in the document", m);
    }
    Ok(())
}

fn check_tables(added: &[GM], doc: &Doc) -> Out {
    let mut prev: Option<&Seg> = None;
    for s in &doc.segs {
        if let Some(p) = prev {
            ensure!((p.gl, p.gc) <= (s.gl, s.gc), "segment {:?} follows {:?}", s, p);
            ensure!(p != s, "segment {:?} is repeated next to itself", s);
        }
        prev = Some(s);
    }
    let (mut src, mut nam): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let (mut seen_s, mut seen_n) = (HashSet::new(), HashSet::new());
    for m in added {
        if let Some(s) = &m.src {
            if seen_s.insert(s.clone()) {
                src.push(s.clone());
            }
        }
        if let Some(n) = &m.name {
            if seen_n.insert(n.clone()) {
                nam.push(n.clone());
            }
        }
    }
    ensure!(doc.sources == src, "sources are {:?}, first uses are {:?}", doc.sources, src);
    ensure!(doc.names == nam, "names are {:?}, first uses are {:?}", doc.names, nam);
    Ok(())
}

fn fresh(cx: &mut Cx, root: Option<&str>) -> SourceMapGenerator {
    let skip = cx.rng.one_in(3);
    SourceMapGenerator::new(
        if cx.rng.chance(50) { Some("out.js".into()) } else { None },
        root.map(|r| r.to_string()),
        skip,
    )
}

fn replay_gen(cx: &mut Cx, hist: &[GM], g: &mut SourceMapGenerator, emits: bool) -> u64 {
    let mut early = 0;
    for m in hist {
        if emits && cx.rng.one_in(1 + hist.len() as u64 / 2) {
            tr!(cx, "as_string()");
            g.as_string();
            early += 1;
        }
        tr!(cx, "add {:?}", m);
        g.add_mapping(m.lib());
    }
    early
}

pub fn c02(cx: &mut Cx) -> Out {
    let p = pool(cx, false);
    let hist = history(cx, &p);
    let mut g = fresh(cx, None);
    let emits = cx.rng.one_in(3);
    let early = replay_gen(cx, &hist, &mut g, emits);
    let text = g.as_string();
    tr!(cx, "document: {}", text);
    let doc = read_doc(&text)?;
    check_lossless(&hist, &doc)?;
    cx.count("mappings added", hist.len() as u64);
    cx.count("mappings decoded", doc.maps.len() as u64);
    cx.count("repeats removed", (hist.len() - doc.maps.len().min(hist.len())) as u64);
    cx.count("emits before the end", early);
    if hist.len() > 1 {
        cx.sig(&hist);
    }
    Ok(())
}

pub fn c03(cx: &mut Cx) -> Out {
    let p = pool(cx, false);
    let hist = history(cx, &p);
    let mut g = fresh(cx, None);
    let emits = cx.rng.one_in(3);
    let early = replay_gen(cx, &hist, &mut g, emits);
    let text = g.as_string();
    tr!(cx, "document: {}", text);
    let doc = read_doc(&text)?;
    check_tables(&hist, &doc)?;
    cx.count("segments in order", doc.segs.len() as u64);
    cx.count("table entries checked", (doc.sources.len() + doc.names.len()) as u64);
    cx.count("emits before the end", early);
    if hist.windows(2).any(|w| w[0].g > w[1].g) {
        cx.count("histories added out of order", 1);
    }
    if hist.len() > 1 {
        cx.sig(&hist);
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

/// Root and source spellings of which no two denote the same resource.
fn rooted_pool(r: &mut Rng) -> (Option<String>, Vec<String>) {
    let roots = [
        "", ".", "/", "/the/root", "/the/root/", "the/root", "the/root/", "../up", "http://h.io/the/root", "http://h.io/the/root/",
        "//h.io/the/root", "webpack:///the/root", "/the/other dir", "file:///the/root",
    ];
    let root = if r.chance(65) { Some(r.pick(&roots).to_string()) } else { None };
    let n = r.range(1, 7);
    let dirs = [
        "", "./", "/", "/the/root/", "/the/root/sub/", "/the/", "the/root/", "../", "../../", "http://h.io/the/root/", "http://h.io/", "http://other.io/",
        "//h.io/the/root/x/", "//h.io/", "webpack:///the/root/", "webpack:///", "/the/root/../", "d%20e/", "d e/", "é/",
    ];
    let sources = (0..n).map(|i| format!("{}f{}.js", r.pick(&dirs), i)).collect();
    (root, sources)
}

pub fn c04(cx: &mut Cx) -> Out {
    let (root, sources) = if cx.rng.chance(70) {
        rooted_pool(&mut cx.rng)
    } else {
        // Without a root every distinct string is a source of its own.
        let n = cx.rng.range(1, 5);
        let mut s: Vec<String> = (0..n).map(|_| unicode(&mut cx.rng, 6)).collect();
        if cx.rng.one_in(3) {
            s.extend(["a.js", "./a.js", "/a.js", "x/../a.js", "A.js"].iter().map(|s| s.to_string()));
        }
        (None, s)
    };
    let mut p = pool(cx, true);
    p.sources = sources;
    tr!(cx, "root {:?}, sources {:?}", root, p.sources);
    let mut g = fresh(cx, root.as_deref());
    let mut model: BTreeMap<String, String> = BTreeMap::new();
    let mut listed: Vec<String> = vec![];
    let mut ever_removed = 0;
    let most = if cx.rng.one_in(10) { 120 } else { 25 };
    let steps = cx.rng.range(1, most);
    let mut shape = vec![];
    for step in 0..steps {
        match cx.rng.below(10) {
            0..=3 => {
                let m = valid_mapping(&mut cx.rng, &p);
                if let Some(s) = &m.src {
                    if !listed.contains(s) {
                        listed.push(s.clone());
                    }
                }
                tr!(cx, "add {:?}", m);
                g.add_mapping(m.lib());
                shape.push((0, m.src.clone()));
            }
            4..=7 => {
                let s = cx.rng.pick(&p.sources).clone();
                let c = match cx.rng.below(6) {
                    0 => String::new(),
                    1 => unicode(&mut cx.rng, 12),
                    2 => model.values().next().cloned().unwrap_or_default(),
                    _ if cx.rng.one_in(25) => long(&mut cx.rng),
                    _ => format!("content {} {}", step, s),
                };
                tr!(cx, "set_source_content({:?}, Some({:?}))", s, c);
                g.set_source_content(s.clone(), Some(c.clone()));
                model.insert(s.clone(), c);
                shape.push((1, Some(s)));
            }
            8 => {
                let s = cx.rng.pick(&p.sources).clone();
                tr!(cx, "set_source_content({:?}, None)", s);
                g.set_source_content(s.clone(), None);
                if model.remove(&s).is_some() {
                    ever_removed += 1;
                }
                shape.push((2, Some(s)));
            }
            _ => {
                tr!(cx, "as_string()");
                let text = g.as_string();
                c04_check(&text, &listed, &model)?;
            }
        }
    }
    let text = g.as_string();
    tr!(cx, "document: {}", text);
    c04_check(&text, &listed, &model)?;
    cx.count("content entries compared", listed.len() as u64);
    cx.count("contents removed", ever_removed);
    if root.is_some() {
        cx.count("histories with a root", 1);
    }
    if !model.is_empty() && !listed.is_empty() {
        cx.sig((root, shape));
    }
    Ok(())
}

fn c04_check(text: &str, listed: &[String], model: &BTreeMap<String, String>) -> Out {
    let doc = read_doc(text)?;
    ensure!(doc.sources == listed, "sources are {:?}, expected {:?}", doc.sources, listed);
    let want: Vec<Option<String>> = listed.iter().map(|s| model.get(s).cloned()).collect();
    match &doc.contents {
        Some(c) => {
            ensure!(!model.is_empty(), "a contents list is emitted though no content is set: {:?}", c);
            ensure!(*c == want, "contents are {:?}, expected {:?} for {:?}", c, want, listed);
        }
        None => ensure!(want.iter().all(|w| w.is_none()), "no contents list is emitted, expected {:?}", want),
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn maybe_invalid(r: &mut Rng, p: &Pool) -> GM {
    let mut m = valid_mapping(r, p);
    let bad = |r: &mut Rng, zero: bool| match r.below(4) {
        0 if zero => 0,
        0 | 1 => -1,
        2 => i32::MIN,
        _ => -(natural(r, MAX) as i32) - if zero { 0 } else { 1 },
    };
    let faults = if r.one_in(5) { 2 } else { 1 };
    for _ in 0..faults {
        match r.below(9) {
            0 => m.g.0 = bad(r, true),
            1 => m.g.1 = bad(r, false),
            2 => m.o = Some((bad(r, true), m.o.map_or(0, |o| o.1))),
            3 => m.o = Some((m.o.map_or(1, |o| o.0), bad(r, false))),
            4 => m.src = None,
            5 => m.o = None,
            6 => m.name = Some("nm".into()),
            7 => m.src = Some(r.pick(&p.sources).clone()),
            _ => {
                m.o = if r.chance(50) { Some((1, 0)) } else { None };
                m.src = if r.chance(50) { Some(r.pick(&p.sources).clone()) } else { None };
                m.name = if r.chance(50) { Some("n2".into()) } else { None };
            }
        }
    }
    // Given and empty is not absent.
    if r.one_in(6) {
        m.name = m.name.map(|_| String::new());
    }
    if r.one_in(6) {
        m.src = m.src.map(|_| String::new());
    }
    m
}

pub fn c05(cx: &mut Cx) -> Out {
    let mut p = pool(cx, true);
    if cx.rng.one_in(4) {
        p.sources[0].clear();
    }
    if cx.rng.one_in(4) {
        p.names.push(String::new());
    }
    let steps = cx.rng.range(1, 20);
    let mut g = SourceMapGenerator::new(None, None, false);
    let mut skipping = SourceMapGenerator::new(None, None, true);
    let mut accepted: Vec<GM> = vec![];
    let mut kinds = vec![];
    for _ in 0..steps {
        let m = if cx.rng.chance(50) { valid_mapping(&mut cx.rng, &p) } else { maybe_invalid(&mut cx.rng, &p) };
        tr!(cx, "add {:?} (valid: {})", m, m.valid());
        let before = if m.valid() || cx.rng.one_in(3) { None } else { Some(g.as_string()) };
        let got = refused(|| g.add_mapping(m.lib()));
        kinds.push((
            m.g.0.signum(),
            m.g.1.signum(),
            m.o.map(|o| (o.0.signum(), o.1.signum())),
            m.src.is_some(),
            m.name.is_some(),
        ));
        match got {
            Ok(()) => {
                ensure!(m.valid(), "the invalid mapping {:?} was accepted", m);
                skipping.add_mapping(m.lib());
                accepted.push(m);
                cx.count("mappings accepted", 1);
            }
            Err(e) => {
                ensure!(!m.valid(), "the valid mapping {:?} was refused: {}", m, e.show());
                if let Some(b) = before {
                    let after = g.as_string();
                    ensure!(after == b, "refusing {:?} changed the document from {} to {}", m, b, after);
                }
                cx.count("mappings refused", 1);
            }
        }
    }
    let text = g.as_string();
    tr!(cx, "document: {}", text);
    let doc = read_doc(&text)?;
    check_lossless(&accepted, &doc)?;
    check_tables(&accepted, &doc)?;
    let other = read_doc(&skipping.as_string())?;
    check_lossless(&accepted, &other).map_err(|e| format!("with validation skipped: {}", e))?;
    check_tables(&accepted, &other).map_err(|e| format!("with validation skipped: {}", e))?;
    cx.sig(kinds);
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06(cx: &mut Cx) -> Out {
    let mut p = pool(cx, false);
    if cx.rng.chance(60) {
        for s in p.sources.iter_mut().chain(p.names.iter_mut()).take(12) {
            *s = unicode(&mut cx.rng, 10);
        }
    }
    let opt = |r: &mut Rng| {
        if r.chance(30) {
            None
        } else if r.chance(30) {
            Some("plain.js".to_string())
        } else {
            Some(unicode(r, 14))
        }
    };
    let file = opt(&mut cx.rng);
    // Contents of unusual sources are only compared where no root relates them.
    let root = opt(&mut cx.rng);
    let mut hist = history(cx, &p);
    hist.truncate(120);
    let contents: Vec<(String, String)> = if root.is_none() {
        (0..cx.rng.below(4))
            .map(|_| {
                let s = cx.rng.pick(&p.sources).clone();
                (s, if cx.rng.one_in(20) { long(&mut cx.rng) } else { unicode(&mut cx.rng, 40) })
            })
            .collect()
    } else {
        vec![]
    };
    tr!(cx, "file {:?} root {:?} contents {:?}", file, root, contents);
    let mut a = SourceMapGenerator::new(file.clone(), root.clone(), true);
    let mut b = SourceMapGenerator::new(file.clone(), root.clone(), true);
    let mut at: Vec<usize> = contents.iter().map(|_| cx.rng.idx(hist.len() + 1)).collect();
    at.sort();
    let mut early = 0;
    for i in 0..=hist.len() {
        for (k, c) in contents.iter().enumerate() {
            if at[k] == i {
                tr!(cx, "set_source_content({:?}, {:?})", c.0, c.1);
                a.set_source_content(c.0.clone(), Some(c.1.clone()));
                b.set_source_content(c.0.clone(), Some(c.1.clone()));
            }
        }
        if i < hist.len() {
            tr!(cx, "add {:?}", hist[i]);
            a.add_mapping(hist[i].lib());
            b.add_mapping(hist[i].lib());
        }
        if cx.rng.chance(25) {
            let one = b.as_string();
            let two = b.as_string();
            tr!(cx, "emitted early: {}", one);
            ensure!(one == two, "emitting twice gave {} and {}", one, two);
            if cx.rng.one_in(4) {
                let d = read_doc(&one)?;
                check_lossless(&hist[..(i + 1).min(hist.len())], &d)?;
            }
            early += 1;
        }
    }
    let (ta, tb) = (a.as_string(), b.as_string());
    tr!(cx, "document: {}", ta);
    let (da, db) = (read_doc(&ta)?, read_doc(&tb)?);
    let obj = da.json.as_object().unwrap();
    for (key, want) in [("file", &file), ("sourceRoot", &root)] {
        let want = want.as_ref().map(|w| Value::from(w.as_str()));
        ensure!(obj.get(key) == want.as_ref(), "{} is {:?}, given {:?}", key, obj.get(key), want);
    }
    check_lossless(&hist, &da)?;
    check_tables(&hist, &da)?;
    let mut last: BTreeMap<&str, &str> = BTreeMap::new();
    for (s, c) in &contents {
        last.insert(s, c);
    }
    if root.is_none() {
        let want: Vec<Option<String>> = da.sources.iter().map(|s| last.get(s.as_str()).map(|c| c.to_string())).collect();
        match &da.contents {
            Some(c) => ensure!(*c == want, "contents are {:?}, given {:?}", c, want),
            None => ensure!(want.iter().all(|w| w.is_none()), "no contents emitted, given {:?}", want),
        }
    }
    // The generator that emitted on the way describes the same map.
    let sorted = |d: &Doc| {
        let mut m = d.maps.clone();
        m.sort();
        m.dedup();
        m
    };
    ensure!(
        sorted(&da) == sorted(&db) && da.sources == db.sources && da.names == db.names && da.contents == db.contents,
        "emitting on the way changed the later document from {} to {}", ta, tb
    );
    ensure!(db.json.as_object().unwrap().get("file") == obj.get("file"), "emitting changed the file");
    cx.count("emits before the end", early);
    cx.count("strings compared", (da.sources.len() + da.names.len()) as u64);
    if hist.len() > 1 {
        cx.sig((&hist, &file, &root));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn c07(cx: &mut Cx) -> Out {
    let mut p = pool(cx, true);
    let with_root = cx.rng.chance(40);
    let few = p.sources.len() < 1000;
    let root = if with_root && few { Some(cx.rng.pick(ROOTS).to_string()) } else { None };
    let url = if few && cx.rng.chance(40) { Some(cx.rng.pick(URLS).to_string()) } else { None };
    for (i, s) in p.sources.iter_mut().enumerate() {
        *s = format!("{}f{}.js", cx.rng.pick(&["", "d/", "../", "/abs/", "http://h.io/"]), i);
    }
    let mut hist = history(cx, &p);
    let mut seen = HashSet::new();
    hist.retain(|m| seen.insert(m.g));
    tr!(cx, "root {:?}, url {:?}", root, url);
    let mut g = fresh(cx, root.as_deref());
    let emits = cx.rng.one_in(4);
    replay_gen(cx, &hist, &mut g, emits);
    let how = cx.rng.below(5);
    let mut c = if how == 4 {
        BasicConsumer::from_source_map(&mut g, url.as_deref())
    } else {
        let text = g.as_string();
        tr!(cx, "document: {}", text);
        basic(how, &text, url.as_deref())
    };
    let reported = c.get_sources();
    let doc = read_doc(&g.as_string())?;
    ensure!(reported.len() == doc.sources.len(), "{} sources reported for {}", reported.len(), doc.sources.len());
    if root.as_deref().unwrap_or("").is_empty() && url.as_deref().unwrap_or("").is_empty() {
        ensure!(reported == doc.sources, "sources {:?} reported as {:?}", doc.sources, reported);
    }
    let index: HashMap<&str, usize> = doc.sources.iter().enumerate().map(|(i, s)| (s.as_str(), i)).collect();
    let reported_of = |s: &str| index.get(s).and_then(|i| reported.get(*i).cloned());
    let mut by_orig: HashMap<(String, (i32, i32)), Vec<&GM>> = HashMap::new();
    for m in &hist {
        if let (Some(s), Some(o)) = (&m.src, m.o) {
            if let Some(r) = reported_of(s) {
                by_orig.entry((r, o)).or_default().push(m);
            }
        }
    }
    let mut order: Vec<&GM> = hist.iter().collect();
    cx.rng.shuffle(&mut order);
    for m in order.iter().take(200) {
        let bias = bias(&mut cx.rng);
        let got = c.original_position_for(Position { line: m.g.0, column: m.g.1 }, bias);
        tr!(cx, "original_position_for({:?}, {:?}) = {:?}", m.g, bias, got);
        match (&m.o, got) {
            (None, None) => {}
            (None, Some(x)) => return Err(format!("{:?} has no original, answered {:?}", m, x)),
            (Some(_), None) => return Err(format!("no original position answered for {:?}", m)),
            (Some(_), Some(x)) => {
                let x = GM::of(&x);
                let want = GM { src: m.src.as_ref().and_then(|s| reported_of(s)), ..(*m).clone() };
                ensure!(x == want, "the original position of {:?} is answered as {:?}", want, x);
            }
        }
        if let (Some(s), Some(o)) = (&m.src, m.o) {
            let r = reported_of(s).ok_or("source lost")?;
            let got = c.generated_position_for(&r, o.0, o.1, bias);
            tr!(cx, "generated_position_for({:?}, {:?}, {:?}) = {:?}", r, o, bias, got);
            let x = GM::of(&got.ok_or_else(|| format!("no generated position answered for {:?}", m))?);
            let cands = &by_orig[&(r.clone(), o)];
            ensure!(
                cands.iter().any(|k| k.g == x.g && k.name == x.name),
                "generated position of {:?} {:?} answered as {:?}, mappings there: {:?}", r, o, x, cands
            );
            ensure!(x.o == Some(o) && x.src.as_ref() == Some(&r), "generated_position_for({:?}, {:?}) reports {:?}", r, o, x);
        }
        cx.count("mappings asked both ways", 1);
    }
    if hist.len() > 1 {
        cx.sig((&hist, root, url));
    }
    Ok(())
}

pub fn bias(r: &mut Rng) -> Option<source_map_mappings::Bias> {
    *r.pick(&[
        None,
        Some(source_map_mappings::Bias::GreatestLowerBound),
        Some(source_map_mappings::Bias::LeastUpperBound),
    ])
}

pub fn upper(b: Option<source_map_mappings::Bias>) -> bool {
    b == Some(source_map_mappings::Bias::LeastUpperBound)
}

// ---------------------------------------------------------------- C08

pub fn c08(cx: &mut Cx) -> Out {
    let p = pool(cx, false);
    let hist = history(cx, &p);
    let mut list = if cx.rng.chance(50) { MappingList::new() } else { MappingList::default() };
    let reads = cx.rng.range(0, 3) as u64;
    let mut snaps = 0;
    let check = |cx: &mut Cx, list: &mut MappingList, n: usize| -> Out {
        let got: Vec<GM> = list.to_array().iter().map(GM::of).collect();
        tr!(cx, "to_array() = {:?}", got);
        for w in got.windows(2) {
            ensure!(w[0].g <= w[1].g, "the array has {:?} before {:?}", w[0], w[1]);
        }
        let (mut a, mut b) = (got.clone(), hist[..n].to_vec());
        a.sort();
        b.sort();
        ensure!(a == b, "after {} adds the array is {:?}", n, got);
        let again: Vec<GM> = list.to_array().iter().map(GM::of).collect();
        ensure!(again == got, "reading again gave {:?} after {:?}", again, got);
        Ok(())
    };
    let visit = |cx: &mut Cx, list: &MappingList, n: usize| -> Out {
        let seen = RefCell::new(vec![]);
        list.unsorted_for_each(|m, i| seen.borrow_mut().push((i, GM::of(m))));
        let seen = seen.into_inner();
        tr!(cx, "unsorted_for_each visits {:?}", seen);
        ensure!(
            seen.iter().enumerate().all(|(k, (i, _))| k == *i),
            "unordered iteration counts {:?}", seen.iter().map(|s| s.0).collect::<Vec<_>>()
        );
        let mut a: Vec<GM> = seen.into_iter().map(|s| s.1).collect();
        let mut b = hist[..n].to_vec();
        a.sort();
        b.sort();
        ensure!(a == b, "after {} adds unordered iteration visits {:?}", n, a);
        Ok(())
    };
    for i in 0..hist.len() {
        if reads > 0 && cx.rng.one_in(1 + hist.len() as u64 / (2 * reads)) {
            check(cx, &mut list, i)?;
            snaps += 1;
        }
        if cx.rng.one_in(8 + hist.len() as u64) {
            visit(cx, &list, i)?;
        }
        tr!(cx, "add {:?}", hist[i]);
        list.add(hist[i].lib());
    }
    visit(cx, &list, hist.len())?;
    check(cx, &mut list, hist.len())?;
    visit(cx, &list, hist.len())?;
    cx.count("mappings added", hist.len() as u64);
    cx.count("reads between adds", snaps);
    if hist.windows(2).any(|w| w[0].g > w[1].g) {
        cx.count("histories added out of order", 1);
    }
    if hist.len() > 1 {
        cx.sig((&hist, snaps));
    }
    Ok(())
}

// ---------------------------------------------------------------- C33

fn ord(i: i32) -> Ordering {
    i.cmp(&0)
}

fn opt_cmp(a: &Option<String>, b: &Option<String>) -> Ordering {
    match (a, b) {
        (None, None) => Ordering::Equal,
        (None, _) => Ordering::Greater,
        (_, None) => Ordering::Less,
        (Some(a), Some(b)) => a.cmp(b),
    }
}

pub fn c33(cx: &mut Cx) -> Out {
    let p = pool(cx, false);
    let mut ms: Vec<GM> = vec![];
    for _ in 0..12 {
        let m = if !ms.is_empty() && cx.rng.chance(70) {
            let mut m = cx.rng.pick(&ms).clone();
            let o = valid_mapping(&mut cx.rng, &p);
            match cx.rng.below(6) {
                0 => m.g.0 = o.g.0,
                1 => m.g.1 = o.g.1,
                2 if m.o.is_some() => m.src = Some(cx.rng.pick(&p.sources).clone()),
                3 if m.o.is_some() && o.o.is_some() => m.o = Some((o.o.unwrap().0, m.o.unwrap().1)),
                4 if m.o.is_some() && o.o.is_some() => m.o = Some((m.o.unwrap().0, o.o.unwrap().1)),
                5 if m.o.is_some() => m.name = o.name,
                _ => {}
            }
            m
        } else {
            let mut m = valid_mapping(&mut cx.rng, &p);
            if cx.rng.one_in(3) {
                m.g.0 = natural(&mut cx.rng, MAX - 1) as i32 + 1;
            }
            m
        };
        ms.push(m);
    }
    // Without validation a mapping can lack any of its fields.
    if cx.rng.one_in(4) {
        for m in &mut ms {
            match cx.rng.below(8) {
                0 => m.o = None,
                1 => m.src = None,
                2 => m.name = cx.rng.pick(&p.sources).clone().into(),
                3 => m.g.0 = 0,
                _ => {}
            }
        }
        cx.count("lists with incomplete mappings", 1);
    }
    let model = |a: &GM, b: &GM| {
        a.g.cmp(&b.g)
            .then(opt_cmp(&a.src, &b.src))
            .then(match (a.o, b.o) {
                (Some(x), Some(y)) => x.cmp(&y),
                _ => Ordering::Equal,
            })
            .then(opt_cmp(&a.name, &b.name))
    };
    for a in &ms {
        for b in &ms {
            let mut x = a.lib();
            // The end column is no part of the order.
            x.last_generated_column = if cx.rng.chance(50) { Some(3) } else { None };
            let got = util::compare_by_generated_pos_inflated(&x, &b.lib());
            tr!(cx, "compare({:?}, {:?}) = {}", a, b, got);
            ensure!(ord(got) == model(a, b), "compare({:?}, {:?}) = {}, expected {:?}", a, b, got, model(a, b));
        }
    }
    let opts: Vec<Option<String>> = ms.iter().map(|m| m.src.clone()).chain(ms.iter().map(|m| m.name.clone())).collect();
    for _ in 0..40 {
        let (a, b) = (cx.rng.pick(&opts).clone(), cx.rng.pick(&opts).clone());
        let (a, b) = match cx.rng.below(3) {
            0 => (a, b),
            1 => (Some(unicode(&mut cx.rng, 4)), b),
            _ => {
                let s = unicode(&mut cx.rng, 3);
                let t = format!("{}{}", s, unicode(&mut cx.rng, 1));
                if cx.rng.chance(50) { (Some(s), Some(t)) } else { (Some(t), Some(s)) }
            }
        };
        let got = util::strcmp(a.clone(), b.clone());
        tr!(cx, "strcmp({:?}, {:?}) = {}", a, b, got);
        ensure!(ord(got) == opt_cmp(&a, &b), "strcmp({:?}, {:?}) = {}", a, b, got);
    }
    cx.count("pairs compared", 144 + 40);
    cx.sig(&ms);
    Ok(())
}
