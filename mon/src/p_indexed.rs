//! Monitors for indexed consumers: C23 to C27, and the indexed parts of C15, C19, C32.
use crate::cx::*;
use crate::gen::*;
use crate::model::*;
use crate::p_basic::*;
use crate::p_gen::{bias, upper, GM};
use crate::{ensure, tr};
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
use rusty_source_map::util::compute_source_url;
use std::collections::{BTreeMap, HashMap};

pub struct Sec {
    pub line: u32,
    pub col: u32,
    pub map: GMap,
    pub reported: Vec<String>,
    pub src_base: u32,
    pub name_base: u32,
}

impl Sec {
    pub fn place(&self, s: &Seg) -> Seg {
        Seg {
            gl: s.gl + self.line,
            gc: s.gc + if s.gl == 0 { self.col } else { 0 },
            o: s.o.map(|o| Orig { src: o.src + self.src_base, name: o.name.map(|n| n + self.name_base), ..o }),
        }
    }
    pub fn gm(&self, s: &Seg) -> GM {
        let p = self.place(s);
        GM {
            g: (p.gl as i32 + 1, p.gc as i32),
            o: s.o.map(|o| (o.line as i32 + 1, o.col as i32)),
            src: s.o.and_then(|o| self.reported.get(o.src as usize).cloned()),
            name: s.o.and_then(|o| self.map.name(o.name)),
        }
    }
}

pub struct Ix {
    pub secs: Vec<Sec>,
    pub json: String,
    pub url: Option<String>,
    pub way: u64,
}

pub const HALF: i64 = (1 << 30) - 1;

/// Section offsets, increasing in document order; now and then some are equal.
pub fn offsets(cx: &mut Cx, n: usize) -> Vec<(u32, u32)> {
    let r = &mut cx.rng;
    let style = r.below(4);
    let (mut line, mut col) = (0i64, 0i64);
    if r.chance(50) {
        line = if style == 3 { natural(r, HALF) / 2 } else { r.range(0, 3) };
        col = r.range(0, 4);
    }
    if r.one_in(8) {
        line = natural(r, HALF) / 2;
    }
    if r.one_in(8) {
        col = natural(r, HALF) / 2;
    }
    let mut v = vec![];
    for _ in 0..n {
        v.push((line.min(HALF) as u32, col.min(HALF) as u32));
        let r = &mut cx.rng;
        match style {
            0 => {
                line += r.range(1, 3);
                col = if r.chance(60) { 0 } else { r.range(0, 9) };
            }
            1 => {
                if r.chance(60) {
                    col += r.range(1, 6)
                } else {
                    line += r.range(1, 2);
                    col = r.range(0, 6);
                }
            }
            2 => {
                if r.chance(40) {
                    col += 1
                } else {
                    line += 1;
                    col = if r.chance(50) { 0 } else { natural(r, 1 << 20) };
                }
            }
            _ => {
                line += r.range(1, 1 + (HALF - 10_000) / (2 * n as i64 + 2));
                col = natural(r, HALF);
            }
        }
    }
    if cx.rng.one_in(6) {
        for i in 1..v.len() {
            if cx.rng.one_in(3) {
                v[i] = v[i - 1];
                cx.count("sections at the offset of the one before", 1);
            }
        }
    }
    v
}

pub fn section_count(cx: &mut Cx) -> usize {
    let r = &mut cx.rng;
    if cx.giant && r.chance(50) {
        return r.range(1500, 4000) as usize;
    }
    (match r.below(40) {
        0 => 0,
        1..=4 => 1,
        5..=30 => r.range(2, 5),
        31..=37 => r.range(5, 20),
        38 => r.range(20, 80),
        _ => r.range(60, 300),
    }) as usize
}

pub fn sections(cx: &mut Cx, fit: bool) -> (Vec<(u32, u32)>, Vec<GMap>) {
    let n = section_count(cx);
    let off = offsets(cx, n);
    let mut maps = vec![];
    // At most one section of a giant case is giant itself.
    let giant = std::mem::replace(&mut cx.giant, false);
    let at = if giant && n < 1000 { cx.rng.below(n.max(1) as u64) as usize } else { usize::MAX };
    let dangling = cx.rng.one_in(4);
    for i in 0..n {
        cx.giant = i == at;
        let mut sh = shape(cx);
        if !cx.giant {
            sh.max_segs = sh.max_segs.min(if n > 20 { 10 } else { 80 });
            sh.max_line = sh.max_line.min(if n > 20 { 3 } else { 12 });
            sh.max_sources = sh.max_sources.min(6);
        }
        sh.max_coord = HALF;
        let mut m = gmap(cx, &sh);
        if dangling {
            dangle(&mut cx.rng, &mut m);
        }
        if n >= 1000 {
            m.root = None;
        }
        if fit {
            // Keep each section within its own stretch of the file.
            if let Some(&(nl, nc)) = off.get(i + 1) {
                let (l, c) = off[i];
                m.segs.retain(|s| {
                    let p = (s.gl + l, s.gc + if s.gl == 0 { c } else { 0 });
                    p < (nl, nc)
                });
                m.text = encode(&m.segs);
            }
        }
        maps.push(m);
    }
    cx.giant = giant;
    (off, maps)
}

pub fn index_json(cx: &mut Cx, off: &[(u32, u32)], maps: &[GMap]) -> String {
    let r = &mut cx.rng;
    let secs: Vec<String> = off
        .iter()
        .zip(maps)
        .map(|(o, m)| {
            let mut offset = vec![("line", o.0.to_string()), ("column", o.1.to_string())];
            unknown_members(r, &mut offset);
            let offset = json_object(r, offset);
            let map = m.json(r);
            let mut f = vec![("offset", offset), ("map", map)];
            if r.one_in(20) {
                f.push(("url", "null".into()));
            }
            unknown_members(r, &mut f);
            json_object(r, f)
        })
        .collect();
    let mut f = vec![("version", "3".to_string()), ("sections", json_array(secs))];
    if r.one_in(4) {
        f.push(("file", "\"all.js\"".into()));
    }
    // What the whole map says beside its sections means nothing to them.
    if r.one_in(6) {
        let mut beside = vec![
            ("sourceRoot", "\"zz/\"".to_string()),
            ("sources", "[\"f0.js\",\"zz.js\"]".to_string()),
            ("names", "[\"zz\",\"n0\"]".to_string()),
            ("mappings", "\"AAAAA;ACAA\"".to_string()),
            ("sourcesContent", "[\"zz\",null]".to_string()),
        ];
        r.shuffle(&mut beside);
        beside.truncate(1 + r.idx(5));
        f.extend(beside);
    }
    unknown_members(r, &mut f);
    json_object(r, f)
}

pub fn build(cx: &mut Cx, off: Vec<(u32, u32)>, maps: Vec<GMap>, url: Option<String>) -> (IndexedConsumer, Ix) {
    let json = index_json(cx, &off, &maps);
    let way = cx.rng.below(WAYS);
    tr!(cx, "indexed map: {}", json);
    tr!(cx, "map url: {:?}, built in way {}", url, way);
    let c = indexed(way, &json, url.as_deref());
    let (mut src_base, mut name_base) = (0, 0);
    let secs = off
        .into_iter()
        .zip(maps)
        .map(|((line, col), map)| {
            let reported: Vec<String> = map.sources.iter().map(|s| compute_source_url(map.root.as_deref(), s, url.as_deref())).collect();
            let s = Sec { line, col, reported, src_base, name_base, map };
            src_base += s.map.sources.len() as u32;
            name_base += s.map.names.as_ref().map_or(0, |n| n.len()) as u32;
            s
        })
        .collect();
    (c, Ix { secs, json, url, way })
}

fn sections_url(cx: &mut Cx, maps: &[GMap]) -> Option<String> {
    let few = maps.iter().map(|m| m.sources.len()).sum::<usize>() < 1000;
    map_url(&mut cx.rng).filter(|_| few)
}

pub fn make_indexed(cx: &mut Cx, fit: bool) -> (IndexedConsumer, Ix) {
    let (off, maps) = sections(cx, fit);
    let url = sections_url(cx, &maps);
    build(cx, off, maps, url)
}

/// A name by itself, against the map URL, and against each root.
pub struct Spellings {
    name: String,
    by_url: String,
    by_root: HashMap<Option<String>, String>,
}

impl Ix {
    pub fn spellings(&self, name: &str) -> Spellings {
        let mut by_root = HashMap::new();
        for s in &self.secs {
            if !by_root.contains_key(&s.map.root) {
                by_root.insert(s.map.root.clone(), compute_source_url(s.map.root.as_deref(), name, self.url.as_deref()));
            }
        }
        Spellings { name: name.to_string(), by_url: compute_source_url(None, name, self.url.as_deref()), by_root }
    }
    pub fn index_in(&self, n: &Spellings, s: &Sec) -> Option<usize> {
        let at = |n: &str| s.reported.iter().position(|r| r == n);
        at(&n.name).or_else(|| at(&n.by_url)).or_else(|| at(&n.by_root[&s.map.root]))
    }
    pub fn covering(&self, line: u32, col: u32) -> Option<&Sec> {
        self.secs.iter().rev().find(|s| (s.line, s.col) <= (line, col))
    }
    /// The first section that lists the source, and its index there.
    pub fn find(&self, name: &str) -> Option<(usize, u32)> {
        let spellings = self.spellings(name);
        self.secs.iter().enumerate().find_map(|(i, s)| self.index_in(&spellings, s).map(|k| (i, k as u32)))
    }
}

fn ask_original_ix(cx: &mut Cx, c: &mut IndexedConsumer, ix: &Ix, spans: bool) -> Out {
    let r = &mut cx.rng;
    // A position in, at the edge of, or between sections.
    let (gl, gc) = if ix.secs.is_empty() || r.one_in(12) {
        (natural(r, MAX - 1) as u32, natural(r, MAX) as u32)
    } else {
        let s = r.pick(&ix.secs);
        if s.map.segs.is_empty() || r.one_in(4) {
            let dl = if r.one_in(3) { r.range(-1, 2) } else { 0 };
            ((s.line as i64 + dl).max(0) as u32, near(r, s.col, HALF))
        } else {
            let p = s.place(r.pick(&s.map.segs));
            (if r.one_in(10) { near(r, p.gl, MAX - 1) } else { p.gl }, near(r, p.gc, MAX))
        }
    };
    let b = bias(r);
    let got = c.original_position_for(Position { line: gl as i32 + 1, column: gc as i32 }, b);
    let end = got.as_ref().and_then(|m| m.last_generated_column);
    let got = got.map(|m| GM::of(&m));
    tr!(cx, "original_position_for(line {}, column {}, {:?}) = {:?}, ending at {:?}", gl + 1, gc, b, got, end);
    let wants: Vec<Option<GM>> = match ix.covering(gl, gc) {
        None => vec![None],
        Some(s) => {
            let (rl, rc) = (gl - s.line, gc - if gl == s.line { s.col } else { 0 });
            let cands = nearest_generated(&s.map.segs, rl, rc, upper(b));
            if cands.is_empty() {
                vec![None]
            } else {
                cands.iter().map(|k| if k.o.is_some() { Some(s.gm(k)) } else { None }).collect()
            }
        }
    };
    ensure!(
        wants.contains(&got),
        "original_position_for(line {}, column {}, {:?}) = {:?}, expected {}{:?} (covering section starts at {:?})",
        gl + 1, gc, b, got, if wants.len() > 1 { "one of " } else { "" }, wants,
        ix.covering(gl, gc).map(|s| (s.line + 1, s.col))
    );
    cx.count("original positions asked", 1);
    if ix.covering(gl, gc).is_none() {
        cx.count("asked before the first section", 1);
    }
    if let Some(g) = &got {
        if spans || end.is_some() {
            // The next mapping of the line in the section, or the next section's start on it.
            let k = ix.secs.iter().rposition(|s| (s.line, s.col) <= (gl, gc)).unwrap();
            let s = &ix.secs[k];
            let line = g.g.0 as u32 - 1;
            let moved = if line == s.line { s.col } else { 0 };
            let mut ends: Vec<Option<u32>> = ends_of(&s.map.segs, line - s.line, g.g.1 as u32 - moved).iter().map(|e| e.map(|e| e + moved)).collect();
            if let (true, Some(n)) = (ends.contains(&None), ix.secs.get(k + 1)) {
                if n.line == line {
                    ends.push(Some(n.col));
                }
            }
            ensure!(
                end.map_or(ends.contains(&None), |e| ends.iter().any(|k| k.map_or(-1, |k| k as i64) == e as i64)),
                "original_position_for(line {}, column {}, {:?}) answers with {:?} ending at {:?}, expected one of {:?} (section {} starts at {:?})",
                gl + 1, gc, b, g, end, ends, k, (s.line + 1, s.col)
            );
            cx.count("ends answered", 1);
        }
        cx.count("original positions answered", 1);
        cx.sig((hash_of(&ix.json), gl, gc, b.map(|b| b as u32)));
    }
    Ok(())
}

/// Now and then, calls of all kinds, refused ones too, that later answers must not show.
fn stir_ix(cx: &mut Cx, c: &mut IndexedConsumer, ix: &Ix, one_in: u64) {
    if !cx.rng.one_in(one_in) {
        return;
    }
    let r = &mut cx.rng;
    let mut ops: Vec<Op> = vec![];
    for _ in 0..r.range(1, 5) {
        if ix.secs.is_empty() {
            ops.push(random_op(r, &[], &[], &[], true));
            continue;
        }
        let s = r.pick(&ix.secs);
        let at: Vec<Seg> = if s.map.segs.is_empty() { vec![] } else { vec![s.place(r.pick(&s.map.segs))] };
        ops.push(random_op(r, &at, &s.map.sources, &s.reported, true));
    }
    if r.one_in(6) {
        for i in 0..r.range(10, 60) {
            let name = format!("{}unknown{}.js", "./".repeat(i as usize % 9), i);
            ops.push(if r.chance(50) { Op::Content(name, Some(false)) } else { Op::Gen(name, 1, 0, None) });
        }
    }
    if r.one_in(5) {
        ops.push(Op::Stop(r.chance(50), r.below(8) as u32));
    }
    cx.count("unrelated calls", ops.len() as u64);
    for op in &ops {
        let got = do_indexed(c, op);
        tr!(cx, "{:?} = {} (not looked at)", op, got);
    }
}

pub fn c23(cx: &mut Cx) -> Out {
    let (mut c, ix) = make_indexed(cx, false);
    for _ in 0..cx.rng.range(8, 30) {
        stir_ix(cx, &mut c, &ix, 20);
        ask_original_ix(cx, &mut c, &ix, false)?;
    }
    cx.count("sections", ix.secs.len() as u64);
    Ok(())
}

fn pick_ix(cx: &mut Cx, ix: &Ix) -> (String, u32, u32) {
    let r = &mut cx.rng;
    if !ix.secs.is_empty() && !r.one_in(12) {
        let s = r.pick(&ix.secs);
        if let Some(o) = s.map.segs.get(r.idx(s.map.segs.len().max(1))).and_then(|k| k.o).filter(|o| (o.src as usize) < s.reported.len()) {
            let name = if r.one_in(10) { s.map.sources[o.src as usize].clone() } else { s.reported[o.src as usize].clone() };
            let line = if r.one_in(3) { near(r, o.line, MAX - 1) } else { o.line };
            return (name, line, near(r, o.col, MAX));
        }
    }
    let name = if r.chance(50) { "no such.js".to_string() } else { format!("f{}.js", r.below(7)) };
    (name, natural(r, MAX - 1) as u32, natural(r, MAX) as u32)
}

fn ask_generated_ix(cx: &mut Cx, c: &mut IndexedConsumer, ix: &Ix) -> Out {
    let (name, line, col) = pick_ix(cx, ix);
    let b = bias(&mut cx.rng);
    let got = c.generated_position_for(&name, line as i32 + 1, col as i32, b).map(|p| (p.line, p.column));
    tr!(cx, "generated_position_for({:?}, {}, {}, {:?}) = {:?}", name, line + 1, col, b, got);
    let at = ix.find(&name);
    let wants: Vec<(i32, i32)> = match at {
        None => vec![],
        Some((i, k)) => nearest_original(&ix.secs[i].map.segs, k, line, col, upper(b)).iter().map(|s| ix.secs[i].gm(s).g).collect(),
    };
    match got {
        None => ensure!(wants.is_empty(), "generated_position_for({:?}, {}, {}, {:?}) = None, expected one of {:?}", name, line + 1, col, b, wants),
        Some(g) => ensure!(
            wants.contains(&g),
            "generated_position_for({:?}, {}, {}, {:?}) = {:?}, expected one of {:?} (in section {:?})", name, line + 1, col, b, g, wants, at
        ),
    }
    cx.count("generated positions asked", 1);
    if got.is_some() {
        cx.count("generated positions answered", 1);
        if at.map_or(false, |a| a.0 > 0) {
            cx.count("answered by a later section", 1);
        }
        cx.sig((hash_of(&ix.json), &name, line, col, b.map(|b| b as u32)));
    }
    Ok(())
}

fn ask_all_ix(cx: &mut Cx, c: &mut IndexedConsumer, ix: &Ix) -> Out {
    let (name, line, col) = pick_ix(cx, ix);
    let col = if cx.rng.chance(40) { None } else { Some(col) };
    let got: Vec<Seg> = c.all_generated_position_for(&name, line as i32 + 1, col.map(|c| c as i32)).iter().map(seg).collect();
    tr!(cx, "all_generated_position_for({:?}, {}, {:?}) = {:?}", name, line + 1, col, got);
    let want: Vec<Seg> = match ix.find(&name) {
        None => vec![],
        Some((i, k)) => all_for(&ix.secs[i].map.segs, k, line, col).iter().map(|s| ix.secs[i].place(s)).collect(),
    };
    let what = format!("all_generated_position_for({:?}, {}, {:?})", name, line + 1, col);
    for w in got.windows(2) {
        ensure!(w[0].o.map(|o| (o.line, o.col)) <= w[1].o.map(|o| (o.line, o.col)), "{} returns {:?} before {:?}", what, w[0], w[1]);
    }
    diff(&sorted(got.clone()), &sorted(want), &what)?;
    cx.count("all positions asked", 1);
    cx.count("positions returned", got.len() as u64);
    if !got.is_empty() {
        cx.sig((hash_of(&ix.json), &name, line, col));
    }
    Ok(())
}

pub fn c24(cx: &mut Cx) -> Out {
    let (mut c, ix) = make_indexed(cx, false);
    for _ in 0..cx.rng.range(8, 30) {
        stir_ix(cx, &mut c, &ix, 20);
        if cx.rng.chance(60) {
            ask_generated_ix(cx, &mut c, &ix)?;
        } else {
            ask_all_ix(cx, &mut c, &ix)?;
        }
        if cx.rng.one_in(20) {
            c.computed_column_spans();
        }
    }
    cx.count("sections", ix.secs.len() as u64);
    Ok(())
}

fn check_visit(cx: &mut Cx, c: &mut IndexedConsumer, ix: &Ix, original: bool) -> Result<Vec<source_map_mappings::Mapping>, String> {
    let got = visit(c, if original { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd });
    tr!(cx, "each_mapping({}): {:?}", if original { "OriginalOrd" } else { "GeneratedOrd" }, got);
    let mut at = 0;
    for (i, s) in ix.secs.iter().enumerate() {
        let n = s.map.segs.iter().filter(|k| !original || k.o.is_some()).count();
        let part = got.get(at..at + n).ok_or_else(|| format!("{} mappings visited, section {} needs those from {} to {}", got.len(), i, at, at + n))?;
        let want: Vec<Seg> = s.map.segs.iter().map(|k| s.place(k)).collect();
        let r = if original { check_original_order(part, &want) } else { check_generated_order(part, &want) };
        r.map_err(|e| format!("section {} at line {}, column {}: {}", i, s.line, s.col, e))?;
        at += n;
    }
    ensure!(at == got.len(), "{} mappings visited, the sections have {}", got.len(), at);
    cx.count("mappings visited", at as u64);
    Ok(got)
}

pub fn c25(cx: &mut Cx) -> Out {
    let (mut c, ix) = make_indexed(cx, false);
    for _ in 0..cx.rng.range(1, 5) {
        stir_ix(cx, &mut c, &ix, 5);
        match cx.rng.below(8) {
            0 => ask_original_ix(cx, &mut c, &ix, false)?,
            1 => ask_generated_ix(cx, &mut c, &ix)?,
            2 => {
                tr!(cx, "computed_column_spans()");
                c.computed_column_spans()
            }
            k => {
                check_visit(cx, &mut c, &ix, k % 2 == 0)?;
            }
        }
    }
    check_visit(cx, &mut c, &ix, false)?;
    check_visit(cx, &mut c, &ix, true)?;
    cx.count("sections", ix.secs.len() as u64);
    if ix.secs.iter().any(|s| !s.map.segs.is_empty()) {
        cx.sig(&ix.json);
    }
    Ok(())
}

pub fn c26(cx: &mut Cx) -> Out {
    let (off, mut maps) = sections(cx, false);
    let style = cx.rng.below(4);
    for (i, m) in maps.iter_mut().enumerate() {
        m.segs.truncate(3);
        m.text = encode(&m.segs);
        let r = &mut cx.rng;
        match style {
            0 => m.contents = Some(m.sources.iter().map(|_| Some(if r.one_in(60) { long(r) } else { unicode(r, 8) })).collect()),
            1 if i + 1 < off.len() => m.contents = None,
            2 => {
                for c in m.contents.iter_mut().flatten() {
                    if r.chance(40) {
                        *c = None;
                    }
                }
            }
            _ => {}
        }
        if let Some(c) = &mut m.contents {
            for s in c.iter_mut().flatten() {
                if cx.rng.chance(60) {
                    s.push_str(&format!(" of section {}", i));
                } else if cx.rng.chance(30) {
                    *s = cx.rng.pick(WORDS).to_string();
                }
            }
        }
        if m.sources.is_empty() && m.contents.is_none() {
            m.contents = Some(vec![]);
        }
    }
    let url = sections_url(cx, &maps);
    let (mut c, ix) = build(cx, off, maps, url);
    let all_sources: Vec<String> = ix.secs.iter().flat_map(|s| s.reported.clone()).collect();
    let all = ix.secs.iter().all(|s| match &s.map.contents {
        None => false,
        Some(c) => c.len() >= s.map.sources.len() && c.iter().all(|c| c.is_some()),
    });
    for _ in 0..cx.rng.range(4, 16) {
        stir_ix(cx, &mut c, &ix, 12);
        if cx.rng.one_in(4) {
            let got = c.get_sources();
            ensure!(got == all_sources, "get_sources() = {:?}, expected {:?}", got, all_sources);
            let got = c.has_contents_of_all_sources();
            ensure!(got == all, "has_contents_of_all_sources() = {}, expected {}", got, all);
            cx.count("lists compared", 1);
            continue;
        }
        let r = &mut cx.rng;
        let name = if all_sources.is_empty() || r.one_in(6) {
            format!("g{}.js", r.below(5))
        } else if r.one_in(6) {
            let s = r.pick(&ix.secs);
            if s.map.sources.is_empty() { "f0.js".into() } else { r.pick(&s.map.sources).clone() }
        } else {
            r.pick(&all_sources).clone()
        };
        let opt = *r.pick(&[None, Some(true), Some(false)]);
        let spellings = ix.spellings(&name);
        let want = ix.secs.iter().find_map(|s| {
            ix.index_in(&spellings, s)
                .and_then(|k| s.map.contents.as_ref().and_then(|c| c.get(k).cloned().flatten()))
        });
        let got = refused(|| c.source_content_for(&name, opt));
        tr!(cx, "source_content_for({:?}, {:?}) = {:?}, expected {:?}", name, opt, got.as_ref().map_err(|e| e.show()), want);
        match got {
            Ok(x) => {
                ensure!(x == want, "source_content_for({:?}) = {:?}, expected {:?}", name, x, want);
                ensure!(want.is_some() || opt == Some(false), "missing content of {:?} was not refused (option {:?})", name, opt);
            }
            Err(e) => ensure!(want.is_none() && opt != Some(false), "source_content_for({:?}, {:?}) panicked: {}, expected {:?}", name, opt, e.show(), want),
        }
        if want.is_some() {
            cx.count("contents answered", 1);
        } else {
            cx.count("contents missing", 1);
        }
        cx.sig((hash_of(&ix.json), &name, opt));
    }
    let got = c.get_sources();
    ensure!(got == all_sources, "get_sources() = {:?}, expected {:?}", got, all_sources);
    let got = c.has_contents_of_all_sources();
    ensure!(got == all, "has_contents_of_all_sources() = {}, expected {}", got, all);
    if all {
        cx.count("maps with all contents", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

fn part(r: &mut Rng, flat: &GMap, from: u32, to: u32) -> GMap {
    let mut src: BTreeMap<u32, u32> = BTreeMap::new();
    let mut nam: BTreeMap<u32, u32> = BTreeMap::new();
    let inside: Vec<Seg> = flat.segs.iter().filter(|s| s.gl >= from && s.gl < to).cloned().collect();
    let mut used: Vec<u32> = inside.iter().filter_map(|s| s.o.map(|o| o.src)).collect();
    let mut used_n: Vec<u32> = inside.iter().filter_map(|s| s.o.and_then(|o| o.name)).collect();
    for u in [&mut used, &mut used_n] {
        u.sort();
        u.dedup();
        r.shuffle(u);
    }
    for (i, u) in used.iter().enumerate() {
        src.insert(*u, i as u32);
    }
    for (i, u) in used_n.iter().enumerate() {
        nam.insert(*u, i as u32);
    }
    let segs: Vec<Seg> = inside
        .iter()
        .map(|s| Seg { gl: s.gl - from, gc: s.gc, o: s.o.map(|o| Orig { src: src[&o.src], name: o.name.map(|n| nam[&n]), ..o }) })
        .collect();
    let names = flat.names.as_ref().map(|n| used_n.iter().map(|u| n[*u as usize].clone()).collect());
    GMap {
        sources: used.iter().map(|u| flat.sources[*u as usize].clone()).collect(),
        names,
        contents: None,
        root: flat.root.clone(),
        file: None,
        text: encode(&segs),
        segs,
    }
}

pub fn c27(cx: &mut Cx) -> Out {
    let mut sh = shape(cx);
    if !cx.giant {
        sh.max_segs = sh.max_segs.min(300);
        sh.max_line = sh.max_line.clamp(3, 200);
    }
    let mut flat = gmap(cx, &sh);
    flat.contents = None;
    if cx.giant || cx.rng.one_in(150) {
        // Far into the file.
        let by = cx.rng.range(1, 150_000) as u32;
        for s in &mut flat.segs {
            s.gl += by;
        }
        cx.count("maps far into the file", 1);
    }
    // Distinct names, so that a name means one source on both sides.
    for (i, s) in flat.sources.iter_mut().enumerate() {
        *s = format!("d{}/f{}.js", i % 3, i);
    }
    let last = flat.segs.iter().map(|s| s.gl).max().unwrap_or(0);
    let first = flat.segs.iter().map(|s| s.gl).min().unwrap_or(0);
    let low = if cx.rng.chance(50) { 0 } else { first };
    let mut cuts: Vec<u32> = (0..cx.rng.below(if cx.rng.clone().one_in(10) { 60 } else { 6 })).map(|_| cx.rng.range(low as i64, last as i64 + 2) as u32).collect();
    if !cx.rng.one_in(4) || !cuts.iter().any(|c| *c <= first) {
        cuts.push(0);
    }
    cuts.sort();
    if !cx.rng.one_in(6) {
        // Otherwise some sections are empty.
        cuts.dedup();
    }
    // Anything before the first cut would be lost.
    let first = cuts[0];
    flat.segs.retain(|s| s.gl >= first);
    flat.text = encode(&flat.segs);
    let mut maps = vec![];
    for (i, c) in cuts.iter().enumerate() {
        let to = cuts.get(i + 1).copied().unwrap_or(u32::MAX);
        maps.push(part(&mut cx.rng, &flat, *c, to));
    }
    let off: Vec<(u32, u32)> = cuts.iter().map(|c| (*c, 0)).collect();
    let (mut b, u) = make(cx, flat);
    let (mut x, ix) = build(cx, off, maps, u.url.clone());
    for _ in 0..cx.rng.range(8, 24) {
        let r = &mut cx.rng;
        match r.below(10) {
            0..=5 => {
                let s = if u.map.segs.is_empty() { Seg { gl: 0, gc: 0, o: None } } else { *r.pick(&u.map.segs) };
                let gl = if r.one_in(4) { near(r, s.gl, MAX - 1) } else { s.gl };
                let gc = near(r, s.gc, MAX);
                let bi = bias(r);
                let p = || Position { line: gl as i32 + 1, column: gc as i32 };
                let one = b.original_position_for(p(), bi).map(|m| GM::of(&m));
                let two = x.original_position_for(p(), bi).map(|m| GM::of(&m));
                tr!(cx, "original_position_for(line {}, column {}, {:?}): flat {:?}, split {:?}", gl + 1, gc, bi, one, two);
                if one != two {
                    // Several mappings at one position: either may answer.
                    let cands: Vec<Option<GM>> = nearest_generated(&u.map.segs, gl, gc, upper(bi)).iter().map(|s| s.o.map(|_| u.gm(s))).collect();
                    ensure!(
                        cands.len() > 1 && cands.contains(&one) && cands.contains(&two),
                        "original_position_for(line {}, column {}, {:?}): the flat map answers {:?}, the split one {:?} (cuts {:?})", gl + 1, gc, bi, one, two, cuts
                    );
                }
                cx.count("original positions compared", 1);
                if one.is_some() {
                    cx.sig((hash_of(&u.map.text), gl, gc, &cuts));
                }
            }
            6..=8 => {
                let (name, line, col) = pick_original(cx, &u);
                let bi = bias(&mut cx.rng);
                let i = match u.index(&name) {
                    Some(i) => i,
                    None => continue,
                };
                let owners: Vec<usize> = ix.secs.iter().enumerate().filter(|(_, s)| s.reported.contains(&name)).map(|(i, _)| i).collect();
                if owners.len() != 1 {
                    continue;
                }
                let one = b.generated_position_for(&name, line as i32 + 1, col as i32, bi).map(|m| (m.generated.line, m.generated.column));
                let two = x.generated_position_for(&name, line as i32 + 1, col as i32, bi).map(|p| (p.line, p.column));
                tr!(cx, "generated_position_for({:?}, {}, {}, {:?}): flat {:?}, split {:?}", name, line + 1, col, bi, one, two);
                if one != two {
                    let cands: Vec<Option<(i32, i32)>> = nearest_original(&u.map.segs, i, line, col, upper(bi)).iter().map(|s| Some(u.gm(s).g)).collect();
                    ensure!(
                        cands.len() > 1 && cands.contains(&one) && cands.contains(&two),
                        "generated_position_for({:?}, {}, {}, {:?}): the flat map answers {:?}, the split one {:?} (cuts {:?})", name, line + 1, col, bi, one, two, cuts
                    );
                }
                cx.count("generated positions compared", 1);
            }
            _ => {
                let sources = x.get_sources();
                let names: Vec<String> = ix.secs.iter().flat_map(|s| s.map.names.clone().unwrap_or_default()).collect();
                let resolve = |m: &source_map_mappings::Mapping, src: &[String], nam: &dyn Fn(u32) -> Option<String>| {
                    (
                        m.generated_line,
                        m.generated_column,
                        m.original.as_ref().map(|o| (src.get(o.source as usize).cloned(), o.original_line, o.original_column, o.name.map(|n| nam(n)))),
                    )
                };
                let mut one: Vec<_> = visit(&mut b, IterOrd::GeneratedOrd).iter().map(|m| resolve(m, &u.reported, &|n| u.map.name(Some(n)))).collect();
                let mut two: Vec<_> = visit(&mut x, IterOrd::GeneratedOrd).iter().map(|m| resolve(m, &sources, &|n| names.get(n as usize).cloned())).collect();
                tr!(cx, "each_mapping: flat {:?}, split {:?}", one, two);
                for w in two.windows(2) {
                    ensure!((w[0].0, w[0].1) <= (w[1].0, w[1].1), "the split map visits {:?} before {:?}", w[0], w[1]);
                }
                one.sort();
                two.sort();
                ensure!(one == two, "the flat map enumerates {:?}, the split one {:?} (cuts {:?})", one, two, cuts);
                cx.count("enumerations compared", 1);
            }
        }
    }
    cx.count("cuts", cuts.len() as u64);
    Ok(())
}

// ------------------------------------------------ C15, C19, C32 for sections

pub fn c15(cx: &mut Cx) -> Out {
    if cx.rng.chance(60) {
        return c15_basic(cx);
    }
    let (mut c, ix) = make_indexed(cx, true);
    stir_ix(cx, &mut c, &ix, 4);
    for _ in 0..cx.rng.below(4) {
        match cx.rng.below(4) {
            0 => ask_original_ix(cx, &mut c, &ix, false)?,
            1 => ask_generated_ix(cx, &mut c, &ix)?,
            2 => {
                visit(&mut c, IterOrd::OriginalOrd);
            }
            _ => {
                visit(&mut c, IterOrd::GeneratedOrd);
            }
        }
    }
    tr!(cx, "computed_column_spans()");
    c.computed_column_spans();
    for _ in 0..cx.rng.range(1, 4) {
        stir_ix(cx, &mut c, &ix, 5);
        match cx.rng.below(5) {
            0 => ask_original_ix(cx, &mut c, &ix, true)?,
            1 => ask_generated_ix(cx, &mut c, &ix)?,
            2 => {
                tr!(cx, "computed_column_spans() again");
                c.computed_column_spans();
            }
            3 => {
                let key = |m: &source_map_mappings::Mapping| (seg(m), m.last_generated_column);
                let mut a: Vec<_> = visit(&mut c, IterOrd::GeneratedOrd).iter().filter(|m| m.original.is_some()).map(key).collect();
                let mut b: Vec<_> = visit(&mut c, IterOrd::OriginalOrd).iter().map(key).collect();
                a.sort();
                b.sort();
                ensure!(a == b, "ends in original order are {:?}, in generated order {:?}", b, a);
            }
            _ => {}
        }
        let got = check_visit(cx, &mut c, &ix, false)?;
        let mut at = 0;
        for (i, s) in ix.secs.iter().enumerate() {
            let n = s.map.segs.len();
            let part = &got[at..at + n];
            let next = ix.secs.get(i + 1).map(|n| (n.line, n.col));
            check_ends(part, |k| match next {
                Some((l, c)) if l == part[k].generated_line => Some(c),
                _ => None,
            })
            .map_err(|e| format!("section {} at line {}, column {} (next at {:?}): {}", i, s.line, s.col, next, e))?;
            at += n;
        }
        cx.count("ends checked", got.len() as u64);
        if got.len() > 1 {
            cx.sig(&ix.json);
        }
    }
    Ok(())
}

pub fn c19(cx: &mut Cx) -> Out {
    if cx.rng.chance(60) {
        return c19_basic(cx);
    }
    let (mut c, ix) = make_indexed(cx, false);
    if ix.secs.len() > 30 || ix.json.len() > 300_000 {
        return Ok(());
    }
    // Calls are aimed at placed segments, by names of their own section.
    let all: Vec<(usize, Seg)> = ix.secs.iter().enumerate().flat_map(|(i, s)| s.map.segs.iter().map(move |k| (i, *k))).collect();
    let n = cx.rng.range(2, 24);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let op = if !ops.is_empty() && cx.rng.one_in(5) {
            cx.rng.pick(&ops).clone()
        } else if all.is_empty() {
            random_op(&mut cx.rng, &[], &[], &[], true)
        } else {
            let (i, k) = *cx.rng.pick(&all);
            let s = &ix.secs[i];
            let mut op = random_op(&mut cx.rng, &[k], &s.map.sources, &s.reported, true);
            if let Op::Orig(l, col, _) = &mut op {
                if *l >= 1 && *l < 10_000 && *col >= 0 {
                    if *l == 1 {
                        *col = col.saturating_add(s.col as i32);
                    }
                    *l += s.line as i32;
                }
            }
            op
        };
        let got = do_indexed(&mut c, &op);
        let mut f = indexed(ix.way, &ix.json, ix.url.as_deref());
        let want = do_indexed(&mut f, &op);
        tr!(cx, "{:?} = {}", op, got);
        ensure!(got == want, "after {} calls {:?} = {}, a fresh consumer answers {}", ops.len(), op, got, want);
        if got == "refused" {
            cx.count("refused calls", 1);
        }
        ops.push(op);
    }
    cx.count("calls compared with a fresh consumer", n as u64);
    cx.sig((hash_of(&ix.json), ops));
    Ok(())
}

pub fn c32(cx: &mut Cx) -> Out {
    if cx.rng.chance(60) {
        return c32_basic(cx);
    }
    let (mut c, ix) = make_indexed(cx, false);
    for _ in 0..cx.rng.range(6, 20) {
        stir_ix(cx, &mut c, &ix, 20);
        let b = bias(&mut cx.rng);
        let (mut l, mut k) = bad_position(&mut cx.rng);
        let with: Vec<&Sec> = ix.secs.iter().filter(|s| !s.map.sources.is_empty()).collect();
        if !ix.secs.is_empty() && cx.rng.chance(60) {
            let s = cx.rng.pick(&ix.secs);
            let p = s.map.segs.first().map(|x| s.place(x));
            if l >= 1 {
                l = p.map_or(s.line, |p| p.gl) as i32 + 1;
            } else if k >= 0 {
                k = p.map_or(s.col, |p| p.gc) as i32;
            }
        }
        match cx.rng.below(5) {
            0 | 1 => {
                let got = refused(|| c.original_position_for(Position { line: l, column: k }, b));
                tr!(cx, "original_position_for({}, {}, {:?}): {:?}", l, k, b, got.as_ref().map_err(|e| e.show()));
                if let Ok(x) = got {
                    return Err(format!("original_position_for(line {}, column {}) is answered with {:?}", l, k, x));
                }
                cx.count("refused queries", 1);
            }
            2 | 3 if !with.is_empty() => {
                let s = cx.rng.pick(&with);
                let name = cx.rng.pick(&s.reported).clone();
                if cx.rng.chance(50) {
                    let got = refused(|| c.generated_position_for(&name, l, k, b));
                    tr!(cx, "generated_position_for({:?}, {}, {}): {:?}", name, l, k, got.as_ref().map_err(|e| e.show()));
                    if let Ok(x) = got {
                        return Err(format!("generated_position_for({:?}, {}, {}) is answered with {:?}", name, l, k, x));
                    }
                } else {
                    let k = if l < 1 && cx.rng.chance(30) { None } else { Some(k) };
                    let got = refused(|| c.all_generated_position_for(&name, l, k));
                    tr!(cx, "all_generated_position_for({:?}, {}, {:?}): {:?}", name, l, k, got.as_ref().map_err(|e| e.show()));
                    if let Ok(x) = got {
                        return Err(format!("all_generated_position_for({:?}, {}, {:?}) is answered with {:?}", name, l, k, x));
                    }
                }
                cx.count("refused queries", 1);
            }
            _ => match cx.rng.below(3) {
                0 => ask_original_ix(cx, &mut c, &ix, false)?,
                1 => ask_generated_ix(cx, &mut c, &ix)?,
                _ => ask_all_ix(cx, &mut c, &ix)?,
            },
        }
        cx.sig((hash_of(&ix.json), l, k, b.map(|b| b as u32)));
    }
    Ok(())
}
