//! Writes calls and their answers as JSON lines, for tools/upstream.js to compare with
//! the JavaScript library this crate is a translation of.
use crate::cx::*;
use crate::gen::*;
use crate::model::encode;
use crate::p_indexed::{build, sections};
use crate::p_url::{raw, url_pair};
use rusty_source_map::consumer::{ConsumerTrait, IterOrd};
use rusty_source_map::source_map::Position;
use rusty_source_map::util::{compute_source_url, join, relative};
use serde_json::{json, Value};
use source_map_mappings::{Bias, Mapping};
use std::cell::RefCell;

fn bias(r: &mut Rng) -> (u32, Option<Bias>) {
    match r.below(3) {
        0 => (1, None),
        1 => (1, Some(Bias::GreatestLowerBound)),
        _ => (2, Some(Bias::LeastUpperBound)),
    }
}

fn row(m: &Mapping) -> Value {
    let o = m.original.as_ref();
    json!([m.generated_line, m.generated_column, m.last_generated_column, o.map(|o| o.source), o.map(|o| o.original_line), o.map(|o| o.original_column), o.and_then(|o| o.name)])
}

/// No two segments at the same place: which of them answers is not the same everywhere.
fn untie(m: &mut GMap) {
    let (mut g, mut o) = (std::collections::HashSet::new(), std::collections::HashSet::new());
    m.segs.retain(|s| g.insert((s.gl, s.gc)) && s.o.map_or(true, |x| o.insert((x.src, x.line, x.col))));
    m.text = encode(&m.segs);
}

fn urls(cx: &mut Cx) -> Value {
    let r = &mut cx.rng;
    let odd = r.one_in(3);
    let t = |r: &mut Rng| if r.chance(60) { Some(raw(r, odd, r.clone().one_in(3)).text()) } else { None };
    match r.below(3) {
        0 => {
            let (root, url) = (t(r), t(r));
            let src = raw(r, odd, true).text();
            let got = compute_source_url(root.as_deref(), &src, url.as_deref());
            json!({"k": "source", "root": root, "source": src, "url": url, "got": got})
        }
        1 => {
            let (a, b) = (raw(r, odd, false).text(), raw(r, odd, true).text());
            let got = join(&a, &b);
            json!({"k": "join", "a": a, "b": b, "got": got})
        }
        _ => {
            let (a, b) = if r.chance(50) { url_pair(r) } else { (raw(r, odd, false).text(), raw(r, odd, true).text()) };
            let got = relative(a.clone(), b.clone());
            json!({"k": "relative", "a": a, "b": b, "got": got})
        }
    }
}

fn maps(cx: &mut Cx) -> Value {
    let mut q = vec![];
    if cx.rng.chance(60) {
        let mut sh = shape(cx);
        sh.max_segs = sh.max_segs.min(300);
        sh.max_line = sh.max_line.min(300);
        let mut m = gmap(cx, &sh);
        untie(&mut m);
        let url = map_url(&mut cx.rng);
        let text = m.json(&mut cx.rng);
        let mut c = basic(cx.rng.below(4), &text, url.as_deref());
        let sources = c.get_sources();
        for _ in 0..12 {
            let seg = if m.segs.is_empty() { None } else { Some(cx.rng.pick(&m.segs).clone()) };
            let r = &mut cx.rng;
            let (b, lib) = bias(r);
            match r.below(9) {
                0 => {
                    c.compute_column_spans();
                    q.push(json!(["spans"]));
                }
                1 => {
                    let original = r.chance(50);
                    let rows = RefCell::new(vec![]);
                    c.each_mapping(|m| rows.borrow_mut().push(row(m)), if original { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd });
                    q.push(json!(["each", original, rows.into_inner()]));
                }
                2..=4 => {
                    let (l, col) = seg.map_or((1, 0), |s| (near(r, s.gl, 400) + 1, near(r, s.gc, MAX - 1)));
                    let a = c.original_position_for(Position { line: l as i32, column: col as i32 }, lib);
                    q.push(json!(["o", l, col, b, a.map(|a| json!([a.source, a.original.as_ref().map(|o| o.line), a.original.as_ref().map(|o| o.column), a.name]))]));
                }
                5 => {
                    let s = if sources.is_empty() || r.one_in(6) { "none.js".to_string() } else if r.chance(50) { r.pick(&sources).clone() } else { r.pick(&m.sources).clone() };
                    q.push(json!(["content", s, c.source_content_for(&s, Some(false)), c.has_contents_of_all_sources()]));
                }
                k => {
                    let o = seg.and_then(|s| s.o);
                    let s = if sources.is_empty() || r.one_in(9) {
                        "none.js".to_string()
                    } else if let (Some(o), true) = (&o, r.chance(60)) {
                        sources[o.src as usize % sources.len()].clone()
                    } else {
                        {
                            let list = if r.chance(50) { &sources } else { &m.sources };
                            r.pick(list).clone()
                        }
                    };
                    let (l, col) = o.map_or((1, 0), |o| (near(r, o.line, MAX - 1), near(r, o.col, MAX - 1)));
                    let l = (l as i64 + 1).min(MAX - 1) as i32;
                    if k < 8 {
                        let a = c.generated_position_for(&s, l, col as i32, lib);
                        q.push(json!(["g", s, l, col, b, a.map(|a| json!([a.generated.line, a.generated.column, a.last_generated_column]))]));
                    } else {
                        let at = if r.chance(50) { Some(col as i32) } else { None };
                        let a: Vec<Value> = c.all_generated_position_for(&s, l, at).iter().map(|m| json!([m.generated_line + 1, m.generated_column, m.last_generated_column])).collect();
                        q.push(json!(["a", s, l, at, a]));
                    }
                }
            }
        }
        return json!({"k": "basic", "map": text, "url": url, "sources": sources, "q": q});
    }
    cx.giant = false;
    let (off, mut list) = sections(cx, true);
    list.iter_mut().for_each(untie);
    let url = map_url(&mut cx.rng);
    let (mut c, ix) = build(cx, off, list, url);
    let sources = c.get_sources();
    for _ in 0..12 {
        let r = &mut cx.rng;
        let (b, lib) = bias(r);
        let sec = if ix.secs.is_empty() { None } else { Some(&ix.secs[r.idx(ix.secs.len())]) };
        let seg = sec.and_then(|s| if s.map.segs.is_empty() { None } else { Some((s, r.pick(&s.map.segs).clone())) });
        match r.below(6) {
            0..=2 => {
                let (l, col) = seg.map_or((1, 0), |(sec, s)| {
                    let g = sec.place(&s);
                    (near(r, g.gl, MAX - 2) + 1, near(r, g.gc, MAX - 1))
                });
                let a = c.original_position_for(Position { line: l as i32, column: col as i32 }, lib);
                q.push(json!(["o", l, col, b, a.map(|a| json!([a.source, a.original.as_ref().map(|o| o.line), a.original.as_ref().map(|o| o.column), a.name]))]));
            }
            3 => {
                let s = if sources.is_empty() { "none.js".to_string() } else { r.pick(&sources).clone() };
                q.push(json!(["content", s, c.source_content_for(&s, Some(false)), c.has_contents_of_all_sources()]));
            }
            _ => {
                let s = if sources.is_empty() || r.one_in(9) { "none.js".to_string() } else { r.pick(&sources).clone() };
                let (l, col) = seg.and_then(|(_, s)| s.o).map_or((1, 0), |o| (near(r, o.line, MAX - 2) + 1, near(r, o.col, MAX - 1)));
                let a = c.generated_position_for(&s, l as i32, col as i32, lib);
                q.push(json!(["g", s, l, col, b, a.map(|a| json!([a.line, a.column]))]));
            }
        }
    }
    json!({"k": "indexed", "map": ix.json, "url": ix.url, "sources": sources, "q": q})
}

pub fn write(count: u64, seed: u64) -> i32 {
    let mut cx = Cx::new(false);
    for i in 0..count {
        cx.start("upstream", seed, i);
        cx.giant = false;
        let v = if i % 2 == 0 { urls(&mut cx) } else { maps(&mut cx) };
        println!("{}", v);
    }
    0
}
