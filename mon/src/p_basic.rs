//! Monitors for the array set, binary search and the basic consumer:
//! C09 to C15, C18, C19, C21, C22, C32.
use crate::cx::*;
use crate::gen::*;
use crate::model::*;
use crate::p_gen::{bias, upper, GM};
use crate::{ensure, tr};
use rusty_source_map::array_set::ArraySet;
use rusty_source_map::binary_search as bs;
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
use source_map_mappings::Mapping as Raw;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

// ---------------------------------------------------------------- C09

pub fn c09(cx: &mut Cx) -> Out {
    let r = &mut cx.rng;
    let n = if cx.giant { 100_000 } else if r.one_in(30) { r.below(1000) } else { r.below(30) };
    let mut alphabet: Vec<String> = (0..r.range(1, 12)).map(|i| format!("e{}", i)).collect();
    for _ in 0..r.below(8) {
        alphabet.push(unicode(r, 6));
    }
    if r.one_in(10) {
        alphabet.extend((0..300).map(|i| format!("w{}", i)));
    }
    if cx.giant {
        alphabet.extend((0..200_000).map(|i| format!("g{}", i)));
    }
    let mut model: Vec<String> = vec![];
    let mut first: HashMap<String, usize> = HashMap::new();
    let mut set = match r.below(3) {
        0 => ArraySet::new(),
        1 => ArraySet::default(),
        _ => {
            let dup = r.chance(50);
            let init: Vec<String> = (0..r.below(15)).map(|_| r.pick(&alphabet).clone()).collect();
            for s in &init {
                if dup || !first.contains_key(s) {
                    first.entry(s.clone()).or_insert(model.len());
                    model.push(s.clone());
                }
            }
            tr!(cx, "from_array({:?}, {})", init, dup);
            ArraySet::from_array(init, dup)
        }
    };
    let mut hist = vec![];
    let bulk = n > 100;
    for k in 0..=n {
        if k > 0 {
            let s = cx.rng.pick(&alphabet).clone();
            let dup = cx.rng.chance(40);
            tr!(cx, "add({:?}, {})", s, dup);
            hist.push((s.clone(), dup));
            set.add(s.clone(), dup);
            if dup || !first.contains_key(&s) {
                first.entry(s.clone()).or_insert(model.len());
                model.push(s);
            }
        }
        if bulk && k != n && !cx.rng.one_in(n / 10) {
            continue;
        }
        if cx.rng.one_in(12) {
            set = set.clone();
        }
        let got = set.to_vec();
        ensure!(got == model, "the array is {:?}, expected {:?}", got, model);
        ensure!(set.size() == first.len(), "size is {}, expected {}", set.size(), first.len());
        for _ in 0..(if bulk { 20 } else { 3 }) {
            let s = if cx.rng.one_in(5) { unicode(&mut cx.rng, 3) } else { cx.rng.pick(&alphabet).clone() };
            let want = first.get(&s).copied();
            ensure!(set.has(s.clone()) == want.is_some(), "has({:?}) is {} in {:?}", s, set.has(s.clone()), model);
            let got = set.index_of(s.clone());
            ensure!(got == want, "index_of({:?}) is {:?}, expected {:?} in {:?}", s, got, want, model);
            let i = if cx.rng.one_in(2) { any_i32(&mut cx.rng) } else { cx.rng.range(-2, model.len() as i64 + 2) as i32 };
            let want = if i < 0 { None } else { model.get(i as usize).cloned() };
            let got = set.at(i);
            ensure!(got == want, "at({}) is {:?}, expected {:?}", i, got, want);
            cx.count("queries compared", 3);
        }
    }
    cx.count("elements added", n);
    if !model.is_empty() {
        cx.sig((model, hist));
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

pub fn c10(cx: &mut Cx) -> Out {
    let r = &mut cx.rng;
    let n = match r.below(100) {
        0..=59 => r.below(12),
        60..=89 => r.below(300),
        90..=97 => natural(r, 5000) as u64,
        98 => r.below(40_000),
        _ => r.below(if cx.thorough { 2_000_000 } else { 100_000 }),
    };
    let spread = match r.below(4) {
        0 => 1 + n as i64 / 8,
        1 => 4,
        2 => 2 * n as i64 + 4,
        _ => 500_000_000,
    };
    let mut hay: Vec<i32> = (0..n).map(|_| r.range(-spread, spread) as i32).collect();
    hay.sort();
    if r.one_in(4) {
        hay.dedup();
    }
    // Comparisons differ in how far from zero they answer.
    let style = r.below(6);
    let compare = move |a: i32, b: i32| match style {
        0..=2 => a - b,
        3 => (a - b).signum(),
        4 => match a.cmp(&b) {
            std::cmp::Ordering::Less => i32::MIN,
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => i32::MAX,
        },
        _ => (a - b).signum() * (1 << 8),
    };
    for _ in 0..8 {
        let r = &mut cx.rng;
        let needle = if !hay.is_empty() && r.chance(70) {
            (*r.pick(&hay)).saturating_add(r.range(-1, 1) as i32)
        } else {
            r.range(-spread - 2, spread + 2) as i32
        };
        let b = *r.pick(&[None, Some(bs::GREATEST_LOWER_BOUND), Some(bs::LEAST_UPPER_BOUND)]);
        let calls = Cell::new(0u32);
        let got = bs::search(
            needle,
            &hay,
            |a, b| {
                calls.set(calls.get() + 1);
                if calls.get() > 1_000_000 {
                    panic!("ORACLE search for {} among {} elements goes on after a million comparisons", needle, hay.len());
                }
                compare(*a, *b)
            },
            |a, b| compare(*a, *b),
            b,
        );
        let lower = hay.partition_point(|x| *x < needle);
        let want: i32 = if lower < hay.len() && hay[lower] == needle {
            lower as i32
        } else if b == Some(bs::LEAST_UPPER_BOUND) {
            if lower < hay.len() { lower as i32 } else { -1 }
        } else if lower == 0 {
            -1
        } else {
            hay.partition_point(|x| *x < hay[lower - 1]) as i32
        };
        tr!(cx, "search({}, {} elements, {:?}) = {} in {} comparisons", needle, hay.len(), b, got, calls.get());
        ensure!(
            got == want,
            "search({}, {:?}{}, bias {:?}) = {}, expected {}",
            needle, &hay[..hay.len().min(30)], if hay.len() > 30 { "…" } else { "" }, b, got, want
        );
        let bound = 4 * (64 - (n + 1).leading_zeros()) + 16;
        ensure!(calls.get() <= bound, "search in {} elements compared the needle {} times (allowed {})", n, calls.get(), bound);
        cx.count("searches compared", 1);
        cx.count("needle comparisons observed", calls.get() as u64);
        if want >= 0 {
            cx.sig((&hay[..hay.len().min(2000)], needle, b));
        }
    }
    Ok(())
}

// ------------------------------------------------- raw mappings

pub fn seg(m: &Raw) -> Seg {
    Seg {
        gl: m.generated_line,
        gc: m.generated_column,
        o: m.original.as_ref().map(|o| Orig { src: o.source, line: o.original_line, col: o.original_column, name: o.name }),
    }
}

pub fn sorted(mut v: Vec<Seg>) -> Vec<Seg> {
    v.sort();
    v
}

/// Enumerates and leaves by a panic after some mappings.
pub fn visit_some<C: ConsumerTrait>(c: &mut C, original: bool, some: u32) {
    let n = Cell::new(0);
    let callback = |_: &Raw| {
        n.set(n.get() + 1);
        if n.get() > some {
            std::panic::resume_unwind(Box::new("enough".to_string()));
        }
    };
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.each_mapping(callback, if original { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd })));
}

pub fn visit<C: ConsumerTrait>(c: &mut C, ord: IterOrd) -> Vec<Raw> {
    let seen = RefCell::new(vec![]);
    c.each_mapping(|m| seen.borrow_mut().push(m.clone()), ord);
    seen.into_inner()
}

pub fn check_generated_order(got: &[Raw], segs: &[Seg]) -> Out {
    let got: Vec<Seg> = got.iter().map(seg).collect();
    for w in got.windows(2) {
        ensure!((w[0].gl, w[0].gc) <= (w[1].gl, w[1].gc), "generated order visits {:?} before {:?}", w[0], w[1]);
    }
    diff(&sorted(got), &sorted(segs.to_vec()), "generated order")
}

pub fn check_original_order(got: &[Raw], segs: &[Seg]) -> Out {
    let got: Vec<Seg> = got.iter().map(seg).collect();
    let key = |s: &Seg| s.o.map(|o| (o.src, o.line, o.col));
    for s in &got {
        ensure!(s.o.is_some(), "original order visits {:?}", s);
    }
    for w in got.windows(2) {
        ensure!(key(&w[0]) <= key(&w[1]), "original order visits {:?} before {:?}", w[0], w[1]);
    }
    diff(&sorted(got), &sorted(segs.iter().filter(|s| s.o.is_some()).cloned().collect()), "original order")
}

pub fn diff(got: &[Seg], want: &[Seg], what: &str) -> Out {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{}: {} mappings instead of {}; sorted, they differ at {}: {:?} instead of {:?}",
        what, got.len(), want.len(), i, got.get(i), want.get(i)
    ))
}

// ---------------------------------------------------- queries with oracle

pub struct Under {
    pub map: GMap,
    pub url: Option<String>,
    pub json: String,
    pub way: u64,
    pub reported: Vec<String>,
}

pub fn make(cx: &mut Cx, map: GMap) -> (BasicConsumer, Under) {
    let url = if map.sources.len() < 1000 { map_url(&mut cx.rng) } else { None };
    let json = map.json(&mut cx.rng);
    let way = cx.rng.below(WAYS);
    tr!(cx, "map: {}", json);
    tr!(cx, "map url: {:?}, built in way {}", url, way);
    let c = basic(way, &json, url.as_deref());
    let reported = c.get_sources();
    tr!(cx, "sources: {:?}", reported);
    if reported.len() != map.sources.len() {
        panic!("ORACLE the map lists {} sources and {} are reported", map.sources.len(), reported.len());
    }
    (c, Under { map, url, json, way, reported })
}

impl Under {
    /// The index a reported name stands for: the first of equal ones.
    pub fn index(&self, name: &str) -> Option<u32> {
        self.reported.iter().position(|s| s == name).map(|i| i as u32)
    }
    pub fn gm(&self, s: &Seg) -> GM {
        GM {
            g: (s.gl as i32 + 1, s.gc as i32),
            o: s.o.map(|o| (o.line as i32 + 1, o.col as i32)),
            src: s.o.and_then(|o| self.reported.get(o.src as usize).cloned()),
            name: s.o.and_then(|o| self.map.name(o.name)),
        }
    }
}

/// Now and then, calls of all kinds, refused ones too, that later answers must not show.
pub fn stir(cx: &mut Cx, c: &mut BasicConsumer, u: &Under, one_in: u64) {
    if !cx.rng.one_in(one_in) {
        return;
    }
    let r = &mut cx.rng;
    let mut ops: Vec<Op> = vec![];
    for _ in 0..r.range(1, 5) {
        ops.push(random_op(r, &u.map.segs, &u.map.sources, &u.reported, true));
    }
    if r.one_in(3) {
        // Refusals only.
        let name = if u.reported.is_empty() { "none".to_string() } else { r.pick(&u.reported).clone() };
        ops.push(Op::All(name.clone(), 0, None));
        ops.push(Op::All(name.clone(), 1, Some(-1)));
        ops.push(Op::Gen(name, 0, 0, None));
        ops.push(Op::Orig(0, 0, None));
        let k = r.idx(ops.len());
        ops.drain(..k);
    }
    if r.one_in(5) {
        ops.push(Op::Stop(r.chance(50), r.below(8) as u32));
    }
    if r.one_in(6) {
        // Many names.
        for i in 0..r.range(10, 60) {
            let name = if u.map.sources.is_empty() || r.one_in(3) { format!("unknown{}.js", i) } else { format!("{}{}", "./".repeat(i as usize % 9), r.pick(&u.map.sources)) };
            ops.push(if r.chance(50) { Op::Content(name, Some(false)) } else { Op::Gen(name, 1, 0, None) });
        }
    }
    cx.count("unrelated calls", ops.len() as u64);
    for op in &ops {
        tr!(cx, "{:?} (not looked at)", op);
        let _ = refused(|| match op {
            Op::Orig(l, k, b) => drop(c.original_position_for(Position { line: *l, column: *k }, to_bias(*b))),
            Op::Gen(s, l, k, b) => drop(c.generated_position_for(s, *l, *k, to_bias(*b))),
            Op::All(s, l, k) => drop(c.all_generated_position_for(s, *l, *k)),
            Op::Content(s, p) => drop(c.source_content_for(s, *p)),
            Op::Each(o) => c.each_mapping(|_| {}, if *o { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd }),
            Op::Stop(o, n) => visit_some(c, *o, *n),
            Op::Spans => c.compute_column_spans(),
            Op::Has => drop(c.has_contents_of_all_sources()),
            Op::Sources => drop(c.get_sources()),
        });
    }
}

/// Asks for an original position and compares with the model.
pub fn ask_original(cx: &mut Cx, c: &mut BasicConsumer, u: &Under, spans: bool) -> Out {
    let r = &mut cx.rng;
    let base = if u.map.segs.is_empty() || r.one_in(10) {
        Seg { gl: natural(r, MAX - 1) as u32, gc: 0, o: None }
    } else {
        *r.pick(&u.map.segs)
    };
    let gl = if r.one_in(8) { near(r, base.gl, MAX - 1) } else { base.gl };
    let gc = near(r, base.gc, MAX);
    let b = bias(r);
    let got = c.original_position_for(Position { line: gl as i32 + 1, column: gc as i32 }, b);
    let end = got.as_ref().and_then(|m| m.last_generated_column);
    let got = got.map(|m| GM::of(&m));
    tr!(cx, "original_position_for(line {}, column {}, {:?}) = {:?}, ending at {:?}", gl + 1, gc, b, got, end);
    let cands = nearest_generated(&u.map.segs, gl, gc, upper(b));
    let wants: Vec<Option<GM>> = if cands.is_empty() {
        vec![None]
    } else {
        cands.iter().map(|s| if s.o.is_some() { Some(u.gm(s)) } else { None }).collect()
    };
    ensure!(
        wants.contains(&got),
        "original_position_for(line {}, column {}, {:?}) = {:?}, expected {}{:?}",
        gl + 1, gc, b, got, if wants.len() > 1 { "one of " } else { "" }, wants
    );
    cx.count("original positions asked", 1);
    if let Some(g) = got {
        // Spans are computed on demand too, so an end may be known at any time.
        if spans || end.is_some() {
            let ends = ends_of(&u.map.segs, g.g.0 as u32 - 1, g.g.1 as u32);
            ensure!(
                end.map_or(ends.contains(&None), |e| ends.iter().any(|k| k.map_or(-1, |k| k as i64) == e as i64)),
                "original_position_for(line {}, column {}, {:?}) answers with {:?} ending at {:?}, expected one of {:?}", gl + 1, gc, b, g, end, ends
            );
            cx.count("ends answered", 1);
        }
        cx.count("original positions answered", 1);
        if g.g.1 != gc as i32 {
            cx.count("answered by a neighbour", 1);
        }
        cx.sig((hash_of(&u.map.text), gl, gc, b.map(|b| b as u32)));
    }
    Ok(())
}

pub fn pick_original(cx: &mut Cx, u: &Under) -> (String, u32, u32) {
    let r = &mut cx.rng;
    let with: Vec<&Seg> = if u.map.segs.len() < 100 { u.map.segs.iter().filter(|s| s.o.is_some()).collect() } else { vec![] };
    let some = if with.is_empty() {
        if u.map.segs.is_empty() { None } else { r.pick(&u.map.segs).o }
    } else {
        r.pick(&with).o
    };
    match some {
        Some(o) if !r.one_in(12) => {
            let name = if r.one_in(8) { r.pick(&u.reported).clone() } else { u.reported.get(o.src as usize).cloned().unwrap_or_else(|| "none".into()) };
            let line = if r.one_in(3) { near(r, o.line, MAX - 1) } else { o.line };
            (name, line, near(r, o.col, MAX))
        }
        _ => {
            let name = if u.reported.is_empty() || r.one_in(3) { "no such source.js".to_string() } else { r.pick(&u.reported).clone() };
            (name, natural(r, MAX - 1) as u32, natural(r, MAX) as u32)
        }
    }
}

pub fn ask_generated(cx: &mut Cx, c: &mut BasicConsumer, u: &Under, spans: bool) -> Out {
    let (name, line, col) = pick_original(cx, u);
    let b = bias(&mut cx.rng);
    let got = c.generated_position_for(&name, line as i32 + 1, col as i32, b);
    tr!(cx, "generated_position_for({:?}, {}, {}, {:?}) = {:?}", name, line + 1, col, b, got);
    let cands = match u.index(&name) {
        None => vec![],
        Some(i) => nearest_original(&u.map.segs, i, line, col, upper(b)),
    };
    let wants: Vec<GM> = cands.iter().map(|s| u.gm(s)).collect();
    let end = got.as_ref().and_then(|m| m.last_generated_column);
    let got = got.map(|m| GM::of(&m));
    match &got {
        None => ensure!(
            wants.is_empty(),
            "generated_position_for({:?}, {}, {}, {:?}) = None, expected one of {:?}", name, line + 1, col, b, wants
        ),
        Some(g) => ensure!(
            wants.contains(g),
            "generated_position_for({:?}, {}, {}, {:?}) = {:?}, expected one of {:?}", name, line + 1, col, b, g, wants
        ),
    }
    cx.count("generated positions asked", 1);
    if let Some(g) = got {
        if spans {
            let ends = ends_of(&u.map.segs, g.g.0 as u32 - 1, g.g.1 as u32);
            let ends: Vec<i64> = ends.iter().map(|e| e.map_or(-1, |e| e as i64)).collect();
            ensure!(
                end.map_or(false, |e| ends.contains(&(e as i64))),
                "with spans computed the mapping {:?} ends at {:?}, expected one of {:?}", g, end, ends
            );
            cx.count(if end == Some(-1) { "open ends" } else { "closed ends" }, 1);
        }
        cx.count("generated positions answered", 1);
        cx.sig((hash_of(&u.map.text), &name, line, col, b.map(|b| b as u32)));
    }
    Ok(())
}

/// The ends a mapping at this position can have: with equal positions, all but the
/// last end at their own column.
pub fn ends_of(segs: &[Seg], gl: u32, gc: u32) -> Vec<Option<u32>> {
    let next = segs.iter().filter(|s| s.gl == gl && s.gc > gc).map(|s| s.gc).min();
    let here = segs.iter().filter(|s| s.gl == gl && s.gc == gc).count();
    let mut v = vec![next];
    if here > 1 {
        v.push(Some(gc));
    }
    v
}

pub fn ask_all(cx: &mut Cx, c: &mut BasicConsumer, u: &Under) -> Out {
    let (name, line, col) = pick_original(cx, u);
    let col = if cx.rng.chance(40) { None } else { Some(col) };
    let got: Vec<Seg> = c.all_generated_position_for(&name, line as i32 + 1, col.map(|c| c as i32)).iter().map(seg).collect();
    tr!(cx, "all_generated_position_for({:?}, {}, {:?}) = {:?}", name, line + 1, col, got);
    let want = match u.index(&name) {
        None => vec![],
        Some(i) => all_for(&u.map.segs, i, line, col),
    };
    let what = format!("all_generated_position_for({:?}, {}, {:?})", name, line + 1, col);
    for w in got.windows(2) {
        ensure!(w[0].o.map(|o| (o.line, o.col)) <= w[1].o.map(|o| (o.line, o.col)), "{} returns {:?} before {:?}", what, w[0], w[1]);
    }
    diff(&sorted(got.clone()), &sorted(want), &what)?;
    cx.count("all positions asked", 1);
    cx.count("positions returned", got.len() as u64);
    if got.len() > 1 {
        cx.count("answers of several positions", 1);
    }
    if !got.is_empty() {
        cx.sig((hash_of(&u.map.text), &name, line, col));
    }
    Ok(())
}

fn steps(cx: &mut Cx, n: i64) -> i64 {
    cx.rng.range(n / 2, n)
}

// ---------------------------------------------------------------- C11

pub fn c11(cx: &mut Cx) -> Out {
    let sh = shape(cx);
    let mut map = gmap(cx, &sh);
    dangle(&mut cx.rng, &mut map);
    let (mut c, u) = make(cx, map);
    for _ in 0..steps(cx, 5) {
        stir(cx, &mut c, &u, 6);
        match cx.rng.below(7) {
            0 | 1 => {
                let got = visit(&mut c, IterOrd::GeneratedOrd);
                tr!(cx, "each_mapping(GeneratedOrd): {:?}", got);
                check_generated_order(&got, &u.map.segs)?;
                cx.count("mappings visited in generated order", got.len() as u64);
            }
            2 | 3 => {
                let got = visit(&mut c, IterOrd::OriginalOrd);
                tr!(cx, "each_mapping(OriginalOrd): {:?}", got);
                check_original_order(&got, &u.map.segs)?;
                cx.count("mappings visited in original order", got.len() as u64);
            }
            4 => ask_original(cx, &mut c, &u, false)?,
            5 => ask_generated(cx, &mut c, &u, false)?,
            _ => {
                tr!(cx, "compute_column_spans()");
                c.compute_column_spans();
            }
        }
    }
    let got = visit(&mut c, IterOrd::GeneratedOrd);
    check_generated_order(&got, &u.map.segs)?;
    let got = visit(&mut c, IterOrd::OriginalOrd);
    check_original_order(&got, &u.map.segs)?;
    cx.count("mappings in the maps", u.map.segs.len() as u64);
    if u.map.segs.len() > 1 {
        cx.sig(&u.map.text);
    }
    Ok(())
}

pub fn c12(cx: &mut Cx) -> Out {
    let sh = shape(cx);
    let mut map = gmap(cx, &sh);
    dangle(&mut cx.rng, &mut map);
    let (mut c, u) = make(cx, map);
    for _ in 0..steps(cx, 24) {
        stir(cx, &mut c, &u, 12);
        ask_original(cx, &mut c, &u, false)?;
    }
    Ok(())
}

pub fn c13(cx: &mut Cx) -> Out {
    let sh = shape(cx);
    let mut map = gmap(cx, &sh);
    dangle(&mut cx.rng, &mut map);
    let (mut c, u) = make(cx, map);
    for _ in 0..steps(cx, 24) {
        stir(cx, &mut c, &u, 12);
        ask_generated(cx, &mut c, &u, false)?;
    }
    Ok(())
}

pub fn c14(cx: &mut Cx) -> Out {
    let sh = shape(cx);
    let mut map = gmap(cx, &sh);
    dangle(&mut cx.rng, &mut map);
    let (mut c, u) = make(cx, map);
    for _ in 0..steps(cx, 24) {
        stir(cx, &mut c, &u, 12);
        ask_all(cx, &mut c, &u)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

/// Every end is the column of the next mapping of the line, in the order visited.
pub fn check_ends(got: &[Raw], last: impl Fn(usize) -> Option<u32>) -> Out {
    for (i, m) in got.iter().enumerate() {
        let want = match got.get(i + 1) {
            Some(n) if n.generated_line == m.generated_line => Some(n.generated_column),
            _ => last(i),
        };
        ensure!(
            m.last_generated_column == want,
            "the mapping {:?} ends at {:?}, expected {:?} (next: {:?})", seg(m), m.last_generated_column, want, got.get(i + 1).map(seg)
        );
    }
    Ok(())
}

pub fn c15_basic(cx: &mut Cx) -> Out {
    let sh = shape(cx);
    let mut map = gmap(cx, &sh);
    dangle(&mut cx.rng, &mut map);
    let (mut c, u) = make(cx, map);
    stir(cx, &mut c, &u, 4);
    for _ in 0..cx.rng.below(4) {
        match cx.rng.below(4) {
            0 => ask_original(cx, &mut c, &u, false)?,
            1 => ask_generated(cx, &mut c, &u, false)?,
            2 => {
                visit(&mut c, IterOrd::OriginalOrd);
            }
            _ => {
                visit(&mut c, IterOrd::GeneratedOrd);
            }
        }
    }
    tr!(cx, "compute_column_spans()");
    c.compute_column_spans();
    for _ in 0..steps(cx, 6) {
        stir(cx, &mut c, &u, 6);
        match cx.rng.below(6) {
            0 | 1 => {
                let got = visit(&mut c, IterOrd::GeneratedOrd);
                tr!(cx, "each_mapping(GeneratedOrd): {:?}", got);
                check_ends(&got, |_| None)?;
                cx.count("ends checked", got.len() as u64);
            }
            2 => {
                // In original order each mapping has the end it has in generated order.
                let key = |m: &Raw| (seg(m), m.last_generated_column);
                let mut a: Vec<_> = visit(&mut c, IterOrd::GeneratedOrd).iter().filter(|m| m.original.is_some()).map(key).collect();
                let mut b: Vec<_> = visit(&mut c, IterOrd::OriginalOrd).iter().map(key).collect();
                a.sort();
                b.sort();
                ensure!(a == b, "ends in original order are {:?}, in generated order {:?}", b, a);
                cx.count("ends checked", b.len() as u64);
            }
            3 => {
                tr!(cx, "compute_column_spans() again");
                c.compute_column_spans();
            }
            4 => ask_original(cx, &mut c, &u, true)?,
            _ => ask_generated(cx, &mut c, &u, true)?,
        }
    }
    let got = visit(&mut c, IterOrd::GeneratedOrd);
    tr!(cx, "each_mapping(GeneratedOrd): {:?}", got);
    check_generated_order(&got, &u.map.segs)?;
    check_ends(&got, |_| None)?;
    if got.len() > 1 {
        cx.sig(&u.map.text);
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

pub fn c18(cx: &mut Cx) -> Out {
    let mut sh = shape(cx);
    sh.max_segs = sh.max_segs.min(60);
    let mut map = gmap(cx, &sh);
    if let Some(c) = &mut map.contents {
        for s in c.iter_mut().flatten() {
            if cx.rng.one_in(4) {
                *s = if cx.rng.one_in(30) { long(&mut cx.rng) } else { unicode(&mut cx.rng, 30) };
            }
        }
    }
    let contents = map.contents.clone();
    let (mut c, u) = make(cx, map);
    let n = u.map.sources.len();
    let strings = contents.as_ref().map_or(0, |c| c.iter().filter(|c| c.is_some()).count());
    let all = match &contents {
        None => false,
        Some(c) => c.len() >= n && c.iter().all(|c| c.is_some()),
    };
    let ask_has = |c: &BasicConsumer| -> Out {
        let got = c.has_contents_of_all_sources();
        ensure!(got == all, "has_contents_of_all_sources() = {}, contents {:?} for {} sources", got, contents, n);
        Ok(())
    };
    ask_has(&c)?;
    for _ in 0..steps(cx, 12) {
        stir(cx, &mut c, &u, 12);
        let opt = *cx.rng.pick(&[None, Some(true), Some(false)]);
        if n == 0 || cx.rng.one_in(5) {
            let name = match cx.rng.below(4) {
                0 => format!("unknown {}.js", unicode(&mut cx.rng, 3).replace(|c: char| !c.is_alphanumeric(), "_")),
                1 => "nope/nope/nope.js".to_string(),
                2 => "http://nowhere.io/f0.js".to_string(),
                _ => "f0.jsx".to_string(),
            };
            let got = refused(|| c.source_content_for(&name, opt));
            tr!(cx, "source_content_for({:?}, {:?}) = {:?}", name, opt, got.as_ref().map_err(|e| e.show()));
            let want_panic = contents.is_some() && opt != Some(false);
            match got {
                Ok(x) => {
                    ensure!(x.is_none(), "unknown source {:?} has content {:?}", name, x);
                    ensure!(!want_panic, "unknown source {:?} was not refused (option {:?})", name, opt);
                }
                Err(e) => ensure!(want_panic, "asking for unknown source {:?} (option {:?}) panicked: {}", name, opt, e.show()),
            }
            cx.count("unknown sources asked", 1);
        } else {
            let i = cx.rng.idx(n);
            let (name, i) = if cx.rng.chance(70) {
                let name = u.reported[i].clone();
                let i = u.index(&name).unwrap() as usize;
                (name, i)
            } else {
                // As listed: only where that name cannot mean another source.
                let name = u.map.sources[i].clone();
                match listed_index(&u, &name) {
                    Some(i) => (name, i),
                    None => continue,
                }
            };
            let want = contents.as_ref().and_then(|c| c.get(i).cloned().flatten());
            let got = c.source_content_for(&name, opt);
            tr!(cx, "source_content_for({:?}, {:?}) = {:?}", name, opt, got);
            ensure!(got == want, "source_content_for({:?}) = {:?}, the map has {:?} at index {}", name, got, want, i);
            cx.count("contents asked", 1);
            if want.is_some() {
                cx.sig((hash_of(&u.json), i));
            }
        }
        if cx.rng.one_in(6) && n > 0 {
            ask_original(cx, &mut c, &u, false)?;
        }
    }
    ask_has(&c)?;
    cx.count("contents listed", strings as u64);
    if all {
        cx.count("maps with all contents", 1);
    }
    Ok(())
}

/// The source a listed spelling denotes by the lookup rules, `None` if unsure.
pub fn listed_index(u: &Under, name: &str) -> Option<usize> {
    use rusty_source_map::util::compute_source_url;
    let find = |s: &str| u.reported.iter().position(|r| r == s);
    find(name)
        .or_else(|| find(&compute_source_url(None, name, u.url.as_deref())))
        .or_else(|| find(&compute_source_url(u.map.root.as_deref(), name, u.url.as_deref())))
}

// ---------------------------------------------------------------- C19

/// One call of a random history; what it answered is written out.
#[derive(Clone, Debug, Hash)]
pub enum Op {
    Orig(i32, i32, Option<u32>),
    Gen(String, i32, i32, Option<u32>),
    All(String, i32, Option<i32>),
    Content(String, Option<bool>),
    Each(bool),
    /// An enumeration that the callback leaves by a panic after so many mappings.
    Stop(bool, u32),
    Spans,
    Has,
    Sources,
}

pub fn to_bias(b: Option<u32>) -> Option<source_map_mappings::Bias> {
    b.map(|b| if b == 2 { source_map_mappings::Bias::LeastUpperBound } else { source_map_mappings::Bias::GreatestLowerBound })
}

fn show_seg(m: &Raw) -> String {
    format!("{:?}", seg(m))
}

pub fn do_basic(c: &mut BasicConsumer, op: &Op) -> String {
    match refused(|| match op {
        Op::Orig(l, k, b) => format!("{:?}", c.original_position_for(Position { line: *l, column: *k }, to_bias(*b)).map(|m| sound(GM::of(&m)))),
        Op::Gen(s, l, k, b) => format!("{:?}", c.generated_position_for(s, *l, *k, to_bias(*b)).map(|m| sound(GM::of(&m)))),
        Op::All(s, l, k) => format!("{:?}", c.all_generated_position_for(s, *l, *k).iter().map(show_seg).collect::<Vec<_>>()),
        Op::Content(s, p) => format!("{:?}", c.source_content_for(s, *p).map(sound)),
        Op::Each(o) => format!("{:?}", visit(c, if *o { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd }).iter().map(show_seg).collect::<Vec<_>>()),
        Op::Stop(o, n) => {
            visit_some(c, *o, *n);
            "()".to_string()
        }
        Op::Spans => {
            c.compute_column_spans();
            "()".to_string()
        }
        Op::Has => format!("{}", c.has_contents_of_all_sources()),
        Op::Sources => format!("{:?}", c.get_sources().into_iter().map(sound).collect::<Vec<_>>()),
    }) {
        Ok(s) => s,
        Err(_) => "refused".to_string(),
    }
}

pub fn do_indexed(c: &mut IndexedConsumer, op: &Op) -> String {
    match refused(|| match op {
        Op::Orig(l, k, b) => format!("{:?}", c.original_position_for(Position { line: *l, column: *k }, to_bias(*b)).map(|m| sound(GM::of(&m)))),
        Op::Gen(s, l, k, b) => format!("{:?}", c.generated_position_for(s, *l, *k, to_bias(*b)).map(|p| (p.line, p.column))),
        Op::All(s, l, k) => format!("{:?}", c.all_generated_position_for(s, *l, *k).iter().map(show_seg).collect::<Vec<_>>()),
        Op::Content(s, p) => format!("{:?}", c.source_content_for(s, *p).map(sound)),
        Op::Each(o) => format!("{:?}", visit(c, if *o { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd }).iter().map(show_seg).collect::<Vec<_>>()),
        Op::Stop(o, n) => {
            visit_some(c, *o, *n);
            "()".to_string()
        }
        Op::Spans => {
            c.computed_column_spans();
            "()".to_string()
        }
        Op::Has => format!("{}", c.has_contents_of_all_sources()),
        Op::Sources => format!("{:?}", c.get_sources().into_iter().map(sound).collect::<Vec<_>>()),
    }) {
        Ok(s) => s,
        Err(_) => "refused".to_string(),
    }
}

/// A random call around segments and names that occur; now and then one to refuse.
pub fn random_op(r: &mut Rng, segs: &[Seg], names: &[String], reported: &[String], refusals: bool) -> Op {
    let b = *r.pick(&[None, Some(1), Some(2)]);
    let s = if segs.is_empty() { Seg { gl: 0, gc: 0, o: None } } else { *r.pick(segs) };
    let bad = refusals && r.one_in(12);
    let name = |r: &mut Rng, s: &Seg| match r.below(10) {
        0 => "unknown.js".to_string(),
        1..=3 if !names.is_empty() => r.pick(names).clone(),
        _ => s
            .o
            .and_then(|o| reported.get(o.src as usize).cloned())
            .or_else(|| if reported.is_empty() { None } else { Some(r.pick(reported).clone()) })
            .unwrap_or_else(|| "unknown.js".into()),
    };
    match r.below(12) {
        0..=3 => {
            let gl = if r.one_in(6) { near(r, s.gl, 5000) } else { s.gl };
            let gc = near(r, s.gc, MAX);
            if bad {
                if r.chance(50) { Op::Orig(-(gl as i32), gc as i32, b) } else { Op::Orig(gl as i32 + 1, -1 - gc as i32, b) }
            } else {
                Op::Orig(gl as i32 + 1, gc as i32, b)
            }
        }
        4..=6 => {
            let n = name(r, &s);
            let (l, c) = s.o.map_or((0, 0), |o| (o.line, o.col));
            let l = if r.one_in(4) { near(r, l, MAX - 1) } else { l };
            let c = near(r, c, MAX);
            if bad {
                if r.chance(50) { Op::Gen(n, -(l as i32), c as i32, b) } else { Op::Gen(n, l as i32 + 1, -1 - c as i32, b) }
            } else {
                Op::Gen(n, l as i32 + 1, c as i32, b)
            }
        }
        7 | 8 => {
            let n = name(r, &s);
            let (l, c) = s.o.map_or((0, 0), |o| (o.line, o.col));
            let l = if r.one_in(4) { near(r, l, MAX - 1) } else { l };
            let c = if r.chance(40) { None } else { Some(near(r, c, MAX) as i32) };
            if bad { Op::All(n, -(l as i32), c) } else { Op::All(n, l as i32 + 1, c) }
        }
        9 => Op::Content(name(r, &s), *r.pick(&[None, Some(true), Some(false)])),
        10 if r.one_in(4) => Op::Stop(r.chance(50), r.below(5) as u32),
        10 => Op::Each(r.chance(50)),
        _ => match r.below(3) {
            0 => Op::Spans,
            1 => Op::Has,
            _ => Op::Sources,
        },
    }
}

pub fn c19_basic(cx: &mut Cx) -> Out {
    let mut sh = shape(cx);
    sh.max_segs = sh.max_segs.min(80);
    sh.max_line = sh.max_line.min(60);
    sh.max_sources = sh.max_sources.min(2000);
    sh.min_names = sh.min_names.min(3000);
    let mut map = gmap(cx, &sh);
    dangle(&mut cx.rng, &mut map);
    if cx.rng.one_in(15) {
        map.text.push_str("!");
    }
    let (mut c, u) = make(cx, map);
    let mut names = u.map.sources.clone();
    names.extend(u.map.sources.iter().map(|s| format!("./{}", s)));
    let long = u.json.len() < 3000 && cx.rng.one_in(8);
    if long {
        for i in 0..60 {
            names.push(format!("unknown{}.js", i));
            if let Some(s) = u.map.sources.get(i % 7) {
                names.push(format!("{}{}", "./".repeat(i / 7), s));
                names.push(format!("x{}/../{}", i, s));
            }
        }
    }
    let n = if long { cx.rng.range(30, 250) } else { cx.rng.range(2, 30) };
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let op = if !ops.is_empty() && cx.rng.one_in(5) {
            cx.rng.pick(&ops).clone()
        } else {
            random_op(&mut cx.rng, &u.map.segs, &names, &u.reported, true)
        };
        let got = do_basic(&mut c, &op);
        let mut f = basic(u.way, &u.json, u.url.as_deref());
        let want = do_basic(&mut f, &op);
        tr!(cx, "{:?} = {}", op, got);
        ensure!(got == want, "after {} calls {:?} = {}, a fresh consumer answers {}", ops.len(), op, got, want);
        if got == "refused" {
            cx.count("refused calls", 1);
        }
        ops.push(op);
    }
    cx.count("calls compared with a fresh consumer", n as u64);
    cx.sig((&u.map.text, ops));
    Ok(())
}

// ---------------------------------------------------------------- C21

fn malformed(cx: &mut Cx, segs: &[Seg]) -> (String, &'static str) {
    let r = &mut cx.rng;
    let text = encode(segs);
    // Cut at a segment boundary, put something malformed in, and go on.
    let mut cuts: Vec<usize> = vec![0, text.len()];
    cuts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b',' || *b == b';').map(|(i, _)| i));
    let at = *r.pick(&cuts);
    let (head, rest) = text.split_at(at);
    let sep = |h: &str| if h.is_empty() || h.ends_with(';') || h.ends_with(',') { "" } else { "," };
    let mut h = head.to_string();
    h.push_str(sep(head));
    let join = |h: String, rest: &str| if rest.is_empty() || rest.starts_with([',', ';']) { h + rest } else { h + "," + rest };
    let kind = r.below(5);
    match kind {
        0 => {
            // A character outside the alphabet anywhere in the text.
            let odd = *r.pick(&["!", "-", "_", "=", " ", "\n", ".", "@", "[", "`", "{", ":", "\u{0}", "é", "😀", "\u{ff}", "*", "\"", "\\"]);
            let mut places: Vec<usize> = (0..=text.len()).collect();
            r.shuffle(&mut places);
            let at = places[0];
            (format!("{}{}{}", &text[..at], odd, &text[at..]), "character")
        }
        1 => {
            let t = *r.pick(&["g", "gg", "Ag", "AAg", "AAAg", "AAAAg", "gggg", "/", "A+"]);
            (join(h + t, rest), "truncated")
        }
        2 => (join(h + r.pick(&["AA", "CA", "gBA", "AC"]), rest), "two fields"),
        3 => (join(h + r.pick(&["AAA", "CAC", "AAgB", "AAC"]), rest), "three fields"),
        _ => {
            // Each running value in turn is pushed below zero.
            let mut seg = String::new();
            let which = r.below(5);
            let big = -(1i64 << 32);
            let neg = |r: &mut Rng| if r.chance(30) { i64::from(i32::MIN) * 2 } else { big };
            match which {
                0 => put_vlq(&mut seg, neg(r)),
                k => {
                    let n = if k == 4 { 5 } else { *r.pick(&[4, 5]) };
                    for f in 0..n {
                        if f == k {
                            let v = neg(r);
                            put_vlq(&mut seg, v)
                        } else {
                            put_vlq(&mut seg, 0)
                        }
                    }
                }
            }
            if h.is_empty() && r.chance(50) {
                // From zero, minus one is enough.
                seg = r.pick(&["D", "ADAA", "AADA", "AAAD", "AAAAD", "DAAA", "DAAAA"]).to_string();
            }
            (join(h + &seg, rest), "below zero")
        }
    }
}

pub fn c21(cx: &mut Cx) -> Out {
    let mut sh = shape(cx);
    sh.max_segs = sh.max_segs.min(60);
    sh.max_line = sh.max_line.min(60);
    let mut map = gmap(cx, &sh);
    let (text, kind) = malformed(cx, &map.segs);
    tr!(cx, "malformed ({}): {:?}", kind, text);
    map.text = text;
    let contents = map.contents.clone();
    let (mut c, u) = make(cx, map);
    for _ in 0..steps(cx, 14) {
        let op = random_op(&mut cx.rng, &u.map.segs, &u.map.sources, &u.reported, true);
        let got = match &op {
            Op::Orig(l, k, b) => refused(|| c.original_position_for(Position { line: *l, column: *k }, to_bias(*b)).is_some()),
            Op::Gen(s, l, k, b) => refused(|| c.generated_position_for(s, *l, *k, to_bias(*b)).is_some()),
            Op::All(s, l, k) => refused(|| !c.all_generated_position_for(s, *l, *k).is_empty()),
            Op::Each(o) => {
                let seen = Cell::new(0);
                let _ = refused(|| c.each_mapping(|_| seen.set(seen.get() + 1), if *o { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd }));
                Ok(seen.get() > 0)
            }
            Op::Stop(..) => {
                let _ = do_basic(&mut c, &op);
                Ok(false)
            }
            Op::Spans => refused(|| c.compute_column_spans()).map(|_| false),
            _ => {
                // Names and contents stay available.
                let got = c.get_sources();
                ensure!(got == u.reported, "the sources were {:?} and are {:?}", u.reported, got);
                if let (Some(cs), false) = (&contents, u.reported.is_empty()) {
                    let name = cx.rng.pick(&u.reported).clone();
                    let want = cs.get(u.index(&name).unwrap() as usize).cloned().flatten();
                    let got = c.source_content_for(&name, Some(false));
                    ensure!(got == want, "content of {:?} is {:?}, expected {:?}", name, got, want);
                    cx.count("contents of malformed maps", 1);
                }
                Ok(false)
            }
        };
        tr!(cx, "{:?}: {:?}", op, got.as_ref().map_err(|e| e.show()));
        match got {
            Ok(true) => return Err(format!("{:?} is answered although the mappings are malformed ({}): {:?}", op, kind, u.map.text)),
            Ok(false) => cx.count("calls without an answer", 1),
            Err(_) => cx.count("calls refused", 1),
        }
    }
    cx.sig((&u.map.text, kind));
    Ok(())
}

// ---------------------------------------------------------------- C22

pub fn c22(cx: &mut Cx) -> Out {
    let mut sh = shape(cx);
    sh.max_segs = sh.max_segs.min(100);
    let mut map = gmap(cx, &sh);
    // Push names and sources out of range, or shorten the lists under them.
    let r = &mut cx.rng;
    let (ns, nn) = (map.sources.len() as u32, map.names.as_ref().map_or(0, |n| n.len()) as u32);
    let which = r.below(4);
    if which == 0 {
        map.names = None;
    } else if which == 1 {
        if let Some(n) = &mut map.names {
            n.truncate(r.idx(n.len() + 1));
        }
    }
    let far = *r.pick(&[1u32, 3, 900]);
    let (share_n, share_s) = *r.pick(&[(40u64, 0u64), (0, 40), (40, 40), (100, 10), (10, 100)]);
    for s in &mut map.segs {
        if let Some(o) = &mut s.o {
            if r.chance(share_n) {
                o.name = Some(nn + r.below(far as u64) as u32);
                if r.one_in(20) {
                    o.name = Some(r.range(1 << 20, MAX) as u32);
                }
            }
            if r.chance(share_s) {
                o.src = ns + r.below(far as u64) as u32;
            }
        }
    }
    map.text = encode(&map.segs);
    let (mut c, u) = make(cx, map);
    let dangling = u.map.segs.iter().filter(|s| s.o.map_or(false, |o| o.src >= ns || o.name.map_or(false, |n| n >= u.map.names.as_ref().map_or(0, |l| l.len() as u32)))).count();
    for _ in 0..steps(cx, 16) {
        stir(cx, &mut c, &u, 12);
        match cx.rng.below(10) {
            0..=3 => ask_original(cx, &mut c, &u, false)?,
            4..=6 => ask_generated(cx, &mut c, &u, false)?,
            7 => ask_all(cx, &mut c, &u)?,
            8 => {
                let got = visit(&mut c, IterOrd::GeneratedOrd);
                check_generated_order(&got, &u.map.segs)?;
            }
            _ => {
                let got = visit(&mut c, IterOrd::OriginalOrd);
                check_original_order(&got, &u.map.segs)?;
            }
        }
    }
    cx.count("dangling references", dangling as u64);
    if dangling > 0 {
        cx.sig((&u.map.text, nn));
    }
    Ok(())
}

// ---------------------------------------------------------------- C32

pub fn bad_position(r: &mut Rng) -> (i32, i32) {
    let low = |r: &mut Rng| match r.below(4) {
        0 => 0,
        1 => -1,
        2 => i32::MIN,
        _ => -(natural(r, MAX) as i32),
    };
    let neg = |r: &mut Rng| match r.below(3) {
        0 => -1,
        1 => i32::MIN,
        _ => -1 - natural(r, MAX - 1) as i32,
    };
    match r.below(5) {
        0 | 1 => (low(r), natural(r, MAX) as i32),
        2 | 3 => (natural(r, MAX - 1) as i32 + 1, neg(r)),
        _ => (low(r), neg(r)),
    }
}

pub fn c32_basic(cx: &mut Cx) -> Out {
    let mut sh = shape(cx);
    sh.max_segs = sh.max_segs.min(60);
    let mut map = gmap(cx, &sh);
    let broken = cx.rng.one_in(12);
    if broken {
        map.text.push('!');
    }
    let (mut c, u) = make(cx, map);
    for _ in 0..steps(cx, 16) {
        let b = bias(&mut cx.rng);
        let (mut l, mut k) = bad_position(&mut cx.rng);
        if !u.map.segs.is_empty() && cx.rng.chance(40) {
            // One coordinate of a mapping that exists, the other out of range.
            let s = *cx.rng.pick(&u.map.segs);
            if l >= 1 {
                l = s.gl as i32 + 1;
            } else if k >= 0 {
                k = s.gc as i32;
            }
        }
        match cx.rng.below(5) {
            0 | 1 => {
                let got = refused(|| c.original_position_for(Position { line: l, column: k }, b));
                tr!(cx, "original_position_for({}, {}, {:?}): {:?}", l, k, b, got.as_ref().map_err(|e| e.show()));
                if let Ok(x) = got {
                    return Err(format!("original_position_for(line {}, column {}) is answered with {:?}", l, k, x));
                }
                cx.count("refused queries", 1);
            }
            2 if !u.reported.is_empty() => {
                let name = cx.rng.pick(&u.reported).clone();
                let got = refused(|| c.generated_position_for(&name, l, k, b));
                tr!(cx, "generated_position_for({:?}, {}, {}): {:?}", name, l, k, got.as_ref().map_err(|e| e.show()));
                if let Ok(x) = got {
                    return Err(format!("generated_position_for({:?}, {}, {}) is answered with {:?}", name, l, k, x));
                }
                cx.count("refused queries", 1);
            }
            3 if !u.reported.is_empty() => {
                let name = cx.rng.pick(&u.reported).clone();
                let k = if l < 1 && cx.rng.chance(30) { None } else { Some(k) };
                let got = refused(|| c.all_generated_position_for(&name, l, k));
                tr!(cx, "all_generated_position_for({:?}, {}, {:?}): {:?}", name, l, k, got.as_ref().map_err(|e| e.show()));
                if let Ok(x) = got {
                    return Err(format!("all_generated_position_for({:?}, {}, {:?}) is answered with {:?}", name, l, k, x));
                }
                cx.count("refused queries", 1);
            }
            _ if !broken => match cx.rng.below(3) {
                0 => ask_original(cx, &mut c, &u, false)?,
                1 => ask_generated(cx, &mut c, &u, false)?,
                _ => ask_all(cx, &mut c, &u)?,
            },
            _ => {}
        }
        cx.sig((hash_of(&u.map.text), l, k, b.map(|b| b as u32)));
    }
    Ok(())
}
