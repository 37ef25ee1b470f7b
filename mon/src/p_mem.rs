//! Monitor for memory safety and bounded behaviour under hostile use: C30. Panics are
//! allowed here; what must not happen is a crash of the process, an abort, a sanitizer
//! or interpreter report, or an execution that does not come to an end.
use crate::cx::*;
use crate::gen::*;
use crate::model::*;
use crate::p_basic::*;
use crate::p_indexed::make_indexed;
use crate::p_url::{any_document, raw};
use crate::tr;
use rusty_source_map::array_set::ArraySet;
use rusty_source_map::consumer::*;
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::source_map::{Position, SourceMapJson};
use rusty_source_map::{base64, base64_vlq, binary_search, util};

/// Calls `f`; whether it returned or panicked is noted, both are fine.
fn hostile<T>(cx: &mut Cx, what: &'static str, f: impl FnOnce() -> T) -> Option<T> {
    match refused(f) {
        Ok(t) => {
            cx.count(what, 1);
            Some(t)
        }
        Err(_) => {
            cx.count(what, 1);
            cx.count("calls that panicked", 1);
            None
        }
    }
}

/// The largest source index a mappings text may come to, read as leniently as possible.
fn widest_source(text: &str) -> i64 {
    let (bytes, mut at) = (text.as_bytes(), 0);
    let (mut field, mut src, mut max) = (0, 0i64, 0i64);
    while at < bytes.len() {
        if bytes[at] == b',' || bytes[at] == b';' {
            field = 0;
            at += 1;
            continue;
        }
        match get_vlq(bytes, &mut at) {
            Some(v) => {
                if field == 1 {
                    src = src.saturating_add(v);
                    // Indices are 32-bit and may wrap.
                    max = max.max(src.abs()).max(if src < 0 { 1 << 32 } else { 0 });
                }
                field += 1;
            }
            None => break,
        }
    }
    max
}

fn wild_mapping(r: &mut Rng, lines: i64) -> Mapping {
    let pos = |r: &mut Rng, lines: Option<i64>| Position {
        line: match lines {
            Some(m) => r.range(1, m) as i32,
            None => any_i32(r),
        },
        column: any_i32(r),
    };
    Mapping {
        generated: pos(r, Some(lines)),
        original: if r.chance(60) { Some(pos(r, None)) } else { None },
        source: if r.chance(60) { Some(unicode(r, 8)) } else { None },
        name: if r.chance(40) { Some(unicode(r, 8)) } else { None },
        last_generated_column: None,
    }
}

fn garbage(r: &mut Rng, max: u64) -> String {
    let n = r.below(max);
    match r.below(4) {
        0 => unicode(r, max),
        1 => (0..n).map(|_| *r.pick(&['/', '.', ':', '?', '#', '\\', '@', '%', 'a', ' ', '[', ']', 'é', '\0'])).collect(),
        2 => (0..n).map(|_| *r.pick(&['A', 'C', 'D', 'g', '+', '/', ',', ';', '9', '!', 'ÿ'])).collect(),
        _ => (0..n).map(|_| r.range(32, 126) as u8 as char).collect(),
    }
}

fn small_parts(cx: &mut Cx) {
    let v = any_i32(&mut cx.rng);
    tr!(cx, "encode {}", v);
    hostile(cx, "digit encodings", || base64::encode(v));
    hostile(cx, "number encodings", || sound(base64_vlq::base64vlq_encode(v)));

    let mut set = ArraySet::new();
    for _ in 0..cx.rng.below(20) {
        let s = garbage(&mut cx.rng, 6);
        let dup = cx.rng.chance(50);
        let at = any_i32(&mut cx.rng);
        match cx.rng.below(5) {
            0 | 1 => {
                hostile(cx, "array set calls", || set.add(s, dup));
            }
            2 => {
                hostile(cx, "array set calls", || set.index_of(s));
            }
            3 => {
                hostile(cx, "array set calls", || set.at(at).map(sound));
            }
            _ => {
                hostile(cx, "array set calls", || (set.has(s), set.size(), set.clone().to_vec()));
            }
        }
    }

    // A search whose comparison is arbitrary, even inconsistent.
    let n = if cx.rng.one_in(50) { 100_000 } else { cx.rng.below(30) };
    let hay: Vec<u64> = (0..n).map(|_| cx.rng.below(8)).collect();
    let (salt, bias) = (cx.rng.u64(), *cx.rng.pick(&[None, Some(1), Some(2), Some(0), Some(-7), Some(i32::MAX)]));
    let needle = cx.rng.below(8);
    let odd = cx.rng.chance(50);
    let answer = hostile(cx, "searches", || {
        let cmp = |a: &u64, b: &u64| if odd { (mix(salt ^ a ^ (b << 20)) % 3) as i32 - 1 } else { *a as i32 - *b as i32 };
        binary_search::search(needle, &hay, cmp, cmp, bias)
    });
    tr!(cx, "search in {} elements = {:?}", n, answer);

    let mut list = MappingList::new();
    for _ in 0..cx.rng.below(30) {
        let m = wild_mapping(&mut cx.rng, i32::MAX as i64);
        hostile(cx, "mapping list calls", || list.add(m));
    }
    hostile(cx, "mapping list calls", || list.to_array().len());
    let (a, b) = (wild_mapping(&mut cx.rng, 5), wild_mapping(&mut cx.rng, 5));
    hostile(cx, "comparisons", || util::compare_by_generated_pos_inflated(&a, &b));
}

/// Comparisons and sets of texts that differ after millions of characters only.
fn vast_texts(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = (*r.pick(&[500_000, 3_000_000, 6_000_000]) / cx.scale).max(20);
    let shared = r.pick(&["x", "é", "a.b/", "\u{10ffff}"]).repeat(n / 2);
    let (a, b) = (format!("{}a", shared), format!("{}{}", shared, r.pick(&["", "a", "b"])));
    tr!(cx, "vast: {} bytes", shared.len());
    hostile(cx, "comparisons of vast texts", || util::strcmp(Some(a.clone()), Some(b.clone())));
    let m = |name: &str| Mapping {
        generated: Position { line: 1, column: 0 },
        original: Some(Position { line: 1, column: 0 }),
        source: Some("s".into()),
        name: Some(name.into()),
        last_generated_column: None,
    };
    hostile(cx, "comparisons of vast texts", || util::compare_by_generated_pos_inflated(&m(&a), &m(&b)));
    let mut set = ArraySet::new();
    hostile(cx, "comparisons of vast texts", || set.add(a.clone(), false));
    hostile(cx, "comparisons of vast texts", || set.index_of(b.clone()));
}

fn urls(cx: &mut Cx) {
    if cx.giant && cx.rng.one_in(3) || cx.scale == 1 && cx.rng.one_in(100) {
        return vast_texts(cx);
    }
    if cx.giant || cx.rng.one_in(400) {
        return deep_urls(cx);
    }
    let long = if cx.rng.one_in(30) { 3000 } else { 24 };
    let text = |r: &mut Rng| if r.chance(40) { raw(r, true, true).text() } else { garbage(r, long) };
    let (a, b, c) = (text(&mut cx.rng), text(&mut cx.rng), text(&mut cx.rng));
    tr!(cx, "URLs {:?} {:?} {:?}", a, b, c);
    hostile(cx, "URL calls", || sound(util::join(&a, &b)));
    hostile(cx, "URL calls", || sound(util::relative(a.clone(), b.clone())));
    let (root, url) = (cx.rng.chance(70), cx.rng.chance(70));
    hostile(cx, "URL calls", || sound(util::compute_source_url(if root { Some(&a) } else { None }, &b, if url { Some(&c) } else { None })));
    hostile(cx, "comparisons", || util::strcmp(Some(a.clone()), Some(b.clone())));
}

/// References with very long and very deep paths.
fn deep_urls(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = (*r.pick(&[20_000, 100_000, 400_000]) / cx.scale).max(20);
    let step = *r.pick(&["a/", "../", "./", "a/../", "é/", "//", "a b/", "x"]);
    let shared = step.repeat(n);
    let head = *r.pick(&["", "/", "http://h.io/", "//h.io/"]);
    let root = format!("{}{}{}", head, shared, r.pick(&["", "b", "b/"]));
    let source = match r.below(4) {
        0 => format!("{}{}{}", head, shared, "c.js"),
        1 => r.pick(&["c.js", "/c.js", "../c.js"]).to_string(),
        2 => format!("{}c.js?{}", shared, shared),
        _ => format!("{}#{}", step.repeat(n / 2), shared),
    };
    tr!(cx, "deep: {} times {:?}, head {:?}", n, step, head);
    hostile(cx, "deep URL calls", || sound(util::relative(root.clone(), source.clone())).len());
    hostile(cx, "deep URL calls", || sound(util::join(&root, &source)).len());
    hostile(cx, "deep URL calls", || sound(util::compute_source_url(Some(&root), &source, Some(&root))).len());
    hostile(cx, "deep URL calls", || sound(util::compute_source_url(None, &source, Some(&root))).len());
}

fn generate(cx: &mut Cx) {
    let skip = cx.rng.chance(70);
    let root = if cx.rng.chance(50) { Some(garbage(&mut cx.rng, 10)) } else { None };
    let mut g = SourceMapGenerator::new(None, root, skip);
    let lines = *cx.rng.pick(&[3, 50, 20_000]);
    let n: u64 = if cx.rng.one_in(40) && cx.idx > 200 { 3000 } else { cx.rng.below(25) };
    for _ in 0..n {
        let m = wild_mapping(&mut cx.rng, lines);
        let s = m.source.clone();
        hostile(cx, "generator calls", || g.add_mapping(m));
        if let (Some(s), true) = (s, cx.rng.one_in(4)) {
            let c = if cx.rng.chance(70) { Some(garbage(&mut cx.rng, 20)) } else { None };
            hostile(cx, "generator calls", || g.set_source_content(s, c));
        }
    }
    let out = hostile(cx, "documents emitted", || sound(g.as_string()));
    tr!(cx, "{} unvalidated mappings: {:?} bytes", n, out.map(|s| s.len()));
}

fn widest_in(doc: &SourceMapJson) -> i64 {
    let own = widest_source(doc.mappings.as_deref().unwrap_or(""));
    doc.sections.iter().flatten().map(|s| widest_in(&s.map)).max().unwrap_or(0).max(own)
}

/// Any text, made a consumer if it will be one, and asked arbitrary things.
fn consume(cx: &mut Cx, text: &str) {
    let url = if cx.rng.chance(50) { Some(garbage(&mut cx.rng, 12)) } else { map_url(&mut cx.rng) };
    let made = hostile(cx, "documents read", || create_consumer(text, url.as_deref()));
    let doc: Option<SourceMapJson> = hostile(cx, "documents read", || serde_json::from_str(text).ok()).flatten();
    // Indices of sources far beyond any list cost memory in proportion (see
    // KNOWN_FINDINGS.txt and the probes); such maps are asked by position only.
    let by_source = doc.as_ref().map_or(true, |d| widest_in(d) <= 2_000_000);
    let calls = cx.rng.below(14);
    let ask = |cx: &mut Cx, sources: &[String]| -> Op {
        let b = *cx.rng.pick(&[None, Some(1), Some(2)]);
        let s = if sources.is_empty() || cx.rng.one_in(4) { garbage(&mut cx.rng, 8) } else { cx.rng.pick(sources).clone() };
        let (l, c) = (any_i32(&mut cx.rng), any_i32(&mut cx.rng));
        let (l, c) = if cx.rng.chance(60) { (cx.rng.range(1, 6) as i32, cx.rng.range(0, 9) as i32) } else { (l, c) };
        match cx.rng.below(10) {
            0 | 1 => Op::Orig(l, c, b),
            2 | 3 if by_source => Op::Gen(s, l, c, b),
            4 if by_source => Op::All(s, l, if cx.rng.chance(50) { None } else { Some(c) }),
            5 => Op::Content(s, None),
            6 => Op::Each(by_source && cx.rng.chance(50)),
            7 => Op::Spans,
            8 => Op::Has,
            9 => Op::Stop(by_source && cx.rng.chance(50), cx.rng.below(4) as u32),
            _ => Op::Sources,
        }
    };
    match made {
        Some(Ok(Consumer::BasicConsumer(mut c))) => {
            let sources = hostile(cx, "queries", || c.get_sources()).unwrap_or_default();
            for _ in 0..calls {
                let op = ask(cx, &sources);
                let a = do_basic(&mut c, &op);
                tr!(cx, "{:?} = {}", op, a.chars().take(200).collect::<String>());
                cx.count("queries", 1);
                cx.count("calls that panicked", (a == "refused") as u64);
            }
        }
        Some(Ok(Consumer::IndexedConsumer(mut c))) => {
            let sources = hostile(cx, "queries", || c.get_sources()).unwrap_or_default();
            for _ in 0..calls {
                let op = ask(cx, &sources);
                let a = do_indexed(&mut c, &op);
                tr!(cx, "{:?} = {}", op, a.chars().take(200).collect::<String>());
                cx.count("queries", 1);
                cx.count("calls that panicked", (a == "refused") as u64);
            }
        }
        _ => {}
    }
    // The constructors that refuse by panicking.
    if cx.rng.one_in(3) {
        hostile(cx, "documents read", || BasicConsumer::new(text, url.as_deref()));
        hostile(cx, "documents read", || IndexedConsumer::new(text, url.as_deref()));
    }
}

fn hostile_text(cx: &mut Cx) -> String {
    let big = cx.idx > 100;
    // Under a sanitizer or an interpreter the large inputs are scaled down.
    let scale = cx.scale;
    let small = |n: usize| (n / scale).max(40);
    match cx.rng.below(16) {
        0..=3 => any_document(cx),
        14 | 15 => {
            // A well-formed map that refers to anything, with long texts.
            let mut sh = shape(cx);
            sh.max_segs = sh.max_segs.min(400);
            sh.max_line = sh.max_line.min(400);
            let mut m = gmap(cx, &sh);
            let r = &mut cx.rng;
            if scale == 1 {
                for list in [&mut m.sources, m.names.get_or_insert_with(Vec::new)] {
                    for s in list.iter_mut().take(1000) {
                        if r.one_in(4) {
                            *s = long(r);
                        }
                    }
                }
                for s in m.contents.iter_mut().flatten().flatten().take(1000) {
                    if r.one_in(4) {
                        *s = long(r);
                    }
                }
            }
            for s in &mut m.segs {
                if let Some(o) = &mut s.o {
                    if r.one_in(4) {
                        o.name = Some(natural(r, MAX) as u32);
                    }
                    if r.one_in(8) {
                        o.src = natural(r, 100_000) as u32;
                    }
                }
            }
            m.text = encode(&m.segs);
            tr!(cx, "mappings {:?}", m.text.chars().take(2000).collect::<String>());
            m.json(&mut cx.rng)
        }
        4..=7 => {
            // Arbitrary mappings text over consistent lists.
            let r = &mut cx.rng;
            let n = r.below(60);
            let text: String = (0..n)
                .map(|_| {
                    let wide = "ACDEFg+/9hijk,,;;!AAAACCCC";
                    let cs: Vec<char> = wide.chars().collect();
                    *r.pick(&cs)
                })
                .collect();
            let m = GMap {
                sources: (0..r.below(4)).map(|_| garbage(r, 8)).collect(),
                names: if r.chance(50) { Some(vec!["n".into()]) } else { None },
                contents: contents(r, 3),
                root: if r.chance(30) { Some(garbage(r, 6)) } else { None },
                file: None,
                segs: vec![],
                text,
            };
            tr!(cx, "mappings {:?}", m.text);
            let json = m.json(&mut cx.rng);
            if cx.rng.one_in(4) {
                format!("{{\"version\":3,\"sections\":[{{\"offset\":{{\"line\":{},\"column\":{}}},\"map\":{}}}]}}", any_i32(&mut cx.rng), any_i32(&mut cx.rng), json)
            } else {
                json
            }
        }
        8 if big => {
            let n = small(200_000);
            tr!(cx, "nesting {}", n);
            match cx.rng.below(3) {
                0 => "[".repeat(n),
                1 => "{\"sections\":[{\"offset\":{\"line\":0,\"column\":0},\"map\":".repeat(n / 10),
                _ => format!("{{\"version\":3,\"sources\":[],\"mappings\":\"\",\"x\":{}1{}}}", "[".repeat(n), "]".repeat(n)),
            }
        }
        9 if big => {
            let k = small(*cx.rng.pick(&[1000, 50_000, 400_000])) as u32;
            tr!(cx, "{} segments on one line", k);
            let segs: Vec<Seg> = (0..k).map(|i| Seg { gl: 0, gc: i / 2, o: Some(Orig { src: i % 3, line: i / 7, col: i % 5, name: Some(i % 2) }) }).collect();
            map_of(cx, encode(&segs))
        }
        10 if big => {
            let k = small(*cx.rng.pick(&[1000, 100_000, 1_000_000]));
            tr!(cx, "{} empty lines", k);
            map_of(cx, format!("{}AAAA", ";".repeat(k)))
        }
        11 if big => {
            let k = small(*cx.rng.pick(&[50, 3000]));
            tr!(cx, "{} sections", k);
            let secs: Vec<String> = (0..k)
                .map(|i| format!("{{\"offset\":{{\"line\":{},\"column\":{}}},\"map\":{{\"version\":3,\"sources\":[\"a\"],\"mappings\":\"AAAA;AACA\",\"names\":[]}}}}", i / 3, i % 3))
                .collect();
            format!("{{\"version\":3,\"sections\":[{}]}}", secs.join(","))
        }
        12 if big => {
            let k = small(*cx.rng.pick(&[100, 200_000]));
            tr!(cx, "a source of {} characters", k);
            let s = match cx.rng.below(3) {
                0 => "../".repeat(k / 3),
                1 => "é".repeat(k),
                _ => format!("{}a", "p0".repeat(k / 2)),
            };
            format!("{{\"version\":3,\"sources\":[\"{}\"],\"names\":[],\"mappings\":\"AAAA\"}}", s)
        }
        _ => garbage(&mut cx.rng, 80),
    }
}

fn map_of(cx: &mut Cx, text: String) -> String {
    let m = GMap { sources: vec!["a.js".into(), "b.js".into()], names: Some(vec!["n".into()]), contents: None, root: None, file: None, segs: vec![], text };
    m.json(&mut cx.rng)
}

pub fn c30(cx: &mut Cx) -> Out {
    let kind = if cx.giant { cx.rng.below(6) } else { cx.rng.below(10) };
    match kind {
        0 => small_parts(cx),
        1 => urls(cx),
        2 | 3 => generate(cx),
        4 => {
            // A consistent indexed map with refused calls in between.
            let (mut c, ix) = make_indexed(cx, false);
            let reported = c.get_sources();
            let all: Vec<Seg> = ix.secs.iter().flat_map(|s| s.map.segs.iter().map(move |k| s.place(k))).take(100).collect();
            for _ in 0..10 {
                let op = random_op(&mut cx.rng, &all, &[], &reported, true);
                let a = do_indexed(&mut c, &op);
                cx.count("queries", 1);
                cx.count("calls that panicked", (a == "refused") as u64);
            }
        }
        _ => {
            let text = hostile_text(cx);
            tr!(cx, "document of {} bytes: {}", text.len(), text.chars().take(2000).collect::<String>());
            consume(cx, &text);
        }
    }
    if let Some(what) = unsound() {
        return Err(what);
    }
    let sig = (cx.idx, cx.counters.get("queries").copied(), cx.counters.get("calls that panicked").copied());
    cx.sig(sig);
    Ok(())
}

/// Known ways to exhaust memory, run under a limit in a process of their own.
pub fn probe(name: &str) -> i32 {
    match name {
        // One segment whose source index is 4 000 000 000.
        "source-index" => {
            let mut text = String::from("A");
            for v in [4_000_000_000i64, 0, 0] {
                put_vlq(&mut text, v);
            }
            let mut c = BasicConsumer::new(&format!("{{\"version\":3,\"sources\":[\"a.js\"],\"names\":[],\"mappings\":\"{}\"}}", text), None);
            let _ = guard(|| c.generated_position_for("a.js".into(), 1, 0, None).is_some());
        }
        // A mapping on generated line 0, validation skipped.
        "line-zero" => {
            let mut g = SourceMapGenerator::new(None, None, true);
            let _ = guard(|| {
                g.add_mapping(Mapping { generated: Position { line: 0, column: 0 }, original: None, source: None, name: None, last_generated_column: None });
                g.as_string().len()
            });
        }
        _ => return 3,
    }
    println!("SURVIVED");
    0
}
