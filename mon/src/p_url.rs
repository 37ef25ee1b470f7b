//! Monitors for URL handling and for reading documents: C16, C17, C20, C31, C34.
use crate::cx::*;
use crate::gen::*;
use crate::model::*;
use crate::p_gen::GM;
use crate::{ensure, tr};
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::SourceMapJson;
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::source_map::Position;
use rusty_source_map::util;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::Value;
use std::fmt;

// ------------------------------------------------------- the URL model

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// Scheme and authority, as in "http://h.io".
    Abs(String),
    /// Authority, as in "//h.io".
    Scheme(String),
    PathAbs,
    PathRel,
}

/// A reference as spelled: path segments as written (the last one is the file name,
/// "" after a trailing slash), and query and fragment with their marks.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Raw {
    pub kind: Kind,
    pub segs: Vec<String>,
    pub query: String,
    pub frag: String,
}

impl Raw {
    pub fn text(&self) -> String {
        let path = self.segs.join("/");
        let head = match &self.kind {
            Kind::Abs(a) => format!("{}/", a),
            Kind::Scheme(h) => format!("//{}/", h),
            Kind::PathAbs => "/".to_string(),
            Kind::PathRel => String::new(),
        };
        format!("{}{}{}{}", head, path, self.query, self.frag)
    }
    pub fn norm(&self) -> Norm {
        let (mut up, mut dirs, mut file) = (0, Vec::<String>::new(), String::new());
        let n = self.segs.len();
        for (i, s) in self.segs.iter().enumerate() {
            match s.as_str() {
                "." => {}
                ".." => {
                    if dirs.pop().is_none() && self.kind == Kind::PathRel {
                        up += 1;
                    }
                }
                s if i + 1 == n => file = encode_seg(s),
                s => dirs.push(encode_seg(s)),
            }
        }
        let kind = match &self.kind {
            Kind::Abs(a) => Kind::Abs(norm_authority(a)),
            k => k.clone(),
        };
        Norm { kind, up, dirs, file, query: self.query.clone(), frag: self.frag.clone() }
    }
}

/// Case and default ports say nothing in a scheme and authority.
fn norm_authority(a: &str) -> String {
    let at = a.find("://").unwrap();
    let scheme = a[..at].to_ascii_lowercase();
    let mut rest = a[at + 3..].to_string();
    let port = match scheme.as_str() {
        "http" => Some(":80"),
        "https" => Some(":443"),
        "ftp" => Some(":21"),
        "file" => None,
        // Other schemes' authorities are opaque.
        _ => return format!("{}://{}", scheme, rest),
    };
    let host = rest.rfind('@').map_or(0, |i| i + 1);
    rest = format!("{}{}", &rest[..host], rest[host..].to_ascii_lowercase());
    if let Some(r) = port.and_then(|p| rest.strip_suffix(p)) {
        rest = r.to_string();
    }
    format!("{}://{}", scheme, rest)
}

/// Whether a path of these segments would be one of another kind: "//a" instead of a
/// path from the root, "/a" or "a:b" instead of a relative one.
fn would_change(kind: &Kind, segs: &[String]) -> bool {
    match kind {
        Kind::PathAbs => segs.len() > 1 && segs[0].is_empty(),
        Kind::PathRel => segs.len() > 1 && segs[0].is_empty() || segs.first().map_or(false, |s| s.contains(':')),
        _ => false,
    }
}

/// Percent-encoding of what may not stand in a path.
fn encode_seg(s: &str) -> String {
    let mut out = String::new();
    for b in s.bytes() {
        if b <= 0x20 || b >= 0x7f || b"\"<>`{}".contains(&b) {
            out.push_str(&format!("%{:02X}", b));
        } else {
            out.push(b as char);
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Norm {
    pub kind: Kind,
    pub up: usize,
    pub dirs: Vec<String>,
    pub file: String,
    pub query: String,
    pub frag: String,
}

impl Norm {
    pub fn text(&self) -> String {
        self.raw().text()
    }
    pub fn raw(&self) -> Raw {
        let mut segs = vec!["..".to_string(); self.up];
        segs.extend(self.dirs.iter().cloned());
        segs.push(self.file.clone());
        if would_change(&self.kind, &segs) {
            segs.insert(0, ".".to_string());
        }
        Raw { kind: self.kind.clone(), segs, query: self.query.clone(), frag: self.frag.clone() }
    }
    fn ensure_dir(mut self) -> Norm {
        if !self.file.is_empty() {
            self.dirs.push(std::mem::take(&mut self.file));
        }
        self
    }
    fn trim_file(mut self) -> Norm {
        self.file.clear();
        self
    }
    /// Resolution of `self` against the base, which may be relative itself.
    fn resolve(&self, base: &Norm) -> Norm {
        let mut r = self.clone();
        match (&self.kind, &base.kind) {
            (Kind::Abs(_), _) => {}
            (Kind::Scheme(h), Kind::Abs(a)) => {
                let scheme = &a[..a.find("://").unwrap()];
                r.kind = Kind::Abs(norm_authority(&format!("{}://{}", scheme, h)));
            }
            (Kind::Scheme(_), _) => {}
            (Kind::PathAbs, Kind::Abs(_)) | (Kind::PathAbs, Kind::Scheme(_)) => r.kind = base.kind.clone(),
            (Kind::PathAbs, _) => {}
            (Kind::PathRel, _) => {
                if self.up == 0 && self.dirs.is_empty() && self.file.is_empty() && self.query.is_empty() {
                    let mut b = base.clone();
                    b.frag = self.frag.clone();
                    return b;
                }
                let mut raw = Raw { kind: base.kind.clone(), segs: vec!["..".to_string(); base.up], query: self.query.clone(), frag: self.frag.clone() };
                raw.segs.extend(base.dirs.iter().cloned());
                if self.up == 0 && self.dirs.is_empty() && self.file.is_empty() {
                    // Only a query: the base's file stays.
                    raw.segs.push(base.file.clone());
                } else {
                    raw.segs.extend(self.raw().segs);
                }
                // The segments are encoded already; encoding again changes nothing.
                return raw.norm();
            }
        }
        r
    }
}

pub fn model_join(root: &Norm, path: &Norm) -> Norm {
    path.resolve(&root.clone().ensure_dir())
}

/// What `compute_source_url` must answer.
pub fn model_source_url(root: Option<&Raw>, source: &Raw, url: Option<&Raw>) -> Norm {
    let mut s = source.clone();
    let root = root.filter(|r| !r.text().is_empty());
    let url = url.filter(|r| !r.text().is_empty());
    if root.is_some() && s.kind == Kind::PathAbs {
        s.kind = Kind::PathRel;
    }
    let mut n = s.norm();
    if let Some(r) = root {
        n = model_join(&r.norm(), &n);
    }
    if let Some(u) = url {
        n = model_join(&u.norm().trim_file(), &n);
    }
    n
}

/// What `relative` must answer; `None` where no reference leads to the target, because
/// the root lies further up than the target is known to be.
pub fn model_relative(root: &Raw, target: &Raw) -> Option<String> {
    let (r, t) = (root.norm(), target.norm());
    if r.kind != t.kind {
        return Some(t.text());
    }
    if r.up > t.up {
        return None;
    }
    // Leading parent steps count from a common, deep enough place.
    let deep = r.up.max(t.up);
    let mut rp = vec!["\0".to_string(); deep - r.up];
    rp.extend(r.dirs);
    if !r.file.is_empty() {
        rp.push(r.file);
    }
    let mut tp = vec!["\0".to_string(); deep - t.up];
    tp.extend(t.dirs);
    tp.push(t.file);
    let common = rp.iter().zip(&tp).take_while(|(a, b)| a == b).count();
    let mut out = vec!["..".to_string(); rp.len() - common];
    out.extend_from_slice(&tp[common..]);
    if would_change(&Kind::PathRel, &out) {
        out.insert(0, ".".to_string());
    }
    Some(format!("{}{}{}", out.join("/"), t.query, t.frag))
}

/// Any segment of characters that stand for themselves, or, if odd, of letters beyond ASCII.
fn free_segment(r: &mut Rng, odd: bool) -> String {
    let plain: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("-_.~".chars()).collect();
    let n = r.range(1, 12);
    let mut s: String = (0..n)
        .map(|_| {
            if odd && r.one_in(4) {
                loop {
                    let c = char::from_u32(r.range(0xa1, 0x2_ffff) as u32);
                    if let Some(c) = c.filter(|c| c.is_alphanumeric()) {
                        break c;
                    }
                }
            } else {
                *r.pick(&plain)
            }
        })
        .collect();
    if s == "." || s == ".." {
        s.push('x');
    }
    s
}

/// What may follow a question mark or hash and stands for itself.
fn tail(r: &mut Rng) -> String {
    let n = r.range(1, 14);
    (0..n).map(|_| *r.pick(&["a", "Z", "0", "/", ".", "..", "?", "=", "&", ";", ":", "@", "!", "$", "(", ")", "*", ",", "-", "_", "~", "%41", "%2e", "//", "/../", "://", "+", "|"])).collect()
}

const AUTH: &[&str] = &["http://h.io", "https://h.io", "https://h.io:8443", "http://other.io", "webpack://", "webpack://proj", "file://", "http://u:pw@h.io", "app+x://h.io", "git+ssh://h.io",
    "webpack-internal://", "http://localhost:3000", "http://127.0.0.1", "https://a.b-c.example.org:8080", "ftp://h.io", "chrome-extension://abcdef",
    "x.y-1://h.io", "a9+b://H.Io", "HTTP://h.io", "http://H.IO", "Https://H.io:443", "http://h.io:80", "http://h.io:443", "http://U:Pw@H.io", "WebPack://Proj", "http://xn--bcher-kva.example", "http://a.b.c.d.e",
    "http://u@h.io", "ftp://h.io:21", "app://h.io:80"];

pub fn raw(r: &mut Rng, odd: bool, tails: bool) -> Raw {
    let kind = match r.below(10) {
        0 | 1 => Kind::Abs(if r.chance(50) { "http://h.io".into() } else { r.pick(AUTH).to_string() }),
        2 => Kind::Scheme(r.pick(&["h.io", "other.io", "h.io:8443", "h.io", "other.io"]).to_string()),
        3 | 4 => Kind::PathAbs,
        _ => Kind::PathRel,
    };
    let n = match r.below(12) {
        0 => 0,
        1..=9 => r.range(1, 5),
        10 => r.range(5, 12),
        _ if r.one_in(40) => r.range(100, 2000),
        _ => r.range(12, 40),
    };
    let free = *r.pick(&[0, 0, 5, 60]);
    let dots = *r.pick(&[0, 10, 40, 80]);
    let mut segs: Vec<String> = (0..n)
        .map(|_| {
            if r.chance(dots) {
                r.pick(&[".", "..", ".."]).to_string()
            } else if r.chance(free) {
                free_segment(r, odd)
            } else if odd && r.one_in(4) {
                r.pick(&["a b", "é", "x\"y", "中文", "<i>", "{k}", "`", "%20", "%41", "a%2Fb", "😀.js", "a\u{7f}b", "~u", "a+b", "x=y", "a,b;c", "(p)", "$v", "!", "@s", "'q'", "*"]).to_string()
            } else {
                r.pick(&["a", "b", "c", "src", "p", "p0", "p1", "p00", "p2", "p3", "p4", "p10", "p11", "a.js", "...", "a..b", ".h", "host", "x-y_z", "..a", "b..", "1", "A", "B", "SRC", "Src", "A.js", "P0"]).to_string()
            }
        })
        .collect();
    if segs.is_empty() || r.one_in(6) {
        segs.push(String::new());
    }
    if segs[0].is_empty() && kind == Kind::PathRel && segs.len() > 1 {
        segs.remove(0);
    }
    if segs.len() > 1 && r.one_in(6) {
        // Repeated slashes, which are kept.
        for _ in 0..r.range(1, 3) {
            let at = r.range(1, segs.len() as i64) as usize;
            segs.insert(at, String::new());
        }
    }
    let query = if tails && r.one_in(6) { r.pick(&["?q", "?a=b&c=d", "?v=1.2", "?..", "?x/../y", "?loader!./a.js", "?"]).to_string() } else { String::new() };
    let frag = if tails && r.one_in(8) { r.pick(&["#f", "#a/b", "#..", "#?q", "#x..y", "#"]).to_string() } else { String::new() };
    let query = if !query.is_empty() && r.one_in(3) { format!("?{}", tail(r)) } else { query };
    let frag = if !frag.is_empty() && r.one_in(3) { format!("#{}", tail(r)) } else { frag };
    if r.one_in(12) {
        let at = r.idx(segs.len());
        if !segs[at].is_empty() {
            segs[at] = r.pick(&["b:c", "xy:", "12:30.js", "ab:", ":", "host:", "p0:p"]).to_string();
        }
    }
    let mut x = Raw { kind, segs, query, frag };
    keep_kind(&mut x);
    x
}

/// Without a slash in front, which a source root takes from a source, a path from the
/// root must not turn into a URL either.
fn keep_kind(x: &mut Raw) {
    if would_change(&x.kind, &x.segs) || would_change(&Kind::PathRel, &x.segs) && x.kind == Kind::PathAbs {
        x.segs.insert(0, ".".to_string());
    }
}

/// Files' URLs do not keep all repeated slashes.
fn single_slashes(x: &mut Raw) {
    let n = x.segs.len();
    let mut i = 0;
    x.segs.retain(|s| {
        i += 1;
        i == n || !s.is_empty()
    });
}

fn is_file(x: &Raw) -> bool {
    x.kind == Kind::Abs("file://".into())
}

/// What has no defined reading as a reference here: a path starting with "//" once
/// dot segments are gone does not occur, since no segment but the last is empty.
fn url_case(cx: &mut Cx) -> (Option<Raw>, Vec<Raw>, Option<Raw>) {
    let odd = cx.rng.one_in(4);
    let r = &mut cx.rng;
    let root = if r.chance(60) { Some(raw(r, odd, r.clone().one_in(6))) } else { None };
    let url = if r.chance(60) { Some(raw(r, odd, r.clone().one_in(6))) } else { None };
    let n = r.range(1, 6);
    let mut sources: Vec<Raw> = (0..n).map(|_| raw(r, odd, true)).collect();
    let mut root = root;
    // A file URL has no port.
    if [&root, &url].iter().any(|x| x.as_ref().map_or(false, |x| x.kind == Kind::Abs("file://".into()))) {
        for x in sources.iter_mut().chain(root.iter_mut()) {
            if x.kind == Kind::Scheme("h.io:8443".into()) {
                x.kind = Kind::Scheme("h.io".into());
            }
        }
    }
    let mut url = url;
    if sources.iter().chain(&root).chain(&url).any(is_file) {
        for x in sources.iter_mut().chain(&mut root).chain(&mut url) {
            single_slashes(x);
        }
    }
    (root, sources, url)
}

/// References that nothing is resolved against: URLs without a slash after the scheme,
/// and what looks like a URL but is none.
fn standalone(r: &mut Rng) -> (String, String) {
    let rest = |r: &mut Rng| -> String {
        let n = r.range(1, 8);
        let mut s: String = (0..n).map(|_| *r.pick(&["a", "B", "text", ",", ";", "./", "../", "/", "x.js", "%20", "=", "1", "-", "src/", "base64,", "@", "!", "\\"])).collect();
        while s.starts_with('/') {
            s.remove(0);
        }
        if s.is_empty() { "a.js".to_string() } else { s }
    };
    let end = r.pick(&["", "", "", "?q", "#f", "?a#b", "?../x"]).to_string();
    if r.chance(75) {
        let scheme = r.pick(&["data", "webpack", "node", "blob", "mailto", "c", "Z", "about", "webpack-internal", "p0", "host", "DATA", "x+y", "p"]).to_string();
        let rest = rest(r);
        (format!("{}:{}{}", scheme, rest, end), format!("{}:{}{}", scheme.to_ascii_lowercase(), rest, end))
    } else {
        let bad = r.pick(&["webpack://[name]/", "http://[x]/", "http://h:99999/", "http://a b/", "https://h:x/", "http://h.io:1:2/", "//[x]/", "//h:99999/"]).to_string();
        let s = format!("{}{}{}", bad, rest(r), end);
        (s.clone(), s)
    }
}

fn c16_standalone(cx: &mut Cx) -> Out {
    let (root, _, url) = url_case(cx);
    let (rt, ut) = (root.as_ref().map(|r| r.text()), url.as_ref().map(|u| u.text()));
    let mut all: Vec<(String, String)> = vec![];
    for _ in 0..cx.rng.range(1, 5) {
        let x = standalone(&mut cx.rng);
        if !all.iter().any(|a| a.0 == x.0) {
            all.push(x);
        }
    }
    for (s, w) in &all {
        let got = util::compute_source_url(rt.as_deref(), s, ut.as_deref());
        tr!(cx, "compute_source_url({:?}, {:?}, {:?}) = {:?}", rt, s, ut, got);
        ensure!(got == *w, "compute_source_url({:?}, {:?}, {:?}) = {:?}, expected {:?}", rt, s, ut, got, w);
        cx.count("sources nothing is resolved against", 1);
        cx.sig((&rt, s, &ut));
    }
    let (given, want): (Vec<String>, Vec<String>) = all.into_iter().unzip();
    let m = GMap { sources: given, names: Some(vec![]), contents: None, root: rt.clone(), file: None, segs: vec![], text: String::new() };
    let json = m.json(&mut cx.rng);
    tr!(cx, "map: {} url {:?}", json, ut);
    let got = basic(cx.rng.below(WAYS), &json, ut.as_deref()).get_sources();
    ensure!(got == want, "root {:?}, url {:?}: sources {:?} are reported as {:?}, expected {:?}", rt, ut, m.sources, got, want);
    cx.count("reported lists compared", 1);
    Ok(())
}

pub fn c16(cx: &mut Cx) -> Out {
    if cx.rng.one_in(10) {
        return c16_standalone(cx);
    }
    let (root, sources, url) = url_case(cx);
    let (rt, ut) = (root.as_ref().map(|r| r.text()), url.as_ref().map(|u| u.text()));
    let want: Vec<String> = sources.iter().map(|s| model_source_url(root.as_ref(), s, url.as_ref()).text()).collect();
    for (s, w) in sources.iter().zip(&want) {
        let got = util::compute_source_url(rt.as_deref(), &s.text(), ut.as_deref());
        tr!(cx, "compute_source_url({:?}, {:?}, {:?}) = {:?}", rt, s.text(), ut, got);
        ensure!(got == *w, "compute_source_url({:?}, {:?}, {:?}) = {:?}, expected {:?}", rt, s.text(), ut, got, w);
        if let (Some(r), true) = (&root, cx.rng.one_in(2)) {
            let got = util::join(&r.text(), &s.text());
            let mut base = r.norm();
            if s.segs != [""] {
                // A path that is written drops the query, even if it comes to nothing.
                base.query = String::new();
            }
            let w = model_join(&base, &s.norm()).text();
            tr!(cx, "join({:?}, {:?}) = {:?}", r.text(), s.text(), got);
            ensure!(got == w, "join({:?}, {:?}) = {:?}, expected {:?}", r.text(), s.text(), got, w);
            cx.count("joins compared", 1);
        }
        cx.count(
            match s.kind {
                Kind::Abs(_) => "absolute sources",
                Kind::Scheme(_) => "scheme-relative sources",
                Kind::PathAbs => "path-absolute sources",
                Kind::PathRel => "relative sources",
            },
            1,
        );
        cx.sig((&rt, s, &ut));
    }
    if cx.rng.one_in(2) {
        let m = GMap {
            sources: sources.iter().map(|s| s.text()).collect(),
            names: Some(vec![]),
            contents: None,
            root: rt.clone(),
            file: None,
            segs: vec![],
            text: String::new(),
        };
        let json = m.json(&mut cx.rng);
        let got = if cx.rng.one_in(5) {
            let doc = format!("{{\"version\":3,\"sections\":[{{\"offset\":{{\"line\":0,\"column\":0}},\"map\":{}}}]}}", json);
            tr!(cx, "indexed map: {} url {:?}", doc, ut);
            indexed(cx.rng.below(WAYS), &doc, ut.as_deref()).get_sources()
        } else {
            tr!(cx, "map: {} url {:?}", json, ut);
            basic(cx.rng.below(WAYS), &json, ut.as_deref()).get_sources()
        };
        ensure!(got == want, "root {:?}, url {:?}: sources {:?} are reported as {:?}, expected {:?}", rt, ut, m.sources, got, want);
        cx.count("reported lists compared", 1);
    }
    if cx.rng.one_in(3) {
        // The same sources by way of a generator.
        let file = if cx.rng.one_in(3) { Some("out.js".to_string()) } else { None };
        let mut g = SourceMapGenerator::new(file, rt.clone(), false);
        let mut given: Vec<String> = vec![];
        let mut expect: Vec<String> = vec![];
        for (i, (s, w)) in sources.iter().zip(&want).enumerate() {
            let t = s.text();
            if given.contains(&t) {
                continue;
            }
            g.add_mapping(Mapping {
                generated: Position { line: 1, column: i as i32 },
                original: Some(Position { line: 1, column: 0 }),
                source: Some(t.clone()),
                name: None,
                last_generated_column: None,
            });
            given.push(t);
            expect.push(w.clone());
        }
        let got = BasicConsumer::from_source_map(&mut g, ut.as_deref()).get_sources();
        tr!(cx, "from a generator of {:?}, root {:?}, url {:?}: {:?}", given, rt, ut, got);
        ensure!(got == expect, "by way of a generator, root {:?}, url {:?}: sources {:?} are reported as {:?}, expected {:?}", rt, ut, given, got, expect);
        cx.count("reported lists compared", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn respell(r: &mut Rng, n: &Raw) -> Raw {
    let mut x = n.clone();
    if x.kind == Kind::PathRel && x.segs.len() == 1 && x.segs[0].is_empty() {
        return x;
    }
    for _ in 0..r.range(1, 3) {
        let at = r.idx(x.segs.len());
        if r.chance(50) {
            x.segs.insert(at, ".".into());
        } else {
            x.segs.insert(at, "..".into());
            x.segs.insert(at, r.pick(&["zz", "a", "p0"]).to_string());
        }
    }
    x
}

/// The same reference with a segment that begins with a letter of the other case.
fn other_case(r: &mut Rng, mut x: Raw) -> Raw {
    let i = r.idx(x.segs.len());
    let s = &mut x.segs[i];
    if s.starts_with(|c: char| c.is_ascii_alphabetic()) {
        let c = s.as_bytes()[0] as char;
        let c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        s.replace_range(..1, &c.to_string());
    }
    x
}

pub fn c17(cx: &mut Cx) -> Out {
    let odd = cx.rng.one_in(8);
    let (root, mut sources, url) = url_case(cx);
    if !odd {
        let r = &mut cx.rng;
        for s in &mut sources {
            // Distinct file names make most references distinct.
            if r.chance(70) {
                let k = s.segs.len() - 1;
                s.segs[k] = format!("f{}.js", r.below(4));
            }
        }
        // Listed with the root in front already.
        if let (Some(b), true) = (&root, r.one_in(4)) {
            let s = r.idx(sources.len());
            let x = &mut sources[s];
            if x.kind == Kind::PathRel && b.kind == Kind::PathRel {
                let mut segs = b.segs.clone();
                segs.retain(|s| !s.is_empty());
                segs.append(&mut x.segs);
                x.segs = segs;
                keep_kind(x);
            }
        }
        if sources.len() > 1 && r.one_in(3) {
            let a = r.pick(&sources).clone();
            sources.push(a.clone());
            sources.push(respell(r, &a));
        }
        if r.one_in(3) {
            let a = r.pick(&sources).clone();
            let at = r.idx(sources.len() + 1);
            sources.insert(at, other_case(r, a));
        }
    }
    let n = sources.len();
    let norms: Vec<Norm> = sources.iter().map(|s| model_source_url(root.as_ref(), s, url.as_ref())).collect();
    let reported: Vec<String> = norms.iter().map(|s| s.text()).collect();
    let segs: Vec<Seg> = (0..n)
        .map(|i| Seg { gl: 0, gc: 3 * i as u32, o: Some(Orig { src: i as u32, line: 7, col: 4, name: None }) })
        .collect();
    let rt = root.as_ref().map(|r| r.text());
    let ut = url.as_ref().map(|u| u.text());
    let m = GMap {
        sources: sources.iter().map(|s| s.text()).collect(),
        names: Some(vec![]),
        contents: Some((0..n).map(|i| Some(format!("content {}", i))).collect()),
        root: rt.clone(),
        file: None,
        text: encode(&segs),
        segs,
    };
    let json = m.json(&mut cx.rng);
    tr!(cx, "map: {}", json);
    tr!(cx, "url {:?}", ut);
    let mut c = basic(cx.rng.below(WAYS), &json, ut.as_deref());
    let find = |s: &str| reported.iter().position(|r| r == s);
    let denotes = |name: &Raw| {
        find(&name.text())
            .or_else(|| find(&model_source_url(None, name, url.as_ref()).text()))
            .or_else(|| find(&model_source_url(root.as_ref(), name, url.as_ref()).text()))
    };
    let dir = url.as_ref().map(|u| u.norm().trim_file().raw());
    let mut names: Vec<(Raw, &'static str)> = vec![];
    for (s, nm) in sources.iter().zip(&norms) {
        names.push((nm.raw(), "as reported"));
        names.push((s.clone(), "as listed"));
        names.push((respell(&mut cx.rng, s), "listed, respelled"));
        names.push((respell(&mut cx.rng, &nm.raw()), "reported, respelled"));
        // Relative to the map, and relative to the root.
        for (base, what) in [(&dir, "map-relative"), (&root, "root-relative")] {
            if let Some(b) = base {
                let (bn, b) = (b.norm(), b);
                if bn.kind == nm.kind && !b.text().is_empty() {
                    let t = model_relative(&bn.clone().ensure_dir().raw(), &nm.raw()).unwrap_or_default();
                    if !t.contains('?') && !t.contains('#') && !t.is_empty() && nm.query.is_empty() && nm.frag.is_empty() {
                        let segs = t.split('/').map(|s| s.to_string()).collect();
                        names.push((Raw { kind: Kind::PathRel, segs, query: String::new(), frag: String::new() }, what));
                    }
                }
            }
        }
    }
    for _ in 0..3 {
        names.push((raw(&mut cx.rng, odd, true), "any"));
    }
    // Parts of the names above, and more around them.
    for _ in 0..cx.rng.below(5) {
        let r = &mut cx.rng;
        let mut x = r.pick(&names).0.clone();
        match r.below(5) {
            0 | 1 => {
                x.kind = Kind::PathRel;
                let at = r.idx(x.segs.len());
                x.segs.drain(..at);
            }
            4 => x = other_case(r, x),
            2 => {
                let base = if r.chance(50) { &root } else { &url };
                if let Some(b) = base {
                    let mut segs = b.segs.clone();
                    segs.retain(|s| !s.is_empty());
                    segs.append(&mut x.segs);
                    x.segs = segs;
                    x.kind = b.kind.clone();
                }
            }
            _ => {
                x.query.clear();
                x.frag.clear();
            }
        }
        keep_kind(&mut x);
        names.push((x, "any"));
    }
    let many = cx.rng.one_in(8);
    if many {
        for i in 0..cx.rng.range(10, 60) {
            let mut n = raw(&mut cx.rng, false, false);
            n.segs.push(format!("g{}.js", i));
            names.push((n, "any"));
        }
    }
    if names.iter().any(|n| is_file(&n.0)) || root.iter().chain(&url).any(is_file) {
        for (x, _) in &mut names {
            single_slashes(x);
            keep_kind(x);
        }
    }
    let rounds = if many { cx.rng.range(20, 120) } else { cx.rng.range(4, 20) };
    let mut asked = vec![];
    for _ in 0..rounds {
        let (name, what) = cx.rng.pick(&names).clone();
        let text = name.text();
        let want = denotes(&name);
        match cx.rng.below(3) {
            0 => {
                let strict = cx.rng.one_in(3);
                let opt = if !strict {
                    Some(false)
                } else if cx.rng.chance(50) {
                    Some(true)
                } else {
                    None
                };
                let w = want.map(|i| format!("content {}", i));
                let got = match refused(|| c.source_content_for(&text, opt)) {
                    Ok(v) => {
                        ensure!(!strict || w.is_some(), "source_content_for({:?}, {:?}) gives {:?} for a name of no source; sources {:?}", text, opt, v, reported);
                        v
                    }
                    Err(e) => {
                        ensure!(strict, "source_content_for({:?}, {:?}) panics: {}", text, opt, e.show());
                        None
                    }
                };
                tr!(cx, "source_content_for({:?} ({}), {:?}) = {:?}", text, what, opt, got);
                ensure!(got == w, "source_content_for({:?}, {}) = {:?}, expected {:?}; sources {:?}", text, what, got, w, reported);
            }
            1 => {
                let got = c.generated_position_for(&text, 8, 4, None).map(|m| GM::of(&m));
                tr!(cx, "generated_position_for({:?} ({})) = {:?}", text, what, got);
                let w = want.map(|i| GM { g: (1, 3 * i as i32), o: Some((8, 4)), src: Some(reported[i].clone()), name: None });
                ensure!(got == w, "generated_position_for({:?}, {}) = {:?}, expected {:?}", text, what, got, w);
            }
            _ => {
                let got: Vec<u32> = c.all_generated_position_for(&text, 8, None).iter().map(|m| m.generated_column).collect();
                tr!(cx, "all_generated_position_for({:?} ({})) = columns {:?}", text, what, got);
                let w: Vec<u32> = want.map(|i| 3 * i as u32).into_iter().collect();
                ensure!(got == w, "all_generated_position_for({:?}, {}) = columns {:?}, expected {:?}", text, what, got, w);
            }
        }
        if want.is_some() {
            cx.count(
                match what {
                    "as reported" => "found as reported",
                    "as listed" => "found as listed",
                    "map-relative" => "found map-relative",
                    "root-relative" => "found root-relative",
                    "any" => "found by chance",
                    _ => "found respelled",
                },
                1,
            );
        } else {
            cx.count("names of no source", 1);
        }
        asked.push(text);
    }
    cx.sig((&rt, &ut, &sources, asked));
    Ok(())
}

// ---------------------------------------------------------------- C31

fn pair(r: &mut Rng, odd: bool) -> (Raw, Raw) {
    let root = raw(r, odd, false);
    let mut target = raw(r, odd, true);
    if r.chance(75) {
        target.kind = root.kind.clone();
        if r.chance(60) {
            // Share a prefix of the root.
            let k = r.idx(root.segs.len() + 1);
            let mut segs: Vec<String> = root.segs[..k].to_vec();
            segs.extend(target.segs.iter().cloned());
            segs.retain(|s| !s.is_empty());
            if segs.is_empty() || r.one_in(5) {
                segs.push(String::new());
            }
            if !(target.kind == Kind::PathRel && segs[0].is_empty() && segs.len() > 1) {
                target.segs = segs;
            }
        }
    }
    let mut root = root;
    if is_file(&root) || is_file(&target) {
        single_slashes(&mut root);
        single_slashes(&mut target);
    }
    keep_kind(&mut target);
    (root, target)
}

pub fn url_pair(r: &mut Rng) -> (String, String) {
    let odd = r.one_in(4);
    let (root, target) = pair(r, odd);
    (root.text(), target.text())
}

pub fn c31(cx: &mut Cx) -> Out {
    let odd = cx.rng.one_in(4);
    for _ in 0..4 {
        let (root, target) = pair(&mut cx.rng, odd);
        let (rt, tt) = (root.text(), target.text());
        let got = util::relative(rt.clone(), tt.clone());
        let want = match model_relative(&root, &target) {
            Some(w) => w,
            None => {
                cx.count("targets no reference leads to", 1);
                continue;
            }
        };
        tr!(cx, "relative({:?}, {:?}) = {:?}", rt, tt, got);
        ensure!(got == want, "relative({:?}, {:?}) = {:?}, expected {:?}", rt, tt, got, want);
        // And back, by the code itself.
        let back = util::join(&rt, &got);
        let norm = target.norm();
        let same_kind = root.norm().kind == norm.kind;
        if same_kind {
            tr!(cx, "join({:?}, {:?}) = {:?}", rt, got, back);
            // The target is the root or above it, and slashes may be repeated.
            let tail = format!("{}{}", norm.query, norm.frag);
            let at = |s: &str| s.strip_suffix(tail.as_str()).unwrap_or(s).to_string();
            let bare = |s: &str| match at(s).trim_end_matches('/') {
                "." | "/." => String::new(),
                s => s.to_string(),
            };
            let above = at(&got).is_empty() || at(&got).split('/').all(|s| s == "..");
            let mut slashed = norm.clone().ensure_dir();
            if norm.query.is_empty() {
                slashed.query = String::new();
            }
            ensure!(
                back == norm.text()
                    || back == slashed.text()
                    || above && bare(&back) == bare(&norm.text()),
                "join({:?}, {:?}) leads to {:?} and not back to {:?}", rt, got, back, norm.text()
            );
            cx.count("relative references followed back", 1);
        } else {
            cx.count("targets of another kind or host", 1);
        }
        cx.sig((&rt, &tt));
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

/// JSON that keeps repeated members apart.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Null,
    Bool,
    Int(i128),
    Float(f64),
    Str(String),
    Arr(Vec<Tree>),
    Obj(Vec<(String, Tree)>),
}

impl<'de> Deserialize<'de> for Tree {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tree, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Tree;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("JSON")
            }
            fn visit_unit<E>(self) -> Result<Tree, E> {
                Ok(Tree::Null)
            }
            fn visit_bool<E>(self, _: bool) -> Result<Tree, E> {
                Ok(Tree::Bool)
            }
            fn visit_i64<E>(self, v: i64) -> Result<Tree, E> {
                Ok(Tree::Int(v as i128))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Tree, E> {
                Ok(Tree::Int(v as i128))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Tree, E> {
                Ok(Tree::Float(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Tree, E> {
                Ok(Tree::Str(v.to_string()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Tree::Arr(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(Tree::Obj(v))
            }
        }
        d.deserialize_any(V)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Basic,
    Indexed,
    Refuse(&'static str),
    /// Readings of the format differ; only the absence of a panic is checked.
    Open(&'static str),
}

const KNOWN: &[&str] = &["version", "sources", "names", "mappings", "file", "sourceRoot", "sourcesContent", "sections"];

impl Tree {
    pub fn get(&self, key: &str) -> Option<&Tree> {
        match self {
            Tree::Obj(m) => m.iter().find(|(k, _)| k == key).map(|(_, v)| v).filter(|v| **v != Tree::Null),
            _ => None,
        }
    }
    fn has_dups(&self, known: &[&str]) -> bool {
        match self {
            Tree::Obj(m) => known.iter().any(|k| m.iter().filter(|(n, _)| n == k).count() > 1),
            _ => false,
        }
    }
    fn strings(&self, nulls: bool) -> Option<Vec<Option<String>>> {
        match self {
            Tree::Arr(v) => v
                .iter()
                .map(|x| match x {
                    Tree::Str(s) => Some(Some(s.clone())),
                    Tree::Null if nulls => Some(None),
                    _ => None,
                })
                .collect(),
            _ => None,
        }
    }
}

/// Is this object a document by the types of its fields? `Err` says why it is not.
fn typed(t: &Tree, depth: u32) -> Result<(), Verdict> {
    use Verdict::*;
    match t {
        Tree::Obj(_) => {}
        Tree::Arr(_) => return Err(Open("array for an object")),
        _ => return Err(Refuse("not an object")),
    }
    // An open point decides only if nothing else makes the document unusable, so
    // look for definite faults first.
    let mut open = None;
    if t.has_dups(KNOWN) {
        open = Some(Open("repeated member"));
    }
    if open.is_some() {
        return Err(open.unwrap());
    }
    match t.get("version") {
        Some(Tree::Int(v)) if i32::try_from(*v).is_ok() => {}
        Some(Tree::Float(v)) if *v == 3.0 || *v == 0.0 => return Err(Open("version written as a fraction")),
        _ => return Err(Refuse("version")),
    }
    for k in ["sources", "names"] {
        if let Some(x) = t.get(k) {
            x.strings(false).ok_or(Refuse("list of strings"))?;
        }
    }
    if let Some(x) = t.get("sourcesContent") {
        x.strings(true).ok_or(Refuse("sourcesContent"))?;
    }
    for k in ["mappings", "file", "sourceRoot"] {
        if !matches!(t.get(k), None | Some(Tree::Str(_))) {
            return Err(Refuse("text field"));
        }
    }
    match t.get("sections") {
        None => {}
        Some(Tree::Arr(v)) => {
            if depth > 0 {
                open = Some(Open("sections within a section"));
            }
            for s in v {
                match s {
                    Tree::Obj(_) => {}
                    Tree::Arr(_) => {
                        open = Some(Open("array for an object"));
                        continue;
                    }
                    _ => return Err(Refuse("section is no object")),
                }
                if s.has_dups(&["offset", "map", "url"]) {
                    open = Some(Open("repeated member"));
                    continue;
                }
                match s.get("offset") {
                    Some(o @ Tree::Obj(_)) => {
                        if o.has_dups(&["line", "column"]) {
                            open = Some(Open("repeated member"));
                            continue;
                        }
                        for k in ["line", "column"] {
                            match o.get(k) {
                                Some(Tree::Int(v)) if i32::try_from(*v).is_ok() => {}
                                Some(Tree::Float(v)) if v.fract() == 0.0 => open = Some(Open("offset written as a fraction")),
                                _ => return Err(Refuse("offset")),
                            }
                        }
                    }
                    Some(Tree::Arr(_)) => open = Some(Open("array for an object")),
                    _ => return Err(Refuse("offset")),
                }
                if !matches!(s.get("url"), None | Some(Tree::Str(_))) {
                    return Err(Refuse("section url"));
                }
                match s.get("map") {
                    Some(m) => match typed(m, depth + 1) {
                        Err(Open(w)) => open = Some(Open(w)),
                        r => r?,
                    },
                    None => return Err(Refuse("section without map")),
                }
            }
        }
        Some(_) => return Err(Refuse("sections")),
    }
    match open {
        Some(o) => Err(o),
        None => Ok(()),
    }
}

fn complete(t: &Tree) -> Result<(), Verdict> {
    if t.get("version") != Some(&Tree::Int(3)) {
        return Err(Verdict::Refuse("version"));
    }
    if t.get("sources").is_none() || t.get("mappings").is_none() {
        return Err(Verdict::Refuse("sources or mappings missing"));
    }
    Ok(())
}

pub fn judge(t: &Tree) -> Verdict {
    fn go(t: &Tree) -> Result<Verdict, Verdict> {
        typed(t, 0)?;
        let sections = match t.get("sections") {
            Some(Tree::Arr(v)) => v,
            _ => {
                complete(t)?;
                return Ok(Verdict::Basic);
            }
        };
        if t.get("version") != Some(&Tree::Int(3)) {
            return Err(Verdict::Refuse("version"));
        }
        let mut last = (0, 0);
        let mut edge = false;
        for s in sections {
            if s.get("url").is_some() {
                return Err(Verdict::Refuse("section with url"));
            }
            let o = s.get("offset").unwrap();
            let n = |k| match o.get(k) {
                Some(Tree::Int(v)) => *v,
                _ => 0,
            };
            let at = (n("line"), n("column"));
            if at.0 < 0 || at.1 < 0 {
                return Err(Verdict::Refuse("negative offset"));
            }
            if at < last {
                return Err(Verdict::Refuse("unordered sections"));
            }
            edge |= at.0 == i32::MAX as i128 || at.1 == i32::MAX as i128;
            last = at;
            complete(s.get("map").unwrap())?;
        }
        Ok(if edge { Verdict::Open("offset at the end of the range") } else { Verdict::Indexed })
    }
    match go(t) {
        Ok(v) | Err(v) => v,
    }
}

/// Compares a document the library exposes with the text's own fields.
pub fn same_fields(doc: &SourceMapJson, t: &Tree, at: &str) -> Out {
    let text = |k: &str| match t.get(k) {
        Some(Tree::Str(s)) => Some(s.clone()),
        _ => None,
    };
    let list = |k: &str| t.get(k).and_then(|x| x.strings(true));
    let some = |v: &Option<Vec<String>>| v.as_ref().map(|v| v.iter().cloned().map(Some).collect::<Vec<_>>());
    ensure!(t.get("version") == Some(&Tree::Int(doc.version as i128)), "{}version is {}", at, doc.version);
    for (k, got) in [("mappings", &doc.mappings), ("file", &doc.file), ("sourceRoot", &doc.source_root)] {
        ensure!(*got == text(k), "{}{} is {:?}, the text has {:?}", at, k, got, text(k));
    }
    for (k, got) in [("sources", some(&doc.sources)), ("names", some(&doc.names)), ("sourcesContent", doc.sources_content.clone())] {
        ensure!(got == list(k), "{}{} is {:?}, the text has {:?}", at, k, got, list(k));
    }
    match (&doc.sections, t.get("sections")) {
        (None, None) => {}
        (Some(a), Some(Tree::Arr(b))) => {
            ensure!(a.len() == b.len(), "{}{} sections, the text has {}", at, a.len(), b.len());
            for (i, (a, b)) in a.iter().zip(b).enumerate() {
                let at = format!("{}section {}: ", at, i);
                let o = b.get("offset").ok_or("no offset")?;
                ensure!(
                    o.get("line") == Some(&Tree::Int(a.offset.line as i128)) && o.get("column") == Some(&Tree::Int(a.offset.column as i128)),
                    "{}offset is {:?}, the text has {:?}", at, a.offset, o
                );
                let url = match b.get("url") {
                    Some(Tree::Str(s)) => Some(s.clone()),
                    _ => None,
                };
                ensure!(a.url == url, "{}url is {:?}, the text has {:?}", at, a.url, url);
                same_fields(&a.map, b.get("map").ok_or("no map")?, &at)?;
            }
        }
        (a, b) => return Err(format!("{}sections present: {}, in the text: {}", at, a.is_some(), b.is_some())),
    }
    Ok(())
}

fn odd_value(r: &mut Rng) -> String {
    match r.below(16) {
        0 => "null".into(),
        1 => "true".into(),
        2 => "3".into(),
        3 => "-1".into(),
        4 => "2".into(),
        5 => "\"3\"".into(),
        6 => "3.5".into(),
        7 => "[]".into(),
        8 => "{}".into(),
        9 => "\"\"".into(),
        10 => "[\"a\",null]".into(),
        11 => "[null]".into(),
        12 => "[1]".into(),
        13 => "2147483648".into(),
        14 => "4294967299".into(),
        _ => "\"text\"".into(),
    }
}

fn any_map(r: &mut Rng, depth: u32, p_odd: u64) -> String {
    let mut m: Vec<(&'static str, String)> = vec![];
    let put = |r: &mut Rng, k: &'static str, present: u64, v: String, m: &mut Vec<(&'static str, String)>| {
        if r.chance(present) {
            let v = if r.chance(p_odd) { odd_value(r) } else { v };
            m.push((k, v));
        }
    };
    let full = r.chance(70);
    let often = if full { 98 } else { 75 };
    let version = if r.one_in(40) { r.pick(&["259", "65539", "-3", "30", "33", "2", "4", "1", "0", "16777219", "-253", "-65533", "2147483647"]).to_string() } else { "3".to_string() };
    put(r, "version", often, version, &mut m);
    let n = r.below(4);
    let src: Vec<String> = (0..n)
        .map(|i| {
            let s = if r.one_in(3) { unicode(r, 8) } else { format!("f{}.js", i) };
            json_string(r, &s)
        })
        .collect();
    put(r, "sources", often, json_array(src), &mut m);
    let s = unicode(r, 5);
    let v = json_array(vec![json_string(r, &s)]);
    put(r, "names", 60, v, &mut m);
    let t = r.pick(&["", "AAAA", "AAAAA,CAAC;AACA", "garbage!", ";;;"]).to_string();
    let v = json_string(r, &t);
    put(r, "mappings", often, v, &mut m);
    let s = unicode(r, 5);
    let v = json_string(r, &s);
    put(r, "file", 40, v, &mut m);
    let s = if r.chance(50) { r.pick(ROOTS).to_string() } else { unicode(r, 6) };
    let v = json_string(r, &s);
    put(r, "sourceRoot", 40, v, &mut m);
    let s = unicode(r, 5);
    let v = json_array(vec![json_string(r, &s), "null".to_string()]);
    put(r, "sourcesContent", 40, v, &mut m);
    let nest = if depth == 0 { 35 } else { 3 };
    if r.chance(nest) {
        let k = r.below(4);
        let (mut line, mut col) = (0i64, 0i64);
        let mut secs = vec![];
        for _ in 0..k {
            match r.below(4) {
                0 => col += r.range(0, 9),
                1 => {
                    line += r.range(1, 9);
                    col = r.range(0, 9)
                }
                2 => line += if r.chance(50) { 1 } else { natural(r, MAX) },
                _ => col = natural(r, MAX),
            }
            let (mut l, mut c) = (line.min(MAX), col.min(MAX));
            // The last numbers there are.
            if r.one_in(30) {
                l = MAX - r.range(-1, 2);
            }
            if r.one_in(30) {
                c = MAX - r.range(-1, 2);
            }
            if r.chance(p_odd) {
                match r.below(3) {
                    0 => l = -r.range(1, 3),
                    1 => c = -r.range(1, 3),
                    _ => l = 0,
                }
            }
            let mut off = vec![("line", l.to_string()), ("column", c.to_string())];
            if r.chance(p_odd / 3) {
                off.remove(r.idx(2));
            }
            unknown_members(r, &mut off);
            let mut sec = vec![("map", any_map(r, depth + 1, p_odd / 2)), ("offset", json_object(r, off))];
            if r.chance(p_odd / 2) {
                let at = r.idx(2);
                if r.chance(50) {
                    sec.remove(at);
                } else {
                    sec[at].1 = odd_value(r);
                }
            }
            if r.chance(if p_odd == 0 { 6 } else { p_odd }) {
                sec.push(("url", if r.chance(50) { "\"u.map\"".into() } else { odd_value(r) }));
            }
            unknown_members(r, &mut sec);
            secs.push(json_object(r, sec));
        }
        m.push(("sections", if r.chance(p_odd / 2) { odd_value(r) } else { json_array(secs) }));
    }
    unknown_members(r, &mut m);
    json_object(r, m)
}

fn mutate(r: &mut Rng, text: &str) -> String {
    let mut chars: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = chars.len();
        if n == 0 {
            break;
        }
        let at = r.idx(n);
        match r.below(8) {
            0 => {
                chars.remove(at);
            }
            1 => chars.insert(at, *r.pick(&['"', '{', '}', '[', ']', ',', ':', '0', '-', '\\', ' ', 'n', '\u{0}', '\u{feff}', 'e', '.'])),
            2 => chars.truncate(at),
            3 => {
                let to = (at + r.idx(20)).min(n);
                chars.drain(at..to);
            }
            4 => {
                let to = (at + r.idx(20)).min(n);
                let part: Vec<char> = chars[at..to].to_vec();
                let p = r.idx(chars.len());
                chars.splice(p..p, part);
            }
            5 => chars[at] = char::from_u32(r.below(128) as u32).unwrap(),
            6 => {
                // Swap a digit.
                if let Some(p) = chars.iter().position(|c| c.is_ascii_digit()) {
                    chars[p] = (b'0' + r.below(10) as u8) as char;
                }
            }
            _ => chars.splice(0..0, r.pick(&[")]}'\n", "\u{feff}", " ", "\n\n", ")]}"]).chars()).for_each(drop),
        }
    }
    chars.into_iter().collect()
}

pub fn any_document(cx: &mut Cx) -> String {
    match cx.rng.below(10) {
        0 => unicode(&mut cx.rng, 60),
        1 => {
            let mut sh = shape(cx);
            sh.max_segs = sh.max_segs.min(60);
            let m = gmap(cx, &sh);
            m.json(&mut cx.rng)
        }
        2..=4 => any_map(&mut cx.rng, 0, 0),
        5 | 6 => any_map(&mut cx.rng, 0, 8),
        _ => {
            let t = any_map(&mut cx.rng, 0, 4);
            mutate(&mut cx.rng, &t)
        }
    }
}

/// Where two readers of JSON may differ for reasons of their own.
fn reader_dependent(text: &str) -> bool {
    text.contains("\\u") && text.to_ascii_lowercase().contains("\\ud") || text.contains('e') && serde_json::from_str::<Tree>(text).is_err() && text.contains("e9")
}

pub fn c20(cx: &mut Cx) -> Out {
    let text = any_document(cx);
    let url = match cx.rng.below(4) {
        0 => Some(unicode(&mut cx.rng, 8)),
        1 => Some(cx.rng.pick(URLS).to_string()),
        _ => None,
    };
    tr!(cx, "text: {:?}", text);
    tr!(cx, "url: {:?}", url);
    let tree = serde_json::from_str::<Tree>(&text);
    let verdict = match &tree {
        Ok(t) => judge(t),
        Err(e) => {
            let e = e.to_string();
            if e.contains("recursion") || e.contains("number out of range") || reader_dependent(&text) {
                Verdict::Open("reader dependent")
            } else {
                Verdict::Refuse("not JSON")
            }
        }
    };
    let got = create_consumer(&text, url.as_deref());
    let kind = match &got {
        Ok(Consumer::BasicConsumer(_)) => "basic",
        Ok(Consumer::IndexedConsumer(_)) => "indexed",
        Err(_) => "refused",
    };
    tr!(cx, "create_consumer: {} (expected {:?})", kind, verdict);
    let want = match &verdict {
        Verdict::Basic => "basic",
        Verdict::Indexed => "indexed",
        Verdict::Refuse(_) => "refused",
        Verdict::Open(_) => kind,
    };
    if kind != want {
        let why = got.err().map(|e| e.to_string()).unwrap_or_default();
        return Err(format!("create_consumer on {:?} is {} ({}), expected {:?}", text, kind, why, verdict));
    }
    // An indexed consumer built directly refuses its own part of that by panicking.
    if let Ok(doc) = serde_json::from_str::<SourceMapJson>(&text) {
        if let (Some(secs), true) = (&doc.sections, cx.rng.one_in(2)) {
            let mut bad = doc.version != 3;
            let mut last = (0, 0);
            for s in secs {
                let at = (s.offset.line, s.offset.column);
                bad |= s.url.is_some() || at.0 < 0 || at.1 < 0 || at.0 == i32::MAX || at.1 == i32::MAX || at < last;
                last = at;
            }
            let good = matches!(verdict, Verdict::Indexed);
            if bad || good {
                let way = 1 + cx.rng.below(WAYS - 1);
                let built = refused(|| drop(indexed(way, &text, url.as_deref()))).is_ok();
                tr!(cx, "built directly in way {}: {}", way, if built { "accepted" } else { "refused" });
                ensure!(built == good, "an indexed consumer built directly in way {} from {:?} is {}", way, text, if built { "accepted" } else { "refused" });
                cx.count(if built { "built directly" } else { "refused directly" }, 1);
            }
        }
    }
    match verdict {
        Verdict::Basic => cx.count("accepted as basic", 1),
        Verdict::Indexed => cx.count("accepted as indexed", 1),
        Verdict::Refuse(w) => cx.count(if w == "not JSON" { "refused as not JSON" } else { "refused as no source map" }, 1),
        Verdict::Open(_) => cx.count("open readings", 1),
    }
    if let (Ok(c), Ok(t), false) = (got, &tree, matches!(verdict, Verdict::Open(_))) {
        let mut c = c;
        let doc = match &c {
            Consumer::BasicConsumer(b) => &b.source_map,
            Consumer::IndexedConsumer(i) => &i.source_map,
        };
        same_fields(doc, t, "")?;
        // The accessors agree with the variant.
        let is_basic = kind == "basic";
        ensure!(
            c.try_as_basic_consumer().is_some() == is_basic
                && c.try_as_indexed_consumer().is_some() != is_basic
                && c.try_as_basic_consumer_mut().is_some() == is_basic
                && c.try_as_indexed_consumer_mut().is_some() != is_basic,
            "the consumer's accessors disagree with its kind {}", kind
        );
        ensure!(refused(|| { c.as_basic_consumer(); }).is_ok() == is_basic, "as_basic_consumer on {}", kind);
        ensure!(refused(|| { c.as_indexed_consumer(); }).is_ok() != is_basic, "as_indexed_consumer on {}", kind);
        ensure!(refused(|| { c.as_basic_consumer_mut(); }).is_ok() == is_basic, "as_basic_consumer_mut on {}", kind);
        ensure!(refused(|| { c.as_indexed_consumer_mut(); }).is_ok() != is_basic, "as_indexed_consumer_mut on {}", kind);
    }
    cx.sig(&text);
    Ok(())
}

// ---------------------------------------------------------------- C34

fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}

/// Null may stand in a contents list, never as the value of a field.
fn no_null_field(v: &Value) -> Result<(), String> {
    match v {
        Value::Object(m) => m.iter().try_for_each(|(k, v)| if v.is_null() { Err(k.clone()) } else { no_null_field(v) }),
        Value::Array(a) => a.iter().try_for_each(no_null_field),
        _ => Ok(()),
    }
}

pub fn c34(cx: &mut Cx) -> Out {
    let text = match cx.rng.below(3) {
        0 => {
            let sh = shape(cx);
            let m = gmap(cx, &sh);
            m.json(&mut cx.rng)
        }
        _ => any_map(&mut cx.rng, 0, 0),
    };
    tr!(cx, "text: {}", text);
    let tree: Tree = serde_json::from_str(&text).map_err(|e| format!("harness made bad JSON: {}", e))?;
    // The document need not be usable, only well typed.
    if typed(&tree, 0).is_err() {
        return Ok(());
    }
    let doc: SourceMapJson = serde_json::from_str(&text).map_err(|e| format!("a well-typed document is refused: {}: {}", e, text))?;
    same_fields(&doc, &tree, "read: ")?;
    let out = serde_json::to_string(&doc).map_err(|e| format!("writing failed: {}", e))?;
    tr!(cx, "written: {}", out);
    let back: Tree = serde_json::from_str(&out).map_err(|e| format!("written text is not JSON: {}: {}", e, out))?;
    same_fields(&doc, &back, "written: ")?;
    let again: SourceMapJson = serde_json::from_str(&out).map_err(|e| format!("written text is refused: {}: {}", e, out))?;
    same_fields(&again, &tree, "read again: ")?;
    let twice = serde_json::to_string(&again).map_err(|e| format!("writing failed: {}", e))?;
    ensure!(twice == out, "writing {} again gives {}", out, twice);
    // Nothing but the given fields (and null) is written.
    let v: Value = serde_json::from_str(&out).map_err(|e| e.to_string())?;
    let orig: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    fn drop_unknown(v: &Value, known: &[&str]) -> Value {
        let mut v = strip(v);
        if let Value::Object(m) = &mut v {
            m.retain(|k, _| known.contains(&k.as_str()));
            if let Some(Value::Array(s)) = m.get_mut("sections") {
                for s in s {
                    *s = drop_unknown(s, &["offset", "map", "url"]);
                    if let Some(map) = s.get_mut("map") {
                        *map = drop_unknown(map, FIELDS);
                    }
                    if let Some(offset) = s.get_mut("offset") {
                        *offset = drop_unknown(offset, &["line", "column"]);
                    }
                }
            }
        }
        v
    }
    const FIELDS: &[&str] = &["version", "sources", "names", "mappings", "file", "sourceRoot", "sourcesContent", "sections"];
    ensure!(strip(&v) == drop_unknown(&orig, FIELDS), "{} is written as {}", text, out);
    no_null_field(&v).map_err(|k| format!("the absent field {} is written as null: {}", k, out))?;
    cx.count("documents written and read", 1);
    cx.sig(&text);
    Ok(())
}
