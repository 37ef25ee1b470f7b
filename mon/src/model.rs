//! Reference model: source map v3 mappings text and brute-force queries over it.
use crate::cx::Rng;

pub const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Orig {
    pub src: u32,
    pub line: u32,
    pub col: u32,
    pub name: Option<u32>,
}

/// A decoded segment; everything 0-based as in the document.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Seg {
    pub gl: u32,
    pub gc: u32,
    pub o: Option<Orig>,
}

pub fn put_vlq(out: &mut String, v: i64) {
    let mut u: u64 = if v < 0 { (((-v) as u64) << 1) | 1 } else { (v as u64) << 1 };
    loop {
        let d = (u & 31) as usize;
        u >>= 5;
        if u == 0 {
            out.push(ALPHABET[d] as char);
            return;
        }
        out.push(ALPHABET[d | 32] as char);
    }
}

pub fn digit(c: u8) -> Option<u32> {
    Some(match c {
        b'A'..=b'Z' => (c - b'A') as u32,
        b'a'..=b'z' => (c - b'a') as u32 + 26,
        b'0'..=b'9' => (c - b'0') as u32 + 52,
        b'+' => 62,
        b'/' => 63,
        _ => return None,
    })
}

/// Reads one number; `None` if the text is not one.
pub fn get_vlq(bytes: &[u8], at: &mut usize) -> Option<i64> {
    let (mut v, mut shift) = (0u128, 0u32);
    loop {
        let d = digit(*bytes.get(*at)?)?;
        *at += 1;
        if shift > 100 {
            return None;
        }
        v |= ((d & 31) as u128) << shift;
        shift += 5;
        if d & 32 == 0 {
            let m = (v >> 1) as i64;
            return Some(if v & 1 == 1 { -m } else { m });
        }
    }
}

/// Encodes segments in the order given; generated lines must not decrease.
pub fn encode(segs: &[Seg]) -> String {
    let mut out = String::new();
    let (mut line, mut col, mut src, mut ol, mut oc, mut nm) = (0u32, 0i64, 0i64, 0i64, 0i64, 0i64);
    let mut first = true;
    for s in segs {
        while line < s.gl {
            out.push(';');
            line += 1;
            col = 0;
            first = true;
        }
        if !first {
            out.push(',');
        }
        first = false;
        put_vlq(&mut out, s.gc as i64 - col);
        col = s.gc as i64;
        if let Some(o) = s.o {
            put_vlq(&mut out, o.src as i64 - src);
            src = o.src as i64;
            put_vlq(&mut out, o.line as i64 - ol);
            ol = o.line as i64;
            put_vlq(&mut out, o.col as i64 - oc);
            oc = o.col as i64;
            if let Some(n) = o.name {
                put_vlq(&mut out, n as i64 - nm);
                nm = n as i64;
            }
        }
    }
    out
}

/// Strict decoder: refuses empty segments, trailing separators, odd field counts
/// and values outside u32.
pub fn decode_strict(text: &str) -> Result<Vec<Seg>, String> {
    let b = text.as_bytes();
    let mut at = 0;
    let mut segs = vec![];
    let (mut gl, mut gc, mut src, mut ol, mut oc, mut nm) = (0u32, 0i64, 0i64, 0i64, 0i64, 0i64);
    if b.is_empty() {
        return Ok(segs);
    }
    if matches!(b[b.len() - 1], b';' | b',') {
        return Err(format!("mappings text ends in a separator: …{:?}", tail(text)));
    }
    let mut need = false;
    loop {
        if b[at] == b';' {
            if need {
                return Err(format!("empty segment at byte {}", at));
            }
            gl += 1;
            gc = 0;
            at += 1;
            continue;
        }
        if b[at] == b',' {
            return Err(format!("empty segment at byte {}", at));
        }
        let mut f = [0i64; 5];
        let mut n = 0;
        while at < b.len() && b[at] != b',' && b[at] != b';' {
            if n == 5 {
                return Err(format!("more than five fields at byte {}", at));
            }
            f[n] = get_vlq(b, &mut at).ok_or_else(|| format!("bad number at byte {}", at))?;
            n += 1;
        }
        gc += f[0];
        let o = match n {
            1 => None,
            4 | 5 => {
                src += f[1];
                ol += f[2];
                oc += f[3];
                if n == 5 {
                    nm += f[4];
                }
                for v in [src, ol, oc, nm] {
                    if !(0..=u32::MAX as i64).contains(&v) {
                        return Err(format!("value {} out of range before byte {}", v, at));
                    }
                }
                Some(Orig {
                    src: src as u32,
                    line: ol as u32,
                    col: oc as u32,
                    name: if n == 5 { Some(nm as u32) } else { None },
                })
            }
            _ => return Err(format!("segment of {} fields before byte {}", n, at)),
        };
        if !(0..=u32::MAX as i64).contains(&gc) {
            return Err(format!("generated column {} before byte {}", gc, at));
        }
        segs.push(Seg { gl, gc: gc as u32, o });
        need = false;
        if at == b.len() {
            return Ok(segs);
        }
        if b[at] == b',' {
            at += 1;
            need = true;
        }
    }
}

pub fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(40)).collect()
}

/// The candidates (all segments at the one nearest position of the line) that may
/// answer a query by generated position; empty if there is none.
pub fn nearest_generated(segs: &[Seg], gl: u32, gc: u32, upper: bool) -> Vec<Seg> {
    let mut best: Option<u32> = None;
    for s in segs {
        if s.gl != gl {
            continue;
        }
        if upper {
            if s.gc >= gc && best.map_or(true, |b| s.gc < b) {
                best = Some(s.gc);
            }
        } else if s.gc <= gc && best.map_or(true, |b| s.gc > b) {
            best = Some(s.gc);
        }
    }
    match best {
        None => vec![],
        Some(c) => segs.iter().filter(|s| s.gl == gl && s.gc == c).cloned().collect(),
    }
}

/// The candidates for a query by original position within one source.
pub fn nearest_original(segs: &[Seg], src: u32, line: u32, col: u32, upper: bool) -> Vec<Seg> {
    let key = (line, col);
    let mut best: Option<(u32, u32)> = None;
    for s in segs {
        let o = match s.o {
            Some(o) if o.src == src => o,
            _ => continue,
        };
        let k = (o.line, o.col);
        if upper {
            if k >= key && best.map_or(true, |b| k < b) {
                best = Some(k);
            }
        } else if k <= key && best.map_or(true, |b| k > b) {
            best = Some(k);
        }
    }
    match best {
        None => vec![],
        Some(k) => segs
            .iter()
            .filter(|s| s.o.map_or(false, |o| o.src == src && (o.line, o.col) == k))
            .cloned()
            .collect(),
    }
}

/// All segments a query for all generated positions returns (as a multiset).
pub fn all_for(segs: &[Seg], src: u32, line: u32, col: Option<u32>) -> Vec<Seg> {
    let of_src: Vec<(Seg, Orig)> = segs
        .iter()
        .filter_map(|s| s.o.filter(|o| o.src == src).map(|o| (*s, o)))
        .collect();
    match col {
        None => match of_src.iter().map(|x| x.1.line).filter(|&l| l >= line).min() {
            None => vec![],
            Some(l) => of_src.iter().filter(|x| x.1.line == l).map(|x| x.0).collect(),
        },
        Some(c) => {
            let on: Vec<_> = of_src.into_iter().filter(|x| x.1.line == line).collect();
            match on.iter().map(|x| x.1.col).filter(|&k| k >= c).min() {
                None => vec![],
                Some(k) => on.iter().filter(|x| x.1.col == k).map(|x| x.0).collect(),
            }
        }
    }
}

pub fn shuffle_within_lines(rng: &mut Rng, segs: &mut [Seg]) {
    let mut i = 0;
    while i < segs.len() {
        let mut j = i;
        while j < segs.len() && segs[j].gl == segs[i].gl {
            j += 1;
        }
        rng.shuffle(&mut segs[i..j]);
        i = j;
    }
}
