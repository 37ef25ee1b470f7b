//! Monitors for concurrent use: C28, C29.
use crate::cx::*;
use crate::gen::*;
use crate::model::*;
use crate::p_basic::*;
use crate::p_gen::*;
use crate::sched::disturbed;
use crate::{ensure, tr};
use rusty_source_map::consumer::*;
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::source_map::Position;
use rusty_source_map::util;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static POOLS: std::cell::RefCell<HashMap<usize, Arc<rayon::ThreadPool>>> = Default::default();
}

fn pool_of(n: usize) -> Arc<rayon::ThreadPool> {
    POOLS.with(|p| {
        p.borrow_mut()
            .entry(n)
            .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("thread pool")))
            .clone()
    })
}

// ---------------------------------------------------------------- C28

struct Job {
    json: String,
    url: Option<String>,
    sorted: bool,
    sources: Vec<String>,
    columns: Vec<(u32, u32, Option<u32>)>,
    asks: Vec<(i32, i32, Option<String>)>,
}

/// Everything an accepted map shows, in a form that can leave the thread.
fn fingerprint(job: &Job, how: u64) -> Result<(Vec<String>, Vec<(u32, u32, Option<u32>)>, Vec<Option<String>>), String> {
    let built = guard(|| match how % 3 {
        0 => match create_consumer(&job.json, job.url.as_deref()) {
            Ok(Consumer::IndexedConsumer(c)) => Ok(c),
            Ok(_) => Err("a basic consumer".to_string()),
            Err(e) => Err(format!("refused: {}", e)),
        },
        1 => Ok(IndexedConsumer::new(&job.json, job.url.as_deref())),
        _ => Ok(indexed(2, &job.json, job.url.as_deref())),
    });
    let mut c = match built {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return Err(e),
        Err(p) => return Err(format!("refused: {}", p.message)),
    };
    let _calm = crate::sched::calm();
    let sources = c.get_sources();
    let columns = visit(&mut c, IterOrd::GeneratedOrd)
        .iter()
        .map(|m| (m.generated_line, m.generated_column, m.original.as_ref().map(|o| o.source)))
        .collect();
    let answers = job
        .asks
        .iter()
        .map(|a| c.original_position_for(Position { line: a.0, column: a.1 }, None).and_then(|m| m.source))
        .collect();
    Ok((sources, columns, answers))
}

pub fn c28(cx: &mut Cx) -> Out {
    let n = match cx.rng.below(10) {
        0 => cx.rng.range(0, 3),
        1..=8 => cx.rng.range(4, 50),
        _ => cx.rng.range(50, 250),
    } as usize;
    let r = &mut cx.rng;
    let url = if r.chance(30) { Some("http://h.io/m/out.js.map".to_string()) } else { None };
    let mut off: Vec<(u32, u32)> = vec![];
    let (mut l, mut c) = (r.range(0, 2) as u32, 0u32);
    for _ in 0..n {
        off.push((l, c));
        if r.chance(40) {
            c += r.range(1, 5) as u32;
        } else {
            l += r.range(1, 3) as u32;
            c = r.range(0, 3) as u32;
        }
    }
    let ordered = n < 2 || r.chance(60);
    if !ordered {
        // One section out of place, anywhere, by a line or by a column.
        let i = r.range(1, n as i64 - 1) as usize;
        match r.below(3) {
            0 => off.swap(i, i - 1),
            1 => {
                let j = r.idx(i);
                off[i] = off[j];
                if j + 1 == i || off[i] == off[i - 1] {
                    off.swap(0, i);
                }
            }
            _ => {
                off[i] = off[i - 1];
                if off[i].1 > 0 {
                    off[i].1 -= 1
                } else if off[i].0 > 0 {
                    off[i].0 -= 1
                } else {
                    off[i - 1].1 += 1
                }
            }
        }
    } else if n > 2 && r.one_in(6) {
        // Equal offsets are in order.
        let i = r.range(1, n as i64 - 1) as usize;
        off[i] = off[i - 1];
    }
    let sorted = off.windows(2).all(|w| w[0] <= w[1]);
    let strict = off.windows(2).all(|w| w[0] < w[1]);
    let uneven = *r.pick(&[2u64, 5, 12]);
    let mut secs = vec![];
    let (mut sources, mut columns, mut asks) = (vec![], vec![], vec![]);
    for (i, o) in off.iter().enumerate() {
        let k = if r.one_in(uneven) { r.range(2, if n > 60 { 4 } else { 12 }) } else { 1 };
        let names: Vec<String> = (0..k).map(|j| format!("s{}_{}.js", i, j)).collect();
        let root = if r.one_in(3) { Some("http://h.io/r") } else { None };
        for s in &names {
            let dir = root.map(|r| format!("{}/", r)).or(url.as_ref().map(|_| "http://h.io/m/".to_string()));
            sources.push(format!("{}{}", dir.unwrap_or_default(), s));
        }
        let base = sources.len() - names.len();
        secs.push(format!(
            "{{\"offset\":{{\"line\":{},\"column\":{}}},\"map\":{{\"version\":3{},\"sources\":{},\"names\":[],\"mappings\":\"AAAA\"}}}}",
            o.0, o.1,
            root.map_or(String::new(), |r| format!(",\"sourceRoot\":\"{}\"", r)),
            json_array(names.iter().map(|n| format!("\"{}\"", n)))
        ));
        columns.push((o.0, o.1, Some(base as u32)));
        if strict && asks.len() < 40 {
            asks.push((o.0 as i32 + 1, o.1 as i32, Some(sources[base].clone())));
        }
    }
    let job = Job { json: format!("{{\"version\":3,\"sections\":{}}}", json_array(secs)), url, sorted, sources, columns, asks };
    tr!(cx, "{} sections, offsets {:?}, in order: {}", n, off, sorted);
    tr!(cx, "{}", job.json);
    let judge = |got: &Result<(Vec<String>, Vec<(u32, u32, Option<u32>)>, Vec<Option<String>>), String>, what: &str| -> Out {
        match got {
            Ok((s, k, a)) => {
                ensure!(job.sorted, "{}: a map with unordered sections was accepted", what);
                ensure!(*s == job.sources, "{}: sources are {:?}, in document order they are {:?}", what, s, job.sources);
                ensure!(*k == job.columns, "{}: mappings are enumerated as {:?}, in document order they are {:?}", what, k, job.columns);
                let want: Vec<Option<String>> = job.asks.iter().map(|a| a.2.clone()).collect();
                ensure!(*a == want, "{}: answers are {:?}, expected {:?}", what, a, want);
                Ok(())
            }
            Err(e) => {
                ensure!(e.starts_with("refused"), "{}: {}", what, e);
                ensure!(!job.sorted, "{}: a map with ordered sections was {}", what, e);
                Ok(())
            }
        }
    };
    for _ in 0..cx.rng.range(2, 4) {
        let threads = *cx.rng.pick(&[1usize, 2, 3, 4, 7, 8, 16]);
        let rate = *cx.rng.pick(&[3usize, 10, 50, 1000]);
        let how = cx.rng.below(3);
        let seed = cx.rng.u64();
        let pool = pool_of(threads);
        let job = &job;
        let (got, sig, switches) = disturbed(rate, seed, || pool.install(|| fingerprint(job, how)));
        tr!(cx, "{} workers, way {}: {:?}", threads, how, got.as_ref().map(|g| g.0.len()));
        judge(&got, &format!("with {} worker threads", threads))?;
        cx.count("constructions", 1);
        cx.count("thread switches seen", switches);
        if switches > 2 {
            cx.count("constructions spread over threads", 1);
        }
        cx.sig((sig, n));
    }
    if cx.rng.one_in(3) {
        // From several threads at once, over one shared pool.
        let threads = *cx.rng.pick(&[2usize, 4, 8]);
        let pool = pool_of(*cx.rng.pick(&[1usize, 2, 4, 8]));
        let job_ref = &job;
        let seed = cx.rng.u64();
        let shared = cx.rng.chance(50);
        let (all, sig, switches) = disturbed(20, seed, || {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let pool = pool.clone();
                        s.spawn(move || {
                            if shared {
                                pool.install(|| fingerprint(job_ref, t as u64))
                            } else {
                                fingerprint(job_ref, t as u64)
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("thread of the harness")).collect::<Vec<_>>()
            })
        });
        for got in &all {
            judge(got, &format!("from {} threads at once", threads))?;
        }
        cx.count("constructions", threads as u64);
        cx.count("thread switches seen", switches);
        cx.count("rounds from several threads at once", 1);
        cx.sig((sig, n));
    }
    cx.count(if sorted { "ordered maps" } else { "unordered maps" }, 1);
    Ok(())
}

// ---------------------------------------------------------------- C29

/// A consumer handed from thread to thread, never used by two at a time.
struct Moved(BasicConsumer);
unsafe impl Send for Moved {}

/// Independent work of one thread: what it does follows from its seed alone.
pub fn work(seed: u64, deep: bool) -> String {
    let mut cx = Cx::new(false);
    cx.rng = Rng::new(seed);
    cx.idx = 0;
    let mut out = String::new();
    let kind = cx.rng.below(7);
    match kind {
        0 => {
            // URL work, the likely first use of the shared helpers.
            for _ in 0..4 {
                let a = crate::p_url::raw(&mut cx.rng, false, true).text();
                let b = crate::p_url::raw(&mut cx.rng, false, true).text();
                let c = crate::p_url::raw(&mut cx.rng, false, true).text();
                out += &util::join(&a, &b);
                out.push(' ');
                out += &util::relative(a.clone(), b.clone());
                out.push(' ');
                out += &util::compute_source_url(Some(&a), &b, Some(&c));
                out.push('\n');
            }
        }
        1 | 2 => {
            // A basic consumer, possibly with refused calls.
            let mut sh = shape(&mut cx);
            sh.max_segs = sh.max_segs.min(40);
            let m = gmap(&mut cx, &sh);
            let url = map_url(&mut cx.rng);
            let json = m.json(&mut cx.rng);
            let mut c = basic(cx.rng.below(WAYS), &json, url.as_deref());
            let reported = c.get_sources();
            let hand_over = deep && cx.rng.one_in(2);
            for i in 0..10 {
                let op = random_op(&mut cx.rng, &m.segs, &m.sources, &reported, true);
                let a = do_basic(&mut c, &op);
                out += &a;
                out.push('\n');
                if hand_over && i % 4 == 3 {
                    let m = Moved(c);
                    c = std::thread::spawn(move || {
                        let mut m = m;
                        let whole = &mut m;
                        whole.0.compute_column_spans();
                        m
                    })
                    .join()
                    .map(|m| m.0)
                    .unwrap_or_else(|_| panic!("ORACLE computing spans of a moved consumer panicked"));
                }
            }
        }
        3 | 4 => {
            let (mut c, ix) = crate::p_indexed::make_indexed(&mut cx, false);
            let all: Vec<Seg> = ix.secs.iter().flat_map(|s| s.map.segs.iter().map(move |k| s.place(k))).take(200).collect();
            let reported = c.get_sources();
            for _ in 0..8 {
                let op = random_op(&mut cx.rng, &all, &[], &reported, true);
                out += &do_indexed(&mut c, &op);
                out.push('\n');
            }
        }
        5 => {
            let p = pool(&mut cx, true);
            let mut g = SourceMapGenerator::new(None, Some("/the/root".into()), false);
            for i in 0..12 {
                let m = valid_mapping(&mut cx.rng, &p);
                if let Some(s) = &m.src {
                    g.set_source_content(format!("/the/root/{}", s), Some(format!("c{}", i)));
                    g.set_source_content(s.clone(), Some(format!("d{}", i)));
                }
                g.add_mapping(m.lib());
                if i == 5 {
                    let mut bad = m.lib();
                    bad.generated.line = 0;
                    out += if refused(|| g.add_mapping(bad)).is_err() { "refused\n" } else { "accepted\n" };
                }
            }
            out += &g.as_string();
        }
        _ => {
            let text = crate::p_url::any_document(&mut cx);
            out += match create_consumer(&text, Some("http://h.io/m/out.js.map")) {
                Ok(Consumer::BasicConsumer(_)) => "basic",
                Ok(Consumer::IndexedConsumer(_)) => "indexed",
                Err(_) => "refused",
            };
        }
    }
    out
}

/// One round: the seeds worked on at once, from a barrier; then alone, one by one.
/// Returns a description of the first difference.
pub fn round(work: fn(u64) -> String, seeds: &[u64], rate: usize, alone_first: bool) -> (Result<(), String>, u64, u64) {
    let run_alone = || -> Vec<Result<String, String>> { seeds.iter().map(|s| guard(|| work(*s)).map_err(|p| p.show())).collect() };
    let before = if alone_first { Some(run_alone()) } else { None };
    let (got, sig, switches) = disturbed(rate, seeds[0], || {
        let barrier = Arc::new((Barrier::new(seeds.len()), AtomicUsize::new(0)));
        let n = seeds.len();
        let slots: Arc<Mutex<Vec<Option<Result<String, String>>>>> = Arc::new(Mutex::new(vec![None; seeds.len()]));
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(i, &s)| {
                let (barrier, slots) = (barrier.clone(), slots.clone());
                std::thread::spawn(move || {
                    barrier.0.wait();
                    // Waking takes its time: set out together.
                    barrier.1.fetch_add(1, Ordering::SeqCst);
                    let since = Instant::now();
                    while barrier.1.load(Ordering::SeqCst) < n && since.elapsed() < Duration::from_millis(20) {
                        std::hint::spin_loop();
                    }
                    let r = guard(|| work(s)).map_err(|p| p.show());
                    slots.lock().expect("slots")[i] = Some(r);
                })
            })
            .collect();
        for h in hs {
            h.join().expect("harness thread");
        }
        let mut s = slots.lock().expect("slots");
        std::mem::take(&mut *s)
    });
    let alone = before.unwrap_or_else(run_alone);
    for (i, (g, w)) in got.iter().zip(&alone).enumerate() {
        let g = match g {
            Some(g) => g,
            None => return (Err(format!("thread {} left no result", i)), sig, switches),
        };
        if g != w {
            return (Err(format!("thread {} of {} got {:?}, working alone gives {:?}", i, seeds.len(), g, w)), sig, switches);
        }
        if let Err(e) = g {
            return (Err(format!("the work of thread {} panicked, at once and alone: {}", i, e)), sig, switches);
        }
    }
    (Ok(()), sig, switches)
}

/// Little work, so that the first use is most of it.
fn brief(seed: u64) -> String {
    let mut r = Rng::new(seed);
    let ups = r.range(0, 3) as usize;
    let dirs = ["p0", "host", "a", "p1", "", "p", "b.js"];
    let path = format!("{}{}/{}", "../".repeat(ups), r.pick(&dirs), r.pick(&dirs));
    let path = path.trim_start_matches('/').to_string();
    let root = format!("{}{}/", "../".repeat(r.range(0, 3) as usize), r.pick(&dirs[..4]));
    match r.below(8) {
        0 | 1 => util::compute_source_url(None, &path, None),
        2 => util::compute_source_url(Some(&root), &path, None),
        3 => util::compute_source_url(Some("http://h.io/r"), &path, Some("/m/m.map")),
        4 => util::join(&root, &path),
        5 => util::relative(root, path),
        6 => {
            let mut g = SourceMapGenerator::new(None, None, false);
            g.add_mapping(crate::p_gen::GM { g: (2, 7), o: Some((8, 30)), src: Some(path.clone()), name: Some("n".into()) }.lib());
            let mut c = BasicConsumer::from_source_map(&mut g, None);
            format!("{:?}", c.generated_position_for(&path, 8, 30, None).map(|m| crate::p_gen::GM::of(&m)))
        }
        _ => {
            let json = format!(
                "{{\"version\":3,\"sections\":[{{\"offset\":{{\"line\":1,\"column\":2}},\"map\":{{\"version\":3,\"sources\":[\"{}\"],\"mappings\":\"AAAA\"}}}},{{\"offset\":{{\"line\":2,\"column\":2}},\"map\":{{\"version\":3,\"sources\":[\"{}\"],\"mappings\":\"AAAA\"}}}}]}}",
                path, root
            );
            let mut c = IndexedConsumer::new(&json, None);
            format!("{:?} {:?}", c.get_sources(), c.original_position_for(Position { line: 3, column: 2 }, None).map(|m| crate::p_gen::GM::of(&m)))
        }
    }
}

/// `mon first SEED`: the concurrent first use, in a process of its own.
pub fn first_use(seed: u64) -> i32 {
    let mut r = Rng::new(seed);
    let n = r.range(2, 12) as usize;
    let mut seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    if r.chance(50) {
        // The same work in each, so that all first uses fall together.
        let one = seeds[0];
        seeds.fill(one);
    }
    let rate = *r.pick(&[2usize, 5, 20, 100, 1_000_000]);
    let what = if seed & 1 == 1 { brief } else { |s| work(s, false) };
    let (res, sig, switches) = round(what, &seeds, rate, false);
    println!("SIG {} {}", sig, switches);
    match res {
        Ok(()) => 0,
        Err(e) => {
            println!("DIFF {}", e);
            1
        }
    }
}

pub fn c29(cx: &mut Cx) -> Out {
    if cx.idx % 2 != 0 {
        let n = cx.rng.range(2, 8) as usize;
        let seeds: Vec<u64> = (0..n).map(|_| cx.rng.u64()).collect();
        let rate = *cx.rng.pick(&[3usize, 20, 200]);
        tr!(cx, "{} threads at once, work seeds {:?}", n, seeds);
        let alone_first = cx.rng.chance(50);
        let (res, sig, switches) = round(|s| work(s, true), &seeds, rate, alone_first);
        cx.count("rounds of threads at once", 1);
        cx.count("threads compared", n as u64);
        cx.count("thread switches seen", switches);
        cx.sig(sig);
        return res;
    }
    // The very first use, in fresh processes.
    let seed = cx.rng.u64();
    for i in 0..if seed & 1 == 1 { 8 } else { 1 } {
        fresh_process(cx, seed ^ (i << 8))?;
    }
    Ok(())
}

fn fresh_process(cx: &mut Cx, seed: u64) -> Out {
    let exe = std::env::current_exe().expect("own path");
    tr!(cx, "fresh process: mon first {}", seed);
    let mut child = std::process::Command::new(&exe)
        .args(["first", &seed.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("child");
    let pid = child.id();
    let start = Instant::now();
    let mut idle: Option<(u64, Instant)> = None;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(Duration::from_millis(2));
        if start.elapsed() > Duration::from_secs(30) {
            // Deadlocked only if every thread sleeps and none has run for 15 s.
            let (cpu, asleep) = threads_of(pid);
            match idle {
                Some((c, t)) if c == cpu && asleep => {
                    if t.elapsed() > Duration::from_secs(15) {
                        let _ = child.kill();
                        let _ = child.wait();
                        return Err(format!("the process of concurrent first use (mon first {}) is deadlocked: all its threads sleep", seed));
                    }
                }
                _ => idle = Some((cpu, Instant::now())),
            }
            if start.elapsed() > Duration::from_secs(240) {
                let _ = child.kill();
                panic!("child still running after 240 s");
            }
        }
    };
    let out = child.wait_with_output().expect("output");
    let (stdout, stderr) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    for l in stdout.lines() {
        if let Some(rest) = l.strip_prefix("SIG ") {
            let mut it = rest.split(' ').filter_map(|x| x.parse::<u64>().ok());
            let (sig, sw) = (it.next().unwrap_or(0), it.next().unwrap_or(0));
            cx.count("thread switches seen", sw);
            cx.sig(sig);
        }
    }
    cx.count("fresh processes", 1);
    if stderr.contains("ThreadSanitizer") {
        return Err(format!("ThreadSanitizer in a fresh process (mon first {}): {}", seed, stderr.chars().take(6000).collect::<String>()));
    }
    if let Some(d) = stdout.lines().find_map(|l| l.strip_prefix("DIFF ")) {
        return Err(format!("concurrent first use (mon first {}): {}", seed, d));
    }
    match status.code() {
        Some(0) => Ok(()),
        c => {
            use std::os::unix::process::ExitStatusExt;
            let sig = status.signal();
            if sig == Some(9) {
                panic!("child was killed");
            }
            if c == Some(3) {
                panic!("harness error in child: {}", stderr);
            }
            Err(format!("the process of concurrent first use (mon first {}) ended with {:?}, signal {:?}: {}", seed, c, sig, stderr))
        }
    }
}

fn threads_of(pid: u32) -> (u64, bool) {
    let (mut cpu, mut asleep) = (0, true);
    if let Ok(dir) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for t in dir.flatten() {
            if let Ok(s) = std::fs::read_to_string(t.path().join("stat")) {
                let rest = s.rsplit(')').next().unwrap_or("");
                let f: Vec<&str> = rest.split_whitespace().collect();
                asleep &= f.first() == Some(&"S");
                for k in [11, 12] {
                    cpu += f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                }
            }
        }
    }
    (cpu, asleep)
}
