//! Runs the monitored executions. The machinery around it is /verif/check.py.
mod cx;
mod gen;
mod model;
mod p_basic;
mod p_gen;
mod p_indexed;
mod p_mem;
mod p_thread;
mod p_url;
mod sched;
mod upstream;

use cx::*;
use serde_json::json;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOCATOR: sched::Disturb = sched::Disturb;

type Case = fn(&mut Cx) -> Out;

fn case_of(prop: &str) -> Option<Case> {
    Some(match prop {
        "C01" => p_gen::c01,
        "C02" => p_gen::c02,
        "C03" => p_gen::c03,
        "C04" => p_gen::c04,
        "C05" => p_gen::c05,
        "C06" => p_gen::c06,
        "C07" => p_gen::c07,
        "C08" => p_gen::c08,
        "C09" => p_basic::c09,
        "C10" => p_basic::c10,
        "C11" => p_basic::c11,
        "C12" => p_basic::c12,
        "C13" => p_basic::c13,
        "C14" => p_basic::c14,
        "C15" => p_indexed::c15,
        "C16" => p_url::c16,
        "C17" => p_url::c17,
        "C18" => p_basic::c18,
        "C19" => p_indexed::c19,
        "C20" => p_url::c20,
        "C21" => p_basic::c21,
        "C22" => p_basic::c22,
        "C23" => p_indexed::c23,
        "C24" => p_indexed::c24,
        "C25" => p_indexed::c25,
        "C26" => p_indexed::c26,
        "C27" => p_indexed::c27,
        "C28" => p_thread::c28,
        "C29" => p_thread::c29,
        "C30" => p_mem::c30,
        "C31" => p_url::c31,
        "C32" => p_indexed::c32,
        "C33" => p_gen::c33,
        "C34" => p_url::c34,
        _ => return None,
    })
}

enum Verdict {
    Held,
    Broken(String),
}

fn run_case(f: Case, cx: &mut Cx) -> Verdict {
    match guard(|| f(cx)) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(m)) => Verdict::Broken(m),
        Err(p) => {
            if let Some(m) = p.message.strip_prefix("ORACLE ") {
                Verdict::Broken(m.to_string())
            } else if p.message.starts_with("HARNESS ") || p.is_harness() {
                // Never seen on code that keeps the property: an answer of a kind that the
                // oracle cannot even look at.
                Verdict::Broken(format!("the oracle cannot judge what it observed: {}", p.show()))
            } else {
                Verdict::Broken(format!("unexpected {}", p.show()))
            }
        }
    }
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, key: &str) -> Option<&str> {
        self.0.iter().position(|a| a == key).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, key: &str, default: u64) -> u64 {
        self.get(key).map_or(default, |v| v.parse().unwrap_or_else(|_| panic!("bad {}", key)))
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}… ({} characters)", s.chars().take(n).collect::<String>(), s.chars().count())
    }
}

fn worker(prop: &str, a: &Args) -> i32 {
    let f = case_of(prop).unwrap_or_else(|| panic!("unknown property {}", prop));
    let seed = a.num("--seed", 1);
    let (shard, shards, count) = (a.num("--shard", 0), a.num("--shards", 1), a.num("--count", 1000));
    let limit = Duration::from_secs(a.num("--secs", 60));
    let status = a.get("--status").map(|p| std::fs::File::create(p).expect("status file"));
    let mut cx = Cx::new(a.get("--tier") == Some("thorough"));
    cx.scale = a.num("--scale", 1) as usize;
    let from = a.num("--from", 0);
    let start = Instant::now();
    let (mut cases, mut nontrivial) = (0u64, 0u64);
    let mut violations = vec![];
    let mut samples = vec![];
    let mut idx = from + shard;
    let mut code = 0;
    while idx < from + count && start.elapsed() < limit {
        if let Some(s) = &status {
            s.write_all_at(&idx.to_le_bytes(), 0).expect("status");
        }
        // A few cases of the run are written out as samples.
        let sample = samples.len() < 3 && cases > 0 && (cases == 7 || cases % 1009 == 0);
        cx.trace = if sample { Some(vec![]) } else { None };
        cx.start(prop, seed, idx);
        let v = run_case(f, &mut cx);
        cases += 1;
        if cx.nontrivial {
            nontrivial += 1;
        }
        if let Some(t) = cx.trace.take() {
            samples.push(json!({"case": idx, "trace": t.iter().take(12).map(|l| clip(l, 400)).collect::<Vec<_>>()}));
        }
        match v {
            Verdict::Held => {}
            Verdict::Broken(m) => {
                violations.push(json!({"case": idx, "message": clip(&m, 20000)}));
                code = 1;
                break;
            }
        }
        idx += shards;
    }
    if let Some(out) = a.get("--out") {
        let mut sigs: Vec<u64> = cx.sigs.iter().copied().collect();
        sigs.sort_unstable();
        let bytes: Vec<u8> = sigs.iter().flat_map(|s| s.to_le_bytes()).collect();
        std::fs::write(format!("{}.sigs", out), bytes).expect("sigs");
        let doc = json!({
            "cases": cases, "nontrivial": nontrivial, "counters": cx.counters, "violations": violations,
            "samples": samples, "next": idx, "secs": start.elapsed().as_secs_f64(),
        });
        std::fs::write(out, doc.to_string()).expect("out");
    } else {
        println!("{} cases, {} nontrivial, {} distinct, {:.2} s", cases, nontrivial, cx.sigs.len(), start.elapsed().as_secs_f64());
        println!("{:#?}", cx.counters);
        for v in &violations {
            println!("{}", v);
        }
    }
    code
}

fn one_case(prop: &str, a: &Args) -> i32 {
    let f = case_of(prop).unwrap_or_else(|| panic!("unknown property {}", prop));
    let mut cx = Cx::new(a.get("--tier") == Some("thorough"));
    cx.trace = Some(vec![]);
    cx.scale = a.num("--scale", 1) as usize;
    cx.start(prop, a.num("--seed", 1), a.num("--idx", 0));
    let v = run_case(f, &mut cx);
    let out = std::io::stdout();
    let mut out = out.lock();
    for l in cx.trace.take().unwrap_or_default() {
        let _ = writeln!(out, "{}", clip(&l, 20000));
    }
    match v {
        Verdict::Held => {
            let _ = writeln!(out, "HELD");
            0
        }
        Verdict::Broken(m) => {
            let _ = writeln!(out, "BROKEN {}", m);
            1
        }
    }
}

fn main() {
    quiet_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = Args(args.clone());
    let what = args.first().map(|s| s.as_str()).unwrap_or("");
    let arg = args.get(1).map(|s| s.as_str()).unwrap_or("");
    // The harness's own failures end in 3, so that they are never taken for a verdict.
    let code = match guard(|| match what {
        "worker" => worker(arg, &a),
        "case" => one_case(arg, &a),
        "first" => p_thread::first_use(arg.parse().expect("seed")),
        "probe" => p_mem::probe(arg),
        "upstream" => upstream::write(a.num("--count", 1000), a.num("--seed", 1)),
        _ => {
            eprintln!("usage: mon worker|case PROP … | first SEED | probe NAME");
            3
        }
    }) {
        Ok(c) => c,
        Err(p) => {
            eprintln!("{}", p.show());
            3
        }
    };
    std::process::exit(code);
}
