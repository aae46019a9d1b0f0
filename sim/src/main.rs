#![allow(warnings)]
mod attr;
mod comps;
mod exec;
mod gen;
mod model;
mod plan;
mod rt;
mod shrink;
mod sys;
mod tables;

use plan::*;
use rt::{Dec, Params};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};
use sys::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Bad {
    pub cls: String,
    pub msg: String,
    pub thread: u32,
    pub step: u64,
    pub hash: u64,
    pub refused: bool,
}

pub enum Outcome {
    Fine,
    Bad(Bad),
    Broken(String),
}

pub const HANG: u32 = 25;

fn outcome(sh: &Shared, e: Exit) -> Outcome {
    let vb = &sh.vb;
    let bad = || Bad { cls: cstr(&vb.cls), msg: cstr(&vb.msg), thread: vb.thread, step: vb.step, hash: vb.hash, refused: sh.refused > 0 };
    match e {
        Exit::Code(0) => Outcome::Fine,
        Exit::Code(30) => Outcome::Bad(bad()),
        Exit::Signal(14) => Outcome::Bad(Bad {
            cls: "stuck".into(),
            msg: format!("an operation did not finish within {HANG} seconds"),
            thread: 0,
            step: 0,
            hash: 0,
            refused: false,
        }),
        Exit::Code(c) => Outcome::Broken(format!("exit code {c}: {}", cstr(&vb.msg))),
        Exit::Signal(s) => Outcome::Broken(format!("signal {s}")),
    }
}

/// How the decisions of a run are made.
pub enum How<'a> {
    Replay(&'a [Dec]),
    Search(u64),
}

/// Runs a plan in a process of its own.
pub fn trial(sh: &mut Shared, plan: &Plan, how: &How, strict: bool, tracing: bool) -> Outcome {
    sh.vb.kind = 0;
    sh.text_len = 0;
    sh.refused = 0;
    let s: *mut Shared = sh;
    let e = in_child(|| {
        let sh = unsafe { &mut *s };
        unsafe { exec::REFUSED = &mut sh.refused };
        set_alarm(HANG);
        rt::install_hook();
        rt::signals();
        rt::init();
        let mut p = plan.params;
        let mut list: &[Dec] = &[];
        match how {
            How::Replay(d) => {
                p.replay = 1;
                list = d;
            }
            How::Search(x) => {
                p.replay = 0;
                p.seed = *x;
            }
        }
        rt::begin(&p, &mut sh.db, list, &mut sh.vb);
        let (st, sim) = exec::run(plan, strict, tracing);
        sh.vb.hash = st.hash;
        sh.vb.step = st.steps;
        sh.runs = sim.kf1;
    });
    outcome(sh, e)
}

#[derive(Default)]
struct Totals {
    runs: u64,
    n: BTreeMap<String, u64>,
    inter: HashSet<u64>,
    sigs: HashSet<u64>,
    states: HashSet<u64>,
}

fn explore_chunk(sh: &mut Shared, prop: &str, from: u64, stride: u64, strict: bool, until: Instant, max_runs: u64) -> (Exit, u64) {
    sh.vb.kind = 0;
    sh.text_len = 0;
    sh.runs = 0;
    let s: *mut Shared = sh;
    let e = in_child(|| {
        let sh = unsafe { &mut *s };
        rt::install_hook();
        rt::signals();
        rt::init();
        let mut t = Totals::default();
        let mut seed = from;
        while t.runs < max_runs && Instant::now() < until {
            set_alarm(HANG);
            sh.seed = seed;
            let plan = gen::generate(prop, seed);
            rt::begin(&plan.params, &mut sh.db, &[], &mut sh.vb);
            let began = Instant::now();
            let (st, sim) = exec::run(&plan, strict, false);
            if std::env::var_os("SIM_SLOW").is_some() && began.elapsed().as_secs() >= 3 {
                eprintln!("seed {seed}: {:.1} s", began.elapsed().as_secs_f64());
            }
            t.runs += 1;
            sh.runs = t.runs;
            let mut add = |k: &str, v: u64| *t.n.entry(k.to_string()).or_insert(0) += v;
            add("steps", st.steps);
            add("scheduling points", st.sched_points);
            add("context switches", st.switches);
            add("preemptions", st.preempts);
            add("atomic operations", st.atomics);
            add("stale loads", st.stale_loads);
            add("accesses checked for races", st.races_checked);
            add("operations", plan.size() as u64);
            add("allocations", st.allocs);
            if plan.threads.len() > 1 {
                add("runs with several callers", 1);
            }
            if plan.workers > 0 {
                add("runs with pool workers", 1);
            }
            if plan.layouts.iter().any(|l| !l.is_empty()) {
                add("runs with groups", 1);
            }
            for (k, v) in &sim.counters {
                add(k, *v);
            }
            add("known finding KF1 observed", sim.kf1);
            let l = t.n.entry("longest operation in steps".to_string()).or_insert(0);
            *l = st.longest.max(*l);
            if st.switches > 0 {
                t.inter.insert(st.ihash);
            }
            let mut sig = st.hash;
            for f in &sim.states {
                sig = gen::mix(sig, *f);
            }
            if sim.states.len() > 2 {
                t.sigs.insert(sig);
            }
            t.states.extend(&sim.states);
            seed += stride;
        }
        let mut out = String::new();
        for (k, v) in &t.n {
            out.push_str(&format!("n {v} {k}\n"));
        }
        for (c, set) in [("i", &t.inter), ("s", &t.sigs), ("f", &t.states)] {
            for h in set {
                if out.len() + 64 < TEXT_CAP {
                    out.push_str(&format!("{c} {h:x}\n"));
                }
            }
        }
        sh.text[..out.len()].copy_from_slice(out.as_bytes());
        sh.text_len = out.len() as u64;
    });
    (e, sh.runs)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

fn explore(a: &Args) -> i32 {
    let prop = a.get("prop").unwrap().to_string();
    let base = a.num("base", 1);
    let (worker, stride) = (a.num("worker", 0), a.num("workers", 1));
    let secs = a.num("seconds", 10);
    let max = a.num("runs", u64::MAX);
    let out = a.get("out").map(|s| s.to_string());
    let replay_dir = a.get("replays").unwrap_or(".").to_string();
    let strict = gen::strict_order(&prop);
    let t0 = Instant::now();
    let until = t0 + Duration::from_secs(secs);
    let mut sh = shared();
    let mut tot = Totals::default();
    let mut seed = base + worker;
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: Vec<String> = vec![];
    let mut found: Option<(Bad, String)> = None;
    let mut det = (0u64, 0u64);
    let mut broken = 0u64;
    let mut chunk = 16u64;
    while Instant::now() < until && tot.runs < max && found.is_none() {
        let (e, n) = explore_chunk(sh, &prop, seed, stride, strict, until, chunk.min(max - tot.runs));
        chunk = 250;
        tot.runs += n;
        seed += n * stride;
        let text = String::from_utf8_lossy(&sh.text[..sh.text_len as usize]).into_owned();
        for l in text.lines() {
            let (k, r) = l.split_once(' ').unwrap();
            match k {
                "n" => {
                    let (v, name) = r.split_once(' ').unwrap();
                    let (e, v) = (tot.n.entry(name.to_string()).or_insert(0), v.parse::<u64>().unwrap());
                    *e = if name.starts_with("longest") { v.max(*e) } else { *e + v };
                }
                _ => {
                    let h = u64::from_str_radix(r, 16).unwrap();
                    match k {
                        "i" => tot.inter.insert(h),
                        "s" => tot.sigs.insert(h),
                        _ => tot.states.insert(h),
                    };
                }
            }
        }
        match outcome(sh, e) {
            Outcome::Fine => {
                // One run again from its recorded decisions: the same execution.
                if n > 0 {
                    let plan = gen::generate(&prop, seed - stride);
                    let d = decs(sh);
                    let r1 = trial(sh, &plan, &How::Search(plan.params.seed), strict, false);
                    let h1 = (sh.vb.hash, sh.vb.step);
                    let d = decs(sh);
                    let r2 = trial(sh, &plan, &How::Replay(&d), strict, false);
                    let h2 = (sh.vb.hash, sh.vb.step);
                    det.0 += 1;
                    if matches!((&r1, &r2), (Outcome::Fine, Outcome::Fine)) && h1 == h2 {
                        det.1 += 1;
                    }
                }
            }
            Outcome::Broken(m) => {
                broken += 1;
                notes.push(format!("seed {}: {m}", sh.seed));
                seed = sh.seed + stride;
                tot.runs += 1;
                if broken > 5 {
                    break;
                }
            }
            Outcome::Bad(bad) => {
                let s = sh.seed;
                let d = decs(sh);
                seed = s + stride;
                tot.runs += 1;
                let c = foreign.entry(bad.cls.clone()).or_insert(0);
                *c += 1;
                if *c > 4 && *c % 16 != 0 {
                    continue;
                }
                let plan = gen::generate(&prop, s);
                let budget = Duration::from_secs(a.num("shrink", 25));
                match shrink::minimise(sh, plan, d, &bad, strict, Instant::now() + budget) {
                    None => notes.push(format!("seed {s}: {} ({}) did not happen again", bad.cls, bad.msg)),
                    Some((plan, d, bad)) => {
                        let ps = attr::attribute(&bad.cls, &plan, bad.refused);
                        if ps.contains(&prop.as_str()) {
                            let _ = std::fs::create_dir_all(&replay_dir);
                            let path = format!("{replay_dir}/{prop}-{s}.replay");
                            let text = shrink::replay_text(&prop, s, strict, &plan, &d, &bad, &ps);
                            std::fs::write(&path, text).unwrap();
                            found = Some((bad, path));
                        } else {
                            notes.push(format!("seed {s}: {}: {} (concerns {})", bad.cls, bad.msg, ps.join(" ")));
                        }
                    }
                }
            }
        }
    }
    let dt = t0.elapsed().as_secs_f64();
    let mut j = String::from("{\n");
    j.push_str(&format!("\"runs\": {}, \"seconds\": {dt:.2}, \"first_seed\": {}, \"next_seed\": {seed},\n", tot.runs, base + worker));
    j.push_str(&format!("\"repeated\": {}, \"repeated_alike\": {}, \"broken\": {broken},\n", det.0, det.1));
    let cs: Vec<String> = tot.n.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    j.push_str(&format!("\"counters\": {{{}}},\n", cs.join(", ")));
    let fs: Vec<String> = foreign.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    j.push_str(&format!("\"violations\": {{{}}},\n", fs.join(", ")));
    let ns: Vec<String> = notes.iter().map(|n| json_str(n)).collect();
    j.push_str(&format!("\"notes\": [{}],\n", ns.join(", ")));
    if let Some((b, p)) = &found {
        j.push_str(&format!("\"found\": {{\"class\": {}, \"message\": {}, \"replay\": {}}},\n", json_str(&b.cls), json_str(&b.msg), json_str(p)));
    }
    for (k, set) in [("interleavings", &tot.inter), ("signatures", &tot.sigs), ("states", &tot.states)] {
        let v: Vec<String> = set.iter().take(300_000).map(|x| format!("\"{x:x}\"")).collect();
        j.push_str(&format!("\"{k}\": [{}],\n", v.join(",")));
    }
    j.push_str("\"end\": 1}\n");
    match out {
        Some(p) => std::fs::write(p, j).unwrap(),
        None => {
            for l in j.lines().filter(|l| l.len() < 20000) {
                println!("{l}");
            }
        }
    }
    if found.is_some() {
        1
    } else if broken > 0 {
        2
    } else {
        0
    }
}

fn replay(a: &Args) -> i32 {
    let path = a.get("file").unwrap();
    let text = std::fs::read_to_string(path).expect("replay file");
    let (plan, decs, head) = match shrink::parse_replay(&text) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let sh = shared();
    let strict = head.get("strict").is_some_and(|s| s == "1");
    let tracing = a.get("trace").is_some();
    let how = match head.get("search") {
        Some(_) => How::Search(plan.params.seed),
        None => How::Replay(&decs),
    };
    let r = trial(sh, &plan, &how, strict, tracing);
    if let Some(k) = head.get("known") {
        // A replay of a known finding, which shows as a counter.
        let n = sh.runs;
        return match r {
            Outcome::Fine if n > 0 => {
                println!("known finding {k} reproduced");
                0
            }
            Outcome::Fine => {
                println!("known finding {k} did not reproduce");
                3
            }
            Outcome::Bad(b) => {
                println!("violation {}: {}", b.cls, b.msg);
                1
            }
            Outcome::Broken(m) => {
                println!("harness: {m}");
                2
            }
        };
    }
    match r {
        Outcome::Fine => {
            println!("no violation");
            0
        }
        Outcome::Broken(m) => {
            println!("harness: {m}");
            2
        }
        Outcome::Bad(b) => {
            println!("{}: {}", b.cls, b.msg);
            println!("thread {} step {} hash {:016x}", b.thread, b.step, b.hash);
            if let Some(e) = head.get("expect") {
                let got = format!("{} {} {} {:016x}", b.cls, b.thread, b.step, b.hash);
                println!("{}", if *e == got { "exactly the recorded execution".into() } else { format!("recorded was {e}") });
            }
            if let Some(p) = head.get("property") {
                println!("VIOLATION property={p} replay={path}");
            }
            1
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().unwrap_or_default();
    let mut m = HashMap::new();
    let mut pos = 0;
    while let Some(x) = args.next() {
        if let Some(k) = x.strip_prefix("--") {
            if k == "trace" {
                m.insert(k.to_string(), "1".into());
            } else {
                m.insert(k.to_string(), args.next().unwrap_or_default());
            }
        } else {
            m.insert(if pos == 0 { "file".into() } else { format!("arg{pos}") }, x);
            pos += 1;
        }
    }
    let a = Args(m);
    rt::install_hook();
    exec::tab();
    let code = match cmd.as_str() {
        "explore" => explore(&a),
        "replay" => replay(&a),
        "show" => {
            let p = gen::generate(a.get("prop").unwrap(), a.num("seed", 1));
            print!("search 1\nstrict {}\n{}", gen::strict_order(a.get("prop").unwrap()) as u8, p.text(&[]));
            0
        }
        _ => {
            eprintln!("usage: explore|replay|show");
            2
        }
    };
    std::process::exit(code);
}
