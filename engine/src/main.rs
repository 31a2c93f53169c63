//! irse: path-wise symbolic execution of LLVM IR with exact real arithmetic and an SMT back end.
#![allow(dead_code)]
mod exec;
mod ir;
mod native;
mod num;
mod search;
mod sym;
use exec::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let t0 = Instant::now();
    let ll = get("--ll").expect("--ll");
    let m = match ir::Module::load(std::fs::read_to_string(&ll).expect("read ll")) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot load {}: {}", ll, e);
            std::process::exit(2);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    // configurations: harness name p0,p1,.. per line
    let mut cfgs = vec![];
    for l in std::fs::read_to_string(get("--configs").expect("--configs")).unwrap().lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() < 3 || w[0].starts_with('#') {
            continue;
        }
        cfgs.push(Config {
            prop: w[0].into(),
            harness: w[1].parse().unwrap(),
            name: w[2].into(),
            params: w.get(3).map_or(vec![], |x| x.split(',').map(|y| y.parse().unwrap()).collect()),
        });
    }
    let threads: usize = get("--threads").map_or(8, |x| x.parse().unwrap());
    let budget: f64 = get("--budget").map_or(600.0, |x| x.parse().unwrap());
    let native = get("--native").expect("--native");
    let shim = get("--native-shim");
    let seed: u64 = get("--seed").map_or(1, |x| x.parse().unwrap());
    let hooks: Vec<Hook> = m.fns.iter().map(|f| hook_of(&f.name, f.range.is_some())).collect();
    let entry = *m.fn_ix.get("irse_entry").expect("no irse_entry in the IR");
    let n = cfgs.len();
    let mut q = Queue::new(n);
    for c in 0..n {
        q.push(Task { cfg: c, prefix: vec![], model: Some(vec![]), sure: true });
    }
    let sh = Arc::new(Shared {
        m,
        hooks,
        cfgs,
        queue: Mutex::new(q),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        deadline: Mutex::new(t0 + Duration::from_secs_f64(budget)),
        cache: sym::Cache { map: Mutex::new(HashMap::new()) },
        st: sym::Stats::default(),
        stats: Mutex::new(vec![CfgStat::default(); n]),
        violations: Mutex::new(vec![]),
        unconfirmed: Mutex::new(HashMap::new()),
        native: (0..threads).map(|_| Mutex::new(native::Native::new(&native, shim.as_deref()))).collect(),
        entry,
        fn_used: Mutex::new(Default::default()),
        max_instr: get("--max-instr").map_or(20_000_000, |x| x.parse().unwrap()),
        paths_started: AtomicU64::new(0),
        validate_max: get("--validate").map_or(60, |x| x.parse().unwrap()),
        z3: get("--z3").unwrap_or("z3".into()),
        timeout_ms: get("--timeout").map_or(10_000, |x| x.parse().unwrap()),
        seed,
    });
    let deadline = *sh.deadline.lock().unwrap();
    {
        // watch the clock
        let s = sh.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            if Instant::now() > deadline {
                s.stop.store(true, Relaxed);
                s.cv.notify_all();
                return;
            }
        });
    }
    let now: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(u64::MAX)).collect());
    let mut hs = vec![];
    for w in 0..threads {
        let s = sh.clone();
        let now = now.clone();
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let mut solver = sym::Solver::new(&s.z3, s.timeout_ms, s.seed * 1000 + w as u64);
                loop {
                    let t = {
                        let mut q = s.queue.lock().unwrap();
                        loop {
                            if s.stop.load(Relaxed) {
                                s.cv.notify_all();
                                return;
                            }
                            if let Some(t) = q.pop() {
                                q.active += 1;
                                break t;
                            }
                            if q.active == 0 {
                                s.cv.notify_all();
                                return;
                            }
                            q = s.cv.wait_timeout(q, Duration::from_millis(100)).unwrap().0;
                        }
                    };
                    s.paths_started.fetch_add(1, Relaxed);
                    let ts = Instant::now();
                    let cfg = t.cfg;
                    now[w].store(cfg as u64, Relaxed);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut p = Path::new(&s, &mut solver, &t);
                        let e = p.run(s.entry);
                        p.finish(e);
                    }));
                    if r.is_err() {
                        let mut st = s.stats.lock().unwrap_or_else(|e| e.into_inner());
                        st[cfg].unsupported += 1;
                        *st[cfg].unsup_msgs.entry("engine panic".into()).or_insert(0) += 1;
                        solver = sym::Solver::new(&s.z3, s.timeout_ms, s.seed * 1000 + w as u64);
                    }
                    let dt = ts.elapsed().as_secs_f64();
                    {
                        let mut st = s.stats.lock().unwrap_or_else(|e| e.into_inner());
                        st[cfg].wall += dt;
                    }
                    now[w].store(u64::MAX, Relaxed);
                    let mut q = s.queue.lock().unwrap();
                    q.active -= 1;
                    q.used[cfg] += dt;
                    if q.active == 0 && q.is_empty() {
                        s.cv.notify_all();
                    }
                }
            })
            .unwrap();
        hs.push(h);
    }
    // paths that do not stop in time are left behind
    while hs.iter().any(|h| !h.is_finished()) && Instant::now() < deadline + Duration::from_secs(8) {
        std::thread::sleep(Duration::from_millis(10));
    }
    let mut stats = sh.stats.lock().unwrap().clone();
    for t in sh.queue.lock().unwrap().open.iter().flatten() {
        stats[t.cfg].leftover += 1;
    }
    for n in now.iter() {
        if let Some(c) = stats.get_mut(n.load(Relaxed) as usize) {
            c.leftover += 1;
        }
    }
    let vs = sh.violations.lock().unwrap();
    let mut o = String::from("{\n");
    o += &format!("\"load_s\": {:.3}, \"wall_s\": {:.3},\n", load_s, t0.elapsed().as_secs_f64());
    let st = &sh.st;
    let g = |x: &AtomicU64| x.load(Relaxed);
    o += &format!(
        "\"solver\": {{\"queries\": {}, \"smt_calls\": {}, \"cache_hits\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"sat_by_guessing\": {}, \"nonlinear_smt_calls\": {}, \"unsat_by_linear_relaxation\": {}, \"solver_s\": {:.3}, \"max_query_ms\": {}}},\n",
        g(&st.queries), g(&st.smt), g(&st.cache_hits), g(&st.sat), g(&st.unsat), g(&st.unknown), g(&st.guessed), g(&st.nonlinear), g(&st.linear), g(&st.nanos) as f64 / 1e9, g(&st.max_ms)
    );
    o += "\"configs\": [\n";
    for (i, c) in stats.iter().enumerate() {
        let cf = &sh.cfgs[i];
        let ck: Vec<String> = c
            .checks
            .iter()
            .map(|(k, v)| format!("\"{}\": [{},{},{},{}]", k, v[0], v[1], v[2], v[3]))
            .collect();
        let um: Vec<String> = c.unsup_msgs.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        o += &format!(
            "{{\"prop\": {}, \"name\": {}, \"harness\": {}, \"params\": {:?}, \"paths\": {}, \"done\": {}, \"infeasible\": {}, \"rejected_as_expected\": {}, \"unsupported\": {}, \"unsupported_msgs\": {{{}}}, \"concretized\": {}, \"instructions\": {}, \"decisions\": {}, \"unknown_branches\": {}, \"checks\": {{{}}}, \"validated\": {}, \"diverged\": {}, \"first_divergence\": {}, \"unconfirmed\": {}, \"leftover\": {}, \"cpu_s\": {:.3}, \"sample\": {}}}{}\n",
            js(&cf.prop), js(&cf.name), cf.harness, cf.params, c.paths, c.done, c.infeasible, c.panics_expected, c.unsupported, um.join(", "),
            c.concretized, c.instrs, c.decisions, c.unproven, ck.join(", "), c.validated, c.diverged, js(&c.first_div), c.unconfirmed, c.leftover, c.wall, js(&c.sample),
            if i + 1 < n { "," } else { "" }
        );
    }
    o += "],\n\"violations\": [\n";
    for (i, v) in vs.iter().enumerate() {
        o += &format!(
            "{{\"cfg\": {}, \"check\": {}, \"what\": {}, \"inputs\": {:?}, \"choices\": {:?}, \"scheds\": {:?}, \"confirmed\": {}, \"native\": {}, \"line\": {}, \"path\": {}}}{}\n",
            v.cfg, v.check, js(&v.what), v.inputs, v.choices, v.scheds, v.confirmed, js(&v.native),
            js(&native::Native::line(&sh.cfgs[v.cfg], &v.inputs, &v.choices, &v.scheds)), js(&v.path.chars().take(2000).collect::<String>()),
            if i + 1 < vs.len() { "," } else { "" }
        );
    }
    o += "],\n\"functions\": [";
    let fu: Vec<String> = sh.fn_used.lock().unwrap().iter().map(|i| js(&sh.m.fns[*i as usize].name)).collect();
    o += &fu.join(", ");
    o += "]\n}\n";
    match get("--out") {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => print!("{}", o),
    }
    std::process::exit(0);
}
