//! Constraints, models, the SMT solver pipe and the query cache.
use crate::num::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc::{channel, Receiver};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub fn flip_mask(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
pub fn sign_mask(s: i32) -> u8 {
    match s {
        -1 => NEG,
        0 => ZERO,
        _ => POS,
    }
}

#[derive(Clone, Debug)]
pub struct Atom {
    pub p: Arc<Poly>,
    pub m: u8,
}
/// a disjunction of conjunctions of sign constraints
#[derive(Clone, Debug)]
pub struct Con {
    pub alts: Vec<Vec<Atom>>,
    pub vars: u128,
}
pub fn vbits(p: &Poly) -> u128 {
    let mut b = 0u128;
    for (m, _) in &p.t {
        for v in m {
            // variables may share a bit: slices are then larger than needed
            b |= 1 << (*v as u32 % 128);
        }
    }
    b
}
impl Con {
    pub fn atom(p: Arc<Poly>, m: u8) -> Con {
        let vars = vbits(&p);
        Con { alts: vec![vec![Atom { p, m }]], vars }
    }
    pub fn dnf(alts: Vec<Vec<Atom>>) -> Con {
        let mut vars = 0;
        for a in &alts {
            for x in a {
                vars |= vbits(&x.p);
            }
        }
        Con { alts, vars }
    }
    pub fn holds(&self, m: &Model) -> bool {
        self.alts.iter().any(|a| a.iter().all(|x| sign_mask(m.eval(&x.p).sign()) & x.m != 0))
    }
    fn degree(&self) -> usize {
        self.alts.iter().flatten().map(|a| a.p.degree()).max().unwrap_or(0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub v: Vec<Rat>,
}
impl Model {
    pub fn eval(&self, p: &Poly) -> Rat {
        p.eval(&|v| self.v.get(v as usize).cloned().unwrap_or(Rat::zero()))
    }
}

#[derive(Clone, Debug)]
pub struct Var {
    pub input: bool,
    pub int: bool,
    pub lo: Option<Rat>,
    pub hi: Option<Rat>,
}

#[derive(Clone, Debug)]
pub enum Ans {
    Unsat,
    Sat(Option<Vec<Rat>>), // values of the variables of the query, in order
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub smt: AtomicU64,
    pub cache_hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub guessed: AtomicU64,
    pub nanos: AtomicU64,
    pub max_ms: AtomicU64,
    pub nonlinear: AtomicU64,
    pub linear: AtomicU64,
}

pub struct Cache {
    pub map: Mutex<HashMap<(u64, u64), Ans>>,
}

pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
    n: u64,
}
impl Z3 {
    fn start(bin: &str) -> Z3 {
        let mut child = Command::new(bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Z3 { child, inp, rx, n: 0 }
    }
    /// send text, then collect lines until the end marker
    fn ask(&mut self, text: &str, limit: Duration) -> Option<Vec<String>> {
        self.n += 1;
        let mark = format!("#{}#", self.n);
        let t = format!("{}\n(echo \"{}\")\n", text, mark);
        if self.inp.write_all(t.as_bytes()).is_err() || self.inp.flush().is_err() {
            return None;
        }
        let end = Instant::now() + limit;
        let mut r = vec![];
        loop {
            let left = end.checked_duration_since(Instant::now())?;
            match self.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.trim_matches('"') == mark {
                        return Some(r);
                    }
                    r.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Solver {
    z3: Option<Z3>,
    bin: String,
    pub timeout_ms: u64,
    rng: u64,
    pub trace: bool,
}

fn smt_mask(p: &Poly, m: u8) -> String {
    mask_text(&p.smt("v"), m)
}

/// the polynomial with every nonlinear monomial replaced by a variable of its own
fn lin_smt(p: &Poly, monos: &mut BTreeMap<Vec<u16>, usize>) -> String {
    let mut parts = vec![];
    for (m, c) in &p.t {
        if m.is_empty() {
            parts.push(c.smt());
            continue;
        }
        let name = if m.len() == 1 {
            format!("v{}", m[0])
        } else {
            let n = monos.len();
            let k = *monos.entry(m.to_vec()).or_insert(n);
            format!("m{}", k)
        };
        parts.push(format!("(* {} {})", c.smt(), name));
    }
    match parts.len() {
        0 => "0.0".into(),
        1 => parts.pop().unwrap(),
        _ => format!("(+ {})", parts.join(" ")),
    }
}
fn mask_text(s: &str, m: u8) -> String {
    match m {
        0 => "false".into(),
        1 => format!("(< {} 0.0)", s),
        2 => format!("(= {} 0.0)", s),
        3 => format!("(<= {} 0.0)", s),
        4 => format!("(> {} 0.0)", s),
        5 => format!("(not (= {} 0.0))", s),
        6 => format!("(>= {} 0.0)", s),
        _ => "true".into(),
    }
}

fn rename(p: &Poly, map: &HashMap<u16, u16>) -> Poly {
    Poly { t: p.t.iter().map(|(m, c)| (m.iter().map(|v| map[v]).collect(), c.clone())).collect() }
}

pub struct Query {
    pub vars: Vec<u16>, // original ids, sorted
    pub cons: Vec<(String, Con)>,
    pub nonlinear: bool,
    pub lo: Vec<Option<Rat>>,
    pub hi: Vec<Option<Rat>>,
    pub input: Vec<bool>,
    pub int: Vec<bool>,
}

impl Solver {
    pub fn new(bin: &str, timeout_ms: u64, seed: u64) -> Solver {
        Solver { z3: None, bin: bin.into(), timeout_ms, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, trace: std::env::var("IRSE_TRACE").is_ok() }
    }
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn build(cons: &[&Con], vars: &[Var]) -> Query {
        let mut vs: BTreeSet<u16> = BTreeSet::new();
        for c in cons {
            for a in c.alts.iter().flatten() {
                a.p.vars(&mut vs);
            }
        }
        let vlist: Vec<u16> = vs.into_iter().collect();
        let map: HashMap<u16, u16> = vlist.iter().enumerate().map(|(i, v)| (*v, i as u16)).collect();
        let mut out: BTreeMap<String, Con> = BTreeMap::new();
        let mut nonlinear = false;
        for c in cons {
            if c.degree() > 1 {
                nonlinear = true;
            }
            let alts: Vec<Vec<Atom>> =
                c.alts.iter().map(|a| a.iter().map(|x| Atom { p: Arc::new(rename(&x.p, &map)), m: x.m }).collect()).collect();
            let parts: Vec<String> = alts
                .iter()
                .map(|a| {
                    let s: Vec<String> = a.iter().map(|x| smt_mask(&x.p, x.m)).collect();
                    if s.len() == 1 {
                        s[0].clone()
                    } else {
                        format!("(and {})", s.join(" "))
                    }
                })
                .collect();
            let txt = match parts.len() {
                0 => "false".to_string(),
                1 => parts[0].clone(),
                _ => format!("(or {})", parts.join(" ")),
            };
            out.entry(txt).or_insert_with(|| Con::dnf(alts));
        }
        let lo = vlist.iter().map(|v| vars[*v as usize].lo.clone()).collect();
        let hi = vlist.iter().map(|v| vars[*v as usize].hi.clone()).collect();
        let input = vlist.iter().map(|v| vars[*v as usize].input).collect();
        let int = vlist.iter().map(|v| vars[*v as usize].int).collect();
        Query { vars: vlist, cons: out.into_iter().collect(), nonlinear, lo, hi, input, int }
    }
    fn key(q: &Query) -> (u64, u64) {
        let mut a = std::collections::hash_map::DefaultHasher::new();
        let mut b = std::collections::hash_map::DefaultHasher::new();
        77u64.hash(&mut b);
        for i in 0..q.vars.len() {
            q.lo[i].hash(&mut a);
            q.hi[i].hash(&mut a);
            q.int[i].hash(&mut a);
            q.hi[i].hash(&mut b);
            q.lo[i].hash(&mut b);
        }
        for (s, _) in &q.cons {
            s.hash(&mut a);
            s.hash(&mut b);
        }
        (a.finish(), b.finish())
    }
    fn in_bounds(q: &Query, m: &Model) -> bool {
        (0..q.vars.len()).all(|i| {
            q.lo[i].as_ref().map_or(true, |l| m.v[i].cmp(l) != std::cmp::Ordering::Less)
                && q.hi[i].as_ref().map_or(true, |h| m.v[i].cmp(h) != std::cmp::Ordering::Greater)
                && (!q.int[i] || m.v[i].is_int())
        })
    }
    fn ok(q: &Query, m: &Model) -> bool {
        Self::in_bounds(q, m) && q.cons.iter().all(|(_, c)| c.holds(m))
    }
    /// try to find a model by perturbing a starting point with small integers
    fn guess(&mut self, q: &Query, start: &[Rat], tries: u32) -> Option<Vec<Rat>> {
        if q.input.iter().any(|i| !i) {
            return None;
        }
        let mut base = Model { v: start.to_vec() };
        let n = q.vars.len();
        if n == 0 {
            return None;
        }
        let count = |m: &Model| q.cons.iter().filter(|(_, c)| !c.holds(m)).count();
        let mut bad = if Self::in_bounds(q, &base) { count(&base) } else { usize::MAX };
        if bad == 0 {
            return Some(base.v);
        }
        for t in 0..tries {
            let mut m = if t % 16 == 15 {
                Model { v: (0..n).map(|_| Rat::int((self.rnd() % 11) as i64 - 5)).collect() }
            } else {
                let mut m = base.clone();
                let k = 1 + self.rnd() % 2;
                for _ in 0..k {
                    let i = (self.rnd() % n as u64) as usize;
                    m.v[i] = match self.rnd() % 4 {
                        0 => m.v[i].add(&Rat::int((self.rnd() % 7) as i64 - 3)),
                        1 => {
                            let j = (self.rnd() % n as u64) as usize;
                            m.v[j].add(&Rat::int((self.rnd() % 3) as i64 - 1))
                        }
                        2 => Rat::int((self.rnd() % 41) as i64 - 20),
                        _ => Rat::int((self.rnd() % 9) as i64 - 4),
                    };
                }
                m
            };
            if !Self::in_bounds(q, &m) {
                continue;
            }
            let b = count(&m);
            if b == 0 {
                return Some(std::mem::take(&mut m.v));
            }
            if b <= bad {
                bad = b;
                base = m;
            }
        }
        None
    }
    fn search(&mut self, q: &Query, start: &[Rat], iters: u32) -> Option<Vec<Rat>> {
        if q.input.iter().any(|i| !i) || q.vars.is_empty() {
            return None;
        }
        let mut s = crate::search::Search::new(q)?;
        let mut x: Vec<f64> = start.iter().map(|r| r.to_f64()).collect();
        let mut done = 0;
        while done < iters {
            let n = 100.min(iters - done);
            let mut r = || self.rnd();
            let found = s.run(&mut x, n, &mut r);
            done += n;
            if found {
                let v: Option<Vec<Rat>> = x.iter().map(|f| Rat::from_f64(*f)).collect();
                let m = Model { v: v? };
                if Self::ok(q, &m) {
                    return Some(m.v);
                }
                for i in 0..x.len() {
                    if self.rnd() % 3 == 0 {
                        x[i] += (self.rnd() % 7) as f64 - 3.0;
                    }
                }
            }
        }
        None
    }
    /// decide the conjunction of the constraints
    pub fn solve(&mut self, cons: &[&Con], vars: &[Var], start: Option<&Model>, cache: &Cache, st: &Stats) -> (Ans, Vec<u16>) {
        st.queries.fetch_add(1, Relaxed);
        let q = Self::build(cons, vars);
        let key = Self::key(&q);
        if let Some(a) = cache.map.lock().unwrap().get(&key) {
            st.cache_hits.fetch_add(1, Relaxed);
            return (a.clone(), q.vars);
        }
        let mut ans = None;
        if q.nonlinear {
            let s: Vec<Rat> = q
                .vars
                .iter()
                .map(|v| start.and_then(|m| m.v.get(*v as usize).cloned()).unwrap_or(Rat::int(0)))
                .collect();
            let mut m = self.guess(&q, &s, 60);
            if m.is_none() {
                m = self.search(&q, &s, 60);
            }
            if let Some(m) = m {
                st.guessed.fetch_add(1, Relaxed);
                ans = Some(Ans::Sat(Some(m)));
            }
        }
        let ans = match ans {
            Some(a) => a,
            None => {
                let t0 = Instant::now();
                st.smt.fetch_add(1, Relaxed);
                let mut a = None;
                if q.nonlinear {
                    a = self.linear(&q, st);
                }
                let a = match a {
                    Some(a) => a,
                    None => {
                        if q.nonlinear {
                            st.nonlinear.fetch_add(1, Relaxed);
                        }
                        self.smt(&q)
                    }
                };
                let dt = t0.elapsed();
                st.nanos.fetch_add(dt.as_nanos() as u64, Relaxed);
                st.max_ms.fetch_max(dt.as_millis() as u64, Relaxed);
                a
            }
        };
        match &ans {
            Ans::Sat(_) => st.sat.fetch_add(1, Relaxed),
            Ans::Unsat => st.unsat.fetch_add(1, Relaxed),
            Ans::Unknown => st.unknown.fetch_add(1, Relaxed),
        };
        cache.map.lock().unwrap().insert(key, ans.clone());
        (ans, q.vars)
    }
    /// a sound relaxation: products become independent variables that only keep their bounds and
    /// the sign of squares. Unsatisfiable here means unsatisfiable.
    fn linear(&mut self, q: &Query, st: &Stats) -> Option<Ans> {
        let mut monos: BTreeMap<Vec<u16>, usize> = BTreeMap::new();
        let mut asserts = String::new();
        for (_, c) in &q.cons {
            let parts: Vec<String> = c
                .alts
                .iter()
                .map(|a| {
                    let s: Vec<String> = a.iter().map(|x| mask_text(&lin_smt(&x.p, &mut monos), x.m)).collect();
                    if s.len() == 1 {
                        s[0].clone()
                    } else {
                        format!("(and {})", s.join(" "))
                    }
                })
                .collect();
            let t = match parts.len() {
                0 => "false".to_string(),
                1 => parts[0].clone(),
                _ => format!("(or {})", parts.join(" ")),
            };
            asserts += &format!("(assert {})\n", t);
        }
        let mut body = String::from("(push)\n");
        let mut vars = vec![];
        for i in 0..q.vars.len() {
            vars.push(Var { input: true, int: false, lo: q.lo[i].clone(), hi: q.hi[i].clone() });
            body += &format!("(declare-const v{} Real)\n", i);
            if let Some(l) = &q.lo[i] {
                body += &format!("(assert (>= v{} {}))\n", i, l.smt());
            }
            if let Some(h) = &q.hi[i] {
                body += &format!("(assert (<= v{} {}))\n", i, h.smt());
            }
        }
        for k in monos.values() {
            body += &format!("(declare-const m{} Real)\n", k);
        }
        for (m, k) in &monos {
            let p = Poly { t: vec![(m.clone().into(), Rat::one())].into() };
            let (lo, hi) = interval(&p, &vars);
            let (lo, hi) = (if lo.abs() > 1e3 { lo.floor() } else { lo }, if hi.abs() > 1e3 { hi.ceil() } else { hi });
            if lo.is_finite() {
                if let Some(r) = Rat::from_f64(lo) {
                    body += &format!("(assert (>= m{} {}))\n", k, r.smt());
                }
            }
            if hi.is_finite() {
                if let Some(r) = Rat::from_f64(hi) {
                    body += &format!("(assert (<= m{} {}))\n", k, r.smt());
                }
            }
            if m.len() == 2 && m[0] != m[1] {
                if let (Some(x), Some(y)) = (monos.get(&vec![m[0], m[0]]), monos.get(&vec![m[1], m[1]])) {
                    body += &format!("(assert (>= (+ m{} m{}) (* 2.0 m{})))\n(assert (>= (+ m{} m{}) (* (- 2.0) m{})))\n", x, y, k, x, y, k);
                }
            }
        }
        body += &asserts;
        let fresh = self.z3.is_none();
        if fresh {
            self.z3 = Some(Z3::start(&self.bin));
        }
        let pre = if fresh { "(set-option :pp.decimal false)\n" } else { "" };
        let text = format!("{}(set-option :timeout 2000)\n{}(check-sat)", pre, body);
        let r = match self.z3.as_mut().unwrap().ask(&text, Duration::from_millis(6000)) {
            Some(r) => r,
            None => {
                self.z3 = None;
                return None;
            }
        };
        let mut out = None;
        let mut start = None;
        if r.iter().any(|l| l.contains("(error")) {
            eprintln!("solver error: {:?}\n{}", r, text);
            self.z3 = None;
            return None;
        }
        match r.iter().find(|l| matches!(l.as_str(), "sat" | "unsat" | "unknown")).map(|s| s.as_str()) {
            Some("unsat") => {
                st.linear.fetch_add(1, Relaxed);
                out = Some(Ans::Unsat)
            }
            Some("sat") => {
                let mut gv = String::from("(get-value (");
                for i in 0..q.vars.len() {
                    gv += &format!("v{} ", i);
                }
                gv += "))";
                let m = self.z3.as_mut().unwrap().ask(&gv, Duration::from_millis(5000));
                start = m.as_ref().and_then(|m| parse_values(&m.join(" "), q.vars.len()));
            }
            _ => {}
        }
        if self.z3.as_mut().unwrap().ask("(pop)", Duration::from_secs(5)).is_none() {
            self.z3 = None;
        }
        if let Some(s) = start {
            if let Some(m) = self.search(q, &s, 800) {
                st.guessed.fetch_add(1, Relaxed);
                return Some(Ans::Sat(Some(m)));
            }
        }
        out
    }
    fn smt(&mut self, q: &Query) -> Ans {
        let mut body = String::from("(push)\n");
        for i in 0..q.vars.len() {
            body += &format!("(declare-const v{} Real)\n", i);
            if let Some(l) = &q.lo[i] {
                body += &format!("(assert (>= v{} {}))\n", i, l.smt());
            }
            if let Some(h) = &q.hi[i] {
                body += &format!("(assert (<= v{} {}))\n", i, h.smt());
            }
            if q.int[i] {
                body += &format!("(assert (is_int v{}))\n", i);
            }
        }
        for (s, _) in &q.cons {
            body += &format!("(assert {})\n", s);
        }
        let mut last_unknown = true;
        let attempts: Vec<(&str, u64)> = if q.nonlinear && !q.int.contains(&true) {
            vec![("(check-sat-using qfnra-nlsat)", self.timeout_ms), ("(check-sat)", self.timeout_ms)]
        } else {
            vec![("(check-sat)", self.timeout_ms)]
        };
        for (cmd, ms) in attempts {
            let fresh = self.z3.is_none();
            if fresh {
                self.z3 = Some(Z3::start(&self.bin));
            }
            let pre = if fresh { "(set-option :pp.decimal false)\n" } else { "" };
            let text = format!("{}(set-option :timeout {})\n{}{}", pre, ms, body, cmd);
            if self.trace {
                eprintln!("{}", text);
            }
            let t0 = Instant::now();
            let r = self.z3.as_mut().unwrap().ask(&text, Duration::from_millis(ms * 2 + 2000));
            if self.trace {
                eprintln!("-> {:?} {:?}", r, t0.elapsed());
            }
            if t0.elapsed() > Duration::from_millis(800) {
                if let Ok(d) = std::env::var("IRSE_SLOW") {
                    let n = self.rnd();
                    let _ = std::fs::write(format!("{}/{:016x}.smt2", d, n), format!("; {:?} {:?}\n{}", r, t0.elapsed(), text));
                }
            }
            let r = match r {
                Some(r) => r,
                None => {
                    self.z3 = None;
                    continue;
                }
            };
            let verdict = r.iter().find(|l| matches!(l.as_str(), "sat" | "unsat" | "unknown")).cloned();
            let err = r.iter().any(|l| l.contains("(error"));
            if err {
                eprintln!("solver error: {:?}\n{}", r, text);
                self.z3 = None;
                continue;
            }
            match verdict.as_deref() {
                Some("unsat") => {
                    self.z3.as_mut().unwrap().ask("(pop)", Duration::from_secs(5));
                    return Ans::Unsat;
                }
                Some("sat") => {
                    let mut gv = String::from("(get-value (");
                    for i in 0..q.vars.len() {
                        gv += &format!("v{} ", i);
                    }
                    gv += "))";
                    let m = self.z3.as_mut().unwrap().ask(&gv, Duration::from_millis(5000));
                    let mut vals = m.as_ref().and_then(|m| parse_values(&m.join(" "), q.vars.len()));
                    if vals.is_none() {
                        // irrational values: ask for decimals
                        if let Some(z) = self.z3.as_mut() {
                            let m = z.ask(
                                &format!("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n{}\n(set-option :pp.decimal false)", gv),
                                Duration::from_millis(5000),
                            );
                            vals = m.as_ref().and_then(|m| parse_values(&m.join(" ").replace('?', ""), q.vars.len()));
                            if let Some(v) = &vals {
                                if !Self::ok(q, &Model { v: v.clone() }) {
                                    vals = None;
                                }
                            }
                        }
                    }
                    if self.z3.as_mut().unwrap().ask("(pop)", Duration::from_secs(5)).is_none() {
                        self.z3 = None;
                    }
                    if let Some(v) = &vals {
                        if !Self::ok(q, &Model { v: v.clone() }) {
                            eprintln!("model does not satisfy the query: {:?}\n{}", v, text);
                            vals = None;
                        }
                    }
                    return Ans::Sat(vals);
                }
                _ => {
                    if self.z3.as_mut().unwrap().ask("(pop)", Duration::from_secs(5)).is_none() {
                        self.z3 = None;
                    }
                    last_unknown = true;
                }
            }
        }
        let _ = last_unknown;
        Ans::Unknown
    }
}

/// parse ((v0 1.0) (v1 (- (/ 1.0 3.0))) ...)
fn parse_values(s: &str, n: usize) -> Option<Vec<Rat>> {
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut p = 0;
    let mut out = vec![None; n];
    if toks.get(p)? != "(" {
        return None;
    }
    p += 1;
    while toks.get(p)? == "(" {
        p += 1;
        let name = toks.get(p)?.clone();
        p += 1;
        let v = parse_val(&toks, &mut p)?;
        if toks.get(p)? != ")" {
            return None;
        }
        p += 1;
        let i: usize = name.strip_prefix('v')?.parse().ok()?;
        out[i] = Some(v);
    }
    out.into_iter().collect()
}
fn parse_val(t: &[String], p: &mut usize) -> Option<Rat> {
    let w = t.get(*p)?;
    *p += 1;
    if w == "(" {
        let op = t.get(*p)?.clone();
        *p += 1;
        let r = match op.as_str() {
            "-" => parse_val(t, p)?.neg(),
            "/" => {
                let a = parse_val(t, p)?;
                let b = parse_val(t, p)?;
                a.div(&b)
            }
            _ => return None,
        };
        if t.get(*p)? != ")" {
            return None;
        }
        *p += 1;
        return Some(r);
    }
    parse_dec(w)
}
pub fn parse_dec(w: &str) -> Option<Rat> {
    let (neg, w) = if let Some(r) = w.strip_prefix('-') { (true, r) } else { (false, w) };
    let (a, b) = match w.find('.') {
        Some(i) => (&w[..i], &w[i + 1..]),
        None => (w, ""),
    };
    let n = BigInt::parse(&format!("{}{}", a, b))?;
    let mut d = BigInt::from_i128(1);
    for _ in 0..b.len() {
        d = d.mul(&BigInt::from_i128(10));
    }
    let r = Rat::from_big(n, d);
    Some(if neg { r.neg() } else { r })
}

/// interval of a polynomial over the variable bounds, as f64 with outward slack
pub fn interval(p: &Poly, vars: &[Var]) -> (f64, f64) {
    let mut lo = 0.0f64;
    let mut hi = 0.0f64;
    let (mut any_neg, mut any_pos) = (false, false);
    for (m, c) in &p.t {
        let (mut a, mut b) = (1.0f64, 1.0f64);
        let mut i = 0;
        while i < m.len() {
            let v = m[i];
            let mut k = 1;
            while i + k < m.len() && m[i + k] == v {
                k += 1;
            }
            i += k;
            let vl = vars[v as usize].lo.as_ref().map_or(f64::NEG_INFINITY, |x| x.to_f64());
            let vh = vars[v as usize].hi.as_ref().map_or(f64::INFINITY, |x| x.to_f64());
            let (pl, ph) = if k % 2 == 0 {
                let x = vl.abs().powi(k as i32);
                let y = vh.abs().powi(k as i32);
                if vl <= 0.0 && vh >= 0.0 {
                    (0.0, x.max(y))
                } else {
                    (x.min(y), x.max(y))
                }
            } else {
                (vl.powi(k as i32), vh.powi(k as i32))
            };
            let z = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
            let c4 = [z(a, pl), z(a, ph), z(b, pl), z(b, ph)];
            a = c4.iter().cloned().fold(f64::INFINITY, f64::min);
            b = c4.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
        let cf = c.to_f64();
        let (x, y) = if cf >= 0.0 { (cf * a, cf * b) } else { (cf * b, cf * a) };
        any_neg |= !(x >= 0.0);
        any_pos |= !(y <= 0.0);
        lo += if x.is_nan() { f64::NEG_INFINITY } else { x };
        hi += if y.is_nan() { f64::INFINITY } else { y };
    }
    // sums of terms of one sign need no slack for sign decisions
    let w = |x: f64| x.abs() * 1e-12 + 1e-300;
    (if any_neg { lo - w(lo) } else { lo }, if any_pos { hi + w(hi) } else { hi })
}
