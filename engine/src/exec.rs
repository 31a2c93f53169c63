//! Symbolic interpreter for the IR.
use crate::ir::*;
use crate::num::*;
use crate::sym::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    D(f64),
    X(f64, Rc<Rat>),
    S(Arc<Poly>),
    Abs(Arc<Poly>),
    Bits(Arc<Poly>, bool), // bit pattern of a symbolic double; bool: as a total_cmp key
    Agg(Rc<Vec<V>>),
    U,
}

#[derive(Debug)]
pub enum End {
    Done,
    Infeasible,
    Stop,
    Panic(String),
    Error(String),
    Unsupported(String),
    CheckFailed,
}
type R<T> = Result<T, End>;

#[derive(Clone)]
pub struct Obj {
    bytes: Vec<u8>,
    cells: Option<Box<BTreeMap<u32, V>>>,
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { bytes: vec![0; n], cells: None }
    }
}

pub struct Frame {
    f: Arc<Func>,
    regs: Vec<V>,
    bb: u32,
    ip: usize,
    allocas: Vec<u32>,
    ret_dst: u32,
    normal: Option<u32>,
    /// the first frame of a thread: the thread-local variables of the thread that goes on after it
    thread: Option<Vec<(u32, Option<Obj>)>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook {
    None,
    Alloc,
    AllocZ,
    Realloc,
    Dealloc,
    Nop,
    Malloc,
    Calloc,
    CRealloc,
    Free,
    Memalign,
    Panic,
    Memcpy,
    Memset,
    Bcmp,
    Strlen,
    Keys,
    Print,
    FmtF64,
    Open,
    Read,
    Close,
    Fstat,
    Lseek,
    Write,
    Errno,
    Exp,
    Pow,
    Sqrt,
    Fmod,
    Id,
    Param,
    Sym,
    Choice,
    Sched,
    SchedOn,
    Parse,
    Assume,
    AssumeLe,
    AssumeLt,
    Check,
    Close2,
    Le,
    Same,
    Obs,
    ObsI,
    Expect,
    VFile,
    Token,
    RoundDec,
    Done,
    Ideal,
    Statx,
    Undef,
    ZeroInt,
    MinusOne,
    KeyCreate,
    ThreadCreate,
    ThreadJoin,
    Syscall,
    Sysconf,
}
pub fn hook_of(name: &str, defined: bool) -> Hook {
    use Hook::*;
    if name.contains("7___rustc") {
        if name.ends_with("___rust_alloc") {
            return Alloc;
        }
        if name.ends_with("___rust_alloc_zeroed") {
            return AllocZ;
        }
        if name.ends_with("___rust_realloc") {
            return Realloc;
        }
        if name.ends_with("___rust_dealloc") {
            return Dealloc;
        }
        if name.contains("no_alloc_shim_is_unstable") {
            return Nop;
        }
    }
    if name.contains("9panicking12catch_unwind") && !name.contains("8do_catch") && defined {
        return None;
    }
    if name.contains("4core9panicking")
        || name.contains("3std9panicking")
        || name.contains("7raw_vec12handle_error")
        || name.contains("5alloc18handle_alloc_error")
        || name.contains("3std7process5abort")
        || name == "abort"
        || name == "rust_begin_unwind"
    {
        return Panic;
    }
    if name.contains("hashmap_random_keys") {
        return Keys;
    }
    if name.contains("3std2io5stdio6__print") || name.contains("2io5stdio6_print") {
        return Print;
    }
    if name.contains("4core3fmt5floatd") && (name.ends_with("5Debug3fmt") || name.ends_with("7Display3fmt") || name.ends_with("8LowerExp3fmt") || name.ends_with("8UpperExp3fmt")) {
        return FmtF64;
    }
    match name {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => CRealloc,
        "free" => Free,
        "posix_memalign" => Memalign,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "bcmp" | "memcmp" => Bcmp,
        "strlen" => Strlen,
        "open64" => Open,
        "read" => Read,
        "close" => Close,
        "fstat64" => Fstat,
        "statx" => Statx,
        "lseek64" => Lseek,
        "write" => Write,
        "__errno_location" => Errno,
        "exp" => Exp,
        "pow" => Pow,
        "sqrt" => Sqrt,
        "fmod" => Fmod,
        "irse_id" => Id,
        "irse_param" => Param,
        "irse_sym" => Sym,
        "irse_choice" => Choice,
        "irse_sched" => Sched,
        "irse_sched_on" => SchedOn,
        "irse_parse" => Parse,
        "irse_assume" => Assume,
        "irse_assume_le" => AssumeLe,
        "irse_assume_lt" => AssumeLt,
        "irse_check" => Check,
        "irse_close" => Close2,
        "irse_le" => Le,
        "irse_same" => Same,
        "irse_obs" => Obs,
        "irse_obs_i" => ObsI,
        "irse_expect_panic" => Expect,
        "irse_vfile" => VFile,
        "irse_token" => Token,
        "irse_round_dec" => RoundDec,
        "irse_done" => Done,
        "irse_ideal" => Ideal,
        "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_setspecific" => ZeroInt,
        "getenv" | "pthread_getspecific" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" => ZeroInt,
        "pthread_detach" | "dlsym" | "sigaltstack" | "pthread_key_delete" | "clock_nanosleep" | "nanosleep" => ZeroInt,
        "sched_getaffinity" => MinusOne,
        "pthread_key_create" => KeyCreate,
        "pthread_create" => ThreadCreate,
        "pthread_join" => ThreadJoin,
        "syscall" => Syscall,
        "sysconf" => Sysconf,
        _ => {
            if defined {
                None
            } else {
                Undef
            }
        }
    }
}

pub struct Task {
    pub cfg: usize,
    pub prefix: Vec<u16>,
    pub model: Option<Vec<Rat>>,
    pub sure: bool,
}

pub struct Config {
    pub prop: String,
    pub harness: u32,
    pub name: String,
    pub params: Vec<i64>,
}

pub struct Violation {
    pub cfg: usize,
    pub check: u32,
    pub what: String,
    pub inputs: Vec<f64>,
    pub choices: Vec<u32>,
    pub scheds: Vec<u32>,
    pub confirmed: bool,
    pub native: String,
    pub path: String,
}
#[derive(Default, Clone)]
pub struct CfgStat {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub panics_expected: u64,
    pub unsupported: u64,
    pub concretized: u64,
    pub instrs: u64,
    pub decisions: u64,
    pub checks: BTreeMap<u32, [u64; 4]>, // id -> evaluated concretely true, decided by bounds, by solver, undecided
    pub unsup_msgs: BTreeMap<String, u64>,
    pub unproven: u64,
    pub validated: u64,
    pub diverged: u64,
    pub vsamples: u64,
    pub sample: String,
    pub samples_n: u64,
    pub first_div: String,
    pub leftover: u64,
    pub wall: f64,
    pub unconfirmed: u64,
}
/// The open paths. The configuration that has had the least time so far goes on; within it the newest
/// path, or now and then an arbitrary one, so that a search that cannot be completed sees many parts.
#[derive(Default)]
pub struct Queue {
    pub open: Vec<Vec<Task>>,
    pub used: Vec<f64>,
    pub active: usize,
    n: usize,
    tick: u64,
}
impl Queue {
    pub fn new(configs: usize) -> Queue {
        Queue { open: (0..configs).map(|_| vec![]).collect(), used: vec![0.; configs], ..Default::default() }
    }
    pub fn push(&mut self, t: Task) {
        self.n += 1;
        self.open[t.cfg].push(t);
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn pop(&mut self) -> Option<Task> {
        let c = (0..self.open.len()).filter(|c| !self.open[*c].is_empty()).min_by(|a, b| self.used[*a].total_cmp(&self.used[*b]))?;
        self.used[c] += 1e-3;
        self.n -= 1;
        self.tick = self.tick.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let v = &mut self.open[c];
        if (self.tick >> 33) % 4 == 0 {
            let k = (self.tick >> 35) as usize % v.len();
            Some(v.swap_remove(k))
        } else {
            v.pop()
        }
    }
}
pub struct Shared {
    pub m: Module,
    pub hooks: Vec<Hook>,
    pub cfgs: Vec<Config>,
    pub queue: Mutex<Queue>,
    pub cv: Condvar,
    pub stop: AtomicBool,
    pub deadline: Mutex<std::time::Instant>,
    pub cache: Cache,
    pub st: Stats,
    pub stats: Mutex<Vec<CfgStat>>,
    pub violations: Mutex<Vec<Violation>>,
    pub unconfirmed: Mutex<HashMap<(usize, u32), u32>>,
    pub native: Vec<Mutex<crate::native::Native>>,
    pub entry: u32,
    pub fn_used: Mutex<std::collections::BTreeSet<u32>>,
    pub max_instr: u64,
    pub paths_started: AtomicU64,
    pub validate_max: u64,
    pub z3: String,
    pub timeout_ms: u64,
    pub seed: u64,
}

struct FileH {
    data: Rc<Vec<u8>>,
    pos: usize,
}

pub struct Path<'a> {
    sh: &'a Shared,
    solver: &'a mut Solver,
    cfg: usize,
    prefix: &'a [u16],
    dec: Vec<u16>,
    model: Option<Model>,
    cons: Vec<Con>,
    masks: HashMap<Arc<Poly>, u8>,
    vars: Vec<Var>,
    inputs: Vec<u16>,
    choices: Vec<u32>,
    scheds: Vec<u32>,
    /// 0 tasks run in order, 1 every order, 2 one of three patterns for the whole run
    sched: u8,
    sched_pattern: Option<u32>,
    heap: Vec<Option<Obj>>,
    /// the blocks to be used again, per class of sizes
    free: HashMap<u64, Vec<u32>>,
    gover: HashMap<u32, Obj>,
    frames: Vec<Frame>,
    nglob: u32,
    obs: Vec<V>,
    files: HashMap<String, Rc<Vec<u8>>>,
    fds: Vec<Option<FileH>>,
    /// threads that have been created and not yet run: number, function, argument
    pending: Vec<(u64, u64, u64)>,
    created: u64,
    expect: bool,
    ideal: bool,
    /// comparisons of concrete numbers use their exact values too
    exact: bool,
    /// an exact comparison came out differently from the one of the f64 values
    odd: bool,
    instrs: u64,
    limit: u64,
    cs: CfgStat,
    div_memo: HashMap<(Poly, Poly), u16>,
    exp_memo: Vec<(Arc<Poly>, u16)>,
    sqrt_memo: Vec<(Arc<Poly>, u16)>,
    floor_memo: Vec<(Arc<Poly>, u16)>,
    single_memo: Vec<(Arc<Poly>, u16)>,
    /// an operation was over-approximated: counterexamples may need other values of the inputs
    lossy: bool,
    sure: bool,
    errno: u32,
    fns: Vec<bool>,
    tokens: Vec<V>,
    pub concretized: u64,
    printed: bool,
    last_loc: String,
}

fn rat_of(f: f64) -> Rat {
    Rat::from_f64(f).unwrap_or(Rat::zero())
}
const MAXBITS: usize = 256;

fn concrete_bin(o: FB, a: f64, b: f64) -> f64 {
    match o {
        FB::Add => a + b,
        FB::Sub => a - b,
        FB::Mul => a * b,
        FB::Div => a / b,
        FB::Rem => a % b,
    }
}

impl<'a> Path<'a> {
    pub fn new(sh: &'a Shared, solver: &'a mut Solver, t: &'a Task) -> Path<'a> {
        Path {
            sh,
            solver,
            cfg: t.cfg,
            prefix: &t.prefix,
            dec: vec![],
            model: Some(Model { v: t.model.clone().unwrap_or_default() }).filter(|_| t.sure),
            cons: vec![],
            masks: HashMap::new(),
            vars: vec![],
            inputs: vec![],
            choices: vec![],
            scheds: vec![],
            sched: 0,
            sched_pattern: None,
            heap: vec![],
            free: HashMap::new(),
            gover: HashMap::new(),
            frames: vec![],
            nglob: sh.m.globals.len() as u32,
            obs: vec![],
            files: HashMap::new(),
            fds: vec![],
            pending: vec![],
            created: 0,
            expect: false,
            ideal: true,
            exact: false,
            odd: false,
            instrs: 0,
            // large data sets may take longer
            limit: {
                let m = sh.cfgs[t.cfg].params.iter().copied().max().unwrap_or(0).max(0) as u64;
                sh.max_instr.max(8000 * m).max((60000 * m).min(80_000_000))
            },
            cs: CfgStat::default(),
            div_memo: HashMap::new(),
            exp_memo: vec![],
            sqrt_memo: vec![],
            floor_memo: vec![],
            single_memo: vec![],
            lossy: false,
            sure: t.sure,
            errno: u32::MAX,
            fns: vec![],
            tokens: vec![],
            concretized: 0,
            printed: false,
            last_loc: String::new(),
        }
    }

    // ---------- symbolic state ----------
    fn new_var(&mut self, v: Var, default: impl FnOnce(&Model) -> Option<Rat>) -> u16 {
        let id = self.vars.len() as u16;
        if self.vars.len() >= 60000 {
            panic!("too many symbolic variables");
        }
        self.vars.push(v);
        if let Some(m) = &mut self.model {
            if m.v.len() <= id as usize {
                match default(m) {
                    Some(r) => {
                        while m.v.len() < id as usize {
                            m.v.push(Rat::zero());
                        }
                        m.v.push(r)
                    }
                    None => self.model = None,
                }
            }
        }
        id
    }
    fn add_con(&mut self, c: Con) {
        if c.alts.len() == 1 {
            for a in &c.alts[0] {
                let (cn, fl) = a.p.canon();
                let m = if fl { flip_mask(a.m) } else { a.m };
                let e = self.masks.entry(Arc::new(cn)).or_insert(7);
                *e &= m;
            }
        }
        self.cons.push(c);
    }
    fn slice(&self, seed: u128) -> Vec<usize> {
        let mut vs = seed;
        let mut inn = vec![false; self.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in self.cons.iter().enumerate() {
                if !inn[i] && c.vars & vs != 0 {
                    inn[i] = true;
                    if c.vars & !vs != 0 {
                        vs |= c.vars;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (0..self.cons.len()).filter(|i| inn[*i]).collect()
    }
    /// is the path condition together with the extra constraint satisfiable?
    /// returns the answer and, if available, a model of the whole path condition
    fn query(&mut self, extra: &[Con]) -> (Ans, Option<Model>) {
        let seed = extra.iter().fold(0, |a, c| a | c.vars);
        let idx = self.slice(seed);
        let mut cs: Vec<&Con> = idx.iter().map(|i| &self.cons[*i]).collect();
        cs.extend(extra.iter());
        let (a, vl) = self.solver.solve(&cs, &self.vars, self.model.as_ref(), &self.sh.cache, &self.sh.st);
        if let Ans::Sat(Some(vals)) = &a {
            let base = match &self.model {
                Some(m) => Some(m.clone()),
                None => {
                    // solve the remaining constraints separately
                    let rest: Vec<usize> = (0..self.cons.len()).filter(|i| !idx.contains(i)).collect();
                    if rest.is_empty() {
                        Some(Model { v: self.defaults() })
                    } else {
                        let rc: Vec<&Con> = rest.iter().map(|i| &self.cons[*i]).collect();
                        let (a2, vl2) = self.solver.solve(&rc, &self.vars, None, &self.sh.cache, &self.sh.st);
                        match a2 {
                            Ans::Sat(Some(v2)) => {
                                let mut m = Model { v: self.defaults() };
                                for (i, v) in vl2.iter().enumerate() {
                                    m.v[*v as usize] = v2[i].clone();
                                }
                                Some(m)
                            }
                            _ => None,
                        }
                    }
                }
            };
            if let Some(mut m) = base {
                while m.v.len() < self.vars.len() {
                    m.v.push(Rat::zero());
                }
                for (i, v) in vl.iter().enumerate() {
                    m.v[*v as usize] = vals[i].clone();
                }
                return (a, Some(m));
            }
        }
        (a, None)
    }
    fn defaults(&self) -> Vec<Rat> {
        self.vars
            .iter()
            .map(|v| match (&v.lo, &v.hi) {
                (Some(l), Some(h)) => {
                    if l.sign() <= 0 && h.sign() >= 0 {
                        Rat::zero()
                    } else {
                        l.clone()
                    }
                }
                _ => Rat::one(),
            })
            .collect()
    }
    fn known_mask(&mut self, p: &Poly) -> (u8, Arc<Poly>, bool) {
        let (cn, fl) = p.canon();
        let cn = Arc::new(cn);
        let mut k = *self.masks.get(&cn).unwrap_or(&7);
        if k == 7 || k.count_ones() == 2 {
            let (lo, hi) = interval(&cn, &self.vars);
            if lo > 0.0 {
                k &= POS;
            } else if lo >= 0.0 {
                k &= ZERO | POS;
            }
            if hi < 0.0 {
                k &= NEG;
            } else if hi <= 0.0 {
                k &= ZERO | NEG;
            }
        }
        (k, cn, fl)
    }
    fn enqueue(&mut self, choice: u16, model: Option<Model>, sure: bool) {
        let mut p = self.dec.clone();
        p.push(choice);
        let t = Task { cfg: self.cfg, prefix: p, sure: sure && model.is_some(), model: model.map(|m| m.v) };
        let mut q = self.sh.queue.lock().unwrap();
        q.push(t);
        self.sh.cv.notify_one();
    }
    /// decide whether sign(p) is in the mask; forks when both are possible
    fn decide(&mut self, p: &Poly, want: u8) -> R<bool> {
        if let Some(c) = p.as_const() {
            return Ok(sign_mask(c.sign()) & want != 0);
        }
        let (known, cn, fl) = self.known_mask(p);
        let want = if fl { flip_mask(want) } else { want };
        let t = known & want;
        let f = known & !want;
        if f == 0 {
            return Ok(true);
        }
        if t == 0 {
            return Ok(false);
        }
        let ct = Con::atom(cn.clone(), t);
        let cf = Con::atom(cn.clone(), f);
        let k = self.fork2(ct, cf)?;
        Ok(k)
    }
    fn fork2(&mut self, ct: Con, cf: Con) -> R<bool> {
        if self.dec.len() < self.prefix.len() {
            let c = self.prefix[self.dec.len()];
            self.dec.push(c);
            let k = c == 1;
            self.add_con(if k { ct } else { cf });
            return Ok(k);
        }
        if self.sh.stop.load(Relaxed) {
            return Err(End::Stop);
        }
        self.cs.decisions += 1;
        if let Some(m) = &self.model {
            let k = ct.holds(m);
            let (mine, other) = if k { (ct, cf) } else { (cf, ct) };
            let (a, om) = self.query(std::slice::from_ref(&other));
            match a {
                Ans::Sat(_) => {
                    let s = self.sure;
                    self.enqueue(!k as u16, om, s)
                }
                Ans::Unknown => {
                    self.cs.unproven += 1;
                    self.enqueue(!k as u16, None, false)
                }
                Ans::Unsat => {}
            }
            self.dec.push(k as u16);
            self.add_con(mine);
            return Ok(k);
        }
        // no model: ask for both sides
        let (a, ma) = self.query(std::slice::from_ref(&ct));
        let (b, mb) = self.query(std::slice::from_ref(&cf));
        let fa = !matches!(a, Ans::Unsat);
        let fb = !matches!(b, Ans::Unsat);
        if matches!(a, Ans::Unknown) || matches!(b, Ans::Unknown) {
            self.cs.unproven += 1;
        }
        if fa {
            if fb {
                let s = matches!(b, Ans::Sat(_));
                self.enqueue(0, mb, s);
            }
            self.dec.push(1);
            if ma.is_some() {
                self.model = ma;
                self.sure = true;
            }
            self.add_con(ct);
            Ok(true)
        } else if fb {
            self.dec.push(0);
            if mb.is_some() {
                self.model = mb;
                self.sure = true;
            }
            self.add_con(cf);
            Ok(false)
        } else {
            Err(End::Infeasible)
        }
    }
    fn choose(&mut self, n: u32) -> R<u32> {
        if n <= 1 {
            return Ok(0);
        }
        if self.dec.len() < self.prefix.len() {
            let c = self.prefix[self.dec.len()];
            self.dec.push(c);
            return Ok(c as u32);
        }
        if self.sh.stop.load(Relaxed) {
            return Err(End::Stop);
        }
        self.cs.decisions += 1;
        for k in (1..n).rev() {
            let (m, s) = (self.model.clone(), self.sure);
            self.enqueue(k as u16, m, s);
        }
        self.dec.push(0);
        Ok(0)
    }
    fn replaying(&self) -> bool {
        self.dec.len() < self.prefix.len()
    }
    /// replace a symbolic value by its value in the current model (loses the other values)
    fn concretize(&mut self, p: &Arc<Poly>) -> R<f64> {
        self.concretized += 1;
        let m = match &self.model {
            Some(m) => m.clone(),
            None => {
                let (_, m) = self.query(&[]);
                match m {
                    Some(m) => m,
                    None => return Err(End::Unsupported("no model to concretize with".into())),
                }
            }
        };
        let v = m.eval(p);
        let f = v.to_f64();
        let v = rat_of(f);
        let d = p.sub(&Poly::konst(v));
        self.add_con(Con::atom(Arc::new(d), ZERO));
        Ok(f)
    }

    fn force(&mut self, v: V) -> R<V> {
        match v {
            V::Abs(p) => {
                if self.decide(&p, NEG)? {
                    Ok(V::S(Arc::new(p.neg())))
                } else {
                    Ok(V::S(p))
                }
            }
            V::U => Ok(V::D(0.0)),
            V::I(b) => Ok(V::D(f64::from_bits(b as u64))),
            V::Bits(p, false) => Ok(V::S(p)),
            v => Ok(v),
        }
    }
    fn poly_of(v: &V) -> Option<Poly> {
        match v {
            V::D(f) => Rat::from_f64(*f).map(Poly::konst),
            V::X(_, r) => Some(Poly::konst((**r).clone())),
            V::S(p) => Some((**p).clone()),
            _ => None,
        }
    }
    fn maxbits(&self) -> usize {
        if self.exact {
            4096
        } else {
            MAXBITS
        }
    }
    fn mk(&self, p: Poly) -> V {
        match p.as_const() {
            Some(c) => {
                let f = c.to_f64();
                if c.bits() > self.maxbits() || rat_of(f) == c {
                    V::D(f)
                } else {
                    V::X(f, Rc::new(c))
                }
            }
            None => V::S(Arc::new(p)),
        }
    }
    fn conc(v: &V) -> Option<f64> {
        match v {
            V::D(f) => Some(*f),
            V::X(f, _) => Some(*f),
            _ => None,
        }
    }
    fn fbin(&mut self, o: FB, a: V, b: V) -> R<V> {
        let a = self.force(a)?;
        let b = self.force(b)?;
        if let (Some(x), Some(y)) = (Self::conc(&a), Self::conc(&b)) {
            let r = concrete_bin(o, x, y);
            if o == FB::Div && y == 10.0 && !self.tokens.is_empty() {
                // the decimal parser has just produced the number standing for a symbolic value
                if let Some(v) = self.token_value(format!("{}", r).as_bytes()) {
                    return Ok(v);
                }
            }
            if !self.ideal || !r.is_finite() || o == FB::Rem {
                return Ok(V::D(r));
            }
            if let (V::D(_), V::D(_)) = (&a, &b) {
                if x.fract() == 0.0 && y.fract() == 0.0 && r.fract() == 0.0 && r.abs() < 9e15 && x.abs() < 9e15 && y.abs() < 9e15 {
                    if o != FB::Div || r * y == x {
                        return Ok(V::D(r));
                    }
                }
            }
            let ia = match &a {
                V::X(_, r) => (**r).clone(),
                _ => rat_of(x),
            };
            let ib = match &b {
                V::X(_, r) => (**r).clone(),
                _ => rat_of(y),
            };
            let ir = match o {
                FB::Add => ia.add(&ib),
                FB::Sub => ia.sub(&ib),
                FB::Mul => ia.mul(&ib),
                FB::Div => {
                    if ib.is_zero() {
                        return Ok(V::D(r));
                    }
                    ia.div(&ib)
                }
                FB::Rem => unreachable!(),
            };
            if ir.bits() > self.maxbits() || ir == rat_of(r) {
                return Ok(V::D(r));
            }
            return Ok(V::X(r, Rc::new(ir)));
        }
        // at least one symbolic
        for (v, other_first) in [(&a, false), (&b, true)] {
            if let Some(x) = Self::conc(v) {
                if x.is_nan() {
                    return Ok(V::D(f64::NAN));
                }
                if x.is_infinite() {
                    let s = if other_first { a.clone() } else { b.clone() };
                    let p = match &s {
                        V::S(p) => p.clone(),
                        _ => return Err(End::Unsupported("inf op".into())),
                    };
                    return Ok(V::D(match o {
                        FB::Add => x,
                        FB::Sub => {
                            if other_first {
                                -x
                            } else {
                                x
                            }
                        }
                        FB::Mul => {
                            if self.decide(&p, ZERO)? {
                                f64::NAN
                            } else if self.decide(&p, POS)? {
                                x
                            } else {
                                -x
                            }
                        }
                        FB::Div => {
                            if other_first {
                                0.0
                            } else if self.decide(&p, NEG)? {
                                -x
                            } else {
                                x
                            }
                        }
                        FB::Rem => return Err(End::Unsupported("frem".into())),
                    }));
                }
            }
        }
        let pa = Self::poly_of(&a).ok_or(End::Unsupported("fbin operand".into()))?;
        let pb = Self::poly_of(&b).ok_or(End::Unsupported("fbin operand".into()))?;
        let r = match o {
            FB::Add => pa.add(&pb),
            FB::Sub => pa.sub(&pb),
            FB::Mul => pa.mul(&pb),
            FB::Div => return self.fdiv(pa, pb),
            FB::Rem => {
                // x % 1.0 (fract) and friends: x - trunc(x / y) * y for a constant y
                if let Some(c) = pb.as_const() {
                    let q = self.mk(pa.scale(&c.inv()));
                    let t = self.round(q, 3)?;
                    let tp = Self::poly_of(&t).unwrap();
                    pa.sub(&tp.scale(&c))
                } else {
                    return Err(End::Unsupported("frem".into()));
                }
            }
        };
        if r.t.len() > 4000 {
            return Err(End::Unsupported("polynomial too large".into()));
        }
        Ok(self.mk(r))
    }
    fn fdiv(&mut self, num: Poly, den: Poly) -> R<V> {
        if let Some(c) = den.as_const() {
            if c.is_zero() {
                if self.decide(&num, ZERO)? {
                    return Ok(V::D(f64::NAN));
                }
                return Ok(V::D(if self.decide(&num, POS)? { f64::INFINITY } else { f64::NEG_INFINITY }));
            }
            return Ok(self.mk(num.scale(&c.inv())));
        }
        if self.decide(&den, ZERO)? {
            if self.decide(&num, ZERO)? {
                return Ok(V::D(f64::NAN));
            }
            return Ok(V::D(if self.decide(&num, POS)? { f64::INFINITY } else { f64::NEG_INFINITY }));
        }
        if num.t.is_empty() {
            return Ok(V::D(0.0));
        }
        let (cn, _) = num.canon();
        let (cd, _) = den.canon();
        // num = sn * cn, den = sd * cd
        let sn = num.t[0].1.div(&cn.t[0].1);
        let sd = den.t[0].1.div(&cd.t[0].1);
        let k = sn.div(&sd);
        if cn == cd {
            return Ok(self.mk(Poly::konst(k)));
        }
        let key = (cn.clone(), cd.clone());
        let q = match self.div_memo.get(&key) {
            Some(q) => *q,
            None => {
                let (cn2, cd2) = key.clone();
                let q = self.new_var(Var { input: false, int: false, lo: None, hi: None }, |m| {
                    let d = m.eval(&cd2);
                    if d.is_zero() {
                        None
                    } else {
                        Some(m.eval(&cn2).div(&d))
                    }
                });
                let qp = Poly::var(q);
                let rel = qp.mul(&key.1).sub(&key.0);
                self.add_con(Con::atom(Arc::new(rel), ZERO));
                // sign(q) = sign(num) * sign(den)
                let (a, d, z) = (Arc::new(key.0.clone()), Arc::new(key.1.clone()), Arc::new(qp));
                let at = |p: &Arc<Poly>, m: u8| Atom { p: p.clone(), m };
                self.cons.push(Con::dnf(vec![
                    vec![at(&a, POS), at(&d, POS), at(&z, POS)],
                    vec![at(&a, NEG), at(&d, NEG), at(&z, POS)],
                    vec![at(&a, POS), at(&d, NEG), at(&z, NEG)],
                    vec![at(&a, NEG), at(&d, POS), at(&z, NEG)],
                    vec![at(&a, ZERO), at(&z, ZERO)],
                ]));
                self.div_memo.insert(key, q);
                q
            }
        };
        Ok(self.mk(Poly::var(q).scale(&k)))
    }
    fn fexp(&mut self, a: V) -> R<V> {
        let a = self.force(a)?;
        if let Some(x) = Self::conc(&a) {
            return Ok(V::D(x.exp()));
        }
        let p = match a {
            V::S(p) => p,
            _ => return Err(End::Unsupported("exp".into())),
        };
        let over = p.sub(&Poly::konst(rat_of(709.782712893384)));
        if self.decide(&over, POS)? {
            return Ok(V::D(f64::INFINITY));
        }
        let under = p.add(&Poly::konst(rat_of(745.1332191019412)));
        if self.decide(&under, NEG)? {
            return Ok(V::D(0.0));
        }
        for (q, v) in &self.exp_memo {
            if *q == p {
                return Ok(V::S(Arc::new(Poly::var(*v))));
            }
        }
        let p2 = p.clone();
        let v = self.new_var(Var { input: false, int: false, lo: Some(Rat::zero()), hi: None }, |m| Rat::from_f64(m.eval(&p2).to_f64().exp()));
        let e = Arc::new(Poly::var(v));
        self.add_con(Con::atom(e.clone(), POS));
        let one = Poly::konst(Rat::one());
        let at = |p: Poly, m: u8| Atom { p: Arc::new(p), m };
        let rel = |d: Poly, ed: Poly| {
            Con::dnf(vec![
                vec![at(d.clone(), NEG), at(ed.clone(), NEG)],
                vec![at(d.clone(), ZERO), at(ed.clone(), ZERO)],
                vec![at(d, POS), at(ed, POS)],
            ])
        };
        let mut cs = vec![rel((*p).clone(), e.sub(&one))];
        for (q, w) in &self.exp_memo {
            cs.push(rel(p.sub(q), e.sub(&Poly::var(*w))));
        }
        self.cons.extend(cs);
        self.exp_memo.push((p, v));
        Ok(V::S(e))
    }
    fn fsqrt(&mut self, a: V) -> R<V> {
        let a = self.force(a)?;
        if let Some(x) = Self::conc(&a) {
            return Ok(V::D(x.sqrt()));
        }
        let p = match a {
            V::S(p) => p,
            _ => return Err(End::Unsupported("sqrt".into())),
        };
        if self.decide(&p, NEG)? {
            return Ok(V::D(f64::NAN));
        }
        if self.decide(&p, ZERO)? {
            return Ok(V::D(0.0));
        }
        for (q, v) in &self.sqrt_memo {
            if *q == p {
                return Ok(V::S(Arc::new(Poly::var(*v))));
            }
        }
        let p2 = p.clone();
        let v = self.new_var(Var { input: false, int: false, lo: Some(Rat::zero()), hi: None }, |m| {
            let x = m.eval(&p2);
            let s = rat_of(x.to_f64().sqrt());
            if s.mul(&s) == x {
                Some(s)
            } else {
                None
            }
        });
        let s = Poly::var(v);
        self.add_con(Con::atom(Arc::new(s.clone()), POS));
        self.cons.push(Con::atom(Arc::new(s.mul(&s).sub(&p)), ZERO));
        self.sqrt_memo.push((p, v));
        Ok(V::S(Arc::new(s)))
    }
    /// floor of a symbolic value by forking over the integers it can take
    fn int_part(&mut self, p: &Arc<Poly>) -> R<i64> {
        let (lo, hi) = interval(p, &self.vars);
        if !(hi - lo < 65536.0) {
            let f = self.concretize(p)?;
            return Ok(f.floor() as i64);
        }
        let (mut lo, mut hi) = (lo.floor() as i64, hi.floor() as i64);
        while lo < hi {
            let k = lo + (hi - lo) / 2;
            let d = p.sub(&Poly::konst(Rat::int(k + 1)));
            if self.decide(&d, NEG)? {
                hi = k;
            } else {
                lo = k + 1;
            }
        }
        Ok(lo)
    }
    /// floor of a symbolic value as a whole-number variable
    fn floor_var(&mut self, p: &Arc<Poly>) -> R<V> {
        let (lo, hi) = interval(p, &self.vars);
        if !(hi - lo > 8.0) {
            return Ok(V::D(self.int_part(p)? as f64));
        }
        if !(lo > -4e18 && hi < 4e18) {
            let f = self.concretize(p)?;
            return Ok(V::D(f.floor()));
        }
        for (q, v) in &self.floor_memo {
            if q == p {
                return Ok(V::S(Arc::new(Poly::var(*v))));
            }
        }
        let p2 = p.clone();
        let v = self.new_var(
            Var { input: false, int: true, lo: Some(Rat::int(lo.floor() as i64 - 1)), hi: Some(Rat::int(hi.floor() as i64 + 1)) },
            |m| Some(Rat::from_big(m.eval(&p2).floor(), BigInt::from_i128(1))),
        );
        let k = Poly::var(v);
        let d = p.sub(&k);
        self.add_con(Con::atom(Arc::new(d.clone()), ZERO | POS));
        self.add_con(Con::atom(Arc::new(d.sub(&Poly::konst(Rat::one()))), NEG));
        self.floor_memo.push((p.clone(), v));
        Ok(V::S(Arc::new(k)))
    }
    /// the nearest single-precision number, up to its rounding error
    fn single(&mut self, p: &Arc<Poly>) -> R<V> {
        for (q, v) in &self.single_memo {
            if q == p {
                return Ok(V::S(Arc::new(Poly::var(*v))));
            }
        }
        if self.decide(p, ZERO)? {
            return Ok(V::D(0.0));
        }
        let neg = self.decide(p, NEG)?;
        let p2 = p.clone();
        let v = self.new_var(Var { input: false, int: false, lo: None, hi: None }, |m| Rat::from_f64(m.eval(&p2).to_f64() as f32 as f64));
        let e = rat_of(1.0 / 16777216.0);
        let one = Rat::one();
        let tiny = Poly::konst(rat_of(1e-44));
        let (big, small) = (p.scale(&one.add(&e)), p.scale(&one.sub(&e)));
        let (hi, lo) = if neg { (small, big) } else { (big, small) };
        let r = Poly::var(v);
        self.add_con(Con::atom(Arc::new(r.sub(&hi).sub(&tiny)), NEG | ZERO));
        self.add_con(Con::atom(Arc::new(lo.sub(&r).sub(&tiny)), NEG | ZERO));
        self.lossy = true;
        self.single_memo.push((p.clone(), v));
        Ok(V::S(Arc::new(r)))
    }
    /// 0 floor, 1 ceil, 2 round half away, 3 trunc, 4 round half even
    fn round(&mut self, a: V, mode: u8) -> R<V> {
        let a = self.force(a)?;
        if let Some(x) = Self::conc(&a) {
            return Ok(V::D(match mode {
                0 => x.floor(),
                1 => x.ceil(),
                2 => x.round(),
                3 => x.trunc(),
                _ => x.round_ties_even(),
            }));
        }
        let p = match a {
            V::S(p) => p,
            _ => return Err(End::Unsupported("round".into())),
        };
        let half = Poly::konst(rat_of(0.5));
        match mode {
            0 => self.floor_var(&p),
            1 => {
                let k = self.floor_var(&Arc::new(p.neg()))?;
                self.fbin(FB::Sub, V::D(0.0), k)
            }
            2 | 3 => {
                let add = if mode == 2 { half } else { Poly::konst(Rat::zero()) };
                if self.decide(&p, NEG)? {
                    let k = self.floor_var(&Arc::new(p.neg().add(&add)))?;
                    self.fbin(FB::Sub, V::D(0.0), k)
                } else {
                    self.floor_var(&Arc::new(p.add(&add)))
                }
            }
            _ => {
                let q = p.add(&half);
                let k = self.floor_var(&Arc::new(q.clone()))?;
                let kp = Self::poly_of(&k).unwrap();
                if self.decide(&q.sub(&kp), ZERO)? {
                    // a tie: to the even neighbour
                    let h = self.mk(kp.scale(&rat_of(0.5)));
                    let f = self.round(h.clone(), 0)?;
                    let odd = Self::poly_of(&h).unwrap().sub(&Self::poly_of(&f).unwrap());
                    if !self.decide(&odd, ZERO)? {
                        return self.fbin(FB::Sub, k, V::D(1.0));
                    }
                }
                Ok(k)
            }
        }
    }
    fn fcmp(&mut self, fp: FP, a: V, b: V) -> R<bool> {
        // |x| against an infinity
        for (x, y, sw) in [(&a, &b, false), (&b, &a, true)] {
            if let V::Abs(_) = x {
                if let V::D(f) = y {
                    if f.is_nan() {
                        return Ok(fp.un);
                    }
                    if *f == f64::INFINITY || *f < 0.0 {
                        let less = (*f == f64::INFINITY) != sw;
                        return Ok(if less { fp.lt } else { fp.gt });
                    }
                }
            }
        }
        let a = self.force(a)?;
        let b = self.force(b)?;
        if let (Some(x), Some(y)) = (Self::conc(&a), Self::conc(&b)) {
            let mut o = x.partial_cmp(&y);
            if self.exact && x.is_finite() && y.is_finite() && (matches!(a, V::X(..)) || matches!(b, V::X(..))) {
                let r = |v: &V| match v {
                    V::X(_, r) => (**r).clone(),
                    _ => rat_of(Self::conc(v).unwrap_or(0.0)),
                };
                let e = Some(r(&a).cmp(&r(&b)));
                if e != o {
                    self.odd = true;
                    o = e;
                }
            }
            return Ok(match o {
                None => fp.un,
                Some(Ordering::Less) => fp.lt,
                Some(Ordering::Equal) => fp.eq,
                Some(Ordering::Greater) => fp.gt,
            });
        }
        for (v, first) in [(&a, true), (&b, false)] {
            if let Some(x) = Self::conc(v) {
                if x.is_nan() {
                    return Ok(fp.un);
                }
                if x.is_infinite() {
                    let less = (x < 0.0) == first;
                    return Ok(if less { fp.lt } else { fp.gt });
                }
            }
        }
        if fp.lt == fp.eq && fp.eq == fp.gt {
            return Ok(fp.lt);
        }
        let pa = Self::poly_of(&a).ok_or(End::Unsupported("fcmp operand".into()))?;
        let pb = Self::poly_of(&b).ok_or(End::Unsupported("fcmp operand".into()))?;
        let d = pa.sub(&pb);
        let m = if fp.lt { NEG } else { 0 } | if fp.eq { ZERO } else { 0 } | if fp.gt { POS } else { 0 };
        self.decide(&d, m)
    }

    // ---------- memory ----------
    /// like the C library, hands out the block of this size which was freed last
    fn alloc(&mut self, n: u64) -> u64 {
        self.alloc_in(n, (n + 23) & !15)
    }
    fn alloc_in(&mut self, n: u64, class: u64) -> u64 {
        let o = Some(Obj::new(n as usize));
        if let Some(k) = self.free.get_mut(&class).and_then(|v| v.pop()) {
            self.heap[k as usize] = o;
            return (self.nglob as u64 + k as u64 + 1) << 32;
        }
        self.heap.push(o);
        ((self.nglob as u64 + self.heap.len() as u64 - 1) + 1) << 32
    }
    fn obj(&self, addr: u64, n: u64, what: &str) -> R<(&Obj, usize)> {
        let id = (addr >> 32).wrapping_sub(1);
        let off = (addr & 0xffff_ffff) as usize;
        let o: Option<&Obj> = if addr < 1 << 32 {
            None
        } else if id < self.nglob as u64 {
            match self.gover.get(&(id as u32)) {
                Some(o) => Some(o),
                None => {
                    // read-only view of the initial contents
                    let g = &self.sh.m.globals[id as usize];
                    if off as u64 + n <= g.bytes.len() as u64 {
                        return Err(End::Unsupported(format!("__global {}", id)));
                    }
                    None
                }
            }
        } else {
            self.heap.get((id - self.nglob as u64) as usize).and_then(|o| o.as_ref())
        };
        match o {
            Some(o) if off as u64 + n <= o.bytes.len() as u64 => Ok((o, off)),
            Some(o) => Err(End::Error(format!("out-of-bounds {} of {} bytes at offset {} of an object of {}", what, n, off, o.bytes.len()))),
            None => Err(End::Error(format!("invalid {} at {:#x}", what, addr))),
        }
    }
    fn ensure_global(&mut self, addr: u64) {
        let id = (addr >> 32).wrapping_sub(1);
        if addr >= 1 << 32 && id < self.nglob as u64 && !self.gover.contains_key(&(id as u32)) {
            let g = &self.sh.m.globals[id as usize];
            self.gover.insert(id as u32, Obj { bytes: g.bytes.clone(), cells: None });
        }
    }
    fn rd(&mut self, addr: u64, n: u64, what: &str) -> R<(&Obj, usize)> {
        self.ensure_global(addr);
        self.obj(addr, n, what)
    }
    fn wr(&mut self, addr: u64, n: u64, what: &str) -> R<(&mut Obj, usize)> {
        self.ensure_global(addr);
        self.obj(addr, n, what)?;
        let id = (addr >> 32) - 1;
        let off = (addr & 0xffff_ffff) as usize;
        let o = if id < self.nglob as u64 {
            if self.sh.m.globals[id as usize].constant {
                return Err(End::Error("write to constant".into()));
            }
            self.gover.get_mut(&(id as u32)).unwrap()
        } else {
            self.heap[(id - self.nglob as u64) as usize].as_mut().unwrap()
        };
        Ok((o, off))
    }
    fn load(&mut self, t: &Ty, addr: u64) -> R<V> {
        match t {
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for i in 0..f.len() {
                    v.push(self.load(&f[i], addr + t.field_offset(i))?);
                }
                return Ok(V::Agg(Rc::new(v)));
            }
            Ty::Arr(n, e) => {
                let mut v = Vec::new();
                for i in 0..*n {
                    v.push(self.load(e, addr + i * e.size())?);
                }
                return Ok(V::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let n = t.size();
        let mut conc = None;
        {
            let (o, off) = self.rd(addr, n, "read")?;
            if let Some(c) = &o.cells {
                let lo = (off as u32).saturating_sub(7);
                let mut hit = None;
                for (k, v) in c.range(lo..(off as u64 + n) as u32) {
                    if *k as usize == off && n == 8 {
                        match (t, v) {
                            (Ty::F64, v) => return Ok(v.clone()),
                            (_, V::X(f, _)) => return Ok(V::I(f.to_bits() as u128)),
                            (_, V::S(p)) => return Ok(V::Bits(p.clone(), false)),
                            (_, v @ V::Bits(..)) => return Ok(v.clone()),
                            _ => {}
                        }
                    }
                    if let V::X(..) = v {
                        continue;
                    }
                    hit = Some((*k, v.clone()));
                }
                conc = hit;
            }
            if conc.is_none() {
                let b = &o.bytes[off..off + n as usize];
                return Ok(match t {
                    Ty::F64 => V::D(f64::from_le_bytes(b.try_into().unwrap())),
                    _ => {
                        let mut x = 0u128;
                        if n <= 8 {
                            let mut y = [0u8; 8];
                            y[..n as usize].copy_from_slice(b);
                            x = u64::from_le_bytes(y) as u128;
                        } else if n <= 16 {
                            let mut y = [0u8; 16];
                            y[..n as usize].copy_from_slice(b);
                            x = u128::from_le_bytes(y);
                        } else {
                            let _ = &mut x;
                            return Err(End::Unsupported(format!("load of {:?}", t)));
                        }
                        V::I(x & mask(t.bits() as u32))
                    }
                });
            }
        }
        // partial read of a symbolic double
        let (k, v) = conc.unwrap();
        let p = match v {
            V::S(p) | V::Abs(p) | V::Bits(p, _) => p,
            _ => return Err(End::Unsupported("partial read".into())),
        };
        let f = self.concretize(&p)?;
        let base = addr & !0xffff_ffff | k as u64;
        self.store(&Ty::F64, V::D(f), base)?;
        self.load(t, addr)
    }
    fn store(&mut self, t: &Ty, v: V, addr: u64) -> R<()> {
        match (t, &v) {
            (Ty::Struct(f, _), V::Agg(a)) => {
                for i in 0..f.len() {
                    self.store(&f[i], a[i].clone(), addr + t.field_offset(i))?;
                }
                return Ok(());
            }
            (Ty::Arr(n, e), V::Agg(a)) => {
                for i in 0..*n {
                    self.store(e, a[i as usize].clone(), addr + i * e.size())?;
                }
                return Ok(());
            }
            (Ty::Struct(..) | Ty::Arr(..), V::U) => return Ok(()),
            _ => {}
        }
        let n = t.size();
        let v = match v {
            V::Abs(_) => self.force(v)?,
            v => v,
        };
        let (o, off) = self.wr(addr, n, "write")?;
        if let Some(c) = &mut o.cells {
            let lo = (off as u32).saturating_sub(7);
            let ks: Vec<u32> = c.range(lo..(off as u64 + n) as u32).map(|x| *x.0).collect();
            for k in ks {
                c.remove(&k);
            }
        }
        match v {
            V::I(x) => {
                o.bytes[off..off + n as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]);
            }
            V::D(f) => o.bytes[off..off + 8].copy_from_slice(&f.to_le_bytes()),
            V::X(f, _) => {
                o.bytes[off..off + 8].copy_from_slice(&f.to_le_bytes());
                o.cells.get_or_insert_with(Default::default).insert(off as u32, v);
            }
            V::S(_) | V::Bits(..) => {
                if n != 8 {
                    return Err(End::Unsupported("narrow symbolic store".into()));
                }
                let v = match v {
                    V::Bits(p, false) => V::S(p),
                    v => v,
                };
                o.cells.get_or_insert_with(Default::default).insert(off as u32, v);
            }
            V::U => {}
            _ => return Err(End::Unsupported("store".into())),
        }
        Ok(())
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.rd(s, n, "read")?;
        let bytes = o.bytes[off..off + n as usize].to_vec();
        let mut cells: Vec<(u32, V)> = vec![];
        let mut partial = None;
        if let Some(c) = &o.cells {
            let lo = (off as u32).saturating_sub(7);
            for (k, v) in c.range(lo..(off as u64 + n) as u32) {
                if *k as usize >= off && *k as u64 + 8 <= off as u64 + n {
                    cells.push((*k - off as u32, v.clone()));
                } else if !matches!(v, V::X(..)) {
                    partial = Some((*k, v.clone()));
                }
            }
        }
        if let Some((k, v)) = partial {
            let p = match v {
                V::S(p) | V::Abs(p) | V::Bits(p, _) => p,
                _ => return Err(End::Unsupported("partial copy".into())),
            };
            let f = self.concretize(&p)?;
            self.store(&Ty::F64, V::D(f), s & !0xffff_ffff | k as u64)?;
            return self.memcpy(d, s, n);
        }
        let (o, off) = self.wr(d, n, "write")?;
        o.bytes[off..off + n as usize].copy_from_slice(&bytes);
        if let Some(c) = &mut o.cells {
            let lo = (off as u32).saturating_sub(7);
            let ks: Vec<u32> = c.range(lo..(off as u64 + n) as u32).map(|x| *x.0).collect();
            for k in ks {
                c.remove(&k);
            }
        }
        if !cells.is_empty() {
            let c = o.cells.get_or_insert_with(Default::default);
            for (k, v) in cells {
                c.insert(off as u32 + k, v);
            }
        }
        Ok(())
    }
    fn memset(&mut self, d: u64, b: u8, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.wr(d, n, "write")?;
        o.bytes[off..off + n as usize].fill(b);
        if let Some(c) = &mut o.cells {
            let lo = (off as u32).saturating_sub(7);
            let ks: Vec<u32> = c.range(lo..(off as u64 + n) as u32).map(|x| *x.0).collect();
            for k in ks {
                c.remove(&k);
            }
        }
        Ok(())
    }
    fn bytes(&mut self, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.rd(a, n, "read")?;
        Ok(o.bytes[off..off + n as usize].to_vec())
    }
    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32).wrapping_sub(1);
        if a & 0xffff_ffff != 0 || id < self.nglob as u64 {
            return Err(End::Error(format!("free of {:#x}", a)));
        }
        match self.heap.get_mut((id - self.nglob as u64) as usize) {
            Some(x @ Some(_)) => {
                let n = x.as_ref().unwrap().bytes.len() as u64;
                *x = None;
                self.free.entry((n + 23) & !15).or_default().push((id - self.nglob as u64) as u32);
                Ok(())
            }
            _ => Err(End::Error("double free".into())),
        }
    }

    // ---------- evaluation ----------
    #[inline]
    fn op(&self, o: &Op) -> V {
        match o {
            Op::R(r) => self.frames.last().unwrap().regs[*r as usize].clone(),
            Op::I(x) => V::I(*x),
            Op::D(d) => V::D(*d),
            Op::Undef => V::U,
            Op::Agg(v) => V::Agg(Rc::new(v.iter().map(|x| self.op(x)).collect())),
        }
    }
    fn int(&mut self, v: V) -> R<u128> {
        match v {
            V::I(x) => Ok(x),
            V::U => Ok(0),
            V::D(f) => Ok(f.to_bits() as u128),
            V::X(f, _) => Ok(f.to_bits() as u128),
            V::Bits(p, key) => {
                let f = self.concretize(&p)?;
                let b = f.to_bits() as i64;
                Ok((if key { b ^ (((b >> 63) as u64) >> 1) as i64 } else { b }) as u64 as u128)
            }
            V::S(p) | V::Abs(p) => Ok(self.concretize(&p)?.to_bits() as u128),
            V::Agg(_) => Err(End::Unsupported("aggregate as integer".into())),
        }
    }
    fn iop(&mut self, o: &Op) -> R<u128> {
        match o {
            Op::I(x) => Ok(*x),
            Op::R(r) => {
                if let V::I(x) = &self.frames.last().unwrap().regs[*r as usize] {
                    return Ok(*x);
                }
                let v = self.op(o);
                self.int(v)
            }
            _ => {
                let v = self.op(o);
                self.int(v)
            }
        }
    }
    fn bin1(o: B, bits: u32, a: u128, b: u128) -> R<u128> {
        let mk = mask(bits);
        Ok(match o {
            B::Add => a.wrapping_add(b) & mk,
            B::Sub => a.wrapping_sub(b) & mk,
            B::Mul => a.wrapping_mul(b) & mk,
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
            B::Shl => {
                if b >= bits as u128 {
                    0
                } else {
                    (a << b) & mk
                }
            }
            B::LShr => {
                if b >= bits as u128 {
                    0
                } else {
                    a >> b
                }
            }
            B::AShr => {
                let s = sext(a, bits);
                (s >> b.min(127)) as u128 & mk
            }
            B::UDiv | B::URem => {
                if b == 0 {
                    return Err(End::Error("division by zero".into()));
                }
                if o == B::UDiv {
                    a / b
                } else {
                    a % b
                }
            }
            B::SDiv | B::SRem => {
                let (x, y) = (sext(a, bits), sext(b, bits));
                if y == 0 {
                    return Err(End::Error("division by zero".into()));
                }
                (if o == B::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) }) as u128 & mk
            }
        })
    }
    fn lanes(t: &Ty) -> (u32, u32) {
        match t {
            Ty::Vec(n, e) => (*n, e.bits() as u32),
            _ => (1, t.bits() as u32),
        }
    }
    fn bin(&mut self, o: B, t: &Ty, a: V, b: V) -> R<V> {
        // bit tricks on symbolic doubles
        if let (V::Bits(p, key), y) = (&a, &b) {
            let (p, key) = (p.clone(), *key);
            if let V::I(y) = y {
                match (o, *y as u64) {
                    (B::And, 0x7fff_ffff_ffff_ffff) if !key => return Ok(V::Abs(p)),
                    (B::Xor, 0x8000_0000_0000_0000) if !key => return Ok(V::Bits(Arc::new(p.neg()), false)),
                    (B::Xor, 0) => return Ok(a.clone()),
                    (B::Xor, 0x7fff_ffff_ffff_ffff) => return Ok(V::Bits(p, true)),
                    (B::LShr, 63) | (B::AShr, 63) => {
                        let n = self.decide(&p, NEG)?;
                        return Ok(V::I(if !n {
                            0
                        } else if o == B::LShr {
                            1
                        } else {
                            u64::MAX as u128
                        }));
                    }
                    _ => {}
                }
            }
        }
        if let (V::I(0), V::Bits(..), B::Xor) = (&a, &b, o) {
            return Ok(b);
        }
        if let (V::I(0x7fff_ffff_ffff_ffff), V::Bits(p, _), B::Xor) = (&a, &b, o) {
            return Ok(V::Bits(p.clone(), true));
        }
        let x = self.int(a)?;
        let y = self.int(b)?;
        let (n, bits) = Self::lanes(t);
        if n == 1 {
            return Ok(V::I(Self::bin1(o, bits, x, y)?));
        }
        let mut r = 0u128;
        let mk = mask(bits);
        for i in 0..n {
            let s = i * bits;
            r |= Self::bin1(o, bits, (x >> s) & mk, (y >> s) & mk)? << s;
        }
        Ok(V::I(r))
    }
    fn icmp1(p: P, bits: u32, a: u128, b: u128) -> bool {
        match p {
            P::Eq => a == b,
            P::Ne => a != b,
            P::Ugt => a > b,
            P::Uge => a >= b,
            P::Ult => a < b,
            P::Ule => a <= b,
            P::Sgt => sext(a, bits) > sext(b, bits),
            P::Sge => sext(a, bits) >= sext(b, bits),
            P::Slt => sext(a, bits) < sext(b, bits),
            P::Sle => sext(a, bits) <= sext(b, bits),
        }
    }
    fn key_to_poly(v: &V) -> Option<Poly> {
        match v {
            V::Bits(p, _) => Some((**p).clone()),
            V::I(k) => {
                let k = *k as u64 as i64;
                let b = k ^ (((k >> 63) as u64) >> 1) as i64;
                let f = f64::from_bits(b as u64);
                Rat::from_f64(f).map(Poly::konst)
            }
            _ => None,
        }
    }
    fn icmp(&mut self, p: P, t: &Ty, a: V, b: V) -> R<V> {
        if matches!(a, V::Bits(..)) || matches!(b, V::Bits(..)) {
            // total order keys, equality of bit patterns, sign tests
            let m = match p {
                P::Eq => Some(ZERO),
                P::Ne => Some(NEG | POS),
                P::Slt => Some(NEG),
                P::Sle => Some(NEG | ZERO),
                P::Sgt => Some(POS),
                P::Sge => Some(POS | ZERO),
                _ => None,
            };
            if let Some(m) = m {
                if let (V::Bits(q, _), V::I(0)) = (&a, &b) {
                    if p == P::Slt || p == P::Sge {
                        let n = self.decide(&q.clone(), NEG)?;
                        return Ok(V::I((n == (p == P::Slt)) as u128));
                    }
                }
                if let (V::Bits(q, _), V::I(k)) = (&a, &b) {
                    if *k as u64 == u64::MAX && p == P::Sgt {
                        let n = self.decide(&q.clone(), NEG)?;
                        return Ok(V::I(!n as u128));
                    }
                }
                if let (Some(x), Some(y)) = (Self::key_to_poly(&a), Self::key_to_poly(&b)) {
                    return Ok(V::I(self.decide(&x.sub(&y), m)? as u128));
                }
            }
        }
        let x = self.int(a)?;
        let y = self.int(b)?;
        let (n, bits) = Self::lanes(t);
        if n == 1 {
            return Ok(V::I(Self::icmp1(p, bits, x, y) as u128));
        }
        let mk = mask(bits);
        let mut r = 0u128;
        for i in 0..n {
            if Self::icmp1(p, bits, (x >> (i * bits)) & mk, (y >> (i * bits)) & mk) {
                r |= 1 << i;
            }
        }
        Ok(V::I(r))
    }
    fn f2i(&mut self, v: V, bits: u32, signed: bool) -> R<V> {
        let v = self.force(v)?;
        let x = match &v {
            V::D(f) | V::X(f, _) => *f,
            V::S(_) => match self.round(v, 3)? {
                V::S(p) => self.int_part(&p)? as f64,
                v => Self::conc(&v).unwrap_or(0.0),
            },
            _ => return Err(End::Unsupported("fptoi".into())),
        };
        let r: i128 = if signed {
            let hi = (1i128 << (bits - 1)) - 1;
            (x as i128).clamp(-hi - 1, hi)
        } else {
            let hi = if bits >= 127 { i128::MAX } else { (1i128 << bits) - 1 };
            (x as i128).clamp(0, hi)
        };
        Ok(V::I(r as u128 & mask(bits)))
    }
    fn cast(&mut self, c: C, t: &Ty, v: V, t2: &Ty) -> R<V> {
        match c {
            C::Bitcast => match (t, t2, v) {
                (Ty::F64, _, V::D(f)) => Ok(V::I(f.to_bits() as u128)),
                (Ty::F64, _, V::X(f, _)) => Ok(V::I(f.to_bits() as u128)),
                (Ty::F64, _, V::S(p)) => Ok(V::Bits(p, false)),
                (Ty::F64, _, v @ V::Abs(_)) => match self.force(v)? {
                    V::S(p) => Ok(V::Bits(p, false)),
                    _ => Err(End::Unsupported("bitcast".into())),
                },
                (_, Ty::F64, V::I(x)) => Ok(V::D(f64::from_bits(x as u64))),
                (_, Ty::F64, V::Bits(p, false)) => Ok(V::S(p)),
                (_, Ty::F64, V::Bits(p, true)) => {
                    let f = self.concretize(&p)?;
                    let b = f.to_bits() as i64;
                    Ok(V::D(f64::from_bits((b ^ (((b >> 63) as u64) >> 1) as i64) as u64)))
                }
                (_, Ty::F64, v @ (V::Abs(_) | V::S(_))) => Ok(v),
                (_, _, v) => Ok(v),
            },
            C::PtrToInt | C::IntToPtr => {
                let x = self.int(v)?;
                Ok(V::I(x & mask(t2.bits() as u32)))
            }
            C::Zext | C::Trunc | C::Sext => {
                let x = self.int(v)?;
                let (n, fb) = Self::lanes(t);
                let (_, tb) = Self::lanes(t2);
                if n as u64 * tb as u64 > 128 {
                    return Err(End::Unsupported("wide vector".into()));
                }
                let mut r = 0u128;
                for i in 0..n {
                    let e = (x >> (i * fb)) & mask(fb);
                    let y = match c {
                        C::Sext => sext(e, fb) as u128,
                        _ => e,
                    } & mask(tb);
                    r |= if n == 1 { y } else { y << (i * tb) };
                }
                Ok(V::I(r))
            }
            C::UiToFp | C::SiToFp => {
                if *t2 != Ty::F64 {
                    return Err(End::Unsupported("itofp".into()));
                }
                let x = self.int(v)?;
                Ok(V::D(if c == C::UiToFp { x as f64 } else { sext(x, t.bits() as u32) as f64 }))
            }
            C::FpToUi => {
                if *t != Ty::F64 {
                    return Err(End::Unsupported("fptoui".into()));
                }
                self.f2i(v, t2.bits() as u32, false)
            }
            C::FpToSi => {
                if *t != Ty::F64 {
                    return Err(End::Unsupported("fptosi".into()));
                }
                self.f2i(v, t2.bits() as u32, true)
            }
            C::FpExt | C::FpTrunc => match (t, t2, &v) {
                (Ty::F64, Ty::F32, _) => {
                    let v = self.force(v)?;
                    let v = match &v {
                        V::S(p) => self.single(&p.clone())?,
                        _ => v,
                    };
                    match Self::conc(&v) {
                        Some(f) => Ok(V::I((f as f32).to_bits() as u128)),
                        None => Ok(v),
                    }
                }
                (Ty::F32, Ty::F64, V::S(_)) => Ok(v),
                (Ty::F32, Ty::F64, V::I(x)) => Ok(V::D(f32::from_bits(*x as u32) as f64)),
                _ => Err(End::Unsupported("fp cast".into())),
            },
        }
    }
    #[inline]
    fn set(&mut self, dst: u32, v: V) {
        if dst != u32::MAX {
            let f = self.frames.last_mut().unwrap();
            f.regs[dst as usize] = v;
        }
    }
    fn jump(&mut self, to: u32) -> R<()> {
        let f = self.frames.last().unwrap();
        let from = f.bb;
        let func = f.f.clone();
        let blk = &func.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                match p.inc.iter().find(|x| x.0 == from) {
                    Some((_, o)) => vals.push((p.dst, self.op(o))),
                    None => return Err(End::Unsupported(format!("phi without edge in {}", func.name))),
                }
            }
            for (d, v) in vals {
                self.set(d, v);
            }
        }
        let f = self.frames.last_mut().unwrap();
        f.bb = to;
        f.ip = 0;
        Ok(())
    }
    fn push_frame(&mut self, ix: u32, args: Vec<V>, ret_dst: u32, normal: Option<u32>) -> R<()> {
        let f = self.sh.m.body(ix).ok_or_else(|| End::Unsupported(format!("no body: {}", self.sh.m.fns[ix as usize].name)))?;
        if self.frames.len() > 1500 {
            return Err(End::Error("unbounded recursion".into()));
        }
        if self.fns.len() <= ix as usize {
            self.fns.resize(self.sh.m.fns.len(), false);
        }
        self.fns[ix as usize] = true;
        let mut regs = vec![V::U; f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*p as usize] = a.clone();
            }
        }
        self.frames.push(Frame { f, regs, bb: 0, ip: 0, allocas: vec![], ret_dst, normal, thread: None });
        Ok(())
    }
    fn finish_call(&mut self, dst: u32, v: V, normal: Option<u32>) -> R<()> {
        self.set(dst, v);
        if let Some(b) = normal {
            self.jump(b)?;
        }
        Ok(())
    }
    pub fn run(&mut self, entry: u32) -> End {
        if let Err(e) = self.push_frame(entry, vec![], u32::MAX, None) {
            return e;
        }
        loop {
            match self.step() {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(e) => return e,
            }
        }
    }
    fn step(&mut self) -> R<bool> {
        let fr = self.frames.last_mut().unwrap();
        let func = fr.f.clone();
        let blk = &func.blocks[fr.bb as usize];
        loop {
            self.instrs += 1;
            let fr = self.frames.last_mut().unwrap();
            let ins = match blk.ins.get(fr.ip) {
                Some(i) => i,
                None => return Err(End::Unsupported(format!("fell off block in {}", func.name))),
            };
            fr.ip += 1;
            match &ins.k {
                K::Bin(o, t, a, b) => {
                    let a = self.op(a);
                    let b = self.op(b);
                    if let (V::I(x), V::I(y), Ty::I(bits)) = (&a, &b, t) {
                        let r = Self::bin1(*o, *bits, *x, *y)?;
                        self.set(ins.dst, V::I(r));
                    } else {
                        let r = self.bin(*o, t, a, b)?;
                        self.set(ins.dst, r);
                    }
                }
                K::ICmp(p, t, a, b) => {
                    let a = self.op(a);
                    let b = self.op(b);
                    let r = self.icmp(*p, t, a, b)?;
                    self.set(ins.dst, r);
                }
                K::Gep(b, off, steps) => {
                    let mut x = self.iop(b)? as u64;
                    x = x.wrapping_add(*off as u64);
                    for (o, bits, sc) in steps {
                        let i = sext(self.iop(o)?, *bits) as i64;
                        x = x.wrapping_add(i.wrapping_mul(*sc) as u64);
                    }
                    self.set(ins.dst, V::I(x as u128));
                }
                K::Load(t, p) => {
                    let a = self.iop(p)? as u64;
                    let v = self.load(t, a)?;
                    self.set(ins.dst, v);
                }
                K::Store(t, v, p) => {
                    let v = self.op(v);
                    let a = self.iop(p)? as u64;
                    self.store(t, v, a)?;
                }
                K::Br(b) => {
                    self.jump(*b)?;
                    return self.tick();
                }
                K::CondBr(c, a, b) => {
                    let x = self.iop(c)?;
                    self.jump(if x & 1 == 1 { *a } else { *b })?;
                    return self.tick();
                }
                K::Switch(v, d, cs) => {
                    let x = self.iop(v)?;
                    let to = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                    self.jump(to)?;
                    return self.tick();
                }
                K::Select(_, c, a, b) => {
                    let x = self.iop(c)?;
                    let v = self.op(if x & 1 == 1 { a } else { b });
                    self.set(ins.dst, v);
                }
                K::Cast(c, t, v, t2) => {
                    let v = self.op(v);
                    let r = self.cast(*c, t, v, t2)?;
                    self.set(ins.dst, r);
                }
                K::FBin(o, a, b) => {
                    let (a, b) = (self.op(a), self.op(b));
                    let r = self.fbin(*o, a, b)?;
                    self.set(ins.dst, r);
                }
                K::FNeg(a) => {
                    let a = self.op(a);
                    let a = self.force(a)?;
                    let r = match a {
                        V::D(f) => V::D(-f),
                        V::X(f, r) => V::X(-f, Rc::new(r.neg())),
                        V::S(p) => V::S(Arc::new(p.neg())),
                        _ => return Err(End::Unsupported("fneg".into())),
                    };
                    self.set(ins.dst, r);
                }
                K::FCmp(fp, a, b) => {
                    let (a, b) = (self.op(a), self.op(b));
                    let r = self.fcmp(*fp, a, b)?;
                    self.set(ins.dst, V::I(r as u128));
                }
                K::Alloca(sz, _, n) => {
                    let k = self.iop(n)? as u64;
                    // blocks of the stack have odd classes
                    let a = self.alloc_in(*sz * k, (*sz * k) << 1 | 1);
                    let id = ((a >> 32) - 1) as u32;
                    self.frames.last_mut().unwrap().allocas.push(id);
                    self.set(ins.dst, V::I(a as u128));
                }
                K::Call { callee, args, ret, normal } => {
                    let mut av = Vec::with_capacity(args.len());
                    for (_, a) in args {
                        av.push(self.op(a));
                    }
                    match callee {
                        Callee::Intr(n) => {
                            let v = self.intrinsic(n, args, av, ret)?;
                            self.finish_call(ins.dst, v, *normal)?;
                            if normal.is_some() {
                                return Ok(true);
                            }
                        }
                        Callee::F(ix) => {
                            if self.call(*ix, av, ins.dst, *normal)? || normal.is_some() {
                                return self.tick();
                            }
                        }
                        Callee::Ptr(p) => {
                            let a = self.iop(p)? as u64;
                            let ix = (a >> 32).wrapping_sub(FUNC_OBJ);
                            if a & 0xffff_ffff != 0 || ix >= self.sh.m.fns.len() as u64 {
                                return Err(End::Error(format!("call of invalid pointer {:#x}", a)));
                            }
                            if self.call(ix as u32, av, ins.dst, *normal)? || normal.is_some() {
                                return self.tick();
                            }
                        }
                    }
                }
                K::Ret(v) => {
                    let v = match v {
                        Some(o) => self.op(o),
                        None => V::U,
                    };
                    let fr = self.frames.pop().unwrap();
                    let mut v = v;
                    if let Some(saved) = fr.thread {
                        for (g, o) in saved {
                            match o {
                                Some(o) => self.gover.insert(g, o),
                                None => self.gover.remove(&g),
                            };
                        }
                        v = V::I(0);
                    }
                    for id in fr.allocas.into_iter().rev() {
                        let k = id - self.nglob;
                        if let Some(o) = self.heap[k as usize].take() {
                            self.free.entry((o.bytes.len() as u64) << 1 | 1).or_default().push(k);
                        }
                    }
                    if self.frames.is_empty() {
                        return Ok(false);
                    }
                    self.finish_call(fr.ret_dst, v, fr.normal)?;
                    return self.tick();
                }
                K::Extract(v, p) => {
                    let mut v = self.op(v);
                    for i in p {
                        v = match v {
                            V::Agg(a) => a[*i as usize].clone(),
                            V::U => V::U,
                            _ => return Err(End::Unsupported("extractvalue".into())),
                        };
                    }
                    self.set(ins.dst, v);
                }
                K::Insert(t, v, e, p) => {
                    let v = self.op(v);
                    let e = self.op(e);
                    let r = Self::insert(t, v, e, p)?;
                    self.set(ins.dst, r);
                }
                K::Copy(v) => {
                    let v = self.op(v);
                    self.set(ins.dst, v);
                }
                K::Rmw(o, t, p, v) => {
                    let a = self.iop(p)? as u64;
                    let old = self.load(t, a)?;
                    let v = self.op(v);
                    let x = self.int(old)?;
                    let y = self.int(v)?;
                    let bits = t.bits() as u32;
                    let r = match &**o {
                        "xchg" => y,
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "and" => x & y,
                        "or" => x | y,
                        "xor" => x ^ y,
                        "umax" => x.max(y),
                        "umin" => x.min(y),
                        "nand" => !(x & y),
                        _ => return Err(End::Unsupported(format!("atomicrmw {}", o))),
                    } & mask(bits);
                    self.store(t, V::I(r), a)?;
                    self.set(ins.dst, V::I(x));
                }
                K::CmpXchg(t, p, a, b) => {
                    let addr = self.iop(p)? as u64;
                    let old = self.load(t, addr)?;
                    let x = self.int(old)?;
                    let a = self.iop(a)?;
                    let ok = x == a;
                    if ok {
                        let b = self.op(b);
                        self.store(t, b, addr)?;
                    }
                    self.set(ins.dst, V::Agg(Rc::new(vec![V::I(x), V::I(ok as u128)])));
                }
                K::ExtElem(t, v, i) => {
                    let (_, bits) = Self::lanes(t);
                    let x = self.iop(v)?;
                    let i = self.iop(i)? as u32;
                    let e = (x >> (i * bits)) & mask(bits);
                    let r = if *t.field(0) == Ty::F64 { V::D(f64::from_bits(e as u64)) } else { V::I(e) };
                    self.set(ins.dst, r);
                }
                K::InsElem(t, v, e, i) => {
                    let (_, bits) = Self::lanes(t);
                    let x = self.iop(v)?;
                    let e = self.iop(e)? & mask(bits);
                    let i = self.iop(i)? as u32;
                    if (i + 1) * bits > 128 {
                        return Err(End::Unsupported("wide vector".into()));
                    }
                    let r = (x & !(mask(bits) << (i * bits))) | (e << (i * bits));
                    self.set(ins.dst, V::I(r));
                }
                K::Shuffle(t, a, b, ms) => {
                    let (n, bits) = Self::lanes(t);
                    let x = self.iop(a)?;
                    let y = self.iop(b)?;
                    if ms.len() as u32 * bits > 128 {
                        return Err(End::Unsupported("wide vector".into()));
                    }
                    let mut r = 0u128;
                    for (k, m) in ms.iter().enumerate() {
                        let e = if *m < 0 {
                            0
                        } else if (*m as u32) < n {
                            x >> (*m as u32 * bits)
                        } else {
                            y >> ((*m as u32 - n) * bits)
                        } & mask(bits);
                        r |= e << (k as u32 * bits);
                    }
                    self.set(ins.dst, V::I(r));
                }
                K::Unreachable => return Err(End::Error("reached unreachable code".into())),
                K::Resume => return Err(End::Error("resume".into())),
                K::Nop => {}
                K::Bad(s) => return Err(End::Unsupported(s.clone())),
            }
        }
    }
    fn tick(&mut self) -> R<bool> {
        if self.instrs > self.limit {
            return Err(End::Error("instruction budget exhausted (possible non-termination)".into()));
        }
        Ok(true)
    }
    fn insert(t: &Ty, v: V, e: V, p: &[u32]) -> R<V> {
        if p.is_empty() {
            return Ok(e);
        }
        let n = match t {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            _ => return Err(End::Unsupported("insertvalue".into())),
        };
        let mut a = match v {
            V::Agg(a) => (*a).clone(),
            _ => vec![V::U; n],
        };
        let i = p[0] as usize;
        a[i] = Self::insert(t.field(i), a[i].clone(), e, &p[1..])?;
        Ok(V::Agg(Rc::new(a)))
    }
    fn intrinsic(&mut self, n: &str, args: &[(Ty, Op)], a: Vec<V>, ret: &Ty) -> R<V> {
        let base = &n[5..];
        let st = |p: &str| base.starts_with(p);
        if st("memcpy") || st("memmove") {
            let (d, s, k) = (self.int(a[0].clone())? as u64, self.int(a[1].clone())? as u64, self.int(a[2].clone())? as u64);
            self.memcpy(d, s, k)?;
            return Ok(V::U);
        }
        if st("memset") {
            let (d, b, k) = (self.int(a[0].clone())? as u64, self.int(a[1].clone())? as u8, self.int(a[2].clone())? as u64);
            self.memset(d, b, k)?;
            return Ok(V::U);
        }
        if st("threadlocal.address") || st("expect") || st("launder") || st("strip.invariant") || st("ptr.annotation") {
            return Ok(a[0].clone());
        }
        if st("is.constant") {
            return Ok(V::I(0));
        }
        if st("trap") || st("debugtrap") || st("ubsantrap") {
            return Err(End::Error("trap".into()));
        }
        if st("objectsize") {
            return Ok(V::I(mask(ret.bits() as u32)));
        }
        // floating point
        if st("fabs") {
            return Ok(match a[0].clone() {
                V::D(f) => V::D(f.abs()),
                V::X(f, r) => V::X(f.abs(), if r.sign() < 0 { Rc::new(r.neg()) } else { r }),
                V::S(p) => match self.known_mask(&p).0 {
                    _ => V::Abs(p),
                },
                v @ V::Abs(_) => v,
                _ => return Err(End::Unsupported("fabs".into())),
            });
        }
        if st("exp.f64") {
            return self.fexp(a[0].clone());
        }
        if st("sqrt.f64") {
            return self.fsqrt(a[0].clone());
        }
        if st("pow.f64") {
            return self.fpow(a[0].clone(), a[1].clone());
        }
        if st("powi.f64") {
            let k = sext(self.int(a[1].clone())?, 32);
            return self.fpow(a[0].clone(), V::D(k as f64));
        }
        if st("fma.f64") || st("fmuladd.f64") {
            let v: Vec<Option<f64>> = a.iter().map(Self::conc).collect();
            if let (Some(x), Some(y), Some(z)) = (v[0], v[1], v[2]) {
                let r = x.mul_add(y, z);
                if !self.ideal || !r.is_finite() {
                    return Ok(V::D(r));
                }
                let m = self.fbin(FB::Mul, a[0].clone(), a[1].clone())?;
                let s = self.fbin(FB::Add, m, a[2].clone())?;
                return Ok(match s {
                    V::X(_, q) if rat_of(r) != *q => V::X(r, q),
                    V::D(f) if f != r && f.is_finite() => V::X(r, Rc::new(rat_of(f))),
                    _ => V::D(r),
                });
            }
            let m = self.fbin(FB::Mul, a[0].clone(), a[1].clone())?;
            return self.fbin(FB::Add, m, a[2].clone());
        }
        for (nm, mode) in [("floor.", 0u8), ("ceil.", 1), ("round.", 2), ("trunc.", 3), ("rint.", 4), ("nearbyint.", 4), ("roundeven.", 4)] {
            if st(nm) && *ret == Ty::F64 {
                return self.round(a[0].clone(), mode);
            }
        }
        for (nm, mx) in [("maxnum.f64", true), ("minnum.f64", false), ("maximumnum.f64", true), ("minimumnum.f64", false), ("maximum.f64", true), ("minimum.f64", false)] {
            if st(nm) {
                let x = self.force(a[0].clone())?;
                let y = self.force(a[1].clone())?;
                if Self::conc(&x).map_or(false, |f| f.is_nan()) {
                    return Ok(y);
                }
                if Self::conc(&y).map_or(false, |f| f.is_nan()) {
                    return Ok(x);
                }
                let lt = self.fcmp(FP { lt: true, eq: false, gt: false, un: false }, x.clone(), y.clone())?;
                return Ok(if lt == mx { y } else { x });
            }
        }
        if st("copysign.f64") {
            let x = self.force(a[0].clone())?;
            let y = self.force(a[1].clone())?;
            if let (Some(x), Some(y)) = (Self::conc(&x), Self::conc(&y)) {
                return Ok(V::D(x.copysign(y)));
            }
            let neg = match &y {
                V::S(p) => self.decide(&p.clone(), NEG)?,
                v => Self::conc(v).unwrap().is_sign_negative(),
            };
            let ax = match x {
                V::D(f) => V::D(f.abs()),
                V::X(f, r) => V::X(f.abs(), if r.sign() < 0 { Rc::new(r.neg()) } else { r }),
                V::S(p) => self.force(V::Abs(p))?,
                v => v,
            };
            return if neg { self.fbin(FB::Sub, V::D(0.0), ax) } else { Ok(ax) };
        }
        if st("is.fpclass.f64") {
            let m = self.int(a[1].clone())? as u32;
            let x = match &a[0] {
                V::D(f) | V::X(f, _) => *f,
                V::S(p) | V::Abs(p) => {
                    let p = p.clone();
                    let (ng, z, ps) = (m & 0x8 != 0, m & 0x40 != 0, m & 0x100 != 0);
                    if ng == z && z == ps {
                        return Ok(V::I(ng as u128));
                    }
                    let abs = matches!(a[0], V::Abs(_));
                    let w = if abs {
                        (if z { ZERO } else { 0 }) | (if ps { NEG | POS } else { 0 })
                    } else {
                        (if ng { NEG } else { 0 }) | (if z { ZERO } else { 0 }) | (if ps { POS } else { 0 })
                    };
                    return Ok(V::I(self.decide(&p, w)? as u128));
                }
                _ => return Err(End::Unsupported("fpclass".into())),
            };
            let neg = x.is_sign_negative();
            let bit = match x.classify() {
                std::num::FpCategory::Nan => {
                    if x.to_bits() & (1 << 51) != 0 {
                        0x2
                    } else {
                        0x1
                    }
                }
                std::num::FpCategory::Infinite => {
                    if neg {
                        0x4
                    } else {
                        0x200
                    }
                }
                std::num::FpCategory::Normal => {
                    if neg {
                        0x8
                    } else {
                        0x100
                    }
                }
                std::num::FpCategory::Subnormal => {
                    if neg {
                        0x10
                    } else {
                        0x80
                    }
                }
                std::num::FpCategory::Zero => {
                    if neg {
                        0x20
                    } else {
                        0x40
                    }
                }
            };
            return Ok(V::I((m & bit != 0) as u128));
        }
        if st("fptoui.sat") {
            if args[0].0 != Ty::F64 {
                return Err(End::Unsupported("fptoui f32".into()));
            }
            return self.f2i(a[0].clone(), ret.bits() as u32, false);
        }
        if st("fptosi.sat") {
            return self.f2i(a[0].clone(), ret.bits() as u32, true);
        }
        if let Some((f, single)) = match base.split('.').next().unwrap_or("") {
            "log" => Some((f64::ln as fn(f64) -> f64, true)),
            "log2" => Some((f64::log2 as fn(f64) -> f64, true)),
            "log10" => Some((f64::log10 as fn(f64) -> f64, true)),
            "exp2" => Some((f64::exp2 as fn(f64) -> f64, true)),
            "sin" => Some((f64::sin as fn(f64) -> f64, true)),
            "cos" => Some((f64::cos as fn(f64) -> f64, true)),
            _ => None,
        } {
            let _ = single;
            let x = self.force(a[0].clone())?;
            let x = match &x {
                V::S(p) => self.concretize(&p.clone())?,
                v => Self::conc(v).unwrap_or(0.0),
            };
            return Ok(V::D(f(x)));
        }
        // integers
        let t = &args[0].0;
        let (lanes, bits) = Self::lanes(t);
        if st("vector.reduce") {
            let x = self.int(a[0].clone())?;
            let mut it = (0..lanes).map(|i| (x >> (i * bits)) & mask(bits));
            let f = it.next().unwrap_or(0);
            let kind = base.split('.').nth(2).unwrap_or("");
            let r = it.fold(f, |p, q| match kind {
                "or" => p | q,
                "and" => p & q,
                "xor" => p ^ q,
                "add" => p.wrapping_add(q) & mask(bits),
                "umax" => p.max(q),
                "umin" => p.min(q),
                _ => p,
            });
            return Ok(V::I(r));
        }
        let x = self.int(a[0].clone())?;
        let mk = mask(bits);
        let y = if a.len() > 1 { self.int(a[1].clone())? } else { 0 };
        let ovf = |r: u128, o: bool| V::Agg(Rc::new(vec![V::I(r & mk), V::I(o as u128)]));
        let (sx, sy) = (sext(x, bits), sext(y, bits));
        let smax = if bits >= 128 { i128::MAX } else { (1i128 << (bits - 1)) - 1 };
        let smin = -smax - 1;
        let lane = |f: &dyn Fn(u128, u128) -> u128| -> V {
            if lanes == 1 {
                return V::I(f(x, y) & mk);
            }
            let mut r = 0u128;
            for i in 0..lanes {
                r |= (f((x >> (i * bits)) & mk, (y >> (i * bits)) & mk) & mk) << (i * bits);
            }
            V::I(r)
        };
        if st("uadd.with.overflow") {
            let (r, o) = x.overflowing_add(y);
            return Ok(ovf(r, o || r > mk));
        }
        if st("usub.with.overflow") {
            return Ok(ovf(x.wrapping_sub(y), y > x));
        }
        if st("umul.with.overflow") {
            let (r, o) = x.overflowing_mul(y);
            return Ok(ovf(r, o || r > mk));
        }
        if st("sadd.with.overflow") || st("ssub.with.overflow") || st("smul.with.overflow") {
            let (r, o) = if st("sadd") {
                sx.overflowing_add(sy)
            } else if st("ssub") {
                sx.overflowing_sub(sy)
            } else {
                sx.overflowing_mul(sy)
            };
            return Ok(ovf(r as u128, o || r > smax || r < smin));
        }
        if st("uadd.sat") {
            return Ok(lane(&|x, y| x.saturating_add(y).min(mk)));
        }
        if st("usub.sat") {
            return Ok(lane(&|x, y| x.saturating_sub(y)));
        }
        if st("sadd.sat") {
            return Ok(V::I(sx.saturating_add(sy).clamp(smin, smax) as u128 & mk));
        }
        if st("ssub.sat") {
            return Ok(V::I(sx.saturating_sub(sy).clamp(smin, smax) as u128 & mk));
        }
        if st("umax") {
            return Ok(lane(&|x, y| x.max(y)));
        }
        if st("umin") {
            return Ok(lane(&|x, y| x.min(y)));
        }
        if st("smax") {
            return Ok(lane(&|x, y| sext(x, bits).max(sext(y, bits)) as u128));
        }
        if st("smin") {
            return Ok(lane(&|x, y| sext(x, bits).min(sext(y, bits)) as u128));
        }
        if st("ucmp") {
            return Ok(V::I((x.cmp(&y) as i8) as i128 as u128 & mask(ret.bits() as u32)));
        }
        if st("scmp") {
            return Ok(V::I((sx.cmp(&sy) as i8) as i128 as u128 & mask(ret.bits() as u32)));
        }
        if st("abs.") {
            return Ok(V::I(sx.unsigned_abs() & mk));
        }
        if st("ctpop") {
            return Ok(lane(&|x, _| x.count_ones() as u128));
        }
        if st("ctlz") {
            return Ok(lane(&|x, _| (x.leading_zeros() as u128 + bits as u128).saturating_sub(128)));
        }
        if st("cttz") {
            return Ok(lane(&|x, _| (x.trailing_zeros() as u128).min(bits as u128)));
        }
        if st("bswap") {
            let b = x.to_le_bytes();
            let n = (bits / 8) as usize;
            let mut r = [0u8; 16];
            for i in 0..n {
                r[i] = b[n - 1 - i];
            }
            return Ok(V::I(u128::from_le_bytes(r)));
        }
        if st("bitreverse") {
            return Ok(V::I(x.reverse_bits() >> (128 - bits)));
        }
        if st("fshl") || st("fshr") {
            let s = (self.int(a[2].clone())? % bits as u128) as u32;
            let r = if st("fshl") {
                if s == 0 {
                    x
                } else {
                    (x << s) | (y >> (bits - s))
                }
            } else if s == 0 {
                y
            } else {
                (x << (bits - s)) | (y >> s)
            };
            return Ok(V::I(r & mk));
        }
        if st("ptrmask") {
            return Ok(V::I(x & y));
        }
        Err(End::Unsupported(format!("intrinsic {}", n)))
    }
    fn fpow(&mut self, a: V, b: V) -> R<V> {
        let a = self.force(a)?;
        let b = self.force(b)?;
        if let (Some(x), Some(y)) = (Self::conc(&a), Self::conc(&b)) {
            if self.ideal && y.fract() == 0.0 && y > 0.0 && y <= 8.0 {
                let mut r = a.clone();
                for _ in 1..y as u32 {
                    r = self.fbin(FB::Mul, r, a.clone())?;
                }
                return Ok(r);
            }
            if y == 2.0 {
                return self.fbin(FB::Mul, a.clone(), a);
            }
            return Ok(V::D(x.powf(y)));
        }
        if let Some(k) = Self::conc(&b) {
            if k == 0.0 {
                return Ok(V::D(1.0));
            }
            if k.fract() == 0.0 && k > 0.0 && k <= 8.0 {
                let mut r = a.clone();
                for _ in 1..k as u32 {
                    r = self.fbin(FB::Mul, r, a.clone())?;
                }
                return Ok(r);
            }
            if k == -1.0 {
                return self.fbin(FB::Div, V::D(1.0), a);
            }
            if k == 0.5 {
                return self.fsqrt(a);
            }
        }
        let mut c = vec![];
        for v in [a, b] {
            c.push(match &v {
                V::S(p) => self.concretize(&p.clone())?,
                v => Self::conc(v).unwrap_or(0.0),
            });
        }
        Ok(V::D(c[0].powf(c[1])))
    }
    fn panic_message(&mut self, a: &[V]) -> String {
        // the last pointer argument of a panic function is its location
        for v in a.iter().rev() {
            if let V::I(p) = v {
                let p = *p as u64;
                if let Ok(b) = self.bytes(p, 24) {
                    let f = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    if n < 400 {
                        if let Ok(s) = self.bytes(f, n) {
                            let s = String::from_utf8_lossy(&s).to_string();
                            if s.ends_with(".rs") {
                                return format!("{}:{}", s, line);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }
    /// a choice of the scheduler
    fn pick(&mut self, n: u32) -> R<u32> {
        if self.sched == 2 {
            let p = match self.sched_pattern {
                Some(p) => p,
                None => {
                    let p = self.choose(3)?;
                    self.sched_pattern = Some(p);
                    p
                }
            };
            let k = match p {
                0 => 0,
                1 => 1.min(n - 1),
                _ if self.scheds.len() % 2 == 0 => n - 1,
                _ => 0,
            };
            self.scheds.push(k);
            Ok(k)
        } else if self.sched == 1 {
            let k = self.choose(n)?;
            self.scheds.push(k);
            Ok(k)
        } else {
            Ok(0)
        }
    }
    fn run_thread(&mut self, t: (u64, u64, u64), dst: u32, normal: Option<u32>) -> R<bool> {
        let ix = (t.1 >> 32).wrapping_sub(FUNC_OBJ);
        if t.1 & 0xffff_ffff != 0 || ix >= self.sh.m.fns.len() as u64 {
            return Err(End::Error(format!("call of invalid pointer {:#x}", t.1)));
        }
        self.push_frame(ix as u32, vec![V::I(t.2 as u128)], dst, normal)?;
        let m = &self.sh.m;
        let saved = m.tls.iter().map(|g| (*g, self.gover.remove(g))).collect();
        self.frames.last_mut().unwrap().thread = Some(saved);
        Ok(true)
    }
    /// returns true when a frame was pushed
    fn call(&mut self, ix: u32, a: Vec<V>, dst: u32, normal: Option<u32>) -> R<bool> {
        let h = self.sh.hooks[ix as usize];
        if h == Hook::None {
            self.push_frame(ix, a, dst, normal)?;
            return Ok(true);
        }
        let mut iv = [0u64; 6];
        for i in 0..a.len().min(6) {
            iv[i] = match &a[i] {
                V::I(x) => *x as u64,
                _ => 0,
            };
        }
        let r = match h {
            Hook::None => unreachable!(),
            Hook::Alloc => V::I(self.alloc(iv[0]) as u128),
            Hook::AllocZ => V::I(self.alloc(iv[0]) as u128),
            Hook::Realloc => {
                let n = self.alloc(iv[3]);
                self.memcpy(n, iv[0], iv[1].min(iv[3]))?;
                self.free(iv[0])?;
                V::I(n as u128)
            }
            Hook::Dealloc => {
                self.free(iv[0])?;
                V::U
            }
            Hook::Nop => V::U,
            Hook::ZeroInt => V::I(0),
            Hook::MinusOne => V::I(u64::MAX as u128),
            Hook::Malloc => V::I(self.alloc(iv[0]) as u128),
            Hook::Calloc => V::I(self.alloc(iv[0] * iv[1]) as u128),
            Hook::CRealloc => {
                let n = self.alloc(iv[1]);
                if iv[0] != 0 {
                    let id = (iv[0] >> 32) - 1 - self.nglob as u64;
                    let old = self.heap[id as usize].as_ref().map_or(0, |o| o.bytes.len() as u64);
                    self.memcpy(n, iv[0], old.min(iv[1]))?;
                    self.free(iv[0])?;
                }
                V::I(n as u128)
            }
            Hook::Free => {
                self.free(iv[0])?;
                V::U
            }
            Hook::Memalign => {
                let n = self.alloc(iv[2]);
                self.store(&Ty::Ptr, V::I(n as u128), iv[0])?;
                V::I(0)
            }
            Hook::Panic => {
                let m = self.panic_message(&a);
                return Err(End::Panic(m));
            }
            Hook::Memcpy => {
                self.memcpy(iv[0], iv[1], iv[2])?;
                V::I(iv[0] as u128)
            }
            Hook::Memset => {
                self.memset(iv[0], iv[1] as u8, iv[2])?;
                V::I(iv[0] as u128)
            }
            Hook::Bcmp => {
                let mut r = 0i32;
                let n = iv[2];
                let has_sym = |o: &Obj, off: usize| o.cells.as_ref().map_or(false, |c| c.range((off as u32).saturating_sub(7)..(off as u64 + n) as u32).any(|x| !matches!(x.1, V::X(..))));
                if n > 0 {
                    let s1 = {
                        let (o, f) = self.rd(iv[0], n, "read")?;
                        has_sym(o, f)
                    };
                    let s2 = {
                        let (o, f) = self.rd(iv[1], n, "read")?;
                        has_sym(o, f)
                    };
                    if s1 || s2 {
                        // compare as doubles
                        if n % 8 != 0 {
                            return Err(End::Unsupported("memcmp of symbolic data".into()));
                        }
                        for i in 0..n / 8 {
                            let x = self.load(&Ty::F64, iv[0] + i * 8)?;
                            let y = self.load(&Ty::F64, iv[1] + i * 8)?;
                            if !self.fcmp(FP { lt: false, eq: true, gt: false, un: false }, x, y)? {
                                r = 1;
                                break;
                            }
                        }
                    } else {
                        let x = self.bytes(iv[0], n)?;
                        let y = self.bytes(iv[1], n)?;
                        r = match x.cmp(&y) {
                            Ordering::Less => -1,
                            Ordering::Equal => 0,
                            Ordering::Greater => 1,
                        };
                    }
                }
                V::I(r as u32 as u128)
            }
            Hook::Strlen => {
                let mut n = 0;
                while self.bytes(iv[0] + n, 1)?[0] != 0 {
                    n += 1;
                }
                V::I(n as u128)
            }
            Hook::Keys => V::Agg(Rc::new(vec![V::I(1), V::I(2)])),
            Hook::Print => match self.sh.m.fn_ix.get("irse_print") {
                Some(ix) if self.sh.m.fns[*ix as usize].range.is_some() => {
                    self.printed = true;
                    self.push_frame(*ix, a, dst, normal)?;
                    return Ok(true);
                }
                _ => V::U,
            },
            Hook::FmtF64 => {
                // (&f64, &mut Formatter): print a token for symbolic values
                let v = self.load(&Ty::F64, iv[0])?;
                let target = match v {
                    V::S(_) => *self.sh.m.fn_ix.get("irse_fmt_f64").ok_or(End::Unsupported("no irse_fmt_f64".into()))?,
                    _ => ix,
                };
                self.push_frame(target, a, dst, normal)?;
                return Ok(true);
            }
            Hook::Open => {
                let mut s = vec![];
                loop {
                    let b = self.bytes(iv[0] + s.len() as u64, 1)?[0];
                    if b == 0 {
                        break;
                    }
                    s.push(b);
                }
                let name = String::from_utf8_lossy(&s).to_string();
                match self.files.get(&name) {
                    Some(d) => {
                        self.fds.push(Some(FileH { data: d.clone(), pos: 0 }));
                        V::I(self.fds.len() as u128 + 9)
                    }
                    None => {
                        self.set_errno(2)?;
                        V::I(u32::MAX as u128)
                    }
                }
            }
            Hook::Read => {
                let fd = (iv[0] as u32).wrapping_sub(10) as usize;
                match self.fds.get_mut(fd) {
                    Some(Some(f)) => {
                        let n = (iv[2] as usize).min(f.data.len() - f.pos);
                        let d = f.data[f.pos..f.pos + n].to_vec();
                        f.pos += n;
                        if n > 0 {
                            let (o, off) = self.wr(iv[1], n as u64, "write")?;
                            o.bytes[off..off + n].copy_from_slice(&d);
                        }
                        V::I(n as u128)
                    }
                    _ => {
                        self.set_errno(9)?;
                        V::I(u64::MAX as u128)
                    }
                }
            }
            Hook::Close => {
                let fd = (iv[0] as u32).wrapping_sub(10) as usize;
                if let Some(f) = self.fds.get_mut(fd) {
                    *f = None;
                }
                V::I(0)
            }
            Hook::Fstat | Hook::Statx => {
                self.set_errno(38)?;
                V::I(u32::MAX as u128)
            }
            Hook::Lseek => {
                self.set_errno(29)?;
                V::I(u64::MAX as u128)
            }
            Hook::Write => V::I(iv[2] as u128),
            Hook::Errno => {
                self.set_errno_alloc();
                V::I((self.errno as u64) as u128 * (1 << 32))
            }
            Hook::Exp => self.fexp(a[0].clone())?,
            Hook::Pow => self.fpow(a[0].clone(), a[1].clone())?,
            Hook::Sqrt => self.fsqrt(a[0].clone())?,
            Hook::Fmod => self.fbin(FB::Rem, a[0].clone(), a[1].clone())?,
            Hook::Id => V::I(self.sh.cfgs[self.cfg].harness as u128),
            Hook::Param => V::I(*self.sh.cfgs[self.cfg].params.get(iv[0] as usize).unwrap_or(&0) as u64 as u128),
            Hook::Sym => {
                let (lo, hi) = (Self::conc(&a[0]).unwrap_or(-8.0), Self::conc(&a[1]).unwrap_or(8.0));
                let k = self.vars.len() as u64;
                let mut h = (k + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ self.sh.seed;
                h ^= h >> 29;
                h = h.wrapping_mul(0xBF58476D1CE4E5B9);
                h ^= h >> 32;
                let (l, u) = (lo.max(-6.0).ceil(), hi.min(6.0).floor());
                let d = if u >= l { l + (h % ((u - l) as u64 + 1)) as f64 } else { lo };
                let v = self.new_var(Var { input: true, int: false, lo: Rat::from_f64(lo), hi: Rat::from_f64(hi) }, |_| Some(rat_of(d)));
                self.inputs.push(v);
                V::S(Arc::new(Poly::var(v)))
            }
            Hook::Choice => {
                let k = self.choose(iv[0] as u32)?;
                self.choices.push(k);
                V::I(k as u128)
            }
            Hook::Sched => V::I(self.pick(iv[0] as u32)? as u128),
            Hook::KeyCreate => {
                self.created += 1;
                let k = self.created as u32;
                let (o, off) = self.wr(iv[0], 4, "write")?;
                o.bytes[off..off + 4].copy_from_slice(&k.to_le_bytes());
                V::I(0)
            }
            Hook::ThreadCreate => {
                // a thread runs at once, or when another one waits
                self.created += 1;
                let t = self.created;
                let (o, off) = self.wr(iv[0], 8, "write")?;
                o.bytes[off..off + 8].copy_from_slice(&t.to_le_bytes());
                if self.pick(2)? == 0 {
                    return self.run_thread((t, iv[2], iv[3]), dst, normal);
                }
                self.pending.push((t, iv[2], iv[3]));
                V::I(0)
            }
            Hook::ThreadJoin => match self.pending.iter().position(|p| p.0 == iv[0]) {
                Some(k) => {
                    let t = self.pending.remove(k);
                    return self.run_thread(t, dst, normal);
                }
                None => V::I(0),
            },
            Hook::Syscall => match (iv[0], iv[2] & 127) {
                (202, 0) | (202, 9) => {
                    let n = self.pending.len();
                    if n == 0 {
                        return Err(End::Unsupported("a thread waits for one that waits".into()));
                    }
                    let k = if n > 1 { self.pick(n.min(4) as u32)? } else { 0 };
                    let t = self.pending.remove(k as usize);
                    return self.run_thread(t, dst, normal);
                }
                (202, 1) | (202, 10) => V::I(0),
                (k, _) => return Err(End::Unsupported(format!("system call {}", k))),
            },
            Hook::Sysconf => V::I(match iv[0] {
                30 => 4096,
                83 | 84 => 4,
                _ => u64::MAX as u128,
            }),
            Hook::SchedOn => {
                self.sched = iv[0] as u8;
                V::U
            }
            Hook::Parse => {
                let b = self.bytes(iv[0], iv[1])?;
                match self.token_value(&b) {
                    Some(v) => v,
                    None => V::D(std::str::from_utf8(&b).ok().and_then(|s| s.parse().ok()).unwrap_or(f64::NAN)),
                }
            }
            Hook::Assume => {
                if iv[0] == 0 {
                    return Err(End::Infeasible);
                }
                V::U
            }
            Hook::AssumeLe | Hook::AssumeLt => {
                let x = self.force(a[0].clone())?;
                let y = self.force(a[1].clone())?;
                if let (Some(x), Some(y)) = (Self::conc(&x), Self::conc(&y)) {
                    let ok = if h == Hook::AssumeLe { x <= y } else { x < y };
                    if !ok {
                        return Err(End::Infeasible);
                    }
                } else {
                    let d = Self::poly_of(&x).unwrap().sub(&Self::poly_of(&y).unwrap());
                    let m = if h == Hook::AssumeLe { NEG | ZERO } else { NEG };
                    if let Some(c) = d.as_const() {
                        if sign_mask(c.sign()) & m == 0 {
                            return Err(End::Infeasible);
                        }
                    } else {
                        let c = Con::atom(Arc::new(d), m);
                        let ok = self.model.as_ref().map_or(false, |mo| c.holds(mo));
                        if !ok && !self.replaying() {
                            let (an, m) = self.query(std::slice::from_ref(&c));
                            match an {
                                Ans::Unsat => return Err(End::Infeasible),
                                Ans::Sat(_) if m.is_some() => self.model = m,
                                _ => self.model = None,
                            }
                        }
                        self.add_con(c);
                    }
                }
                V::U
            }
            Hook::Check => {
                self.check_bool(iv[0] & 1 == 1, iv[1] as u32)?;
                V::U
            }
            Hook::Close2 | Hook::Le | Hook::Same => {
                let x = self.force(a[0].clone())?;
                let y = self.force(a[1].clone())?;
                let (tol, id) = if h == Hook::Same { (0.0, iv[2] as u32) } else { (Self::conc(&a[2]).unwrap_or(0.0), iv[3] as u32) };
                self.check_cmp(h, x, y, tol, id)?;
                V::U
            }
            Hook::Obs => {
                let v = self.force(a[0].clone())?;
                self.obs.push(v);
                V::U
            }
            Hook::ObsI => {
                self.obs.push(V::D(iv[0] as i64 as f64));
                V::U
            }
            Hook::Expect => {
                self.expect = iv[0] != 0;
                V::U
            }
            Hook::Ideal => {
                self.ideal = iv[0] != 0;
                self.exact = iv[0] == 2;
                V::U
            }
            Hook::VFile => {
                let p = self.bytes(iv[0], iv[1])?;
                let d = self.bytes(iv[2], iv[3])?;
                self.files.insert(String::from_utf8_lossy(&p).to_string(), Rc::new(d));
                V::U
            }
            Hook::Token => {
                // a decimal number that stands for the symbolic value
                let k = self.tokens.len();
                self.tokens.push(a[0].clone());
                let s = format!("77{:06}88.5", k);
                let (o, off) = self.wr(iv[1], s.len() as u64, "write")?;
                o.bytes[off..off + s.len()].copy_from_slice(s.as_bytes());
                V::I(s.len() as u128)
            }
            Hook::RoundDec => {
                let k = rat_of(10f64.powi(iv[1].min(18) as i32));
                match self.force(a[0].clone())? {
                    V::S(p) => {
                        let q = self.mk(p.scale(&k));
                        let r = self.round(q, 4)?;
                        self.lossy = true;
                        self.mk(Self::poly_of(&r).unwrap().scale(&k.inv()))
                    }
                    v => v,
                }
            }
            Hook::Done => V::U,
            Hook::Undef => return Err(End::Unsupported(format!("external function {}", self.sh.m.fns[ix as usize].name))),
        };
        self.finish_call(dst, r, normal)?;
        Ok(false)
    }
    fn token_value(&self, s: &[u8]) -> Option<V> {
        let s = std::str::from_utf8(s).ok()?;
        let s = s.strip_prefix("77")?.strip_suffix("88.5")?;
        if s.len() != 6 {
            return None;
        }
        let k: usize = s.parse().ok()?;
        self.tokens.get(k).cloned()
    }
    fn set_errno_alloc(&mut self) {
        if self.errno == u32::MAX {
            let a = self.alloc(8);
            self.errno = (a >> 32) as u32;
        }
    }
    fn set_errno(&mut self, e: u32) -> R<()> {
        self.set_errno_alloc();
        let a = (self.errno as u64) << 32;
        self.store(&Ty::I(32), V::I(e as u128), a)
    }

    // ---------- checks ----------
    fn count(&mut self, id: u32, kind: usize) {
        self.cs.checks.entry(id).or_default()[kind] += 1;
    }
    fn check_bool(&mut self, ok: bool, id: u32) -> R<()> {
        if self.replaying() {
            return if ok { Ok(()) } else { Err(End::CheckFailed) };
        }
        if ok {
            self.count(id, 0);
            return Ok(());
        }
        self.fail(id, format!("check {} is false", id), None)?;
        Err(End::CheckFailed)
    }
    fn check_cmp(&mut self, h: Hook, x: V, y: V, tol: f64, id: u32) -> R<()> {
        if let (Some(a), Some(b)) = (Self::conc(&x), Self::conc(&y)) {
            let ok = match h {
                Hook::Le => a <= b + tol,
                Hook::Same => a == b || (a.is_nan() && b.is_nan()),
                _ => (a - b).abs() <= tol || a == b,
            };
            if self.replaying() {
                return if ok { Ok(()) } else { Err(End::CheckFailed) };
            }
            if ok {
                self.count(id, 0);
                return Ok(());
            }
            self.fail(id, format!("check {}: {} against {} (tolerance {})", id, a, b, tol), None)?;
            return Err(End::CheckFailed);
        }
        let (px, py) = match (Self::poly_of(&x), Self::poly_of(&y)) {
            (Some(a), Some(b)) => (a, b),
            _ => {
                if self.replaying() {
                    return Err(End::CheckFailed);
                }
                self.fail(id, format!("check {}: non-finite against a finite value", id), None)?;
                return Err(End::CheckFailed);
            }
        };
        let d = px.sub(&py);
        if d.t.is_empty() {
            if !self.replaying() {
                self.count(id, 1);
            }
            return Ok(());
        }
        if self.replaying() {
            return Ok(());
        }
        let (lo, hi) = interval(&d, &self.vars);
        let (k, _, fl) = self.known_mask(&d);
        let k = if fl { flip_mask(k) } else { k };
        if k == ZERO || (h == Hook::Le && k & POS == 0) {
            self.count(id, 1);
            return Ok(());
        }
        if hi <= tol && (h == Hook::Le || lo >= -tol) {
            self.count(id, 1);
            return Ok(());
        }
        let two = h != Hook::Le;
        let neg = |m: f64| -> Con {
            let m = Poly::konst(rat_of(m));
            let mut alts = vec![vec![Atom { p: Arc::new(d.sub(&m)), m: POS }]];
            if two {
                alts.push(vec![Atom { p: Arc::new(d.add(&m)), m: NEG }]);
            }
            Con::dnf(alts)
        };
        let c = neg(tol);
        let (a, m) = self.query(std::slice::from_ref(&c));
        match a {
            Ans::Unsat => {
                self.count(id, 2);
                Ok(())
            }
            Ans::Unknown => {
                self.count(id, 3);
                Ok(())
            }
            Ans::Sat(_) => {
                let mut tried = 0;
                let save = self.model.clone();
                for mg in [16.0, 1.0, 0.0625, 1e-3] {
                    if mg > tol {
                        let (a2, m2) = self.query(&[neg(mg)]);
                        if let (Ans::Sat(_), Some(m2)) = (a2, m2) {
                            tried += 1;
                            self.fail(id, format!("check {}: values can differ by more than {}", id, mg), Some(m2))?;
                            if tried >= 2 {
                                break;
                            }
                        }
                    }
                }
                self.fail(id, format!("check {}: values can differ by more than {}", id, tol), m)?;
                self.model = save;
                Ok(())
            }
        }
    }
    pub fn inputs_of(&self, m: &Model) -> Vec<f64> {
        self.inputs.iter().map(|v| m.v.get(*v as usize).map_or(0.0, |r| r.to_f64())).collect()
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for c in self.cons.iter().take(40) {
            if c.alts.len() == 1 && c.alts[0].len() == 1 {
                let a = &c.alts[0][0];
                let o = match a.m {
                    1 => "< 0",
                    2 => "= 0",
                    3 => "<= 0",
                    4 => "> 0",
                    5 => "!= 0",
                    6 => ">= 0",
                    _ => "?",
                };
                if a.p.t.len() < 12 {
                    s += &format!("{} {}; ", a.p.show(), o);
                } else {
                    s += &format!("<{} terms> {}; ", a.p.t.len(), o);
                }
            }
        }
        s
    }
    /// a violation candidate: replay it against the native build
    fn fail(&mut self, id: u32, what: String, model: Option<Model>) -> R<()> {
        let mut cands: Vec<Model> = vec![];
        let robust = model.is_none();
        if let Some(m) = model {
            cands.push(m);
        } else if let Some(m) = &self.model {
            cands.push(m.clone());
        }
        let key = (self.cfg, id);
        if *self.sh.unconfirmed.lock().unwrap().get(&key).unwrap_or(&0) > 40 {
            return Ok(());
        }
        if robust {
            // a model with room in every strict inequality is less sensitive to rounding
            for mg in [1.0, 0.01] {
                let cons: Vec<Con> = self
                    .cons
                    .iter()
                    .map(|c| {
                        if c.alts.len() == 1 && c.alts[0].len() == 1 {
                            let a = &c.alts[0][0];
                            let k = Poly::konst(rat_of(mg));
                            match a.m {
                                NEG | 3 => return Con::atom(Arc::new(a.p.add(&k)), NEG),
                                POS | 6 => return Con::atom(Arc::new(a.p.sub(&k)), POS),
                                _ => {}
                            }
                        }
                        c.clone()
                    })
                    .collect();
                let refs: Vec<&Con> = cons.iter().collect();
                if refs.is_empty() {
                    break;
                }
                let (a, vl) = self.solver.solve(&refs, &self.vars, self.model.as_ref(), &self.sh.cache, &self.sh.st);
                if let Ans::Sat(Some(v)) = a {
                    let mut m = Model { v: self.defaults() };
                    for (i, x) in vl.iter().enumerate() {
                        m.v[*x as usize] = v[i].clone();
                    }
                    cands.insert(0, m);
                    break;
                }
            }
        }
        let mut cands: Vec<Vec<f64>> = cands.iter().map(|m| self.inputs_of(m)).collect();
        if self.lossy {
            // the same path with less even numbers
            for base in cands.clone() {
                for k in 0..12 {
                    let s = [1.0, 1e-3, 1e-6][k % 3];
                    let mut v = base.clone();
                    for i in 0..v.len() {
                        let r = (self.solver.rnd() >> 11) as f64 / (1u64 << 53) as f64;
                        let d = &self.vars[self.inputs[i] as usize];
                        v[i] += (v[i].abs() + 1.0) * s * (r - 0.5);
                        if let (Some(l), Some(h)) = (&d.lo, &d.hi) {
                            v[i] = v[i].clamp(l.to_f64(), h.to_f64());
                        }
                    }
                    cands.push(v);
                }
            }
        }
        for inputs in cands {
            let cfg = &self.sh.cfgs[self.cfg];
            let n = (self.solver.rnd() % self.sh.native.len() as u64) as usize;
            let r = self.sh.native[n].lock().unwrap().run_fresh(cfg, &inputs, &self.choices, &self.scheds);
            let bad = r.failed();
            let v = Violation {
                cfg: self.cfg,
                check: id,
                what: what.clone(),
                inputs,
                choices: self.choices.clone(),
                scheds: self.scheds.clone(),
                confirmed: bad.is_some(),
                native: bad.clone().unwrap_or_else(|| "passes natively".into()),
                path: self.describe(),
            };
            if bad.is_some() {
                self.sh.violations.lock().unwrap().push(v);
                self.sh.stop.store(true, Relaxed);
                return Err(End::Stop);
            }
            let mut u = self.sh.unconfirmed.lock().unwrap();
            let e = u.entry(key).or_insert(0);
            *e += 1;
            let e = *e;
            drop(u);
            self.cs.unconfirmed += 1;
            if e <= 3 {
                self.sh.violations.lock().unwrap().push(v);
            }
        }
        Ok(())
    }
    /// record the end of the path
    pub fn finish(mut self, end: End) {
        self.cs.paths += 1;
        self.cs.instrs += self.instrs;
        self.cs.concretized += self.concretized;
        let mut validate = false;
        match &end {
            End::Done => {
                if self.expect {
                    let _ = self.fail(9999, "the call was expected to be rejected but returned".into(), None);
                }
                self.cs.done += 1;
                validate = true;
            }
            End::Infeasible => self.cs.infeasible += 1,
            End::Stop => self.cs.leftover += 1,
            End::CheckFailed => {}
            End::Panic(_) if self.expect => {
                self.cs.panics_expected += 1;
                self.cs.done += 1;
                self.count(9999, 0);
                validate = true;
            }
            End::Panic(m) => {
                let _ = self.fail(9001, format!("panic at {}", m), None);
            }
            End::Error(m) => {
                let _ = self.fail(9002, m.clone(), None);
            }
            End::Unsupported(m) => {
                self.cs.unsupported += 1;
                *self.cs.unsup_msgs.entry(m.chars().take(160).collect()).or_insert(0) += 1;
            }
        }
        if validate {
            let k = {
                let s = self.sh.stats.lock().unwrap();
                s[self.cfg].vsamples
            };
            let h = self.dec.iter().fold(self.sh.seed ^ 99, |a, d| (a ^ *d as u64).wrapping_mul(0x100000001b3)) >> 20;
            let want = k < 8 || (k < self.sh.validate_max && h % 16 == 0);
            if let (true, Some(m)) = (want && !self.odd, self.model.clone()) {
                let inputs = self.inputs_of(&m);
                let cfg = &self.sh.cfgs[self.cfg];
                let n = (self.solver.rnd() % self.sh.native.len() as u64) as usize;
                let r = self.sh.native[n].lock().unwrap().run(cfg, &inputs, &self.choices, &self.scheds);
                self.cs.vsamples += 1;
                let mut okv = r.failed().is_none() && r.obs.len() == self.obs.len();
                let mut why = String::new();
                if !okv {
                    why = format!("native: {:?}, {} observations against {}", r.failed(), r.obs.len(), self.obs.len());
                }
                if okv {
                    for (i, o) in self.obs.iter().enumerate() {
                        let e = match o {
                            V::D(f) | V::X(f, _) => *f,
                            V::S(p) => {
                                let mf: Vec<f64> = m.v.iter().map(|r| r.to_f64()).collect();
                                p.eval_f64(&|v| mf[v as usize])
                            }
                            _ => 0.0,
                        };
                        let x = r.obs[i];
                        if !(e == x || (e - x).abs() <= 1e-6 * (1.0 + e.abs() + x.abs()) || (e.is_nan() && x.is_nan())) {
                            okv = false;
                            why = format!("observation {}: engine {} native {}", i, e, x);
                            break;
                        }
                    }
                }
                if okv {
                    self.cs.validated += 1;
                    if self.cs.sample.is_empty() {
                        self.cs.sample = format!(
                            "inputs {:?} choices {:?}; {} decisions, {} constraints: {}",
                            inputs,
                            self.choices,
                            self.dec.len(),
                            self.cons.len(),
                            self.describe().chars().take(600).collect::<String>()
                        );
                    }
                } else {
                    self.cs.diverged += 1;
                    self.cs.first_div = format!("{} inputs {:?} choices {:?} path {}", why, inputs, self.choices, self.describe().chars().take(400).collect::<String>());
                }
            }
        }
        let mut s = self.sh.stats.lock().unwrap();
        let t = &mut s[self.cfg];
        let c = &self.cs;
        t.paths += c.paths;
        t.done += c.done;
        t.infeasible += c.infeasible;
        t.panics_expected += c.panics_expected;
        t.unsupported += c.unsupported;
        t.concretized += c.concretized;
        t.instrs += c.instrs;
        t.decisions += c.decisions;
        t.unproven += c.unproven;
        t.validated += c.validated;
        t.diverged += c.diverged;
        t.vsamples += c.vsamples;
        t.unconfirmed += c.unconfirmed;
        t.leftover += c.leftover;
        if t.sample.is_empty() {
            t.sample = c.sample.clone();
        }
        if t.first_div.is_empty() {
            t.first_div = c.first_div.clone();
        }
        for (k, v) in &c.unsup_msgs {
            *t.unsup_msgs.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &c.checks {
            let e = t.checks.entry(*k).or_default();
            for i in 0..4 {
                e[i] += v[i];
            }
        }
        drop(s);
        let mut fu = self.sh.fn_used.lock().unwrap();
        for (i, u) in self.fns.iter().enumerate() {
            if *u {
                fu.insert(i as u32);
            }
        }
    }
}
