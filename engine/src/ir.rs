//! Parser for textual LLVM IR (the subset rustc emits).
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    F64,
    F32,
    Ptr,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(b) => match *b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(b) => {
                let s = (*b as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::I(b) => *b as u64,
            Ty::F64 | Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u64 * t.bits(),
            _ => self.size() * 8,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field"),
        }
    }
    pub fn is_fp(&self) -> bool {
        matches!(self, Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    I(u128),
    D(f64),
    Undef,
    Agg(Arc<Vec<Op>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
/// fcmp predicate as (result if less, equal, greater, unordered)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FP {
    pub lt: bool,
    pub eq: bool,
    pub gt: bool,
    pub un: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C {
    Zext,
    Sext,
    Trunc,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Intr(Arc<str>),
    Ptr(Op),
}
#[derive(Clone, Debug)]
pub enum K {
    Bin(B, Ty, Op, Op),
    FBin(FB, Op, Op),
    FNeg(Op),
    ICmp(P, Ty, Op, Op),
    FCmp(FP, Op, Op),
    Cast(C, Ty, Op, Ty),
    Alloca(u64, Ty, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Call { callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, normal: Option<u32> },
    Select(Ty, Op, Op, Op),
    Extract(Op, Vec<u32>),
    Insert(Ty, Op, Op, Vec<u32>),
    Rmw(Arc<str>, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    ExtElem(Ty, Op, Op),
    InsElem(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<i32>),
    Copy(Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Resume,
    Nop,
    Bad(String),
}
#[derive(Clone, Debug)]
pub struct Ins {
    pub dst: u32, // u32::MAX = none
    pub k: K,
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Op)>,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}
pub struct FnEntry {
    pub name: String,
    pub range: Option<(usize, usize)>, // byte range of text of the definition
    pub body: OnceLock<Arc<Func>>,
}
pub struct Global {
    pub name: String,
    pub bytes: Vec<u8>,
    pub constant: bool,
}
pub struct Module {
    pub text: String,
    pub fns: Vec<FnEntry>,
    pub globals: Vec<Global>,
    /// the thread-local ones
    pub tls: Vec<u32>,
    pub fn_ix: HashMap<String, u32>,
    pub g_ix: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
}
pub const FUNC_OBJ: u64 = 0x4000_0000;
pub fn fn_addr(ix: u32) -> u64 {
    (FUNC_OBJ + ix as u64) << 32
}
pub fn g_addr(ix: u32) -> u64 {
    (ix as u64 + 1) << 32
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub p: usize,
}
type R<T> = Result<T, String>;
impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b'/' if self.s.get(self.p + 1) == Some(&b'*') => {
                    while self.p < self.s.len() && !self.s[self.p..].starts_with(b"*/") {
                        self.p += 1
                    }
                    self.p = (self.p + 2).min(self.s.len());
                }
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let e = self.p + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() || last == b'_' {
                if let Some(c) = self.s.get(e) {
                    if c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' {
                        return false;
                    }
                }
            }
            self.p = e;
            return true;
        }
        false
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {} at {}", t, String::from_utf8_lossy(&self.s[self.p..(self.p + 80).min(self.s.len())])))
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$' {
                self.p += 1
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[b..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.p;
        let w = self.word();
        self.p = s;
        w
    }
    /// after % or @
    fn name(&mut self) -> String {
        if self.s.get(self.p) == Some(&b'"') {
            self.p += 1;
            let b = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = String::from_utf8_lossy(&self.s[b..self.p]).to_string();
            self.p += 1;
            r
        } else {
            let b = self.p;
            while self.p < self.s.len() {
                let c = self.s[self.p];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                    self.p += 1
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[b..self.p]).to_string()
        }
    }
    fn num(&mut self) -> R<i128> {
        let w = self.word();
        w.parse().map_err(|_| format!("number expected: {}", w))
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..(self.p + 100).min(self.s.len())]).to_string()
    }
}

fn cstring(l: &mut Lex) -> R<Vec<u8>> {
    // at c"
    l.p += 2;
    let mut v = vec![];
    while l.s[l.p] != b'"' {
        if l.s[l.p] == b'\\' {
            let h = std::str::from_utf8(&l.s[l.p + 1..l.p + 3]).unwrap();
            if l.s[l.p + 1] == b'\\' {
                v.push(b'\\');
                l.p += 2;
                continue;
            }
            v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
            l.p += 3;
        } else {
            v.push(l.s[l.p]);
            l.p += 1;
        }
    }
    l.p += 1;
    Ok(v)
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
    "afn", "reassoc", "volatile", "atomic", "tail", "musttail", "notail",
];

fn parse_f64(w: &str) -> Option<f64> {
    if let Some(h) = w.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
    }
    if let Some(h) = w.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
    }
    match w {
        "inf" | "+inf" => return Some(f64::INFINITY),
        "-inf" => return Some(f64::NEG_INFINITY),
        "nan" | "+nan" | "-nan" | "+qnan" | "qnan" | "-qnan" => return Some(f64::NAN),
        _ => {}
    }
    w.parse().ok()
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(),
            fns: vec![],
            globals: vec![],
            tls: vec![],
            fn_ix: HashMap::new(),
            g_ix: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        let mut pend: Vec<(u32, usize, usize)> = vec![];
        let mut pos = 0;
        let bytes = text.as_bytes();
        let mut tds = vec![];
        while pos < bytes.len() {
            let eol = memchr(bytes, pos, b'\n');
            let line = &text[pos..eol];
            if line.starts_with('@') {
                let mut l = Lex::new(line);
                l.p = 1;
                let n = l.name();
                l.expect("=")?;
                let is_alias = line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ");
                if is_alias {
                    let at = line.rfind('@').unwrap();
                    let mut l2 = Lex::new(&line[at + 1..]);
                    let tgt = l2.name();
                    m.aliases.insert(n, tgt);
                } else {
                    let ix = m.globals.len() as u32;
                    m.g_ix.insert(n.clone(), ix);
                    if line.contains(" thread_local") {
                        m.tls.push(ix);
                    }
                    m.globals.push(Global { name: n, bytes: vec![], constant: false });
                    pend.push((ix, pos, eol));
                }
            } else if line.starts_with('%') {
                tds.push(line);
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                // function name: first '@' outside quotes/parens followed by name then '('
                let mut p = 0;
                let b = line.as_bytes();
                while p < b.len() && b[p] != b'@' {
                    if b[p] == b'"' {
                        p += 1;
                        while b[p] != b'"' {
                            p += 1
                        }
                    }
                    p += 1;
                }
                let mut l = Lex::new(line);
                l.p = p + 1;
                let n = l.name();
                let ix = m.fns.len() as u32;
                let def = line.starts_with("define ");
                let mut end = eol;
                if def {
                    let e = find(bytes, eol, b"\n}");
                    end = e;
                }
                m.fn_ix.insert(n.clone(), ix);
                m.fns.push(FnEntry { name: n, range: if def { Some((pos, end)) } else { None }, body: OnceLock::new() });
                if def {
                    pos = end + 2;
                    continue;
                }
            }
            pos = eol + 1;
        }
        for td in tds {
            let mut l = Lex::new(td);
            l.p = 1;
            let n = l.name();
            l.expect("=")?;
            l.expect("type")?;
            let t = m.ty(&mut l)?;
            m.types.insert(n, t);
        }
        for (ix, a, b) in pend {
            let line = &text[a..b];
            let mut l = Lex::new(line);
            l.p = 1;
            let n = l.name();
            l.expect("=")?;
            let mut ext = false;
            let constant;
            loop {
                if l.peek() == b'(' {
                    l.skip_parens();
                    continue;
                }
                let w = l.word();
                match w {
                    "global" => {
                        constant = false;
                        break;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "external" | "extern_weak" => ext = true,
                    "" => return Err(format!("global {}", line)),
                    _ => {}
                }
            }
            let t = m.ty(&mut l)?;
            let mut out = vec![0u8; t.size() as usize];
            if !ext {
                m.init(&mut l, &t, &mut out, 0).map_err(|e| format!("global {}: {}", n, e))?;
            }
            m.globals[ix as usize].bytes = out;
            m.globals[ix as usize].constant = constant;
        }
        m.text = text;
        Ok(m)
    }
    fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(i) = self.fn_ix.get(n) {
            return Ok(fn_addr(*i));
        }
        if let Some(i) = self.g_ix.get(n) {
            return Ok(g_addr(*i));
        }
        if let Some(a) = self.aliases.get(n) {
            return self.global_addr(a);
        }
        Err(format!("unknown global {}", n))
    }
    fn init(&self, l: &mut Lex, t: &Ty, out: &mut Vec<u8>, at: usize) -> R<()> {
        if l.eat("zeroinitializer") || l.eat("undef") || l.eat("poison") {
            return Ok(());
        }
        match t {
            Ty::Arr(n, e) => {
                if l.peek() == b'c' {
                    let v = cstring(l)?;
                    out[at..at + v.len()].copy_from_slice(&v);
                    return Ok(());
                }
                l.expect("[")?;
                for i in 0..*n {
                    let et = self.ty(l)?;
                    self.init(l, &et, out, at + (i * e.size()) as usize)?;
                    l.eat(",");
                }
                l.expect("]")
            }
            Ty::Vec(n, e) => {
                l.expect("<")?;
                for i in 0..*n {
                    let et = self.ty(l)?;
                    self.init(l, &et, out, at + i as usize * e.size() as usize)?;
                    l.eat(",");
                }
                l.expect(">")
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    l.expect("<")?;
                }
                l.expect("{")?;
                for i in 0..f.len() {
                    let et = self.ty(l)?;
                    self.init(l, &et, out, at + t.field_offset(i) as usize)?;
                    l.eat(",");
                }
                l.expect("}")?;
                if *packed {
                    l.expect(">")?;
                }
                Ok(())
            }
            _ => {
                let mut c = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
                let v = self.val(l, t, &mut c)?;
                let n = t.size() as usize;
                match v {
                    Op::I(x) => out[at..at + n].copy_from_slice(&x.to_le_bytes()[..n]),
                    Op::D(d) => out[at..at + 8].copy_from_slice(&d.to_bits().to_le_bytes()),
                    Op::Undef => {}
                    _ => return Err("init".into()),
                }
                Ok(())
            }
        }
    }
    pub fn ty(&self, l: &mut Lex) -> R<Ty> {
        l.ws();
        let c = l.peek();
        let t = match c {
            b'[' => {
                l.p += 1;
                let n = l.num()? as u64;
                l.expect("x")?;
                let t = self.ty(l)?;
                l.expect("]")?;
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                l.p += 1;
                if l.peek() == b'{' {
                    let t = self.struct_ty(l, true)?;
                    l.expect(">")?;
                    t
                } else {
                    let n = l.num()? as u32;
                    l.expect("x")?;
                    let t = self.ty(l)?;
                    l.expect(">")?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'{' => self.struct_ty(l, false)?,
            b'%' => {
                l.p += 1;
                let n = l.name();
                self.types.get(&n).cloned().ok_or(format!("type {}", n))?
            }
            _ => {
                let w = l.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if l.eat("addrspace") {
                            l.ws();
                            l.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" | "token" | "label" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') => Ty::I(w[1..].parse().map_err(|_| format!("type {}", w))?),
                    _ => return Err(format!("type '{}' before {}", w, l.rest())),
                }
            }
        };
        Ok(t)
    }
    fn struct_ty(&self, l: &mut Lex, packed: bool) -> R<Ty> {
        l.expect("{")?;
        let mut f = vec![];
        while !l.eat("}") {
            f.push(self.ty(l)?);
            l.eat(",");
        }
        Ok(Ty::Struct(f, packed))
    }
    fn zero(&self, t: &Ty) -> Op {
        match t {
            Ty::F64 => Op::D(0.0),
            Ty::Struct(f, _) => Op::Agg(Arc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Arr(n, t) => Op::Agg(Arc::new((0..*n).map(|_| self.zero(t)).collect())),
            _ => Op::I(0),
        }
    }
    fn val(&self, l: &mut Lex, t: &Ty, c: &mut FnCtx) -> R<Op> {
        match l.peek() {
            b'%' => {
                l.p += 1;
                let n = l.name();
                return Ok(Op::R(c.reg(&n)));
            }
            b'@' => {
                l.p += 1;
                let n = l.name();
                return Ok(Op::I(self.global_addr(&n)? as u128));
            }
            b'<' if matches!(t, Ty::Vec(..)) => {
                l.p += 1;
                let (n, e) = match t {
                    Ty::Vec(n, e) => (*n, e),
                    _ => unreachable!(),
                };
                let mut r = 0u128;
                let eb = e.bits() as u32;
                for i in 0..n {
                    let et = self.ty(l)?;
                    match self.val(l, &et, c)? {
                        Op::I(x) => {
                            if i * eb < 128 {
                                r |= x << (i * eb)
                            }
                        }
                        Op::D(d) => {
                            if i * eb < 128 {
                                r |= (d.to_bits() as u128) << (i * eb)
                            }
                        }
                        _ => {}
                    }
                    l.eat(",");
                }
                l.expect(">")?;
                return Ok(Op::I(r));
            }
            b'{' | b'[' | b'<' => {
                let packed = l.eat("<");
                let close = if l.eat("{") {
                    "}"
                } else {
                    l.expect("[")?;
                    "]"
                };
                let mut v = vec![];
                while !l.eat(close) {
                    let et = self.ty(l)?;
                    v.push(self.val(l, &et, c)?);
                    l.eat(",");
                }
                if packed {
                    l.expect(">")?;
                }
                return Ok(Op::Agg(Arc::new(v)));
            }
            b'c' if l.s.get(l.p + 1) == Some(&b'"') => {
                let v = cstring(l)?;
                return Ok(Op::Agg(Arc::new(v.into_iter().map(|b| Op::I(b as u128)).collect())));
            }
            _ => {}
        }
        let w = l.word();
        match w {
            "true" => return Ok(Op::I(1)),
            "false" => return Ok(Op::I(0)),
            "null" | "none" => return Ok(Op::I(0)),
            "undef" | "poison" => return Ok(Op::Undef),
            "zeroinitializer" => return Ok(self.zero(t)),
            "splat" => {
                l.expect("(")?;
                let et = self.ty(l)?;
                let v = self.val(l, &et, c)?;
                l.expect(")")?;
                if let (Ty::Vec(n, e), Op::I(x)) = (t, &v) {
                    let mut r = 0u128;
                    let eb = e.bits() as u32;
                    for i in 0..*n {
                        if i * eb < 128 {
                            r |= (x & mask(eb)) << (i * eb);
                        }
                    }
                    return Ok(Op::I(r));
                }
                return Err("splat".into());
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "freeze" => {
                l.expect("(")?;
                let et = self.ty(l)?;
                let v = self.val(l, &et, c)?;
                l.expect("to")?;
                let tt = self.ty(l)?;
                l.expect(")")?;
                return match v {
                    Op::I(x) => Ok(Op::I(x & mask(tt.bits() as u32))),
                    v => Ok(v),
                };
            }
            "getelementptr" => {
                while FLAGS.contains(&l.peek_word()) || l.peek_word() == "inrange" {
                    if l.word() == "inrange" {
                        l.skip_parens();
                    }
                }
                l.expect("(")?;
                let et = self.ty(l)?;
                l.expect(",")?;
                let pt = self.ty(l)?;
                let b = self.val(l, &pt, c)?;
                let mut off = 0i128;
                let mut first = true;
                let mut cur = et.clone();
                while l.eat(",") {
                    let it = self.ty(l)?;
                    let v = self.val(l, &it, c)?;
                    let x = match v {
                        Op::I(x) => sext(x, it.bits() as u32),
                        _ => return Err("gep const".into()),
                    };
                    if first {
                        off += x * et.size() as i128;
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                off += cur.field_offset(x as usize) as i128;
                                cur = cur.field(x as usize).clone();
                            }
                            Ty::Arr(_, t) => {
                                off += x * t.size() as i128;
                                cur = *t;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                }
                l.expect(")")?;
                return match b {
                    Op::I(x) => Ok(Op::I((x as i128 + off) as u64 as u128)),
                    _ => Err("gep base".into()),
                };
            }
            "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                while FLAGS.contains(&l.peek_word()) {
                    l.word();
                }
                l.expect("(")?;
                let t1 = self.ty(l)?;
                let a = self.val(l, &t1, c)?;
                l.expect(",")?;
                let t2 = self.ty(l)?;
                let b = self.val(l, &t2, c)?;
                l.expect(")")?;
                if let (Op::I(a), Op::I(b)) = (a, b) {
                    let r = match w {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << b,
                        _ => a >> b,
                    };
                    return Ok(Op::I(r & mask(t1.bits() as u32)));
                }
                return Err("constexpr".into());
            }
            _ => {}
        }
        if t.is_fp() {
            return parse_f64(w).map(Op::D).ok_or(format!("float '{}'", w));
        }
        if *t == Ty::F32 {
            return parse_f64(w).map(|x| Op::I((x as f32).to_bits() as u128)).ok_or(format!("float '{}'", w));
        }
        if let Ok(x) = w.parse::<i128>() {
            return Ok(Op::I(x as u128 & mask(t.bits() as u32)));
        }
        if let Ok(x) = w.parse::<u128>() {
            return Ok(Op::I(x & mask(t.bits() as u32)));
        }
        if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
            return u128::from_str_radix(h, 16).map(Op::I).map_err(|e| e.to_string());
        }
        Err(format!("value '{}' before '{}'", w, l.rest()))
    }
    pub fn body(&self, ix: u32) -> Option<Arc<Func>> {
        let e = &self.fns[ix as usize];
        let (a, b) = e.range?;
        Some(
            e.body
                .get_or_init(|| {
                    Arc::new(match self.parse_fn(ix, &self.text[a..b]) {
                        Ok(f) => f,
                        Err(er) => Func {
                            name: e.name.clone(),
                            id: ix,
                            nregs: 1,
                            params: vec![],
                            blocks: vec![Block {
                                phis: vec![],
                                ins: vec![Ins { dst: u32::MAX, k: K::Bad(format!("parse error in {}: {}", e.name, er)) }],
                            }],
                        },
                    })
                })
                .clone(),
        )
    }
    fn skip_attrs(&self, l: &mut Lex) {
        // parameter / return attributes
        loop {
            let w = l.peek_word();
            let known = matches!(
                w,
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "writable" | "returned" | "signext" | "zeroext"
                    | "inreg" | "nocapture" | "captures" | "align" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range"
                    | "initializes" | "dead_on_unwind" | "immarg" | "allocptr" | "allocalign" | "nest" | "elementtype" | "swiftself" | "nofpclass"
                    | "dead_on_return" | "noext" | "fastcc" | "coldcc" | "ccc" | "internal" | "private" | "hidden" | "dso_local" | "local_unnamed_addr"
                    | "unnamed_addr" | "weak" | "linkonce_odr" | "external" | "available_externally" | "protected" | "default" | "tailcc" | "preserve_mostcc"
                    | "weak_odr" | "linkonce" | "cc" | "inalloca" | "preallocated"
            );
            if !known {
                return;
            }
            l.word();
            if w == "align" {
                l.ws();
                if l.peek() == b'(' {
                    l.skip_parens();
                } else {
                    l.word();
                }
            } else if w == "cc" {
                l.word();
            } else if l.s.get(l.p) == Some(&b'(') {
                l.skip_parens();
            }
        }
    }
    fn parse_fn(&self, ix: u32, text: &str) -> R<Func> {
        let mut c = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
        let mut l = Lex::new(text);
        l.expect("define")?;
        self.skip_attrs(&mut l);
        let _ = self.ty(&mut l)?;
        if l.peek() != b'@' {
            return Err(format!("fn header {}", l.rest()));
        }
        l.p += 1;
        l.name();
        l.expect("(")?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !l.eat(")") {
            if l.eat("...") {
                continue;
            }
            let _t = self.ty(&mut l)?;
            self.skip_attrs(&mut l);
            if l.peek() == b'%' {
                l.p += 1;
                let n = l.name();
                if n.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                params.push(c.reg(&n));
            } else {
                params.push(c.reg(&format!("{}", unnamed)));
                unnamed += 1;
            }
            l.eat(",");
        }
        // skip to '{' at end of header line
        let hdr_end = text.find('\n').unwrap_or(text.len());
        let body = &text[hdr_end + 1..];
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let lines: Vec<&str> = body.lines().collect();
        let mut i = 0;
        let mut set = |blocks: &mut Vec<Option<Block>>, id: u32| {
            while blocks.len() <= id as usize {
                blocks.push(None);
            }
            blocks[id as usize] = Some(Block { phis: vec![], ins: vec![] });
        };
        while i < lines.len() {
            let ln = lines[i];
            i += 1;
            let t = ln.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") || t == "}" {
                continue;
            }
            if !ln.starts_with(' ') {
                // label
                let mut ll = Lex::new(ln);
                let n = ll.name();
                let id = c.block(&n);
                set(&mut blocks, id);
                cur = Some(id);
                continue;
            }
            if cur.is_none() {
                let id = c.block(&format!("{}", unnamed));
                set(&mut blocks, id);
                cur = Some(id);
            }
            // gather continuation lines
            let mut full = ln.to_string();
            if t.starts_with("switch ") {
                while !full.trim_end().ends_with(']') && !strip_meta(&full).trim_end().ends_with(']') {
                    full.push('\n');
                    full += lines[i];
                    i += 1;
                }
            } else if t.contains("invoke ") && (t.starts_with("invoke ") || t.contains("= invoke ")) {
                full.push('\n');
                full += lines[i];
                i += 1;
            } else if t.contains("landingpad") {
                while i < lines.len() && (lines[i].trim_start().starts_with("cleanup") || lines[i].trim_start().starts_with("catch ") || lines[i].trim_start().starts_with("filter ")) {
                    i += 1;
                }
            }
            let b = cur.unwrap() as usize;
            match self.parse_ins(&full, &mut c) {
                Ok((dst, Ok(k))) => {
                    if !matches!(k, K::Nop) {
                        blocks[b].as_mut().unwrap().ins.push(Ins { dst, k });
                    }
                }
                Ok((dst, Err(inc))) => blocks[b].as_mut().unwrap().phis.push(Phi { dst, inc }),
                Err(e) => blocks[b].as_mut().unwrap().ins.push(Ins { dst: u32::MAX, k: K::Bad(format!("{} in '{}'", e, ln.trim())) }),
            }
        }
        let blocks = blocks
            .into_iter()
            .map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins { dst: u32::MAX, k: K::Bad("missing block".into()) }] }))
            .collect();
        Ok(Func { name: self.fns[ix as usize].name.clone(), id: ix, nregs: c.regs.len() as u32, params, blocks })
    }
    #[allow(clippy::type_complexity)]
    fn parse_ins(&self, s: &str, c: &mut FnCtx) -> R<(u32, Result<K, Vec<(u32, Op)>>)> {
        let mut l = Lex::new(s);
        let mut dst = u32::MAX;
        if l.peek() == b'%' {
            l.p += 1;
            let n = l.name();
            dst = c.reg(&n);
            l.expect("=")?;
        }
        let mut w = l.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = l.word();
        }
        let flags = |l: &mut Lex| {
            while FLAGS.contains(&l.peek_word()) {
                l.word();
            }
        };
        let bin = |o: B| Some(o);
        let bop = match w {
            "add" => bin(B::Add),
            "sub" => bin(B::Sub),
            "mul" => bin(B::Mul),
            "udiv" => bin(B::UDiv),
            "sdiv" => bin(B::SDiv),
            "urem" => bin(B::URem),
            "srem" => bin(B::SRem),
            "shl" => bin(B::Shl),
            "lshr" => bin(B::LShr),
            "ashr" => bin(B::AShr),
            "and" => bin(B::And),
            "or" => bin(B::Or),
            "xor" => bin(B::Xor),
            _ => None,
        };
        if let Some(o) = bop {
            flags(&mut l);
            let t = self.ty(&mut l)?;
            let a = self.val(&mut l, &t, c)?;
            l.expect(",")?;
            let b = self.val(&mut l, &t, c)?;
            return Ok((dst, Ok(K::Bin(o, t, a, b))));
        }
        let fop = match w {
            "fadd" => Some(FB::Add),
            "fsub" => Some(FB::Sub),
            "fmul" => Some(FB::Mul),
            "fdiv" => Some(FB::Div),
            "frem" => Some(FB::Rem),
            _ => None,
        };
        if let Some(o) = fop {
            flags(&mut l);
            let t = self.ty(&mut l)?;
            let a = self.val(&mut l, &t, c)?;
            l.expect(",")?;
            let b = self.val(&mut l, &t, c)?;
            if t != Ty::F64 {
                return Err(format!("{:?} arithmetic", t));
            }
            return Ok((dst, Ok(K::FBin(o, a, b))));
        }
        let cop = match w {
            "zext" => Some(C::Zext),
            "sext" => Some(C::Sext),
            "trunc" => Some(C::Trunc),
            "ptrtoint" => Some(C::PtrToInt),
            "ptrtoaddr" => Some(C::PtrToInt),
            "inttoptr" => Some(C::IntToPtr),
            "bitcast" | "addrspacecast" => Some(C::Bitcast),
            "uitofp" => Some(C::UiToFp),
            "sitofp" => Some(C::SiToFp),
            "fptoui" => Some(C::FpToUi),
            "fptosi" => Some(C::FpToSi),
            "fpext" => Some(C::FpExt),
            "fptrunc" => Some(C::FpTrunc),
            _ => None,
        };
        if let Some(o) = cop {
            flags(&mut l);
            let t = self.ty(&mut l)?;
            let a = self.val(&mut l, &t, c)?;
            l.expect("to")?;
            let t2 = self.ty(&mut l)?;
            return Ok((dst, Ok(K::Cast(o, t, a, t2))));
        }
        let k = match w {
            "fneg" => {
                flags(&mut l);
                let t = self.ty(&mut l)?;
                K::FNeg(self.val(&mut l, &t, c)?)
            }
            "icmp" => {
                flags(&mut l);
                let p = match l.word() {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    x => return Err(format!("icmp {}", x)),
                };
                let t = self.ty(&mut l)?;
                let a = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let b = self.val(&mut l, &t, c)?;
                K::ICmp(p, t, a, b)
            }
            "fcmp" => {
                flags(&mut l);
                let p = match l.word() {
                    "false" => (false, false, false, false),
                    "oeq" => (false, true, false, false),
                    "ogt" => (false, false, true, false),
                    "oge" => (false, true, true, false),
                    "olt" => (true, false, false, false),
                    "ole" => (true, true, false, false),
                    "one" => (true, false, true, false),
                    "ord" => (true, true, true, false),
                    "ueq" => (false, true, false, true),
                    "ugt" => (false, false, true, true),
                    "uge" => (false, true, true, true),
                    "ult" => (true, false, false, true),
                    "ule" => (true, true, false, true),
                    "une" => (true, false, true, true),
                    "uno" => (false, false, false, true),
                    "true" => (true, true, true, true),
                    x => return Err(format!("fcmp {}", x)),
                };
                let t = self.ty(&mut l)?;
                if t != Ty::F64 {
                    return Err("fcmp type".into());
                }
                let a = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let b = self.val(&mut l, &t, c)?;
                K::FCmp(FP { lt: p.0, eq: p.1, gt: p.2, un: p.3 }, a, b)
            }
            "alloca" => {
                l.eat("inalloca");
                let t = self.ty(&mut l)?;
                let mut n = Op::I(1);
                if l.eat(",") && !l.eat("align") {
                    let nt = self.ty(&mut l)?;
                    n = self.val(&mut l, &nt, c)?;
                }
                K::Alloca(t.size(), t, n)
            }
            "load" => {
                flags(&mut l);
                let t = self.ty(&mut l)?;
                l.expect(",")?;
                let pt = self.ty(&mut l)?;
                K::Load(t, self.val(&mut l, &pt, c)?)
            }
            "store" => {
                flags(&mut l);
                let t = self.ty(&mut l)?;
                let v = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let pt = self.ty(&mut l)?;
                K::Store(t, v, self.val(&mut l, &pt, c)?)
            }
            "getelementptr" => {
                flags(&mut l);
                let et = self.ty(&mut l)?;
                l.expect(",")?;
                let pt = self.ty(&mut l)?;
                let b = self.val(&mut l, &pt, c)?;
                let mut off = 0i64;
                let mut steps = vec![];
                let mut first = true;
                let mut cur = et.clone();
                while l.eat(",") {
                    if l.peek() == b'!' {
                        break;
                    }
                    let it = self.ty(&mut l)?;
                    let v = self.val(&mut l, &it, c)?;
                    let scale;
                    if first {
                        scale = et.size() as i64;
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                if let Op::I(x) = v {
                                    off += cur.field_offset(x as usize) as i64;
                                    cur = cur.field(x as usize).clone();
                                    continue;
                                }
                                return Err("gep struct".into());
                            }
                            Ty::Arr(_, t) => {
                                scale = t.size() as i64;
                                cur = *t;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match v {
                        Op::I(x) => off += sext(x, it.bits() as u32) as i64 * scale,
                        v => steps.push((v, it.bits() as u32, scale)),
                    }
                }
                K::Gep(b, off, steps)
            }
            "call" | "invoke" => {
                flags(&mut l);
                self.skip_attrs(&mut l);
                let mut ret = self.ty(&mut l)?;
                self.skip_attrs(&mut l);
                if l.peek() == b'(' {
                    l.skip_parens(); // function type of a variadic callee
                }
                let mut callee = None;
                if l.peek() == b'@' {
                    l.p += 1;
                    let n = l.name();
                    callee = Some(if n.starts_with("llvm.") {
                        Callee::Intr(n.as_str().into())
                    } else {
                        let mut nn = n.clone();
                        while let Some(a) = self.aliases.get(&nn) {
                            nn = a.clone();
                        }
                        Callee::F(*self.fn_ix.get(&nn).ok_or(format!("fn {}", n))?)
                    });
                } else if l.peek() == b'%' {
                    callee = Some(Callee::Ptr(self.val(&mut l, &Ty::Ptr, c)?));
                } else if l.eat("asm") {
                    // an empty text is a barrier for the optimiser
                    if l.rest().contains("sideeffect \"\",") && dst == u32::MAX {
                        return Ok((u32::MAX, Ok(K::Nop)));
                    }
                    return Ok((dst, Ok(K::Bad("inline asm".into()))));
                } else if l.peek() == b'i' {
                    callee = Some(Callee::Ptr(self.val(&mut l, &Ty::Ptr, c)?));
                }
                let callee = callee.ok_or_else(|| format!("callee {}", l.rest()))?;
                if let Callee::Intr(n) = &callee {
                    if n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.donothing")
                    {
                        return Ok((u32::MAX, Ok(K::Nop)));
                    }
                }
                l.expect("(")?;
                let mut args = vec![];
                while !l.eat(")") {
                    let t = self.ty(&mut l)?;
                    if t == Ty::Other {
                        // metadata argument: skip to , or )
                        while !matches!(l.peek(), b',' | b')') {
                            l.p += 1;
                        }
                        l.eat(",");
                        continue;
                    }
                    self.skip_attrs(&mut l);
                    let v = self.val(&mut l, &t, c)?;
                    args.push((t, v));
                    l.eat(",");
                }
                let mut normal = None;
                if w == "invoke" {
                    let p = s.rfind("to label %").ok_or("invoke")?;
                    let mut l2 = Lex::new(&s[p + 10..]);
                    let n = l2.name();
                    normal = Some(c.block(&n));
                }
                if dst == u32::MAX && ret != Ty::Void {
                    ret = ret.clone();
                }
                K::Call { callee, args, ret, normal }
            }
            "select" => {
                flags(&mut l);
                let t = self.ty(&mut l)?;
                let cnd = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let t1 = self.ty(&mut l)?;
                let a = self.val(&mut l, &t1, c)?;
                l.expect(",")?;
                let t2 = self.ty(&mut l)?;
                let b = self.val(&mut l, &t2, c)?;
                if matches!(t, Ty::Vec(..)) {
                    return Err("vector select".into());
                }
                K::Select(t1, cnd, a, b)
            }
            "phi" => {
                flags(&mut l);
                let t = self.ty(&mut l)?;
                let mut inc = vec![];
                loop {
                    l.expect("[")?;
                    let v = self.val(&mut l, &t, c)?;
                    l.expect(",")?;
                    if l.peek() != b'%' {
                        return Err("phi".into());
                    }
                    l.p += 1;
                    let n = l.name();
                    inc.push((c.block(&n), v));
                    l.expect("]")?;
                    if !l.eat(",") || l.peek() == b'!' {
                        break;
                    }
                }
                return Ok((dst, Err(inc)));
            }
            "extractvalue" => {
                let t = self.ty(&mut l)?;
                let v = self.val(&mut l, &t, c)?;
                let mut p = vec![];
                while l.eat(",") {
                    if l.peek() == b'!' {
                        break;
                    }
                    p.push(l.num()? as u32);
                }
                K::Extract(v, p)
            }
            "insertvalue" => {
                let t = self.ty(&mut l)?;
                let v = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let t2 = self.ty(&mut l)?;
                let e = self.val(&mut l, &t2, c)?;
                let mut p = vec![];
                while l.eat(",") {
                    if l.peek() == b'!' {
                        break;
                    }
                    p.push(l.num()? as u32);
                }
                K::Insert(t, v, e, p)
            }
            "extractelement" => {
                let t = self.ty(&mut l)?;
                let v = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let it = self.ty(&mut l)?;
                let ix = self.val(&mut l, &it, c)?;
                K::ExtElem(t, v, ix)
            }
            "insertelement" => {
                let t = self.ty(&mut l)?;
                let v = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let et = self.ty(&mut l)?;
                let e = self.val(&mut l, &et, c)?;
                l.expect(",")?;
                let it = self.ty(&mut l)?;
                let ix = self.val(&mut l, &it, c)?;
                K::InsElem(t, v, e, ix)
            }
            "shufflevector" => {
                let t = self.ty(&mut l)?;
                let a = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let t2 = self.ty(&mut l)?;
                let b = self.val(&mut l, &t2, c)?;
                l.expect(",")?;
                let mt = self.ty(&mut l)?;
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle".into()),
                };
                let mut ms = vec![];
                if l.eat("zeroinitializer") {
                    ms = vec![0; n as usize];
                } else if l.eat("poison") || l.eat("undef") {
                    ms = vec![-1; n as usize];
                } else {
                    l.expect("<")?;
                    for _ in 0..n {
                        let _ = self.ty(&mut l)?;
                        if l.eat("poison") || l.eat("undef") {
                            ms.push(-1);
                        } else {
                            ms.push(l.num()? as i32);
                        }
                        l.eat(",");
                    }
                }
                K::Shuffle(t, a, b, ms)
            }
            "freeze" => {
                let t = self.ty(&mut l)?;
                K::Copy(self.val(&mut l, &t, c)?)
            }
            "atomicrmw" => {
                flags(&mut l);
                let o = l.word();
                let pt = self.ty(&mut l)?;
                let p = self.val(&mut l, &pt, c)?;
                l.expect(",")?;
                let t = self.ty(&mut l)?;
                let v = self.val(&mut l, &t, c)?;
                K::Rmw(o.into(), t, p, v)
            }
            "cmpxchg" => {
                l.eat("weak");
                flags(&mut l);
                let pt = self.ty(&mut l)?;
                let p = self.val(&mut l, &pt, c)?;
                l.expect(",")?;
                let t = self.ty(&mut l)?;
                let a = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                let t2 = self.ty(&mut l)?;
                let b = self.val(&mut l, &t2, c)?;
                K::CmpXchg(t, p, a, b)
            }
            "fence" => K::Nop,
            "br" => {
                if l.eat("label") {
                    l.peek();
                    l.p += 1;
                    let n = l.name();
                    K::Br(c.block(&n))
                } else {
                    let t = self.ty(&mut l)?;
                    let v = self.val(&mut l, &t, c)?;
                    l.expect(",")?;
                    l.expect("label")?;
                    l.peek();
                    l.p += 1;
                    let a = l.name();
                    l.expect(",")?;
                    l.expect("label")?;
                    l.peek();
                    l.p += 1;
                    let b = l.name();
                    let (a, b) = (c.block(&a), c.block(&b));
                    K::CondBr(v, a, b)
                }
            }
            "switch" => {
                let t = self.ty(&mut l)?;
                let v = self.val(&mut l, &t, c)?;
                l.expect(",")?;
                l.expect("label")?;
                l.peek();
                l.p += 1;
                let d = l.name();
                let d = c.block(&d);
                l.expect("[")?;
                let mut cs = vec![];
                while !l.eat("]") {
                    let ct = self.ty(&mut l)?;
                    let x = match self.val(&mut l, &ct, c)? {
                        Op::I(x) => x,
                        _ => return Err("switch".into()),
                    };
                    l.expect(",")?;
                    l.expect("label")?;
                    l.peek();
                    l.p += 1;
                    let n = l.name();
                    cs.push((x, c.block(&n)));
                }
                K::Switch(v, d, cs)
            }
            "ret" => {
                let t = self.ty(&mut l)?;
                if t == Ty::Void {
                    K::Ret(None)
                } else {
                    K::Ret(Some(self.val(&mut l, &t, c)?))
                }
            }
            "unreachable" => K::Unreachable,
            "resume" => K::Resume,
            "landingpad" => K::Nop,
            _ => return Err(format!("instruction {}", w)),
        };
        Ok((dst, Ok(k)))
    }
}

fn strip_meta(s: &str) -> &str {
    match s.find(", !") {
        Some(p) => &s[..p],
        None => s,
    }
}
pub fn mask(b: u32) -> u128 {
    if b >= 128 {
        u128::MAX
    } else {
        (1u128 << b) - 1
    }
}
pub fn sext(x: u128, b: u32) -> i128 {
    if b == 0 || b >= 128 {
        return x as i128;
    }
    let s = 128 - b;
    ((x << s) as i128) >> s
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    b[from..].iter().position(|x| *x == c).map(|p| p + from).unwrap_or(b.len())
}
fn find(b: &[u8], from: usize, pat: &[u8]) -> usize {
    let mut p = from;
    while p + pat.len() <= b.len() {
        if b[p] == pat[0] && &b[p..p + pat.len()] == pat {
            return p;
        }
        p += 1;
    }
    b.len()
}
