//! Exact arithmetic: big integers, rationals, multivariate polynomials.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct BigInt {
    pub neg: bool,
    pub mag: Vec<u32>, // little endian, no trailing zeros; zero = empty, neg=false
}

fn trim(v: &mut Vec<u32>) {
    while let Some(&0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if d < 0 {
            d += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(d as u32);
    }
    trim(&mut r);
    r
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let w = n / 32;
    let b = n % 32;
    let mut r = vec![0u32; w];
    let mut c = 0u32;
    for &x in a {
        if b == 0 {
            r.push(x);
        } else {
            r.push((x << b) | c);
            c = x >> (32 - b);
        }
    }
    if c > 0 {
        r.push(c);
    }
    r
}
fn shr_mag(a: &[u32], n: usize) -> Vec<u32> {
    let w = n / 32;
    let b = n % 32;
    if w >= a.len() {
        return vec![];
    }
    let mut r = Vec::with_capacity(a.len() - w);
    for i in w..a.len() {
        let lo = a[i] >> b;
        let hi = if b > 0 && i + 1 < a.len() { a[i + 1] << (32 - b) } else { 0 };
        r.push(lo | hi);
    }
    trim(&mut r);
    r
}
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let t = (r << 32) | a[i] as u64;
            q[i] = (t / d) as u32;
            r = t % d;
        }
        trim(&mut q);
        let mut rv = vec![r as u32];
        trim(&mut rv);
        return (q, rv);
    }
    // Knuth D
    let s = b.last().unwrap().leading_zeros() as usize;
    let b = shl_mag(b, s);
    let mut a = shl_mag(a, s);
    a.push(0);
    let n = b.len();
    let m = a.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((a[j + n] as u64) << 32) | a[j + n - 1] as u64;
        let mut qh = num / b[n - 1] as u64;
        let mut rh = num % b[n - 1] as u64;
        while qh >= 1 << 32 || qh * b[n - 2] as u64 > ((rh << 32) | a[j + n - 2] as u64) {
            qh -= 1;
            rh += b[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * b[i] as u64 + carry;
            carry = p >> 32;
            let t = a[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            a[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = a[j + n] as i64 - borrow - carry as i64;
        a[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let s2 = a[i + j] as u64 + b[i] as u64 + c;
                a[i + j] = s2 as u32;
                c = s2 >> 32;
            }
            a[j + n] = (a[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    trim(&mut a);
    (q, shr_mag(&a, s))
}

impl BigInt {
    pub fn zero() -> Self {
        BigInt { neg: false, mag: vec![] }
    }
    pub fn from_i128(v: i128) -> Self {
        let mut m = v.unsigned_abs();
        let mut mag = vec![];
        while m > 0 {
            mag.push(m as u32);
            m >>= 32;
        }
        BigInt { neg: v < 0, mag }
    }
    fn norm(neg: bool, mut mag: Vec<u32>) -> Self {
        trim(&mut mag);
        let neg = neg && !mag.is_empty();
        BigInt { neg, mag }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(x) => self.mag.len() * 32 - x.leading_zeros() as usize,
        }
    }
    pub fn to_i128(&self) -> Option<i128> {
        if self.bits() > 126 {
            return None;
        }
        let mut r = 0i128;
        for &x in self.mag.iter().rev() {
            r = (r << 32) | x as i128;
        }
        Some(if self.neg { -r } else { r })
    }
    pub fn neg(&self) -> Self {
        BigInt::norm(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Self) -> Self {
        if self.neg == o.neg {
            BigInt::norm(self.neg, add_mag(&self.mag, &o.mag))
        } else {
            match cmp_mag(&self.mag, &o.mag) {
                Ordering::Equal => BigInt::zero(),
                Ordering::Greater => BigInt::norm(self.neg, sub_mag(&self.mag, &o.mag)),
                Ordering::Less => BigInt::norm(o.neg, sub_mag(&o.mag, &self.mag)),
            }
        }
    }
    pub fn mul(&self, o: &Self) -> Self {
        BigInt::norm(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    /// truncated division
    pub fn divrem(&self, o: &Self) -> (Self, Self) {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        (BigInt::norm(self.neg != o.neg, q), BigInt::norm(self.neg, r))
    }
    pub fn gcd(&self, o: &Self) -> Self {
        let mut a = self.mag.clone();
        let mut b = o.mag.clone();
        while !b.is_empty() {
            let (_, r) = divrem_mag(&a, &b);
            a = b;
            b = r;
        }
        BigInt { neg: false, mag: a }
    }
    pub fn shl(&self, n: usize) -> Self {
        BigInt::norm(self.neg, shl_mag(&self.mag, n))
    }
    pub fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
    pub fn to_string(&self) -> String {
        if self.mag.is_empty() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = divrem_mag(&m, &[1_000_000_000]);
            parts.push(*r.get(0).unwrap_or(&0));
            m = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s += &format!("{}", parts.pop().unwrap());
        while let Some(p) = parts.pop() {
            s += &format!("{:09}", p);
        }
        s
    }
    pub fn parse(s: &str) -> Option<Self> {
        let (neg, d) = if let Some(r) = s.strip_prefix('-') { (true, r) } else { (false, s) };
        let mut mag: Vec<u32> = vec![];
        if d.is_empty() {
            return None;
        }
        for c in d.chars() {
            let v = c.to_digit(10)?;
            let mut carry = v as u64;
            for x in mag.iter_mut() {
                let t = *x as u64 * 10 + carry;
                *x = t as u32;
                carry = t >> 32;
            }
            if carry > 0 {
                mag.push(carry as u32);
            }
        }
        Some(BigInt::norm(neg, mag))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rat {
    S(i64, i64), // den > 0, reduced
    B(Box<(BigInt, BigInt)>),
}
fn gcd_u128(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return x as u128;
        }
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Rat {
    pub fn int(v: i64) -> Rat {
        Rat::S(v, 1)
    }
    pub fn zero() -> Rat {
        Rat::S(0, 1)
    }
    pub fn one() -> Rat {
        Rat::S(1, 1)
    }
    fn from_i128(n: i128, d: i128) -> Rat {
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        let g = gcd_u128(n.unsigned_abs(), d as u128) as i128;
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if n >= -(i64::MAX as i128) && n <= i64::MAX as i128 && d <= i64::MAX as i128 {
            Rat::S(n as i64, d as i64)
        } else {
            Rat::B(Box::new((BigInt::from_i128(n), BigInt::from_i128(d))))
        }
    }
    pub fn from_big(n: BigInt, d: BigInt) -> Rat {
        assert!(!d.is_zero());
        let g = n.gcd(&d);
        let (mut n, mut d) = if g.bits() > 1 { (n.divrem(&g).0, d.divrem(&g).0) } else { (n, d) };
        if d.neg {
            n = n.neg();
            d = d.neg();
        }
        if let (Some(a), Some(b)) = (n.to_i128(), d.to_i128()) {
            if a >= -(i64::MAX as i128) && a <= i64::MAX as i128 && b <= i64::MAX as i128 {
                return Rat::S(a as i64, b as i64);
            }
        }
        Rat::B(Box::new((n, d)))
    }
    pub fn num(&self) -> BigInt {
        match self {
            Rat::S(n, _) => BigInt::from_i128(*n as i128),
            Rat::B(b) => b.0.clone(),
        }
    }
    pub fn den(&self) -> BigInt {
        match self {
            Rat::S(_, d) => BigInt::from_i128(*d as i128),
            Rat::B(b) => b.1.clone(),
        }
    }
    pub fn bits(&self) -> usize {
        match self {
            Rat::S(..) => 64,
            Rat::B(b) => b.0.bits() + b.1.bits(),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Rat::S(0, _))
    }
    pub fn sign(&self) -> i32 {
        match self {
            Rat::S(n, _) => n.signum() as i32,
            Rat::B(b) => {
                if b.0.neg {
                    -1
                } else {
                    1
                }
            }
        }
    }
    pub fn is_int(&self) -> bool {
        match self {
            Rat::S(_, d) => *d == 1,
            Rat::B(b) => b.1.bits() == 1,
        }
    }
    pub fn neg(&self) -> Rat {
        match self {
            Rat::S(n, d) => Rat::S(-n, *d),
            Rat::B(b) => Rat::B(Box::new((b.0.neg(), b.1.clone()))),
        }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            if b == d {
                return Rat::from_i128(*a as i128 + *c as i128, *b as i128);
            }
            let (x, y, z) = ((*a as i128).checked_mul(*d as i128), (*c as i128).checked_mul(*b as i128), *b as i128 * *d as i128);
            if let (Some(x), Some(y)) = (x, y) {
                if let Some(s) = x.checked_add(y) {
                    return Rat::from_i128(s, z);
                }
            }
        }
        let (a, b, c, d) = (self.num(), self.den(), o.num(), o.den());
        Rat::from_big(a.mul(&d).add(&c.mul(&b)), b.mul(&d))
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            return Rat::from_i128(*a as i128 * *c as i128, *b as i128 * *d as i128);
        }
        Rat::from_big(self.num().mul(&o.num()), self.den().mul(&o.den()))
    }
    pub fn inv(&self) -> Rat {
        match self {
            Rat::S(n, d) => {
                if *n < 0 {
                    Rat::S(-d, -n)
                } else {
                    Rat::S(*d, *n)
                }
            }
            Rat::B(b) => Rat::from_big(b.1.clone(), b.0.clone()),
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            return (*a as i128 * *d as i128).cmp(&(*c as i128 * *b as i128));
        }
        self.num().mul(&o.den()).cmp(&o.num().mul(&self.den()))
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Rat::zero());
        }
        if x.fract() == 0.0 && x.abs() < 9e15 {
            return Some(Rat::S(x as i64, 1));
        }
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        let f = bits & ((1 << 52) - 1);
        let (m, ex) = if e == 0 { (f, -1074) } else { (f | (1 << 52), e - 1075) };
        let n = BigInt { neg: x < 0.0, mag: BigInt::from_i128(m as i128).mag };
        Some(if ex >= 0 {
            Rat::from_big(n.shl(ex as usize), BigInt::from_i128(1))
        } else {
            Rat::from_big(n, BigInt::from_i128(1).shl((-ex) as usize))
        })
    }
    /// nearest-ish f64 (error below 1 ulp)
    pub fn to_f64(&self) -> f64 {
        match self {
            Rat::S(n, d) if n.abs() < (1 << 53) && *d < (1 << 53) => *n as f64 / *d as f64,
            _ => {
                let (n, d) = (self.num(), self.den());
                let sh = 64 + d.bits() as i64 - n.bits() as i64;
                let q = if sh > 0 { n.shl(sh as usize).divrem(&d).0 } else { n.divrem(&d.shl((-sh) as usize)).0 };
                let mut v = 0f64;
                for &x in q.mag.iter().rev() {
                    v = v * 4294967296.0 + x as f64;
                }
                let mut s = -sh;
                while s > 0 {
                    let k = s.min(1000);
                    v *= 2f64.powi(k as i32);
                    s -= k;
                }
                while s < 0 {
                    let k = (-s).min(1000);
                    v /= 2f64.powi(k as i32);
                    s += k;
                }
                if q.neg {
                    -v
                } else {
                    v
                }
            }
        }
    }
    pub fn floor(&self) -> BigInt {
        let (q, r) = self.num().divrem(&self.den());
        if r.neg {
            q.add(&BigInt::from_i128(-1))
        } else {
            q
        }
    }
    pub fn smt(&self) -> String {
        let n = self.num();
        let d = self.den();
        let b = if d.bits() == 1 {
            BigInt { neg: false, mag: n.mag.clone() }.to_string() + ".0"
        } else {
            format!("(/ {}.0 {}.0)", BigInt { neg: false, mag: n.mag.clone() }.to_string(), d.to_string())
        };
        if n.neg {
            format!("(- {})", b)
        } else {
            b
        }
    }
    pub fn show(&self) -> String {
        match self {
            Rat::S(n, 1) => format!("{}", n),
            Rat::S(n, d) => format!("{}/{}", n, d),
            Rat::B(_) => format!("~{:e}", self.to_f64()),
        }
    }
}

pub type Mono = Vec<u16>; // sorted variable ids with repetition

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub t: Vec<(Mono, Rat)>, // sorted by mono, nonzero coefs; constant mono = [] first
}
impl Poly {
    pub fn konst(r: Rat) -> Poly {
        if r.is_zero() {
            Poly { t: vec![] }
        } else {
            Poly { t: vec![(vec![], r)] }
        }
    }
    pub fn var(v: u16) -> Poly {
        Poly { t: vec![(vec![v], Rat::one())] }
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.t.len() {
            0 => Some(Rat::zero()),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.neg())).collect() }
    }
    pub fn scale(&self, r: &Rat) -> Poly {
        if r.is_zero() {
            return Poly { t: vec![] };
        }
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.mul(r))).collect() }
    }
    fn merge(&self, o: &Poly, neg: bool) -> Poly {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let ord = if i == self.t.len() {
                Ordering::Greater
            } else if j == o.t.len() {
                Ordering::Less
            } else {
                self.t[i].0.cmp(&o.t[j].0)
            };
            match ord {
                Ordering::Less => {
                    r.push(self.t[i].clone());
                    i += 1;
                }
                Ordering::Greater => {
                    let (m, c) = &o.t[j];
                    r.push((m.clone(), if neg { c.neg() } else { c.clone() }));
                    j += 1;
                }
                Ordering::Equal => {
                    let c = if neg { self.t[i].1.sub(&o.t[j].1) } else { self.t[i].1.add(&o.t[j].1) };
                    if !c.is_zero() {
                        r.push((self.t[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        Poly { t: r }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.merge(o, false)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.merge(o, true)
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        let mut m: std::collections::BTreeMap<Mono, Rat> = Default::default();
        for (a, x) in &self.t {
            for (b, y) in &o.t {
                let mut k: Mono = Vec::with_capacity(a.len() + b.len());
                let (mut i, mut j) = (0, 0);
                while i < a.len() || j < b.len() {
                    if j == b.len() || (i < a.len() && a[i] <= b[j]) {
                        k.push(a[i]);
                        i += 1;
                    } else {
                        k.push(b[j]);
                        j += 1;
                    }
                }
                let p = x.mul(y);
                match m.get_mut(&k) {
                    Some(v) => *v = v.add(&p),
                    None => {
                        m.insert(k, p);
                    }
                }
            }
        }
        Poly { t: m.into_iter().filter(|(_, c)| !c.is_zero()).collect() }
    }
    pub fn degree(&self) -> usize {
        self.t.iter().map(|(m, _)| m.len()).max().unwrap_or(0)
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<u16>) {
        for (m, _) in &self.t {
            for v in m {
                out.insert(*v);
            }
        }
    }
    pub fn eval(&self, f: &dyn Fn(u16) -> Rat) -> Rat {
        let mut s = Rat::zero();
        for (m, c) in &self.t {
            let mut p = c.clone();
            for v in m {
                p = p.mul(&f(*v));
            }
            s = s.add(&p);
        }
        s
    }
    pub fn eval_f64(&self, f: &dyn Fn(u16) -> f64) -> f64 {
        let mut s = 0.0;
        for (m, c) in &self.t {
            let mut p = c.to_f64();
            for v in m {
                p *= f(*v);
            }
            s += p;
        }
        s
    }
    /// scale by a positive constant so that coefficients are coprime integers; returns (poly, flipped)
    /// with the leading (last) coefficient positive; flipped = the sign was changed
    pub fn canon(&self) -> (Poly, bool) {
        if self.t.is_empty() {
            return (self.clone(), false);
        }
        let mut l = BigInt::from_i128(1);
        for (_, c) in &self.t {
            let d = c.den();
            let g = l.gcd(&d);
            l = l.mul(&d).divrem(&g).0;
        }
        let mut g = BigInt::zero();
        for (_, c) in &self.t {
            let n = c.num().mul(&l).divrem(&c.den()).0;
            g = g.gcd(&n);
        }
        let flip = self.t.last().unwrap().1.sign() < 0;
        let mut s = Rat::from_big(l, g);
        if flip {
            s = s.neg();
        }
        (self.scale(&s), flip)
    }
    pub fn smt(&self, pre: &str) -> String {
        if self.t.is_empty() {
            return "0.0".into();
        }
        let mut s = String::new();
        if self.t.len() > 1 {
            s += "(+";
        }
        for (m, c) in &self.t {
            if self.t.len() > 1 {
                s.push(' ');
            }
            if m.is_empty() {
                s += &c.smt();
            } else if m.len() == 1 && *c == Rat::one() {
                s += &format!("{}{}", pre, m[0]);
            } else {
                s += "(*";
                if *c != Rat::one() {
                    s.push(' ');
                    s += &c.smt();
                }
                for v in m {
                    s += &format!(" {}{}", pre, v);
                }
                s.push(')');
            }
        }
        if self.t.len() > 1 {
            s.push(')');
        }
        s
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (m, c) in &self.t {
            if !s.is_empty() {
                s += " + ";
            }
            s += &c.show();
            for v in m {
                s += &format!("*v{}", v);
            }
        }
        if s.is_empty() {
            s = "0".into();
        }
        s
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn big() {
        let mut x = 88172645463325252u64;
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for _ in 0..20000 {
            let a = ((rnd() as i128) << (rnd() % 60)) - rnd() as i128;
            let b = (rnd() >> (rnd() % 63)) as i128 - (rnd() >> 33) as i128;
            let (ba, bb) = (BigInt::from_i128(a), BigInt::from_i128(b));
            assert_eq!(ba.add(&bb).to_i128(), Some(a + b));
            if b != 0 {
                let (q, r) = ba.divrem(&bb);
                assert_eq!(q.to_i128(), Some(a / b));
                assert_eq!(r.to_i128(), Some(a % b));
                // big: (a*b*b + r)/b
                let p = ba.mul(&ba).mul(&bb).mul(&bb);
                let (q, r) = p.divrem(&ba.mul(&bb));
                if a != 0 {
                    assert!(r.is_zero());
                    assert_eq!(q, ba.mul(&bb));
                }
            }
            assert_eq!(BigInt::parse(&ba.to_string()), Some(ba));
            let f = f64::from_bits(rnd());
            if f.is_finite() && f.abs() > 1e-290 && f.abs() < 1e290 {
                let g = Rat::from_f64(f).unwrap().to_f64();
                assert!((f - g).abs() <= f.abs() * 3e-16, "{} {}", f, g);
            }
        }
    }
}
