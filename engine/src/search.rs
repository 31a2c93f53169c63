//! Local search for models of nonlinear queries: moves one variable at a time to a value that
//! satisfies a violated constraint (chosen from the roots of the constraint in that variable).
//! Only proposes; the caller checks the proposal exactly.
use crate::num::*;
use crate::sym::*;

struct A {
    t: Vec<(f64, Vec<u16>)>,
    m: u8,
}
pub struct Search {
    cons: Vec<Vec<Vec<A>>>,
    uses: Vec<Vec<usize>>, // variable -> constraints
    w: Vec<f64>,
    lo: Vec<f64>,
    hi: Vec<f64>,
}
fn ev(a: &A, x: &[f64]) -> f64 {
    let mut s = 0.0;
    for (c, m) in &a.t {
        let mut p = *c;
        for v in m {
            p *= x[*v as usize];
        }
        s += p;
    }
    s
}
fn ok(a: &A, x: &[f64]) -> bool {
    let v = ev(a, x);
    let s = if v < 0.0 {
        NEG
    } else if v > 0.0 {
        POS
    } else {
        ZERO
    };
    s & a.m != 0
}
impl Search {
    pub fn new(q: &Query) -> Option<Search> {
        let mut cons = vec![];
        let n = q.vars.len();
        let mut uses = vec![vec![]; n];
        for (i, (_, c)) in q.cons.iter().enumerate() {
            let mut alts = vec![];
            for a in &c.alts {
                let mut at = vec![];
                for x in a {
                    let t: Vec<(f64, Vec<u16>)> = x.p.t.iter().map(|(m, c)| (c.to_f64(), m.clone())).collect();
                    if t.iter().any(|x| !x.0.is_finite()) {
                        return None;
                    }
                    for (_, m) in &t {
                        for v in m {
                            if uses[*v as usize].last() != Some(&i) {
                                uses[*v as usize].push(i);
                            }
                        }
                    }
                    at.push(A { t, m: x.m });
                }
                alts.push(at);
            }
            cons.push(alts);
        }
        let w = vec![1.0; cons.len()];
        let lo = (0..n).map(|i| q.lo[i].as_ref().map_or(-1e6, |r| r.to_f64())).collect();
        let hi = (0..n).map(|i| q.hi[i].as_ref().map_or(1e6, |r| r.to_f64())).collect();
        Some(Search { cons, uses, w, lo, hi })
    }
    fn holds(&self, i: usize, x: &[f64]) -> bool {
        self.cons[i].iter().any(|a| a.iter().all(|y| ok(y, x)))
    }
    /// coefficients of the atom as a polynomial of degree at most two in the variable
    fn uni(a: &A, v: u16, x: &[f64]) -> Option<[f64; 3]> {
        let mut r = [0.0; 3];
        for (c, m) in &a.t {
            let mut p = *c;
            let mut d = 0;
            for y in m {
                if *y == v {
                    d += 1;
                } else {
                    p *= x[*y as usize];
                }
            }
            if d > 2 {
                return None;
            }
            r[d] += p;
        }
        Some(r)
    }
    fn cands(a: &A, v: u16, x: &[f64], out: &mut Vec<f64>, rnd: u64) {
        let [c, b, q] = match Self::uni(a, v, x) {
            Some(r) => r,
            None => {
                out.push(((rnd % 41) as f64) - 20.0);
                return;
            }
        };
        let mut roots: Vec<f64> = vec![];
        if q.abs() < 1e-12 * (b.abs() + c.abs()) || q == 0.0 {
            if b == 0.0 {
                return;
            }
            roots.push(-c / b);
        } else {
            let d = b * b - 4.0 * q * c;
            if d < 0.0 {
                // no root: the best is the vertex, if anything
                out.push(Self::short(a, v, x, -b / (2.0 * q)));
                return;
            }
            let s = d.sqrt();
            roots.push((-b - s) / (2.0 * q));
            roots.push((-b + s) / (2.0 * q));
            if roots[0] > roots[1] {
                roots.swap(0, 1);
            }
        }
        let mut pts: Vec<f64> = vec![];
        let far = [0.03, 0.5, 2.0, 9.0];
        for r in &roots {
            if a.m & ZERO != 0 {
                pts.push(*r);
            }
            let s = 1.0 + r.abs() * 0.3;
            let f = far[(rnd % 4) as usize];
            for k in [1e-3, 1.0 / 8.0, f] {
                pts.push(r - k * s);
                pts.push(r + k * s);
            }
        }
        if roots.len() == 2 {
            pts.push((roots[0] + roots[1]) / 2.0);
            pts.push(roots[0] * 0.9 + roots[1] * 0.1);
            pts.push(roots[0] * 0.1 + roots[1] * 0.9);
        }
        for p in pts {
            out.push(Self::short(a, v, x, p));
        }
    }
    /// a number with few bits near p that satisfies the atom, if there is one
    fn short(a: &A, v: u16, x: &[f64], p: f64) -> f64 {
        if !(p.abs() < 1e9) {
            return 0.0;
        }
        let mut y = x.to_vec();
        for k in [0, 1, 3, 6, 10, 16, 24, 30] {
            let s = (1u64 << k) as f64;
            let c = (p * s).round() / s;
            y[v as usize] = c;
            if ok(a, &y) && (k >= 3 || (c - p).abs() < 0.3) {
                return c;
            }
        }
        p
    }
    pub fn run(&mut self, x: &mut Vec<f64>, iters: u32, rnd: &mut dyn FnMut() -> u64) -> bool {
        let n = x.len();
        for i in 0..n {
            x[i] = x[i].max(self.lo[i]).min(self.hi[i]);
        }
        let mut bad: Vec<bool> = (0..self.cons.len()).map(|i| !self.holds(i, x)).collect();
        for it in 0..iters {
            let viol: Vec<usize> = (0..bad.len()).filter(|i| bad[*i]).collect();
            if viol.is_empty() {
                return true;
            }
            let pick = viol[(rnd() % viol.len() as u64) as usize];
            let mut best: Option<(f64, usize, f64)> = None;
            let mut any: Vec<(usize, f64)> = vec![];
            for alt in &self.cons[pick] {
                for a in alt {
                    if ok(a, x) {
                        continue;
                    }
                    let mut seen: Vec<u16> = vec![];
                    for (_, m) in &a.t {
                        for v in m {
                            if !seen.contains(v) {
                                seen.push(*v);
                            }
                        }
                    }
                    for v in seen {
                        let mut cs = vec![];
                        Self::cands(a, v, x, &mut cs, rnd());
                        let vi = v as usize;
                        let old = x[vi];
                        for c in cs {
                            if !(c >= self.lo[vi] && c <= self.hi[vi]) || c == old {
                                continue;
                            }
                            x[vi] = c;
                            let mut g = 0.0;
                            for k in &self.uses[vi] {
                                let h = self.holds(*k, x);
                                if h && bad[*k] {
                                    g += self.w[*k];
                                } else if !h && !bad[*k] {
                                    g -= self.w[*k];
                                }
                            }
                            if best.map_or(true, |b| g > b.0) {
                                best = Some((g, vi, c));
                            }
                            any.push((vi, c));
                        }
                        x[vi] = old;
                    }
                }
            }
            let (vi, c) = match best {
                Some((g, vi, c)) if g > 0.0 => (vi, c),
                Some((_, vi, c)) => {
                    for k in &viol {
                        self.w[*k] += 1.0;
                    }
                    if rnd() % 3 == 0 {
                        any[(rnd() % any.len() as u64) as usize]
                    } else {
                        (vi, c)
                    }
                }
                None => {
                    self.w[pick] += 1.0;
                    let vi = (rnd() % n as u64) as usize;
                    (vi, ((rnd() % 21) as f64 - 10.0).max(self.lo[vi]).min(self.hi[vi]))
                }
            };
            if it % 97 == 96 {
                // scale everything or start somewhere else
                if rnd() % 2 == 0 {
                    let f = [0.5, 0.125, 1.0 / 1024.0, 2.0, 8.0][(rnd() % 5) as usize];
                    for i in 0..n {
                        x[i] = (x[i] * f).max(self.lo[i]).min(self.hi[i]);
                    }
                } else {
                    for i in 0..n {
                        if rnd() % 2 == 0 {
                            x[i] = ((rnd() % 41) as f64 - 20.0).max(self.lo[i]).min(self.hi[i]);
                        }
                    }
                }
                for i in 0..bad.len() {
                    bad[i] = !self.holds(i, x);
                }
                continue;
            }
            x[vi] = c;
            for k in self.uses[vi].clone() {
                bad[k] = !self.holds(k, x);
            }
        }
        bad.iter().all(|b| !b)
    }
}
/// the exact number, shortened when it is not representable nicely
pub fn rat(x: f64) -> Option<Rat> {
    Rat::from_f64(x)
}
