//! Data generators and oracles shared by the harnesses.
#![allow(dead_code)]
use crate::api::*;
use common::data_reader::create_feature_columns as _unused_cols;
use common::datasets::*;
use common::question::Question;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::*;
use multi_target_decision_tree::grad_boost_decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::split_finder::*;

pub const B: f64 = 1000.;
pub const TOL: f64 = 1. / 1048576.;
pub const TINY: f64 = 1. / 1073741824.;

pub struct D {
    pub x: Vec<Vec<f64>>,
    pub y: Vec<Vec<f64>>,
}
pub fn keep() {
    let _ = _unused_cols as fn(&Vec<Vec<f64>>) -> Vec<Vec<f64>>;
}
fn table(i: usize, j: usize) -> f64 {
    ((i * 7 + j * 5 + i * i * 3) % 11) as f64
}
/// features: mode 0 arbitrary reals, mode 1 small whole numbers, mode 2 a fixed table,
/// mode 3 arbitrary reals in ascending order in column 0 (rows sorted, no loss of generality
/// for one column up to the order of the rows), other columns arbitrary; mode 4 the fixed table
/// but the last row arbitrary; mode 5 the last two rows arbitrary; mode 6 zeros and ones;
/// mode 7 arbitrary reals of any practical size; mode 8 infinities, zeros of both signs and one;
/// mode 9 the fixed table but one column of the last row arbitrary; mode 10 every column of one of
/// six shapes; mode 11 every row one of four that agree in most columns; mode 12 the fixed table but
/// the last row a copy of another one with an arbitrary value in one column; mode 15 constant columns
/// but for one of the first, the middle or the last two, in which the values are arbitrary; mode 16 the
/// row number in column 0 but for one arbitrary value, the other columns constant; mode 17 as 16 but
/// without an arbitrary value
pub fn feats(n: usize, c: usize, mode: usize) -> Vec<Vec<f64>> {
    let mut x = Vec::with_capacity(n);
    let shapes: Vec<usize> = if mode == 10 { (0..c).map(|_| choice(6)).collect() } else { vec![] };
    let (from, at) = match mode {
        12 => (choice(n - 1), choice(c)),
        15 => (0, [0, c - 1, c / 2, c.max(2) - 2][choice(4)]),
        _ => (0, 0),
    };
    for i in 0..n {
        let mut r = Vec::with_capacity(c);
        let pick = if mode == 11 { choice(4) } else { 0 };
        for j in 0..c {
            r.push(match mode {
                10 => match shapes[j] {
                    0 => 3.,
                    1 => i as f64,
                    2 => -(i as f64),
                    3 => (i % 2) as f64,
                    4 => (i / 2) as f64,
                    _ => table(i, j),
                },
                11 => {
                    let other = match pick {
                        1 => j == 0,
                        2 => j + 1 == c,
                        3 => j > 0 && j + 1 < c,
                        _ => false,
                    };
                    if other { 5. } else { 10. * j as f64 }
                }
                12 if i + 1 < n => table(i, j),
                12 if j != at => table(from, j),
                15 if j != at => 7.,
                16 | 17 if j > 0 => 7.,
                16 if i > 0 => i as f64,
                17 => i as f64,
                1 => choice(3) as f64,
                2 => table(i, j),
                4 | 5 if i + mode < n + 3 => table(i, j),
                6 => choice(2) as f64,
                7 => sym(-1e15, 1e15),
                8 => [f64::NEG_INFINITY, -0., 0., 1., f64::INFINITY][choice(5)],
                9 if i + 1 < n || j > 0 => table(i, j),
                _ => sym(-B, B),
            });
        }
        x.push(r);
    }
    if mode == 3 {
        for i in 1..n {
            assume_le(x[i - 1][0], x[i][0]);
        }
    }
    x
}
/// a threshold for features of the mode
pub fn threshold(mode: usize) -> f64 {
    match mode {
        7 => sym(-2e15, 2e15),
        8 => [f64::NEG_INFINITY, -0., 0., 0.5, 1., f64::INFINITY][choice(6)],
        _ => sym(-B - 1., B + 1.),
    }
}
/// labels: mode 0 arbitrary reals, 1 small whole numbers, 2 one-hot, 3 a fixed table,
/// 4 arbitrary reals in [-1, 1], 5 fixed one-hot, 6 arbitrary first target, the others fixed,
/// 7 zero or one, 8 a fixed table but the last row arbitrary, 9 fixed one-hot but the last row,
/// 10 arbitrary reals in [0, 1], 11 arbitrary reals of any practical size, 12 every target of one of
/// five shapes, 13 zero but for one arbitrary label, 14 every row one of four vectors,
/// 15 growing geometrically with the row (every split cuts off few rows), 16 whole numbers up to 3 in a
/// fixed table, 17 two classes of which one has all rows from a row near the middle or an end on, 18 all
/// targets of one of five shapes but the last one, which has another one and is large
pub fn labels(n: usize, t: usize, mode: usize) -> Vec<Vec<f64>> {
    let mut y = Vec::with_capacity(n);
    let shapes: Vec<usize> = if mode == 12 { (0..t).map(|_| choice(5)).collect() } else { vec![] };
    let (row, at) = match mode {
        13 => (choice(n), choice(t)),
        17 => ([1, n - 1, n / 2, n / 2 + 1, n / 2 - 1, n - n / 7][choice(6)], choice(t)),
        18 => (choice(5), choice(5)),
        _ => (0, 0),
    };
    let shape = |k: usize, i: usize| match k {
        0 => 2.,
        1 => (i % 2) as f64,
        2 => i as f64,
        3 => if i == n / 2 { 8. } else { 0. },
        _ => (i / 2) as f64,
    };
    for i in 0..n {
        let mut r = vec![0.; t];
        match mode {
            12 => {
                for j in 0..t {
                    r[j] = shape(shapes[j], i);
                }
            }
            17 => r[if i < row { at } else { t - 1 - at }] = 1.,
            18 => {
                for j in 0..t {
                    r[j] = if j + 1 < t { shape(row, i) } else { 100. * t as f64 * shape(at, i) };
                }
            }
            13 => {
                if i == row {
                    r[at] = sym(-B, B);
                }
            }
            14 => {
                let pick = choice(4);
                for j in 0..t {
                    r[j] = match pick {
                        1 => (j == 0) as usize as f64,
                        2 => (j + 1 == t) as usize as f64,
                        3 => 1.,
                        _ => 0.,
                    };
                }
            }
            15 => {
                for j in 0..t {
                    r[j] = 1.5f64.powi(i as i32) + j as f64;
                }
            }
            16 => {
                for j in 0..t {
                    r[j] = ((i * 5 + j * 3 + i * i * 2 + i / 4) % 4) as f64;
                }
            }
            2 => r[choice(t)] = 1.,
            9 if i + 1 == n => r[choice(t)] = 1.,
            5 | 9 => r[(i * i + i / 2) % t] = 1.,
            _ => {
                for j in 0..t {
                    let fixed = ((i * 5 + j * 3 + i * i * 2) % 13) as f64;
                    r[j] = match mode {
                        0 => sym(-B, B),
                        1 => [0., 1., 4., 10.][choice(4)],
                        3 => fixed,
                        8 if i + 1 < n => fixed,
                        8 => sym(-B, B),
                        4 => sym(-1., 1.),
                        10 => sym(0., 1.),
                        11 => sym(-1e9, 1e9),
                        6 => {
                            if j == 0 {
                                sym(-B, B)
                            } else {
                                fixed
                            }
                        }
                        _ => choice(2) as f64,
                    };
                }
            }
        }
        y.push(r);
    }
    y
}
pub fn data(n: usize, c: usize, t: usize, fm: usize, lm: usize) -> D {
    let x = feats(n, c, fm);
    let y = labels(n, t, lm);
    D { x, y }
}
pub fn columns(x: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let c = x[0].len();
    (0..c).map(|j| x.iter().map(|r| r[j]).collect()).collect()
}
pub fn set(x: &[Vec<f64>], y: &[Vec<f64>]) -> MultiTargetDataSet {
    MultiTargetDataSet { feature_rows: x.to_vec(), labels: y.to_vec(), feature_columns: columns(x) }
}
impl D {
    pub fn set(&self) -> MultiTargetDataSet {
        set(&self.x, &self.y)
    }
}
pub fn config(t: usize, levels: usize, multi: bool) -> TreeConfig {
    TreeConfig {
        split_finder: SplitFinder::new(SplitMetric::Variance),
        use_multi_threading: multi,
        number_of_classes: t as u32,
        max_levels: levels as u32,
    }
}

// ---- oracles ----
/// variance of the labels of the rows, summed over the targets
pub fn variance(y: &[Vec<f64>], rows: &[usize]) -> f64 {
    let t = y[0].len();
    let n = rows.len() as f64;
    let mut total = 0.;
    for j in 0..t {
        let (mut s, mut q) = (0., 0.);
        for r in rows {
            s += y[*r][j];
            q += y[*r][j] * y[*r][j];
        }
        total += q / n - (s / n) * (s / n);
    }
    total
}
pub fn mean(y: &[Vec<f64>], rows: &[usize]) -> Vec<f64> {
    let t = y[0].len();
    let mut m = vec![0.; t];
    for r in rows {
        for j in 0..t {
            m[j] += y[*r][j];
        }
    }
    for j in 0..t {
        m[j] /= rows.len() as f64;
    }
    m
}
pub fn split(x: &[Vec<f64>], rows: &[usize], col: usize, v: f64) -> (Vec<usize>, Vec<usize>) {
    let (mut t, mut f) = (vec![], vec![]);
    for r in rows {
        if x[*r][col] >= v {
            t.push(*r)
        } else {
            f.push(*r)
        }
    }
    (t, f)
}
pub fn gain(y: &[Vec<f64>], rows: &[usize], t: &[usize], f: &[usize]) -> f64 {
    let n = rows.len() as f64;
    variance(y, rows) - (t.len() as f64 / n) * variance(y, t) - (f.len() as f64 / n) * variance(y, f)
}
/// no question on the rows achieves a larger reduction than g
pub fn none_better(x: &[Vec<f64>], y: &[Vec<f64>], rows: &[usize], g: f64, tol: f64, id: u32) {
    let many = rows.len() > 20;
    for c in 0..x[0].len() {
        let mut seen: Vec<f64> = vec![];
        for r in rows {
            if many {
                // each value once
                if seen.iter().any(|v| *v == x[*r][c]) {
                    continue;
                }
                seen.push(x[*r][c]);
            }
            let (t, f) = split(x, rows, c, x[*r][c]);
            if !t.is_empty() && !f.is_empty() {
                le(gain(y, rows, &t, &f), g, tol, id);
            }
        }
    }
}
pub fn all(n: usize) -> Vec<usize> {
    (0..n).collect()
}

// ---- trees ----
pub enum T {
    Leaf(Lf),
    Node(usize, f64, Box<T>, Box<T>),
}
#[derive(Default)]
pub struct Lf {
    pub rows: Option<Vec<Vec<f64>>>,
    pub labels: Option<Vec<Vec<f64>>>,
    pub cols: Option<Vec<Vec<f64>>>,
    pub sorted: Option<Vec<Vec<(f64, usize)>>>,
    pub out: Option<Vec<f64>>,
    pub max: Option<(f64, usize)>,
}
pub trait LeafInfo {
    fn lf(&self) -> Lf;
}
impl LeafInfo for RegressionLeaf {
    fn lf(&self) -> Lf {
        let d = self.data.as_ref().unwrap();
        Lf { rows: Some(d.feature_rows.clone()), labels: Some(d.labels.clone()), cols: Some(d.feature_columns.clone()), ..Default::default() }
    }
}
impl LeafInfo for RegressionLeafNewPartition<'_> {
    fn lf(&self) -> Lf {
        let d = self.data.as_ref().unwrap();
        Lf {
            labels: Some(d.labels.iter().map(|x| (*x).clone()).collect()),
            sorted: Some(d.sorted_feature_columns.clone()),
            ..Default::default()
        }
    }
}
impl LeafInfo for GradBoostLeaf {
    fn lf(&self) -> Lf {
        Lf { out: Some(self.leaf_output.as_ref().unwrap().clone()), ..Default::default() }
    }
}
impl LeafInfo for AMGBoostLeaf {
    fn lf(&self) -> Lf {
        Lf { max: Some((self.max_value.unwrap(), self.class.unwrap())), ..Default::default() }
    }
}
/// every node has either a leaf or both branches
pub fn shape<L: Leaf + LeafInfo>(n: &TreeNode<L>) -> T {
    match (&n.leaf, &n.true_branch, &n.false_branch) {
        (Some(l), None, None) => {
            check(n.is_leaf_node(), 800);
            T::Leaf(l.lf())
        }
        (None, Some(t), Some(f)) => {
            check(!n.is_leaf_node(), 801);
            T::Node(n.question.column as usize, n.question.value, Box::new(shape(t)), Box::new(shape(f)))
        }
        _ => {
            check(false, 802);
            T::Leaf(Lf::default())
        }
    }
}
pub fn observe(t: &T) {
    match t {
        T::Leaf(l) => {
            obs_i(1000);
            if let Some(y) = &l.labels {
                obs_i(y.len());
            }
            if let Some(o) = &l.out {
                for x in o {
                    obs(*x);
                }
            }
        }
        T::Node(c, v, a, b) => {
            obs_i(*c);
            obs(*v);
            observe(a);
            observe(b);
        }
    }
}
pub fn reg_tree(d: &D, levels: usize, multi: bool) -> T {
    let t = RegressionMultiTargetDecisionTree::new(d.set(), config(d.y[0].len(), levels, multi));
    shape(&t.root)
}
pub fn sorted_tree(d: &D, levels: usize) -> T {
    let s = d.set();
    let p = common::data_processor::create_dataset_with_sorted_features(&s);
    let t = RegressionMultiTargetDecisionTreeNewPartition::new(p, config(d.y[0].len(), levels, false));
    shape(&t.root)
}
pub fn calc(multi_class: bool) -> LeafOutputCalculator {
    LeafOutputCalculator::new(if multi_class { LeafOutputType::MultiClassClassification } else { LeafOutputType::Regression })
}
pub fn grad_tree(d: &D, levels: usize, multi: bool, mc: bool) -> T {
    let t = GradBoostMultiTargetDecisionTree::new(d.set(), config(d.y[0].len(), levels, multi), calc(mc));
    shape(&t.root)
}
pub fn amg_tree(d: &D, levels: usize, multi: bool) -> T {
    let t = AMGBoostTree::new(d.set(), config(d.y[0].len(), levels, multi), calc(true));
    shape(&t.root)
}
/// 0 regression, 1 presorted regression, 2 gradient boosting, 3 multi-class gradient boosting, 4 AMG
pub fn build(kind: usize, d: &D, levels: usize, multi: bool) -> T {
    match kind {
        0 => reg_tree(d, levels, multi),
        1 => sorted_tree(d, levels),
        2 => grad_tree(d, levels, multi, false),
        3 => grad_tree(d, levels, multi, true),
        _ => amg_tree(d, levels, multi),
    }
}
pub fn route<'a>(t: &'a T, row: &[f64]) -> &'a Lf {
    match t {
        T::Leaf(l) => l,
        T::Node(c, v, a, b) => {
            if row[*c] >= *v {
                route(a, row)
            } else {
                route(b, row)
            }
        }
    }
}
pub fn same_vec(a: &[f64], b: &[f64], id: u32) {
    check(a.len() == b.len(), id);
    for i in 0..a.len() {
        same(a[i], b[i], id);
    }
}
pub fn close_vec(a: &[f64], b: &[f64], tol: f64, id: u32) {
    check(a.len() == b.len(), id);
    for i in 0..a.len() {
        close(a[i], b[i], tol, id);
    }
}
pub fn same_mat(a: &[Vec<f64>], b: &[Vec<f64>], id: u32) {
    check(a.len() == b.len(), id);
    for i in 0..a.len() {
        same_vec(&a[i], &b[i], id);
    }
}
/// the same tree: questions, shape and leaf contents
pub fn same_tree(a: &T, b: &T, id: u32) {
    match (a, b) {
        (T::Leaf(p), T::Leaf(q)) => same_leaf(p, q, id + 1),
        (T::Node(c, v, t, f), T::Node(c2, v2, t2, f2)) => {
            check(c == c2, id);
            same(*v, *v2, id);
            same_tree(t, t2, id);
            same_tree(f, f2, id);
        }
        _ => check(false, id),
    }
}
pub fn same_leaf(p: &Lf, q: &Lf, id: u32) {
    if let (Some(a), Some(b)) = (&p.rows, &q.rows) {
        same_mat(a, b, id);
    }
    if let (Some(a), Some(b)) = (&p.cols, &q.cols) {
        same_mat(a, b, id);
    }
    if let (Some(a), Some(b)) = (&p.labels, &q.labels) {
        same_mat(a, b, id);
    }
    check(p.out.is_some() == q.out.is_some(), id);
    if let (Some(a), Some(b)) = (&p.out, &q.out) {
        same_vec(a, b, id);
    }
    check(p.max.is_some() == q.max.is_some(), id);
    if let (Some(a), Some(b)) = (&p.max, &q.max) {
        same(a.0, b.0, id);
        check(a.1 == b.1, id);
    }
}
/// is the row one of the candidates (marking it as used)? exact equality
pub fn take_row(used: &mut [bool], n: usize, eq: impl Fn(usize) -> bool) -> bool {
    for i in 0..n {
        if !used[i] && eq(i) {
            used[i] = true;
            return true;
        }
    }
    false
}
pub fn eq_vec(a: &[f64], b: &[f64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if !(a[i] == b[i]) {
            return false;
        }
    }
    true
}
pub fn dummy_q() -> Question {
    Question::new(0, 0.)
}
/// the multi-class Newton leaf value of the residuals of the rows
pub fn newton(res: &[Vec<f64>], rows: &[usize]) -> Vec<f64> {
    let k = res[0].len();
    let mut out = vec![];
    for j in 0..k {
        let (mut n, mut d) = (0., 0.);
        for r in rows {
            let v = res[*r][j];
            n += v;
            d += v.abs() * (1. - v.abs());
        }
        let q = n / d;
        let kf = k as f64;
        out.push(if q.is_finite() { (kf - 1.) / kf * q } else { 0. });
    }
    out
}
pub fn softmax(s: &[f64]) -> Vec<f64> {
    let mut m = s[0];
    for x in s {
        if *x > m {
            m = *x
        }
    }
    let e: Vec<f64> = s.iter().map(|x| (x - m).exp()).collect();
    let mut t = 0.;
    for x in &e {
        t += x;
    }
    e.iter().map(|x| x / t).collect()
}
