//! One harness per property. Parameters of the configuration are read with `par`.
use crate::api::*;
use crate::util::*;
use common::data_processor::*;
use common::data_reader::*;
use common::datasets::*;
use common::feature_sorter::get_sorted_feature_tuple_vector;
use common::numerical_calculations::*;
use common::question::Question;
use multi_target_decision_tree::data_partitioner::partition;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::*;
use multi_target_decision_tree::grad_boost_decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::printer::print_tree_regression;
use multi_target_decision_tree::scorer::{classification, regression};
use multi_target_decision_tree::split_finder::*;
use multi_target_grad_boost::boosting_ensemble::boosting_types::*;
use multi_target_grad_boost::boosting_ensemble::common_multi_class_boosting_functions::executor_helper_functions::calculate_residuals;
use multi_target_grad_boost::boosting_ensemble::common_multi_class_boosting_functions::predict_helper_functions::get_binary_prediction;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;

pub fn run() {
    keep();
    match id() {
        1 => c01(),
        2 => c02(),
        3 => c03(),
        4 => c04(),
        5 => c05(),
        6 => c06(),
        7 => c07(),
        8 => c08(),
        9 => c09(),
        10 => c10(),
        11 => c11(),
        12 => c12(),
        13 => c13(),
        14 => c14(),
        15 => c15(),
        16 => c16(),
        17 => c17(),
        18 => c18(),
        19 => c19(),
        20 => c20(),
        21 => c21(),
        22 => c22(),
        23 => c23(),
        24 => c24(),
        25 => c25(),
        26 => c26(),
        27 => c27(),
        28 => c28(),
        29 => c29(),
        30 => c30(),
        31 => c31(),
        32 => c32(),
        33 => c33(),
        34 => c34(),
        35 => c35(),
        36 => c36(),
        _ => check(false, 9000),
    }
}

// n rows, c columns, t targets
fn c01() {
    let (n, c, t) = (pu(0), pu(1), pu(2));
    let d = data(n, c, t, pu(3), pu(4));
    let col = choice(c);
    let v = threshold(pu(3));
    let (tr, fa) = split(&d.x, &all(n), col, v);
    assume(!tr.is_empty() && !fa.is_empty());
    let (f, tt) = partition(&d.set(), &Question::new(col as u32, v));
    for (part, rows) in [(&tt, &tr), (&f, &fa)] {
        check(part.feature_rows.len() == rows.len(), 1);
        check(part.labels.len() == rows.len(), 2);
        check(part.feature_columns.len() == c, 3);
        for (i, r) in rows.iter().enumerate() {
            same_vec(&part.feature_rows[i], &d.x[*r], 4);
            same_vec(&part.labels[i], &d.y[*r], 5);
        }
        for j in 0..c {
            check(part.feature_columns[j].len() == rows.len(), 6);
            for (i, r) in rows.iter().enumerate() {
                same(part.feature_columns[j][i], d.x[*r][j], 7);
            }
        }
        obs_i(rows.len());
        obs(part.feature_rows[0][0]);
    }
}

fn check_sorted_part(part: &MultiTargetDataSetSortedFeatures, rows: &[usize], d: &D, base: u32) {
    check(part.labels.len() == rows.len(), base);
    for (i, r) in rows.iter().enumerate() {
        same_vec(part.labels[i], &d.y[*r], base + 1);
    }
    check(part.sorted_feature_columns.len() == d.x[0].len(), base + 2);
    for (j, col) in part.sorted_feature_columns.iter().enumerate() {
        check(col.len() == rows.len(), base + 3);
        let mut seen = vec![false; d.x.len()];
        for (i, (v, r)) in col.iter().enumerate() {
            check(*r < d.x.len() && !seen[*r] && rows.contains(r), base + 4);
            seen[*r] = true;
            same(*v, d.x[*r][j], base + 5);
            if i > 0 {
                le(col[i - 1].0, *v, 0., base + 6);
            }
        }
    }
}
// n rows, c columns, t targets, number of successive splits
fn c02() {
    let (n, c, t, splits) = (pu(0), pu(1), pu(2), pu(3));
    let d = data(n, c, t, pu(4), pu(5));
    let s = d.set();
    let mut cur = create_dataset_with_sorted_features(&s);
    let all_labels = cur.labels.clone();
    let mut rows = all(n);
    for k in 0..splits {
        let col = choice(c);
        let v = threshold(pu(4));
        let (tr, fa) = split(&d.x, &rows, col, v);
        let (a, b) = new_partition(&cur, col, v, &all_labels);
        obs_i(a.labels.len());
        obs_i(b.labels.len());
        check_sorted_part(&a, &tr, &d, 10);
        check_sorted_part(&b, &fa, &d, 30);
        if k + 1 < splits {
            let first = choice(2) == 0;
            cur = if first { a } else { b };
            rows = if first { tr } else { fa };
            assume(!rows.is_empty());
        }
    }
}
fn best_split(d: &D, t: usize) -> (f64, usize, f64) {
    let f = SplitFinder::new(SplitMetric::Variance);
    let r = (f.find_best_split)(&d.set(), t as u32);
    obs(r.gain);
    obs_i(r.question.column as usize);
    obs(r.question.value);
    (r.gain, r.question.column as usize, r.question.value)
}
// n, c, t, feature mode, label mode
fn c03() {
    let (n, c, t, fm, lm) = (pu(0), pu(1), pu(2), pu(3), pu(4));
    let d = data(n, c, t, fm, lm);
    let (g, col, v) = best_split(&d, t);
    check(col < c, 1);
    le(0., g, 0., 2);
    let rows = all(n);
    let (tr, fa) = split(&d.x, &rows, col, v);
    if g > TOL {
        check(!tr.is_empty() && !fa.is_empty(), 3);
    }
    if !tr.is_empty() && !fa.is_empty() {
        if g != 0. {
            close(g, gain(&d.y, &rows, &tr, &fa), TOL, 4);
        }
    } else {
        close(g, 0., TOL, 5);
    }
}
fn c04() {
    let (n, c, t, fm, lm) = (pu(0), pu(1), pu(2), pu(3), pu(4));
    let d = data(n, c, t, fm, lm);
    let (g, _, _) = best_split(&d, t);
    none_better(&d.x, &d.y, &all(n), g, TOL, 1);
    // no gain where there is nothing to gain
    let mut varies = false;
    for j in 0..c {
        for i in 1..n {
            varies |= d.x[i][j] != d.x[0][j];
        }
    }
    if !varies {
        same(g, 0., 2);
    } else if pu(5) == 1 {
        let mut equal = true;
        for i in 1..n {
            equal &= eq_vec(&d.y[i], &d.y[0]);
        }
        if equal {
            close(g, 0., TOL, 3);
        }
    }
}
fn walk05(t: &T, d: &D, rows: &[usize], level: usize, levels: usize) {
    match t {
        T::Leaf(l) => {
            check(level <= levels, 1);
            check(!rows.is_empty(), 2);
            let y = l.labels.as_ref().unwrap();
            check(y.len() == rows.len(), 3);
            let mut used = vec![false; rows.len()];
            if let Some(x) = &l.rows {
                check(x.len() == rows.len(), 4);
                for r in rows {
                    check(take_row(&mut used, rows.len(), |i| eq_vec(&y[i], &d.y[*r]) && eq_vec(&x[i], &d.x[*r])), 5);
                }
                let cols = l.cols.as_ref().unwrap();
                check(cols.len() == d.x[0].len(), 6);
                for j in 0..cols.len() {
                    check(cols[j].len() == x.len(), 7);
                    for i in 0..x.len() {
                        same(cols[j][i], x[i][j], 8);
                    }
                }
            } else {
                for r in rows {
                    check(take_row(&mut used, rows.len(), |i| eq_vec(&y[i], &d.y[*r])), 9);
                }
                for (j, col) in l.sorted.as_ref().unwrap().iter().enumerate() {
                    check(col.len() == rows.len(), 10);
                    let mut u = vec![false; rows.len()];
                    for r in rows {
                        check(take_row(&mut u, rows.len(), |i| col[i].1 == *r && col[i].0 == d.x[*r][j]), 11);
                    }
                }
            }
        }
        T::Node(c, v, a, b) => {
            check(*c < d.x[0].len(), 12);
            check(level < levels, 13);
            let (tr, fa) = split(&d.x, rows, *c, *v);
            walk05(a, d, &tr, level + 1, levels);
            walk05(b, d, &fa, level + 1, levels);
        }
    }
}
// n, c, t, fm, lm, levels, kind (0 row-based, 1 presorted)
fn c05() {
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let tree = build(kind, &d, levels, pu(7) == 1);
    observe(&tree);
    walk05(&tree, &d, &all(n), 0, levels);
}
/// the tolerance for gains on the rows: relative for the geometric labels, which are fixed numbers
fn tol_on(d: &D, rows: &[usize]) -> f64 {
    if par(4) == 15 {
        TOL * variance(&d.y, rows)
    } else {
        TOL
    }
}
fn walk06(t: &T, d: &D, rows: &[usize], level: usize, levels: usize, base: u32) {
    match t {
        T::Leaf(_) => {
            check(level <= levels, base);
            if level < levels {
                none_better(&d.x, &d.y, rows, 0., tol_on(d, rows), base + 1);
            }
        }
        T::Node(c, v, a, b) => {
            let (tr, fa) = split(&d.x, rows, *c, *v);
            check(!tr.is_empty() && !fa.is_empty(), base + 2);
            none_better(&d.x, &d.y, rows, gain(&d.y, rows, &tr, &fa), tol_on(d, rows), base + 3);
            walk06(a, d, &tr, level + 1, levels, base);
            walk06(b, d, &fa, level + 1, levels, base);
        }
    }
}
fn c06() {
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let tree = build(kind, &d, levels, pu(7) == 1);
    observe(&tree);
    walk06(&tree, &d, &all(n), 0, levels, 1);
}
fn ensemble(kind: usize, d: &D, levels: usize, multi: bool, iters: usize, lr: f64) -> (Vec<T>, Vec<f64>, f64) {
    let cfg = config(d.y[0].len(), levels, multi);
    match kind {
        0 => {
            let m = RegressionBoostModel::train(d.set(), cfg, iters as u32, lr);
            (m.trees.iter().map(|t| shape(t)).collect(), m.initial_guess, m.learning_rate)
        }
        1 => {
            let m = MultiClassBoostModel::train(d.set(), cfg, iters as u32, lr);
            (m.trees.iter().map(|t| shape(t)).collect(), m.initial_guess, m.learning_rate)
        }
        _ => {
            let m = AMGBoostModel::train(d.set(), cfg, iters as u32, lr);
            (m.trees.iter().map(|t| shape(t)).collect(), m.initial_guess, m.learning_rate)
        }
    }
}
// n, c, t, fm, lm, levels, kind (0..4 trees, 10..12 ensembles), iterations, also single-threaded under
// task orders, only three patterns of task orders
fn c07() {
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let orders = if pu(9) == 1 { 2 } else { 1 };
    if kind < 10 {
        let a = build(kind, &d, levels, false);
        observe(&a);
        sched_on(orders);
        let b = build(kind, &d, levels, true);
        sched_on(0);
        same_tree(&a, &b, 1);
        if pu(8) == 1 {
            sched_on(orders);
            let b = build(kind, &d, levels, false);
            sched_on(0);
            same_tree(&a, &b, 11);
        }
    } else {
        ideal(kind == 10);
        let (a, g, lr) = ensemble(kind - 10, &d, levels, false, pu(7), 0.5);
        for t in &a {
            observe(t);
        }
        sched_on(orders);
        let (b, g2, lr2) = ensemble(kind - 10, &d, levels, true, pu(7), 0.5);
        sched_on(0);
        same_vec(&g, &g2, 5);
        same(lr, lr2, 6);
        check(a.len() == b.len(), 7);
        for i in 0..a.len() {
            same_tree(&a[i], &b[i], 8);
        }
    }
}
// n, c, t, fm, lm, levels, test rows, feature mode, label mode of the test rows, task orders
fn c08() {
    exact();
    let (n, c, t, fm, lm, levels, tests) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let s = d.set();
    sched_on(pu(9));
    let rows = Box::new(RegressionMultiTargetDecisionTree::new(d.set(), config(t, levels, false)).root);
    let sorted = Box::new(
        RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&s), config(t, levels, false)).root,
    );
    sched_on(0);
    let (a, b) = (shape(&rows), shape(&sorted));
    observe(&a);
    c08_same(&a, &b);
    if tests > 0 {
        let q = D { x: feats(tests, c, pu(7)), y: labels(tests, t, if pu(8) == 0 { 3 } else { pu(8) }) };
        let e1 = regression::calculate_overall_mean_squared_error(&q.set(), &rows);
        let e2 = regression::calculate_overall_mean_squared_error_new_partition(&q.set(), &sorted);
        close(e1, e2, TOL, 7);
    }
}
fn c08_same(a: &T, b: &T) {
    match (a, b) {
        (T::Leaf(p), T::Leaf(q)) => {
            let (x, y) = (p.labels.as_ref().unwrap(), q.labels.as_ref().unwrap());
            check(x.len() == y.len(), 1);
            let mut used = vec![false; x.len()];
            for r in x {
                check(take_row(&mut used, y.len(), |i| eq_vec(&y[i], r)), 2);
            }
        }
        (T::Node(c, v, t, f), T::Node(c2, v2, t2, f2)) => {
            check(c == c2, 3);
            same(*v, *v2, 4);
            c08_same(t, t2);
            c08_same(f, f2);
        }
        _ => check(false, 5),
    }
}

/// a hand-made tree; leaves made by the callback. Below 100 a full tree of that depth with arbitrary
/// thresholds and columns; from 100 on a chain of questions (depth - 100) and from 200 on a full tree
/// (depth - 200) with fixed thresholds
fn made<L: Leaf>(depth: usize, cols: usize, leaf: &mut dyn FnMut() -> L) -> TreeNode<L> {
    if depth >= 200 {
        return made_fixed(depth - 200, cols, &mut 0, leaf);
    }
    if depth >= 100 {
        return made_chain(0, depth - 100, cols, leaf);
    }
    if depth == 0 {
        return TreeNode::leaf_node(dummy_q(), leaf());
    }
    let q = Question::new(choice(cols) as u32, sym(-B, B));
    let t = made(depth - 1, cols, leaf);
    let f = made(depth - 1, cols, leaf);
    TreeNode::new(q, Box::new(t), Box::new(f))
}
fn made_chain<L: Leaf>(at: usize, depth: usize, cols: usize, leaf: &mut dyn FnMut() -> L) -> TreeNode<L> {
    if at == depth {
        return TreeNode::leaf_node(dummy_q(), leaf());
    }
    let q = Question::new((at % cols) as u32, if at % 2 == 0 { at as f64 } else { (2 * depth - at) as f64 });
    let end = Box::new(TreeNode::leaf_node(dummy_q(), leaf()));
    let rest = Box::new(made_chain(at + 1, depth, cols, leaf));
    if at % 2 == 0 {
        TreeNode::new(q, rest, end)
    } else {
        TreeNode::new(q, end, rest)
    }
}
fn made_fixed<L: Leaf>(depth: usize, cols: usize, cnt: &mut usize, leaf: &mut dyn FnMut() -> L) -> TreeNode<L> {
    if depth == 0 {
        return TreeNode::leaf_node(dummy_q(), leaf());
    }
    *cnt += 1;
    let q = Question::new((*cnt % cols) as u32, ((*cnt * 5) % 7) as f64);
    let t = made_fixed(depth - 1, cols, cnt, leaf);
    let f = made_fixed(depth - 1, cols, cnt, leaf);
    TreeNode::new(q, Box::new(t), Box::new(f))
}
fn mse(pred: &[f64], y: &[f64]) -> f64 {
    let mut s = 0.;
    for i in 0..y.len() {
        s += (pred[i] - y[i]) * (pred[i] - y[i]);
    }
    s / y.len() as f64
}
// depth, columns, targets, rows per leaf (at most), test rows, label mode, feature mode of the test rows, task orders
/// other labels in the same leaves
fn relabel(t: &mut TreeNode<RegressionLeaf>, f: &mut dyn FnMut(usize) -> Vec<Vec<f64>>) {
    if let Some(d) = t.leaf.as_mut().and_then(|l| l.data.as_mut()) {
        let y = f(d.labels.len());
        refill(&mut d.labels, &y);
    }
    for b in [t.true_branch.as_mut(), t.false_branch.as_mut()] {
        if let Some(b) = b {
            relabel(b, f);
        }
    }
}
/// other numbers in the same memory
fn refill(v: &mut [Vec<f64>], w: &[Vec<f64>]) {
    for i in 0..v.len() {
        v[i].copy_from_slice(&w[i]);
    }
}
// depth, columns, targets, rows per leaf, test rows, label mode, feature mode of the tests, task orders,
// 1: score again with other numbers in the same memory
fn c09() {
    let (depth, c, t, per, tests, lm) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5));
    let mut tree = Box::new(made(depth, c, &mut || {
        let k = 1 + choice(per);
        RegressionLeaf { data: Some(set(&feats(k, c, 2), &labels(k, t, lm))) }
    }));
    let mut q = D { x: feats(tests, c, pu(6)), y: labels(tests, t, lm) };
    let mut qs = q.set();
    for round in 0..1 + pu(8) {
        if round > 0 {
            relabel(&mut tree, &mut |k| labels(k, t, lm));
            q = D { x: feats(tests, c, pu(6)), y: labels(tests, t, lm) };
            refill(&mut qs.feature_rows, &q.x);
            refill(&mut qs.labels, &q.y);
            qs.feature_columns = q.set().feature_columns;
        }
        let shp = shape(&tree);
        let mut want = 0.;
        for i in 0..tests {
            let l = route(&shp, &q.x[i]);
            let y = l.labels.as_ref().unwrap();
            want += mse(&mean(y, &all(y.len())), &q.y[i]);
        }
        want /= tests as f64;
        sched_on(pu(7));
        let got = regression::calculate_overall_mean_squared_error(&qs, &tree);
        sched_on(0);
        obs(got);
        close(got, want, TOL, 1);
        // the same tree with leaves of the presorted kind
        let sets: Vec<MultiTargetDataSet> = leaves(&tree);
        let mut k = 0;
        let tree2 = Box::new(copied(&tree, &sets, &mut k));
        sched_on(pu(7));
        let got2 = regression::calculate_overall_mean_squared_error_new_partition(&qs, &tree2);
        sched_on(0);
        close(got2, want, TOL, 2);
    }
}
fn leaves(t: &TreeNode<RegressionLeaf>) -> Vec<MultiTargetDataSet> {
    match &t.leaf {
        Some(l) => vec![l.data.as_ref().unwrap().clone()],
        None => {
            let mut v = leaves(t.true_branch.as_ref().unwrap());
            v.extend(leaves(t.false_branch.as_ref().unwrap()));
            v
        }
    }
}
fn copied<'a>(t: &TreeNode<RegressionLeaf>, sets: &'a [MultiTargetDataSet], k: &mut usize) -> TreeNode<RegressionLeafNewPartition<'a>> {
    match &t.leaf {
        Some(_) => {
            let s = &sets[*k];
            *k += 1;
            TreeNode::leaf_node(dummy_q(), RegressionLeafNewPartition { data: Some(create_dataset_with_sorted_features(s)) })
        }
        None => {
            let q = Question::new(t.question.column, t.question.value);
            let a = copied(t.true_branch.as_ref().unwrap(), sets, k);
            let b = copied(t.false_branch.as_ref().unwrap(), sets, k);
            TreeNode::new(q, Box::new(a), Box::new(b))
        }
    }
}
// n, c, t, fm, lm, depth
fn c10() {
    let (n, c, t, fm, lm, depth) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5));
    let d = data(n, c, t, fm, lm);
    let mut e = vec![];
    for k in [depth, depth + 1] {
        let r = Box::new(RegressionMultiTargetDecisionTree::new(d.set(), config(t, k, false)).root);
        e.push(regression::calculate_overall_mean_squared_error(&d.set(), &r));
    }
    obs(e[0]);
    obs(e[1]);
    le(e[1], e[0], TOL, 1);
    if depth == 0 {
        close(e[0], variance(&d.y, &all(n)) / t as f64, TOL, 2);
    }
}
// depth, columns, classes, rows per leaf (at most), test rows, label mode, feature mode of the test rows,
// label mode of the leaves (0 arbitrary; otherwise exactly as many rows per leaf), task orders
fn c11() {
    let (depth, c, k, per, tests) = (pu(0), pu(1), pu(2), pu(3), pu(4));
    let mut tree = Box::new(made(depth, c, &mut || {
        let m = if pu(7) == 0 { 1 + choice(per) } else { per };
        RegressionLeaf { data: Some(set(&feats(m, c, 2), &labels(m, k, if pu(7) == 0 { 2 } else { pu(7) }))) }
    }));
    let mut q = D { x: feats(tests, c, pu(6)), y: labels(tests, k, if pu(5) == 0 { 2 } else { pu(5) }) };
    let mut qs = q.set();
    for round in 0..1 + pu(9) {
        if round > 0 {
            relabel(&mut tree, &mut |m| labels(m, k, if pu(7) == 0 { 2 } else { pu(7) }));
            q = D { x: feats(tests, c, pu(6)), y: labels(tests, k, if pu(5) == 0 { 2 } else { pu(5) }) };
            refill(&mut qs.feature_rows, &q.x);
            refill(&mut qs.labels, &q.y);
            qs.feature_columns = q.set().feature_columns;
        }
        let shp = shape(&tree);
        let mut hits = 0.;
        for i in 0..tests {
            let y = route(&shp, &q.x[i]).labels.as_ref().unwrap();
            let mut best = 0;
            let mut most = -1.;
            for j in 0..k {
                let mut cnt = 0.;
                for r in y {
                    cnt += r[j];
                }
                if cnt > most {
                    most = cnt;
                    best = j;
                }
            }
            let p = classification::predict_class(&qs.feature_rows[i], &tree);
            check(p.len() == k, 1);
            for j in 0..k {
                same(p[j], if j == best { 1. } else { 0. }, 2);
            }
            let mut hit = true;
            for j in 0..k {
                hit &= q.y[i][j] == if j == best { 1. } else { 0. };
            }
            if hit {
                hits += 1.;
            }
        }
        sched_on(pu(8));
        let acc = classification::calculate_accuracy(&qs, &tree);
        sched_on(0);
        obs(acc);
        close(acc, hits / tests as f64, 1e-12, 3);
    }
}
fn lr_of(mode: i64) -> f64 {
    match mode {
        0 => 1.,
        1 => 0.5,
        2 => 0.25,
        3 => 0.1,
        4 => {
            let l = sym(0., 1.);
            assume_lt(0., l);
            l
        }
        _ => [1., 0.5, 0.125][choice(3)],
    }
}
/// check tree against the residuals: splits and leaf outputs
fn walk12(t: &T, d: &D, rows: &[usize], level: usize, levels: usize, base: u32, leafv: &dyn Fn(&Lf, &[usize])) {
    match t {
        T::Leaf(l) => {
            check(level <= levels, base);
            check(!rows.is_empty(), base + 1);
            if level < levels {
                none_better(&d.x, &d.y, rows, 0., TOL, base + 2);
            }
            leafv(l, rows);
        }
        T::Node(c, v, a, b) => {
            let (tr, fa) = split(&d.x, rows, *c, *v);
            check(!tr.is_empty() && !fa.is_empty(), base + 3);
            none_better(&d.x, &d.y, rows, gain(&d.y, rows, &tr, &fa), TOL, base + 4);
            walk12(a, d, &tr, level + 1, levels, base, leafv);
            walk12(b, d, &fa, level + 1, levels, base, leafv);
        }
    }
}
// n, c, t, fm, lm, levels, iterations, learning rate mode, multi
fn c12() {
    let (n, c, t, fm, lm, levels, iters) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let lr = lr_of(par(7));
    let (trees, guess, lr2) = ensemble(0, &d, levels, pu(8) == 1, iters, lr);
    same(lr, lr2, 1);
    check(trees.len() == iters, 2);
    let m = mean(&d.y, &all(n));
    close_vec(&guess, &m, TOL, 3);
    let mut f: Vec<Vec<f64>> = vec![guess.clone(); n];
    for tr in &trees {
        observe(tr);
        let res: Vec<Vec<f64>> = (0..n).map(|i| (0..t).map(|j| d.y[i][j] - f[i][j]).collect()).collect();
        let rd = D { x: d.x.clone(), y: res };
        walk12(tr, &rd, &all(n), 0, levels, 10, &|l, rows| {
            close_vec(l.out.as_ref().unwrap(), &mean(&rd.y, rows), TOL, 20);
        });
        for i in 0..n {
            let o = route(tr, &d.x[i]).out.as_ref().unwrap();
            for j in 0..t {
                f[i][j] += lr * o[j];
            }
        }
    }
}
fn amg_vec(m: f64, c: usize, k: usize) -> Vec<f64> {
    (0..k).map(|j| if j == c { m } else { -m / (k as f64 - 1.) }).collect()
}
fn leaf_out(l: &Lf, k: usize) -> Vec<f64> {
    match (&l.out, &l.max) {
        (Some(o), _) => o.clone(),
        (_, Some((m, c))) => amg_vec(*m, *c, k),
        _ => vec![],
    }
}
enum Model {
    R(RegressionBoostModel),
    M(MultiClassBoostModel),
    A(AMGBoostModel),
}
impl Model {
    fn predict(&self, r: &[f64]) -> Vec<f64> {
        match self {
            Model::R(m) => m.predict(r),
            Model::M(m) => m.predict(r),
            Model::A(m) => m.predict(r),
        }
    }
    fn predict_all(&self, s: &MultiTargetDataSet) -> Vec<Vec<f64>> {
        match self {
            Model::R(m) => m.calculate_all_predictions(s),
            Model::M(m) => m.calculate_all_predictions(s),
            Model::A(m) => m.calculate_all_predictions(s),
        }
    }
    fn score(&self, s: &MultiTargetDataSet) -> f64 {
        match self {
            Model::R(m) => m.calculate_score(s),
            Model::M(m) => m.calculate_score(s),
            Model::A(m) => m.calculate_score(s),
        }
    }
    fn trees(&self) -> Vec<T> {
        match self {
            Model::R(m) => m.trees.iter().map(|t| shape(t)).collect(),
            Model::M(m) => m.trees.iter().map(|t| shape(t)).collect(),
            Model::A(m) => m.trees.iter().map(|t| shape(t)).collect(),
        }
    }
}
/// a leaf value: mode 0 arbitrary, 1 a small whole number, 2 a fixed table
fn value(mode: usize, i: usize) -> f64 {
    match mode {
        0 => sym(-10., 10.),
        1 => choice(3) as f64 - 1.,
        _ => ((i * i * 3 + i) % 7) as f64 - 3.,
    }
}
/// a hand-made ensemble
fn made_model(kind: usize, trees: usize, depth: usize, c: usize, k: usize, vm: usize, lr: f64, guess: Vec<f64>) -> Model {
    let mut cnt = 0;
    match kind {
        0 | 1 => {
            let mut v = vec![];
            for _ in 0..trees {
                v.push(Box::new(made(depth, c, &mut || {
                    let o = (0..k)
                        .map(|_| {
                            cnt += 1;
                            value(vm, cnt)
                        })
                        .collect();
                    GradBoostLeaf { leaf_output: Some(o) }
                })));
            }
            if kind == 0 {
                Model::R(RegressionBoostModel { trees: v, initial_guess: guess, learning_rate: lr })
            } else {
                Model::M(MultiClassBoostModel { trees: v, initial_guess: guess, learning_rate: lr })
            }
        }
        _ => {
            let mut v = vec![];
            for _ in 0..trees {
                v.push(Box::new(made(depth, c, &mut || {
                    cnt += 1;
                    AMGBoostLeaf { max_value: Some(value(vm, cnt)), class: Some(choice(k)) }
                })));
            }
            Model::A(AMGBoostModel { trees: v, initial_guess: guess, learning_rate: lr })
        }
    }
}
fn argmax_ok(p: &[f64], s: &[f64], exact: bool, id: u32) {
    check(p.len() == s.len(), id);
    let mut hot = 0;
    let mut ones = 0;
    for j in 0..p.len() {
        if p[j] == 1. {
            hot = j;
            ones += 1;
        } else {
            same(p[j], 0., id + 1);
        }
    }
    check(ones == 1, id + 2);
    for j in 0..s.len() {
        if j == hot {
            continue;
        }
        if exact && j < hot {
            check(s[j] < s[hot], id + 3);
        } else {
            le(s[j], s[hot], if exact { 0. } else { TOL }, id + 4);
        }
    }
}
// kind, trees, depth, columns, targets, value mode, learning rate mode, guess mode,
// then 1: another row in the same memory, 2: another model, most likely in the same memory
fn c13() {
    let (kind, trees, depth, c, k, vm) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5));
    let lr = lr_of(par(6));
    let new = || {
        let guess: Vec<f64> = (0..k).map(|i| value(pu(7), i + 20)).collect();
        (made_model(kind, trees, depth, c, k, vm, lr, guess.clone()), guess)
    };
    let mut mg = Some(new());
    let mut row = feats(1, c, 0).pop().unwrap();
    for round in 0..if pu(8) > 0 { 2 } else { 1 } {
        if round > 0 && pu(8) == 1 {
            row.copy_from_slice(&feats(1, c, 0)[0]);
        } else if round > 0 {
            mg = None;
            mg = Some(new());
        }
        let (m, guess) = mg.as_ref().unwrap();
        let mut s = guess.clone();
        for t in &m.trees() {
            let o = leaf_out(route(t, &row), k);
            for j in 0..k {
                s[j] += lr * o[j];
            }
        }
        let p = m.predict(&row);
        for x in &p {
            obs(*x);
        }
        if kind == 0 {
            close_vec(&p, &s, TOL, 1);
        } else {
            let exact = vm != 0 && pu(7) != 0 && par(6) < 3 && (kind == 1 || k == 2);
            argmax_ok(&p, &s, exact, 2);
        }
    }
}
// n, c, t, fm, lm, levels, stages, learning rate mode
fn c14() {
    let (n, c, t, fm, lm, levels, stages) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let lr = lr_of(par(7));
    let mut e = vec![];
    for k in [stages, stages + 1] {
        let m = RegressionBoostModel::train(d.set(), config(t, levels, false), k as u32, lr);
        e.push(m.calculate_score(&d.set()));
    }
    obs(e[0]);
    obs(e[1]);
    le(e[1], e[0], TOL, 1);
}
// n, classes, range of the scores, ask for monotonicity, label mode, only the last score arbitrary
fn c15() {
    let (n, k, range, mono, lm) = (pu(0), pu(1), par(2) as f64, pu(3), pu(4));
    let y = labels(n, k, lm);
    let mut s: Vec<Vec<f64>> = vec![];
    for i in 0..n {
        s.push(
            (0..k)
                .map(|j| {
                    if pu(5) == 1 && (i + 1 < n || j + 1 < k) {
                        ((i * 7 + j * 5 + i * j) % 11) as f64 * range / 10. - range / 2.
                    } else {
                        sym(-range, range)
                    }
                })
                .collect(),
        );
    }
    let x = feats(n, 1, 2);
    let td = GradBoostTrainingData { data: set(&x, &y), mutable_labels: s.clone(), size: n };
    let r = calculate_residuals(&td);
    check(r.len() == n, 1);
    for i in 0..n {
        check(r[i].len() == k, 2);
        let p = softmax(&s[i]);
        let mut total = 0.;
        let mut want = -1.;
        for j in 0..k {
            check(r[i][j].is_finite(), 3);
            obs(r[i][j]);
            le(r[i][j], 1., TINY, 4);
            le(-1., r[i][j], TINY, 5);
            close(r[i][j], y[i][j] - p[j], TINY, 6);
            total += r[i][j];
            want += y[i][j];
        }
        close(total, want, TINY, 7);
    }
    if mono == 1 {
        let row = choice(n);
        let cl = choice(k);
        let up = sym(0., range);
        let mut s2 = s.clone();
        s2[row][cl] += up;
        let td = GradBoostTrainingData { data: set(&x, &y), mutable_labels: s2, size: n };
        let r2 = calculate_residuals(&td);
        le(r2[row][cl], r[row][cl], TINY, 8);
    }
}
// n, classes, residual mode (0 arbitrary in [-1,1], 1 extremes and halves, 2 fixed but for the last one)
fn c16() {
    let (n, k, mode) = (pu(0), pu(1), pu(2));
    let mut y = vec![];
    for _ in 0..n {
        let r: Vec<f64> = (0..k)
            .map(|j| match mode {
                0 => sym(-1., 1.),
                1 => [0., 1., -1., 0.5, -0.25][choice(5)],
                _ if y.len() + 1 == n && j + 1 == k => sym(-1., 1.),
                _ => ((y.len() * 7 + j * 5) % 9) as f64 / 4. - 1.,
            })
            .collect();
        y.push(r);
    }
    let out = calculate_leaf_output_multi_class_loss(&set(&feats(n, 1, 2), &y));
    check(out.len() == k, 1);
    let kf = k as f64;
    for j in 0..k {
        let (mut num, mut den) = (0., 0.);
        let mut zero = true;
        for i in 0..n {
            let a = y[i][j].abs();
            num += y[i][j];
            den += a * (1. - a);
            zero &= y[i][j] == 0.;
        }
        check(out[j].is_finite(), 2);
        obs(out[j]);
        if zero {
            same(out[j], 0., 3);
        }
        if den > TINY {
            // out = (K-1)/K * num / den
            close(out[j] * den, (kf - 1.) / kf * num, TINY, 4);
        }
    }
    // the calculator the boosting loops use
    let via = (calc(true).calculate_leaf_output)(&set(&feats(n, 1, 2), &y));
    same_vec(&out, &via, 5);
}
// n, c, classes, fm, lm, levels, iterations, learning rate mode, kind (1 exact, 2 AMG), multi
fn c17() {
    let (n, c, k, fm, lm, levels, iters) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    ideal(false);
    let d = data(n, c, k, fm, lm);
    let lr = lr_of(par(7));
    let kind = pu(8);
    let (trees, guess, lr2) = ensemble(kind, &d, levels, pu(9) == 1, iters, lr);
    same(lr, lr2, 1);
    check(trees.len() == iters, 2);
    check(guess.len() == k, 3);
    for j in 0..k {
        close(guess[j], 1. / k as f64, 1e-12, 4);
    }
    let mut f: Vec<Vec<f64>> = vec![guess.clone(); n];
    for tr in &trees {
        observe(tr);
        let res: Vec<Vec<f64>> = (0..n)
            .map(|i| {
                let p = softmax(&f[i]);
                (0..k).map(|j| d.y[i][j] - p[j]).collect()
            })
            .collect();
        let rd = D { x: d.x.clone(), y: res };
        walk12(tr, &rd, &all(n), 0, levels, 10, &|l, rows| {
            let want = newton(&rd.y, rows);
            if kind == 1 {
                let o = l.out.as_ref().unwrap();
                check(o.len() == k, 20);
                for j in 0..k {
                    close(o[j], want[j], 1e-6 * (1. + want[j].abs()), 21);
                }
            } else {
                let (m, cl) = *l.max.as_ref().unwrap();
                check(cl < k, 22);
                let tol = 1e-6 * (1. + m.abs());
                close(m, want[cl], tol, 23);
                for j in 0..k {
                    le(want[j], m, tol, 24);
                }
            }
        });
        for i in 0..n {
            let o = leaf_out(route(tr, &d.x[i]), k);
            for j in 0..k {
                f[i][j] += lr * o[j];
            }
        }
    }
    // the scores used in training are those that prediction uses
    for i in 0..n {
        let m = f[i].clone();
        let p = match kind {
            1 => MultiClassBoostModel::train(d.set(), config(k, levels, false), iters as u32, lr).predict(&d.x[i]),
            _ => AMGBoostModel::train(d.set(), config(k, levels, false), iters as u32, lr).predict(&d.x[i]),
        };
        argmax_ok(&p, &m, false, 30);
        if pu(10) == 0 {
            break;
        }
    }
}
// n, c, t, fm, lm, levels, stages, more stages, kind
fn c18() {
    let (n, c, t, fm, lm, levels, a, b, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6), pu(7), pu(8));
    ideal(kind == 0);
    let d = data(n, c, t, fm, lm);
    let lr = lr_of(par(9));
    let x = ensemble(kind, &d, levels, false, a, lr);
    let x2 = ensemble(kind, &d, levels, false, a, lr);
    let y = ensemble(kind, &d, levels, false, a + b, lr);
    check(x.0.len() == a && y.0.len() == a + b && x2.0.len() == a, 1);
    same_vec(&x.1, &y.1, 2);
    same_vec(&x.1, &x2.1, 3);
    same(x.2, lr, 9);
    for i in 0..a {
        observe(&x.0[i]);
        same_tree(&x.0[i], &x2.0[i], 4);
        same_tree(&x.0[i], &y.0[i], 6);
    }
}
// kind, trees, depth, columns, targets, value mode, learning rate mode, guess mode, test rows, label mode, feature mode of the test rows, task orders
fn c19() {
    let (kind, trees, depth, c, k, vm, tests, lm) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(8), pu(9));
    let lr = lr_of(par(6));
    let guess: Vec<f64> = (0..k).map(|i| value(pu(7), i + 20)).collect();
    let m = made_model(kind, trees, depth, c, k, vm, lr, guess);
    let mut q = D { x: feats(tests, c, pu(10)), y: labels(tests, k, lm) };
    let mut qs = q.set();
    for round in 0..1 + pu(12) {
        if round > 0 {
            q = D { x: feats(tests, c, pu(10)), y: labels(tests, k, lm) };
            refill(&mut qs.feature_rows, &q.x);
            refill(&mut qs.labels, &q.y);
            qs.feature_columns = q.set().feature_columns;
        }
        sched_on(pu(11));
        let ps = m.predict_all(&qs);
        sched_on(0);
        check(ps.len() == tests, 1);
        let mut want = 0.;
        for i in 0..tests {
            let p = m.predict(&qs.feature_rows[i]);
            same_vec(&p, &ps[i], 2);
            if kind == 0 {
                want += mse(&p, &q.y[i]);
            } else if eq_vec(&p, &q.y[i]) {
                want += 1.;
            }
        }
        want /= tests as f64;
        sched_on(pu(11));
        let s = m.score(&qs);
        sched_on(0);
        obs(s);
        close(s, want, TOL, 3);
    }
}
/// a number for a file: an arbitrary one or one in an unusual notation
fn file_number(special: bool) -> (f64, String) {
    if special {
        match choice(16) {
            12 => (5000000000.25, "5000000000.25".into()),
            13 => (1e300, "1e300".into()),
            14 => (-4.25e-300, "-4.25E-300".into()),
            15 => (0.1234567890123456, "0.1234567890123456".into()),
            7 => (0.25, ".25".into()),
            8 => (7., "7.".into()),
            9 => (0.0000001, "1e-7".into()),
            10 => (9007199254740993., "9007199254740993".into()),
            11 => (2.5, "\"2.5\"".into()),
            0 => (-0.5, "-0.5".into()),
            1 => (1500., "1.5e3".into()),
            2 => (0., "0".into()),
            3 => (-12., "-12".into()),
            4 => (0.0625, "6.25E-2".into()),
            5 => (3., "+3".into()),
            _ => (123456.789, "123456.789".into()),
        }
    } else {
        let x = sym(-1e12, 1e12);
        (x, token(x))
    }
}
/// column names in the style: the text in the file and the name it stands for
fn header(style: usize, j: usize) -> (String, String) {
    let l = (b'a' + (j % 26) as u8) as char;
    let mut n = String::new();
    match style {
        0 => n.push_str("feature "),
        1 => n.push('#'),
        2 => n.push_str("q,"),
        3 => {
            // a name that is a number
            n.push((b'1' + (j % 9) as u8) as char);
            return (n.clone(), n);
        }
        4 => n.push_str("  x"),
        5 => {
            // the same name everywhere
            n.push_str("same");
            return (n.clone(), n);
        }
        _ => {}
    }
    n.push(l);
    if style == 4 {
        n.push(' ');
    }
    let mut text = String::new();
    if style == 2 {
        text.push('"');
    }
    text.push_str(&n);
    if style == 2 {
        text.push('"');
    }
    (text, n)
}
fn table(rows: usize, cols: usize, special: bool, nl: &str, last: bool, style: usize) -> (String, Vec<Vec<f64>>) {
    let mut s = String::new();
    for j in 0..cols {
        if j > 0 {
            s.push(',');
        }
        s.push_str(&header(style, j).0);
    }
    s.push_str(nl);
    let mut v = vec![];
    for i in 0..rows {
        let mut r = vec![];
        for j in 0..cols {
            if j > 0 {
                s.push(',');
            }
            let (x, txt) = file_number(special && i == rows - 1);
            r.push(x);
            s.push_str(&txt);
        }
        v.push(r);
        if last || i + 1 < rows {
            s.push_str(nl);
        }
    }
    (s, v)
}
// rows, feature columns, label columns, kind (0 two files, 1 single file, 2 header), special numbers
fn c20() {
    let (n, c, t, kind, special) = (pu(0), pu(1), pu(2), pu(3), pu(4) == 1);
    let nl = if choice(2) == 0 { "\n" } else { "\r\n" };
    let last = choice(2) == 0;
    let style = if special { 0 } else { choice(7) };
    match kind {
        0 => {
            let (f, x) = table(n, c, special, nl, last, style);
            let (l, y) = table(n, t, special, nl, last, style);
            vfile("irse_f.csv", &f);
            vfile("irse_l.csv", &l);
            let d = read_csv_data_multi_target("irse_f.csv", "irse_l.csv");
            obs_i(d.feature_rows.len());
            same_mat(&d.feature_rows, &x, 1);
            same_mat(&d.labels, &y, 2);
            same_mat(&d.feature_columns, &columns(&x), 3);
        }
        1 => {
            let (f, x) = table(n, c + 1, special, nl, last, style);
            vfile("irse_s.csv", &f);
            let d = read_csv_data("irse_s.csv");
            check(d.features.len() == n && d.labels.len() == n, 4);
            for i in 0..n {
                same_vec(&d.features[i], &x[i][..c], 5);
                same(d.labels[i], x[i][c], 6);
            }
        }
        2 => {
            let (f, x) = table(n, c, special, nl, last, style);
            vfile("irse_h.csv", &f);
            let names = get_feature_names("irse_h.csv");
            check(names.len() == c, 7);
            for j in 0..c {
                check(names[j] == header(style, j).1, 8);
            }
            same_mat(&create_feature_columns(&x), &columns(&x), 9);
        }
        _ => {
            // one-hot reader: features and their columns
            let (f, x) = {
                let mut s = String::new();
                for j in 0..c {
                    s.push_str(&header(style, j).0);
                    s.push(',');
                }
                s.push_str(&header(style, c).0);
                s.push_str(nl);
                let mut v = vec![];
                for i in 0..n {
                    let mut r = vec![];
                    for _ in 0..c {
                        let (x, txt) = file_number(special);
                        r.push(x);
                        s.push_str(&txt);
                        s.push(',');
                    }
                    s.push((b'0' + (i % t) as u8) as char);
                    v.push(r);
                    if last || i + 1 < n {
                        s.push_str(nl);
                    }
                }
                (s, v)
            };
            vfile("irse_o.csv", &f);
            let d = read_csv_data_one_hot_multi_target("irse_o.csv", t);
            same_mat(&d.feature_rows, &x, 10);
            same_mat(&d.feature_columns, &columns(&x), 11);
            check(d.labels.len() == n, 12);
            for i in 0..n {
                for j in 0..t {
                    same(d.labels[i][j], if j == i % t { 1. } else { 0. }, 13);
                }
            }
        }
    }
}
// records, classes
fn c21() {
    let (n, k) = (pu(0), pu(1));
    let bad = choice(n);
    let mut s = String::from("a,y\n");
    let mut y = vec![];
    for i in 0..n {
        let x = if i == bad { sym(-2., k as f64 + 2.) } else { (i % k) as f64 };
        y.push(x);
        s.push_str("1.5,");
        if i == bad {
            s.push_str(&token(x));
        } else {
            s.push((b'0' + (i % k) as u8) as char);
        }
        s.push('\n');
    }
    vfile("irse_c.csv", &s);
    let mut class = k;
    for c in 0..k {
        if y[bad] == c as f64 {
            class = c;
        }
    }
    if class == k {
        expect_panic(true);
    }
    let d = read_csv_data_one_hot_multi_target("irse_c.csv", k);
    if class == k {
        return;
    }
    check(d.labels.len() == n && d.feature_rows.len() == n, 1);
    for i in 0..n {
        check(d.labels[i].len() == k, 2);
        let want = if i == bad { class } else { i % k };
        for j in 0..k {
            same(d.labels[i][j], if j == want { 1. } else { 0. }, 3);
        }
        same(d.feature_rows[i][0], 1.5, 4);
    }
    obs_i(class);
}
fn special_value(mode: usize) -> f64 {
    if mode == 0 {
        return sym(-B, B);
    }
    match choice(6) {
        0 => sym(-B, B),
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.,
        4 => -0.,
        _ => f64::MIN_POSITIVE,
    }
}
// mode, columns
fn c22() {
    let (mode, c) = (pu(0), pu(1));
    let x = special_value(mode);
    let v = special_value(mode);
    let col = choice(c);
    let mut row: Vec<f64> = (0..c).map(|j| 50. - 30. * j as f64).collect();
    row[col] = x;
    let want = x >= v;
    obs_i(want as usize);
    let q = || Question::new(col as u32, v);
    check(q().solve(&row) == want, 1);
    // partitioners
    if v > f64::NEG_INFINITY {
        let mut hi = row.clone();
        let mut lo = row.clone();
        hi[col] = f64::INFINITY;
        lo[col] = f64::NEG_INFINITY;
        let s = set(&[hi, row.clone(), lo], &[vec![1.], vec![2.], vec![3.]]);
        let (f, t) = partition(&s, &q());
        check(t.labels.len() == 1 + want as usize, 2);
        check(f.labels.len() == 2 - want as usize, 3);
        check(t.labels[0][0] == 1. && f.labels[f.labels.len() - 1][0] == 3., 4);
        if want {
            check(t.labels[1][0] == 2., 5);
        } else {
            check(f.labels[0][0] == 2., 6);
        }
    }
    let s = set(&[row.clone()], &[vec![2.]]);
    let p = create_dataset_with_sorted_features(&s);
    let (a, b) = new_partition(&p, col, v, &p.labels);
    check(a.labels.len() == want as usize && b.labels.len() == 1 - want as usize, 7);
    // the scorers
    let leaf = |y: Vec<f64>| RegressionLeaf { data: Some(set(&[row.clone()], &[y])) };
    let tree = Box::new(TreeNode::new(
        q(),
        Box::new(TreeNode::leaf_node(dummy_q(), leaf(vec![1., 0.]))),
        Box::new(TreeNode::leaf_node(dummy_q(), leaf(vec![0., 1.]))),
    ));
    let w = if want { 1. } else { 0. };
    let pc = classification::predict_class(&row, &tree);
    check(pc[0] == w && pc[1] == 1. - w, 8);
    let test = set(&[row.clone()], &[vec![1., 0.]]);
    let e = regression::calculate_overall_mean_squared_error(&test, &tree);
    same(e, 1. - w, 9);
    let sets = leaves(&tree);
    let tree2 = Box::new(copied(&tree, &sets, &mut 0));
    let e = regression::calculate_overall_mean_squared_error_new_partition(&test, &tree2);
    same(e, 1. - w, 10);
    // the ensembles
    let g = |o: f64| Box::new(TreeNode::leaf_node(dummy_q(), GradBoostLeaf { leaf_output: Some(vec![o, 0.5]) }));
    let gt = || vec![Box::new(TreeNode::new(q(), g(1.), g(0.)))];
    let m = RegressionBoostModel { trees: gt(), initial_guess: vec![0., 0.], learning_rate: 1. };
    same(m.predict(&row)[0], w, 11);
    let m = MultiClassBoostModel { trees: gt(), initial_guess: vec![0., 0.], learning_rate: 1. };
    same(m.predict(&row)[0], w, 12);
    let g = |c: usize| Box::new(TreeNode::leaf_node(dummy_q(), AMGBoostLeaf { max_value: Some(1.), class: Some(c) }));
    let m = AMGBoostModel { trees: vec![Box::new(TreeNode::new(q(), g(0), g(1)))], initial_guess: vec![0., 0.], learning_rate: 1. };
    same(m.predict(&row)[0], w, 13);
}
fn sorted_ok(s: &[(f64, usize)], x: &[f64], base: u32) {
    check(s.len() == x.len(), base);
    let mut seen = vec![false; x.len()];
    for (i, (v, r)) in s.iter().enumerate() {
        check(*r < x.len() && !seen[*r], base + 1);
        seen[*r] = true;
        same(*v, x[*r], base + 2);
        if i > 0 {
            le(s[i - 1].0, *v, 0., base + 3);
            if s[i - 1].1 > *r {
                // a later row first: only if strictly smaller
                check(s[i - 1].0 < *v, base + 4);
            }
        }
        obs_i(*r);
    }
}
// rows, columns, targets, mode (0 sorter, 1 dataset), feature mode
fn c23() {
    let (n, c, t, mode) = (pu(0), pu(1), pu(2), pu(3));
    if mode == 0 {
        let x: Vec<f64> = feats(n, 1, pu(4)).iter().map(|r| r[0]).collect();
        sorted_ok(&get_sorted_feature_tuple_vector(&x), &x, 1);
        return;
    }
    let d = data(n, c, t, pu(4), 0);
    let s = d.set();
    let p = create_dataset_with_sorted_features(&s);
    check(p.sorted_feature_columns.len() == c, 10);
    for j in 0..c {
        sorted_ok(&p.sorted_feature_columns[j], &s.feature_columns[j], 11);
    }
    check(p.labels.len() == n, 20);
    for i in 0..n {
        same_vec(p.labels[i], &d.y[i], 21);
    }
}
// operation, length, length of the second operand, number of vectors
fn c24() {
    let (op, n, m, k) = (pu(0), pu(1), pu(2), pu(3));
    for i in 0..pu(4) + 1 {
        arithmetic(op, n + if op == 7 { 0 } else { i }, m + if op < 6 { i } else { 0 }, k + if op == 7 { i } else { 0 });
    }
}
fn arithmetic(op: usize, n: usize, m: usize, k: usize) {
    let a: Vec<f64> = (0..n).map(|_| sym(-B, B)).collect();
    let b: Vec<f64> = (0..m).map(|_| sym(-B, B)).collect();
    if op <= 4 && n != m {
        expect_panic(true);
    }
    let r = match op {
        0 => add_f64_slices_as_vector(&a, &b),
        1 => subtract_f64_slices_as_vector(&a, &b),
        2 => multiply_f64_slices_as_vector(&a, &b),
        3 => {
            for x in &b {
                // away from zero
                assume_le(0.001, *x);
            }
            divide_f64_slices_as_vector(&a, &b)
        }
        4 => vec![mean_sum_of_squared_differences_between_f64_slices(&a, &b)],
        5 => multiply_f64_slice_by_f64_scalar(sym(-B, B), &a),
        _ => vec![],
    };
    match op {
        0..=3 => {
            if n != m {
                return;
            }
            check(r.len() == n, 1);
            for i in 0..n {
                obs(r[i]);
                match op {
                    0 => close(r[i], a[i] + b[i], TOL, 2),
                    1 => close(r[i], a[i] - b[i], TOL, 3),
                    2 => close(r[i], a[i] * b[i], TOL, 4),
                    _ => close(r[i] * b[i], a[i], TOL, 5),
                }
            }
        }
        4 => {
            if n != m {
                return;
            }
            let mut s = 0.;
            for i in 0..n {
                s += (a[i] - b[i]) * (a[i] - b[i]);
            }
            obs(r[0]);
            close(r[0], s / n as f64, TOL, 6);
        }
        5 => {
            let k = r.len();
            check(k == n, 7);
            // the scalar again: r = s * a
            for i in 0..n {
                obs(r[i]);
            }
            let s = sym(-B, B);
            let q = multiply_f64_slice_by_f64_scalar(s, &a);
            for i in 0..n {
                close(q[i], s * a[i], TOL, 8);
            }
        }
        6 | 7 => {
            let mut v = vec![];
            for _ in 0..k {
                v.push((0..n).map(|_| sym(-B, B)).collect::<Vec<f64>>());
            }
            let r = if op == 6 { sum_of_f64_vectors(&v) } else { calculate_average_f64_vector(&v) };
            check(r.len() == n, 9);
            for j in 0..n {
                let mut s = 0.;
                for i in 0..k {
                    s += v[i][j];
                }
                if op == 7 {
                    s /= k as f64;
                }
                obs(r[j]);
                close(r[j], s, TOL, 10);
            }
        }
        _ => {
            // the one-hot vector of the first largest element
            let p = get_binary_prediction(&a);
            argmax_ok(&p, &a, true, 11);
        }
    }
}
fn same_order(x: &[f64], z: &[f64]) {
    // z is an increasing image of x
    for i in 0..x.len() {
        for j in 0..i {
            if x[i] < x[j] {
                assume_lt(z[i], z[j]);
            } else if x[i] > x[j] {
                assume_lt(z[j], z[i]);
            } else {
                assume_le(z[i], z[j]);
                assume_le(z[j], z[i]);
            }
        }
    }
}
fn same_but_thresholds(a: &T, b: &T, id: u32) {
    match (a, b) {
        (T::Leaf(p), T::Leaf(q)) => {
            check(p.out.is_some() == q.out.is_some(), id);
            if let (Some(a), Some(b)) = (&p.labels, &q.labels) {
                same_mat(a, b, id);
            }
            if let (Some(a), Some(b)) = (&p.out, &q.out) {
                same_vec(a, b, id);
            }
            if let (Some(a), Some(b)) = (&p.max, &q.max) {
                same(a.0, b.0, id);
                check(a.1 == b.1, id);
            }
        }
        (T::Node(c, _, t, f), T::Node(c2, _, t2, f2)) => {
            check(c == c2, id + 1);
            same_but_thresholds(t, t2, id);
            same_but_thresholds(f, f2, id);
        }
        _ => check(false, id + 2),
    }
}
// n, c, t, lm, levels, kind (0..4 trees, 10..12 ensembles), test rows, iterations
fn c25() {
    let (n, c, t, lm, levels, kind, tests, iters) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6), pu(7));
    let y = labels(n, t, lm);
    let x = feats(n + tests, c, pu(8));
    let z = if pu(8) == 0 { feats(n + tests, c, 0) } else { rescaled(&x, c) };
    for j in 0..if pu(8) == 0 { c } else { 0 } {
        let a: Vec<f64> = x.iter().map(|r| r[j]).collect();
        let b: Vec<f64> = z.iter().map(|r| r[j]).collect();
        same_order(&a, &b);
    }
    let d1 = D { x: x[..n].to_vec(), y: y.clone() };
    let d2 = D { x: z[..n].to_vec(), y: y.clone() };
    ideal(kind <= 10 && kind != 3 && kind != 4);
    if kind < 10 {
        let (a, b) = (build(kind, &d1, levels, false), build(kind, &d2, levels, false));
        observe(&a);
        same_but_thresholds(&a, &b, 1);
        for i in 0..tests {
            same_but_thresholds(&T::Leaf(clone_lf(route(&a, &x[n + i]))), &T::Leaf(clone_lf(route(&b, &z[n + i]))), 5);
        }
    } else {
        let cfg = config(t, levels, false);
        let mk = |d: &D| match kind {
            10 => Model::R(RegressionBoostModel::train(d.set(), cfg, iters as u32, 0.5)),
            11 => Model::M(MultiClassBoostModel::train(d.set(), cfg, iters as u32, 0.5)),
            _ => Model::A(AMGBoostModel::train(d.set(), cfg, iters as u32, 0.5)),
        };
        let (a, b) = (mk(&d1), mk(&d2));
        let (ta, tb) = (a.trees(), b.trees());
        check(ta.len() == tb.len(), 10);
        for i in 0..ta.len() {
            observe(&ta[i]);
            same_but_thresholds(&ta[i], &tb[i], 11);
        }
        for i in 0..tests {
            same_vec(&a.predict(&x[n + i]), &b.predict(&z[n + i]), 15);
        }
    }
}
/// each column in another unit
fn rescaled(x: &[Vec<f64>], c: usize) -> Vec<Vec<f64>> {
    let s: Vec<(f64, f64)> = (0..c).map(|_| (sym(0.0625, 16.0), sym(-B, B))).collect();
    x.iter().map(|r| (0..c).map(|j| s[j].0 * r[j] + s[j].1).collect()).collect()
}
fn clone_lf(l: &Lf) -> Lf {
    Lf { rows: l.rows.clone(), labels: l.labels.clone(), cols: None, sorted: None, out: l.out.clone(), max: l.max }
}
fn numbers(s: &str) -> Vec<f64> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = b[i].is_ascii_digit() || (b[i] == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit());
        let after_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if start && !after_word {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'.' || b[j] == b'e' || ((b[j] == b'-' || b[j] == b'+') && b[j - 1] == b'e')) {
                j += 1;
            }
            out.push(parse(&s[i..j]));
            i = j;
        } else {
            i += 1;
        }
    }
    out
}
fn indent(s: &str) -> usize {
    s.len() - s.trim_start().len()
}
fn contains(s: &str, w: &str) -> bool {
    let (a, b) = (s.as_bytes(), w.as_bytes());
    if a.len() < b.len() {
        return false;
    }
    for i in 0..=a.len() - b.len() {
        if &a[i..i + b.len()] == b {
            return true;
        }
    }
    false
}
/// the printed text from line i on is the tree; returns the next line and the indent of its first line
fn printed(t: &TreeNode<RegressionLeaf>, l: &[&str], i: &mut usize, names: &[String]) -> usize {
    check(*i < l.len(), 1);
    let line = l[*i];
    *i += 1;
    let ind = indent(line);
    match &t.leaf {
        Some(leaf) => {
            check(contains(line, "Predict"), 2);
            let d = leaf.data.as_ref().unwrap();
            let mut want = vec![];
            for m in [&d.feature_rows, &d.labels, &d.feature_columns] {
                for r in m {
                    want.extend_from_slice(r);
                }
            }
            let got = numbers(line);
            check(got.len() == want.len(), 3);
            for k in 0..got.len() {
                same(got[k], want[k], 4);
            }
        }
        None => {
            let name = &names[t.question.column as usize];
            check(contains(line, name), 5);
            for (k, o) in names.iter().enumerate() {
                if k != t.question.column as usize {
                    check(!contains(line, o), 6);
                }
            }
            check(contains(line, ">="), 7);
            let got = numbers(line);
            check(got.len() == 1, 8);
            same(got[0], t.question.value, 9);
            check(*i < l.len() && contains(l[*i], "True"), 10);
            *i += 1;
            let a = printed(t.true_branch.as_ref().unwrap(), l, i, names);
            check(a > ind, 11);
            check(*i < l.len() && contains(l[*i], "False"), 12);
            *i += 1;
            let b = printed(t.false_branch.as_ref().unwrap(), l, i, names);
            check(a == b, 13);
        }
    }
    ind
}
/// names of which none contains another one
fn feature_name(j: usize) -> String {
    if j < 4 {
        return ["alpha", "beta", "gamma", "delta"][j].to_string();
    }
    let mut s = String::from("x");
    for k in [j / 26 / 26, j / 26 % 26, j % 26] {
        s.push((b'A' + k as u8) as char);
    }
    s
}
// depth, columns, targets, rows per leaf, lopsided
fn c26() {
    let (depth, c, t, per) = (pu(0), pu(1), pu(2), pu(3));
    let leaf = &mut || {
        let k = 1 + choice(per);
        let d = data(k, c, t, 0, 0);
        RegressionLeaf { data: Some(d.set()) }
    };
    let tree = if pu(4) == 1 {
        // one deep side
        let q = Question::new(choice(c) as u32, sym(-B, B));
        let a = made(depth, c, leaf);
        let b = made(0, c, leaf);
        if choice(2) == 0 {
            TreeNode::new(q, Box::new(a), Box::new(b))
        } else {
            TreeNode::new(q, Box::new(b), Box::new(a))
        }
    } else {
        made(depth, c, leaf)
    };
    let tree = Box::new(tree);
    let names: Vec<String> = (0..c).map(feature_name).collect();
    capture_begin();
    print_tree_regression(&tree, String::new(), &names);
    let s = capture_end();
    let l: Vec<&str> = s.lines().collect();
    obs_i(l.len());
    let mut i = 0;
    printed(&tree, &l, &mut i, &names);
    check(i == l.len(), 20);
}

/// the text of a file whose records have the numbers; field (row, col) of it is replaced by the text, or a
/// field is left out or added
fn broken_table(n: usize, c: usize, row: usize, col: usize, defect: usize) -> String {
    let mut s = String::new();
    for j in 0..c {
        if j > 0 {
            s.push(',');
        }
        s.push_str(&header(9, j).0);
    }
    s.push('\n');
    for i in 0..n {
        for j in 0..c {
            let here = i == row && j == col;
            if here && defect == 0 {
                continue;
            }
            if j > 0 && !(i == row && defect == 0 && col == 0 && j == 1) {
                s.push(',');
            }
            if here && defect > 1 {
                s.push_str(["", "abc", "1.5x", "1 5", "1;5", "--1", "0x10", "\"1,5\"", "?", "1.2.3", "-", "e5"][defect - 2]);
            } else {
                let x = if here { sym(-B, B) } else { ((i + j) % 2) as f64 };
                s.push_str(&token(x));
            }
            if here && defect == 1 {
                s.push_str(",0");
            }
        }
        s.push('\n');
    }
    s
}
fn good_table(n: usize, c: usize) -> String {
    broken_table(n, c, n, c, 14)
}
// kind (0 feature file, 1 label file, 2 single file, 3 one-hot, 4 numbers of records differ), rows, columns, more rows of labels
fn c27() {
    let (kind, n, c) = (pu(0), pu(1), pu(2));
    let m = (n as i64 + par(3)) as usize;
    let bad = if kind == 4 { String::new() } else { broken_table(n, c, choice(n), choice(c), choice(14)) };
    expect_panic(true);
    match kind {
        0 => {
            vfile("irse_f.csv", &bad);
            vfile("irse_l.csv", &good_table(n, 1));
            read_csv_data_multi_target("irse_f.csv", "irse_l.csv");
        }
        1 => {
            vfile("irse_f.csv", &good_table(n, 2));
            vfile("irse_l.csv", &bad);
            read_csv_data_multi_target("irse_f.csv", "irse_l.csv");
        }
        2 => {
            vfile("irse_s.csv", &bad);
            read_csv_data("irse_s.csv");
        }
        3 => {
            vfile("irse_o.csv", &bad);
            read_csv_data_one_hot_multi_target("irse_o.csv", 2);
        }
        _ => {
            vfile("irse_f.csv", &good_table(n, c));
            vfile("irse_l.csv", &good_table(m, 1));
            read_csv_data_multi_target("irse_f.csv", "irse_l.csv");
        }
    }
}

/// the same tree up to the numbering of the columns and a change of the labels
struct Like<'a> {
    /// the column of the first tree for a column of the second one
    col: &'a dyn Fn(usize) -> usize,
    /// the label vector of the second tree for one of the first
    lab: &'a dyn Fn(&[f64]) -> Vec<f64>,
    /// the same for outputs of boosting leaves
    out: &'a dyn Fn(&[f64]) -> Vec<f64>,
    /// rows of the second tree per row of the first
    times: usize,
}
/// two questions (or none) are equally good for the rows up to rounding
fn tie(x: &[Vec<f64>], y: &[Vec<f64>], rows: &[usize], q: [Option<(usize, f64)>; 2], id: u32) {
    let mut g = [0., 0.];
    for (k, q) in q.iter().enumerate() {
        if let Some((c, v)) = q {
            check(*c < x[0].len(), id);
            let (t, f) = split(x, rows, *c, *v);
            check(!t.is_empty() && !f.is_empty(), id);
            g[k] = gain(y, rows, &t, &f);
        }
    }
    let mut size = 0.;
    for r in rows {
        for v in &y[*r] {
            size += v * v;
        }
    }
    let eps = size / rows.len() as f64 * 1e-10;
    le(g[0], g[1] + eps, 0., id);
    le(g[1], g[0] + eps, 0., id);
}
/// false: the trees differ by a choice between equally good questions of the first tree's data, of which
/// the features and (when needed) the labels are given
fn like(a: &T, b: &T, x: &[Vec<f64>], y: &dyn Fn() -> Vec<Vec<f64>>, rows: &[usize], k: &Like) -> bool {
    match (a, b) {
        (T::Leaf(p), T::Leaf(q)) => {
            check(p.labels.is_some() == q.labels.is_some() && p.out.is_some() == q.out.is_some(), 1);
            if let (Some(x), Some(y)) = (&p.labels, &q.labels) {
                check(x.len() * k.times == y.len(), 2);
                close_vec(&(k.lab)(&mean(x, &all(x.len()))), &mean(y, &all(y.len())), TOL, 3);
            }
            if let (Some(x), Some(y)) = (&p.out, &q.out) {
                close_vec(&(k.out)(x), y, TOL, 4);
            }
            check(p.max.is_some() == q.max.is_some(), 8);
            if let (Some(x), Some(y)) = (&p.max, &q.max) {
                close(x.0, y.0, TOL, 9);
                check(x.1 == y.1, 9);
            }
            true
        }
        (T::Node(c, v, t, f), T::Node(c2, v2, t2, f2)) => {
            if *c != (k.col)(*c2) || *v != *v2 {
                tie(x, &y(), rows, [Some((*c, *v)), Some(((k.col)(*c2), *v2))], 5);
                return false;
            }
            let (tr, fa) = split(x, rows, *c, *v);
            check(!tr.is_empty() && !fa.is_empty(), 6);
            let one = like(t, t2, x, y, &tr, k);
            like(f, f2, x, y, &fa, k) && one
        }
        (T::Leaf(_), T::Node(c2, v2, _, _)) => {
            tie(x, &y(), rows, [None, Some(((k.col)(*c2), *v2))], 7);
            false
        }
        (T::Node(c, v, _, _), _) => {
            tie(x, &y(), rows, [Some((*c, *v)), None], 7);
            false
        }
    }
}
/// trees of both data sets (kind 0..3) or ensembles (10, 11) and their guesses
fn like_models(kind: usize, a: &D, b: &D, levels: usize, multi: bool, iters: usize, k: &Like) {
    let n = a.x.len();
    if kind < 10 {
        let x = build(kind, a, levels, multi);
        observe(&x);
        like(&x, &build(kind, b, levels, multi), &a.x, &|| a.y.clone(), &all(n), k);
        return;
    }
    let (x, g, _) = ensemble(kind - 10, a, levels, multi, iters, 0.5);
    let (y, h, _) = ensemble(kind - 10, b, levels, multi, iters, 0.5);
    close_vec(&(k.lab)(&g), &h, TOL, 8);
    check(x.len() == y.len(), 9);
    for i in 0..x.len() {
        observe(&x[i]);
        let residuals = || -> Vec<Vec<f64>> {
            (0..n)
                .map(|r| {
                    let mut s = g.clone();
                    for t in &x[..i] {
                        let o = route(t, &a.x[r]).out.as_ref().unwrap();
                        for j in 0..s.len() {
                            s[j] += 0.5 * o[j];
                        }
                    }
                    let p = if kind == 11 { softmax(&s) } else { s };
                    (0..p.len()).map(|j| a.y[r][j] - p[j]).collect()
                })
                .collect()
        };
        if !like(&x[i], &y[i], &a.x, &residuals, &all(n), k) {
            return;
        }
    }
}
// n, c, t, fm, lm, levels, kind (0..3 trees, 10, 11 ensembles), iterations, change (0 another order, 1 every row twice, 2 three times), multi
fn c28() {
    exact();
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let times = pu(8) + 1;
    let mut p = all(n);
    if times == 1 {
        match choice(3) {
            0 => p.reverse(),
            1 => p.rotate_left(1),
            _ => {
                let i = choice(n);
                p.swap(i, choice(n));
            }
        }
    } else {
        let mut q = vec![];
        let blocks = choice(2) == 0;
        for i in 0..n * times {
            q.push(if blocks { i % n } else { i / times });
        }
        p = q;
    }
    let e = D { x: p.iter().map(|i| d.x[*i].clone()).collect(), y: p.iter().map(|i| d.y[*i].clone()).collect() };
    let id = |x: &[f64]| x.to_vec();
    like_models(kind, &d, &e, levels, pu(9) == 1, pu(7), &Like { col: &|c| c, lab: &id, out: &id, times });
}
// n, c, t, fm, lm, levels, kind, iterations, change (0 a constant column, 1 a copy of a column at the end or behind it, above 1 as many constant columns in one place), multi
fn c29() {
    exact();
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let mut e = D { x: d.x.clone(), y: d.y.clone() };
    // where the new column goes and the column it is a copy of
    let copy = pu(8) == 1;
    let more = pu(8).max(1);
    let (at, from) = if !copy {
        (choice(c + 1), c)
    } else {
        let j = choice(c);
        (if choice(2) == 0 { c } else { j + 1 }, j)
    };
    let konst = if copy { 0. } else { [0., 5., -1e9][choice(3)] };
    for r in &mut e.x {
        let v = if from < c { r[from] } else { konst };
        for _ in 0..more {
            r.insert(at, v);
        }
    }
    let id = |x: &[f64]| x.to_vec();
    let col = move |k: usize| {
        if k >= at && k < at + more {
            // a constant column is never asked for
            if from < c { from } else { c + 1 }
        } else if k >= at + more {
            k - more
        } else {
            k
        }
    };
    like_models(kind, &d, &e, levels, pu(9) == 1, pu(7), &Like { col: &col, lab: &id, out: &id, times: 1 });
}
// n, c, t, fm, lm, levels, kind, iterations, multi
fn c30() {
    exact();
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let a = [2., -1., 0.5, 8.][choice(4)];
    let b: Vec<f64> = (0..t).map(|_| sym(-B, B)).collect();
    let up = |x: &[f64]| -> Vec<f64> { (0..x.len()).map(|j| a * x[j] + b[j]).collect() };
    let out = |x: &[f64]| -> Vec<f64> { x.iter().map(|v| a * v).collect() };
    let e = D { x: d.x.clone(), y: d.y.iter().map(|r| up(r)).collect() };
    if kind == 2 {
        // a leaf of a boosting tree holds the mean of its labels
        like_models(kind, &d, &e, levels, pu(8) == 1, pu(7), &Like { col: &|c| c, lab: &up, out: &up, times: 1 });
    } else {
        like_models(kind, &d, &e, levels, pu(8) == 1, pu(7), &Like { col: &|c| c, lab: &up, out: &out, times: 1 });
    }
}
// n, c, t, fm, lm, levels, kind, iterations, change (0 another order of the targets, 1 every target twice, 2 a constant target more), multi
fn c31() {
    exact();
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let mode = pu(8);
    let p: Vec<usize> = match (mode, choice(2)) {
        (0, 0) => (0..t).rev().collect(),
        (0, _) => (0..t).map(|j| (j + 1) % t).collect(),
        (1, 0) => (0..2 * t).map(|j| j / 2).collect(),
        (1, _) => (0..2 * t).map(|j| j % t).collect(),
        (_, 0) => (0..t + 1).collect(),
        _ => (0..t + 1).map(|j| (j + t) % (t + 1)).collect(),
    };
    let konst = if mode == 2 { sym(-B, B) } else { 0. };
    let lab = |x: &[f64]| -> Vec<f64> { p.iter().map(|j| if *j == t { konst } else { x[*j] }).collect() };
    let out = |x: &[f64]| -> Vec<f64> { p.iter().map(|j| if *j == t { 0. } else { x[*j] }).collect() };
    let e = D { x: d.x.clone(), y: d.y.iter().map(|r| lab(r)).collect() };
    if kind == 2 {
        like_models(kind, &d, &e, levels, pu(9) == 1, pu(7), &Like { col: &|c| c, lab: &lab, out: &lab, times: 1 });
    } else {
        like_models(kind, &d, &e, levels, pu(9) == 1, pu(7), &Like { col: &|c| c, lab: &lab, out: &out, times: 1 });
    }
}
fn walk32(t: &T, d: &D, rows: &[usize], level: usize, levels: usize, kind: usize) {
    walk12(t, d, rows, level, levels, 10, &|l, rows| {
        if let Some(y) = &l.labels {
            check(y.len() == rows.len(), 1);
            close_vec(&mean(y, &all(y.len())), &mean(&d.y, rows), TOL, 2);
        }
        if let (2, Some(o)) = (kind, &l.out) {
            close_vec(o, &mean(&d.y, rows), TOL, 3);
        }
        if let (3, Some(o)) = (kind, &l.out) {
            close_vec(o, &newton(&d.y, rows), 1e-6, 4);
        }
        if let Some((m, cl)) = &l.max {
            let w = newton(&d.y, rows);
            close(*m, w[*cl], 1e-6, 5);
        }
    });
}
fn model(kind: usize, d: &D, levels: usize, multi: bool, iters: usize) -> Model {
    let cfg = config(d.y[0].len(), levels, multi);
    match kind {
        0 => Model::R(RegressionBoostModel::train(d.set(), cfg, iters as u32, 0.5)),
        1 => Model::M(MultiClassBoostModel::train(d.set(), cfg, iters as u32, 0.5)),
        _ => Model::A(AMGBoostModel::train(d.set(), cfg, iters as u32, 0.5)),
    }
}
fn guess_of(m: &Model) -> Vec<f64> {
    match m {
        Model::R(m) => m.initial_guess.clone(),
        Model::M(m) => m.initial_guess.clone(),
        Model::A(m) => m.initial_guess.clone(),
    }
}
fn predicts(m: &Model, row: &[f64], k: usize, id: u32) {
    let mut s = guess_of(m);
    for t in &m.trees() {
        let o = leaf_out(route(t, row), k);
        for j in 0..k {
            s[j] += 0.5 * o[j];
        }
    }
    let p = m.predict(row);
    match m {
        Model::R(_) => close_vec(&p, &s, TOL, id),
        _ => argmax_ok(&p, &s, false, id + 1),
    }
}
// n, c, t, fm, lm, levels, kind (0..4 trees, 10..12 ensembles), iterations, shared (0 nothing, 1 features, 2 labels, 3 all but two values, 4 all but the order of the last two labels, 5 all but the last label, above 10 as many models less ten in between), multi
fn c32() {
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let multi = pu(9) == 1;
    let d = data(n, c, t, fm, lm);
    let mut e = D { x: d.x.clone(), y: d.y.clone() };
    match pu(8) {
        // the rows the other way round
        0 | 2 | 10.. => e.x.reverse(),
        // all but the last row in common
        3 => {
            let z = e.x[n - 1][c - 1];
            e.x[n - 1][c - 1] = e.x[0][c - 1];
            e.x[0][c - 1] = z;
        }
        _ => {}
    }
    match pu(8) {
        0 | 1 => e.y.rotate_left(1),
        4 => {
            let z = e.y[n - 2].clone();
            e.y[n - 2] = e.y[n - 1].clone();
            e.y[n - 1] = z;
        }
        5 => e.y[n - 1] = e.y[0].clone(),
        _ => {}
    }
    if kind < 10 {
        let a = build(kind, &d, levels, multi);
        let b = build(kind, &e, levels, multi);
        for _ in 10..pu(8) {
            same_tree(&b, &build(kind, &e, levels, multi), 31);
        }
        let a2 = build(kind, &d, levels, multi);
        observe(&a);
        observe(&b);
        walk32(&a, &d, &all(n), 0, levels, kind);
        walk32(&b, &e, &all(n), 0, levels, kind);
        same_tree(&a, &a2, 30);
        if kind == 0 {
            // scores of both trees in turn
            let ta = Box::new(RegressionMultiTargetDecisionTree::new(d.set(), config(t, levels, multi)).root);
            let tb = Box::new(RegressionMultiTargetDecisionTree::new(e.set(), config(t, levels, multi)).root);
            for (tree, shp, q) in [(&ta, &a, &d), (&tb, &b, &d), (&ta, &a, &e), (&tb, &b, &e)] {
                let mut want = 0.;
                for i in 0..n {
                    let y = route(shp, &q.x[i]).labels.as_ref().unwrap();
                    want += mse(&mean(y, &all(y.len())), &q.y[i]);
                }
                close(regression::calculate_overall_mean_squared_error(&q.set(), tree), want / n as f64, TOL, 40);
            }
        }
    } else {
        let k = kind - 10;
        let a = model(k, &d, levels, multi, pu(7));
        let b = model(k, &e, levels, multi, pu(7));
        for i in 0..n {
            predicts(&a, &d.x[i], t, 50);
            predicts(&b, &d.x[i], t, 50);
        }
        for _ in 10..pu(8) {
            let m = model(k, &e, levels, multi, pu(7));
            let (x, y) = (b.trees(), m.trees());
            check(x.len() == y.len(), 63);
            for i in 0..x.len() {
                same_tree(&x[i], &y[i], 64);
            }
            same_vec(&guess_of(&b), &guess_of(&m), 66);
        }
        let a2 = model(k, &d, levels, multi, pu(7));
        same_vec(&guess_of(&a), &guess_of(&a2), 60);
        let (x, y) = (a.trees(), a2.trees());
        check(x.len() == y.len(), 61);
        for i in 0..x.len() {
            observe(&x[i]);
            same_tree(&x[i], &y[i], 62);
        }
        if kind == 10 {
            // the first tree of both fits the residuals of the mean
            for (m, q) in [(&a, &d), (&b, &e)] {
                let g = mean(&q.y, &all(n));
                close_vec(&guess_of(m), &g, TOL, 65);
                let r = D { x: q.x.clone(), y: q.y.iter().map(|r| (0..t).map(|j| r[j] - g[j]).collect()).collect() };
                if let Some(tr) = m.trees().first() {
                    walk32(tr, &r, &all(n), 0, levels, 2);
                }
            }
        }
    }
}

/// the same trained tree: questions, shape, leaf contents up to rounding
fn alike(a: &T, b: &T, d: &D, rows: &[usize]) -> bool {
    let id = |x: &[f64]| x.to_vec();
    like(a, b, &d.x, &|| d.y.clone(), rows, &Like { col: &|c| c, lab: &id, out: &id, times: 1 })
}
fn some(d: &D, rows: &[usize]) -> D {
    D { x: rows.iter().map(|r| d.x[*r].clone()).collect(), y: rows.iter().map(|r| d.y[*r].clone()).collect() }
}
// n, c, t, fm, lm, levels, kind (0..4 trees), multi
fn c33() {
    exact();
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let tree = build(kind, &d, levels, pu(7) == 1);
    observe(&tree);
    branches(&tree, &d, &all(n), levels, kind, pu(7) == 1);
}
fn branches(t: &T, d: &D, rows: &[usize], levels: usize, kind: usize, multi: bool) {
    if let T::Node(c, v, a, b) = t {
        check(levels > 0, 20);
        let (tr, fa) = split(&d.x, rows, *c, *v);
        check(!tr.is_empty() && !fa.is_empty(), 21);
        for (side, part) in [(a, &tr), (b, &fa)] {
            if alike(side, &build(kind, &some(d, part), levels - 1, multi), d, part) && par(8) == 0 {
                branches(side, d, part, levels - 1, kind, multi);
            }
        }
    }
}
// n, c, t, fm, lm, levels, kind (0..4 trees), deeper by, multi
fn c34() {
    exact();
    let (n, c, t, fm, lm, levels, kind, more) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6), pu(7));
    let d = data(n, c, t, fm, lm);
    let (a, b) = (build(kind, &d, levels, pu(8) == 1), build(kind, &d, levels + more, pu(8) == 1));
    observe(&b);
    extends(&a, &b, &d, &all(n), levels);
}
fn extends(a: &T, b: &T, d: &D, rows: &[usize], levels: usize) {
    match (a, b) {
        (T::Node(c, v, t, f), T::Node(c2, v2, t2, f2)) => {
            check(levels > 0, 30);
            if c != c2 || *v != *v2 {
                return tie(&d.x, &d.y, rows, [Some((*c, *v)), Some((*c2, *v2))], 31);
            }
            let (tr, fa) = split(&d.x, rows, *c, *v);
            extends(t, t2, d, &tr, levels - 1);
            extends(f, f2, d, &fa, levels - 1);
        }
        // a leaf above the limit is one in the deeper tree
        (T::Leaf(_), T::Leaf(_)) => {
            alike(a, b, d, rows);
        }
        (T::Leaf(l), T::Node(c, v, _, _)) => {
            if levels > 0 {
                return tie(&d.x, &d.y, rows, [None, Some((*c, *v))], 33);
            }
            if let Some(y) = &l.labels {
                let mut z = vec![];
                gather(b, &mut z);
                check(y.len() == z.len(), 34);
                close_vec(&mean(y, &all(y.len())), &mean(&z, &all(z.len())), TOL, 35);
            }
        }
        (T::Node(c, v, _, _), _) => tie(&d.x, &d.y, rows, [Some((*c, *v)), None], 36),
    }
}
fn gather(t: &T, y: &mut Vec<Vec<f64>>) {
    match t {
        T::Leaf(l) => y.extend(l.labels.as_ref().unwrap().iter().cloned()),
        T::Node(_, _, a, b) => {
            gather(a, y);
            gather(b, y);
        }
    }
}
/// the trees differ, but only by a choice between equally good questions
fn ties(a: &T, b: &T, d: &D, rows: &[usize]) -> bool {
    match (a, b) {
        (T::Node(c, v, t, f), T::Node(c2, v2, t2, f2)) => {
            if c != c2 || *v != *v2 {
                tie(&d.x, &d.y, rows, [Some((*c, *v)), Some((*c2, *v2))], 50);
                return true;
            }
            let (tr, fa) = split(&d.x, rows, *c, *v);
            ties(t, t2, d, &tr) || ties(f, f2, d, &fa)
        }
        (T::Leaf(_), T::Leaf(_)) => false,
        (T::Leaf(_), T::Node(c, v, _, _)) | (T::Node(c, v, _, _), _) => {
            tie(&d.x, &d.y, rows, [None, Some((*c, *v))], 51);
            true
        }
    }
}
// n, c, t, fm, lm, levels, test rows, multi
fn c35() {
    exact();
    let (n, c, t, fm, lm, levels, tests) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let x = feats(n + tests, c, fm);
    let y = labels(n, t, lm);
    let d = D { x: x[..n].to_vec(), y };
    let tree = reg_tree(&d, levels, pu(7) == 1);
    observe(&tree);
    let m = RegressionBoostModel::train(d.set(), config(t, levels, pu(7) == 1), 1, 1.);
    check(m.trees.len() == 1, 1);
    if ties(&tree, &shape(&m.trees[0]), &d, &all(n)) {
        return;
    }
    for r in &x {
        let l = route(&tree, r).labels.as_ref().unwrap();
        let p = m.predict(r);
        close_vec(&p, &mean(l, &all(l.len())), TOL, 2);
    }
    // and so are the scores on the training data
    let root = Box::new(RegressionMultiTargetDecisionTree::new(d.set(), config(t, levels, pu(7) == 1)).root);
    close(regression::calculate_overall_mean_squared_error(&d.set(), &root), m.calculate_score(&d.set()), 1e-4, 3);
}
/// the text of a file with these numbers
fn text(v: &[Vec<f64>], style: usize) -> String {
    let mut s = String::new();
    let nl = if style < 2 { "\n" } else { "\r\n" };
    for j in 0..v[0].len() {
        if j > 0 {
            s.push(',');
        }
        s.push_str(&feature_name(j));
    }
    s.push_str(nl);
    for (i, r) in v.iter().enumerate() {
        for j in 0..r.len() {
            if j > 0 {
                s.push(',');
            }
            s.push_str(&token(r[j]));
        }
        if style == 0 || i + 1 < v.len() {
            s.push_str(nl);
        }
    }
    s
}
// n, c, t, fm, lm, levels, kind (0..4 trees, 10..12 ensembles), iterations, multi, arbitrary line ends
fn c36() {
    let (n, c, t, fm, lm, levels, kind) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let d = data(n, c, t, fm, lm);
    let e = data(2, c, t, fm, lm);
    let (style, other) = if pu(9) == 1 { (choice(3), choice(3)) } else { (0, 0) };
    vfile("irse_f.csv", &text(&d.x, style));
    vfile("irse_l.csv", &text(&d.y, other));
    vfile("irse_g.csv", &text(&e.x, style));
    vfile("irse_m.csv", &text(&e.y, other));
    let read = || read_csv_data_multi_target("irse_f.csv", "irse_l.csv");
    let test = read_csv_data_multi_target("irse_g.csv", "irse_m.csv");
    let multi = pu(8) == 1;
    let cfg = || config(t, levels, multi);
    let a = if kind < 10 { build(kind, &d, levels, multi) } else { T::Leaf(Lf::default()) };
    match kind {
        0 | 1 => {
            let s = read();
            let (b, score) = if kind == 0 {
                let r = Box::new(RegressionMultiTargetDecisionTree::new(read(), cfg()).root);
                (shape(&r), regression::calculate_overall_mean_squared_error(&test, &r))
            } else {
                let p = create_dataset_with_sorted_features(&s);
                let r = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(p, cfg()).root);
                (shape(&r), regression::calculate_overall_mean_squared_error_new_partition(&test, &r))
            };
            same_tree(&a, &b, 10);
            let mut want = 0.;
            for i in 0..2 {
                let y = route(&a, &e.x[i]).labels.as_ref().unwrap();
                want += mse(&mean(y, &all(y.len())), &e.y[i]);
            }
            close(score, want / 2., 1e-4, 15);
        }
        2 | 3 => {
            let g = GradBoostMultiTargetDecisionTree::new(read(), cfg(), calc(kind == 3));
            same_tree(&a, &shape(&g.root), 20);
        }
        4 => {
            let g = AMGBoostTree::new(read(), cfg(), calc(true));
            same_tree(&a, &shape(&g.root), 30);
        }
        _ => {
            let a = model(kind - 10, &d, levels, multi, pu(7));
            let b = match kind {
                10 => Model::R(RegressionBoostModel::train(read(), cfg(), pu(7) as u32, 0.5)),
                11 => Model::M(MultiClassBoostModel::train(read(), cfg(), pu(7) as u32, 0.5)),
                _ => Model::A(AMGBoostModel::train(read(), cfg(), pu(7) as u32, 0.5)),
            };
            same_vec(&guess_of(&a), &guess_of(&b), 40);
            let (x, y) = (a.trees(), b.trees());
            check(x.len() == y.len(), 41);
            for i in 0..x.len() {
                observe(&x[i]);
                same_tree(&x[i], &y[i], 42);
            }
            same(a.score(&e.set()), b.score(&test), 50);
        }
    }
}
