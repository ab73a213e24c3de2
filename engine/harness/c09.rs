//! Difference contributions: BranchDifference, MidpointDifference and ModeDifference compare the side a
//! row takes with the other side at every split on its path; missing branches contribute nothing.
use super::util::*;

/// Five tree shapes with every missing direction, arbitrary node weights and split values, covers from two fixed lists
/// (equal covers included), one row of two features with arbitrary or missing values (NaN or -3), one further tree, used or not, serial and parallel.
pub fn definitions() {
    let missing = pick(&[f64::NAN, -3.0]);
    let covers = pick(&[vec![2.0, 1.0, 3.0, 0.5], vec![1.0]]);
    let o = TreeOpts { weights: true, covers, gains: false };
    let mut b = small();
    b.missing = missing;
    b.base_score = real(-2., 2.);
    let k = choice(5);
    b.trees = vec![
        build(&super::c08::shapes(k), &o),
        build(&sk(1, Miss::Right, Sk::L, Sk::L), &TreeOpts { weights: false, covers: vec![1.0, 2.0], gains: false }),
    ];
    let val = || if boolean() { missing } else { real(-4., 4.) };
    let r = [val(), val()];
    let d = [0.5, r[0], -0.5, r[1]];
    let m = Matrix::new(&d, 2, 2);
    let par = boolean();
    let used = if boolean() {
        b.prediction_iteration = Some(1);
        1
    } else {
        2
    };
    let want = differences(&b, used, &r);
    let g = b.predict_contributions(&m, ContributionsMethod::BranchDifference, par);
    for j in 0..3 {
        check!(close(g[3 + j], want[0][j]), "BranchDifference compares the side taken with the other side");
    }
    let g = b.predict_contributions(&m, ContributionsMethod::MidpointDifference, par);
    for j in 0..3 {
        check!(close(g[3 + j], want[1][j]), "MidpointDifference compares the side taken with the weighted midpoint of both");
    }
    let g = b.predict_contributions(&m, ContributionsMethod::ModeDifference, par);
    for j in 0..3 {
        check!(close(g[3 + j], want[2][j]), "ModeDifference compares the side taken with the heavier side");
    }
}

/// What the three methods give for a row, the base score last.
fn differences(b: &GradientBooster, used: usize, r: &[f64]) -> [Vec<f64>; 3] {
    let mut zero = vec![0.0; r.len() + 1];
    zero[r.len()] = b.base_score;
    let mut want = [zero.clone(), zero.clone(), zero];
    for t in &b.trees[..used] {
        for s in walk(t, r, b.missing).windows(2) {
            let n = &t.nodes[s[0]];
            if ternary(n) && s[1] == n.missing_node {
                continue;
            }
            let (l, rt) = (&t.nodes[n.left_child], &t.nodes[n.right_child]);
            let (c, other) = if s[1] == n.left_child { (l, rt) } else { (rt, l) };
            let w = |x: &Node| f64::from(x.weight_value);
            let h = |x: &Node| f64::from(x.hessian_sum);
            want[0][n.split_feature] += w(c) - w(other);
            want[1][n.split_feature] += w(c) - (w(c) * h(c) + w(other) * h(other)) / (h(c) + h(other));
            want[2][n.split_feature] += if h(l) == h(rt) {
                0.0
            } else if h(l) > h(rt) {
                w(c) - w(l)
            } else {
                w(c) - w(rt)
            };
        }
    }
    want
}

/// Sizes: 1100 rows, 300 features, 300 trees, or one tree of depth 7 with very unequal covers; one arbitrary feature value, serial and parallel.
pub fn sizes() {
    let (n, cols, trees) = pick(&[(1100usize, 2usize, 2usize), (3, 300, 3), (2, 2, 300), (4, 8, 1)]);
    let mut b = small();
    b.base_score = 0.25;
    for k in 0..trees {
        let f = (k * 151 + cols - 1) % cols;
        let covers = vec![1.0, 2.0, 4096.0, 0.25];
        let mut s = sk((f + 1) % cols, Miss::Right, Sk::L, Sk::L);
        for i in 0..if trees == 1 { 6 } else { 1 } {
            let g = (f + 8 * cols - i) % cols;
            s = match i % 3 {
                0 => sk(g, Miss::Left, Sk::L, s),
                1 => sk3(g, s, Sk::L, Sk::L),
                _ => sk3(g, Sk::L, Sk::L, s),
            };
        }
        let mut t = build(&s, &TreeOpts { weights: false, covers, gains: false });
        for (i, nd) in t.nodes.iter_mut().enumerate() {
            nd.split_value = 0.5 * ((k + i) % 3) as f64 - 0.5;
            nd.weight_value = (((i + k) * 5) % 7) as f32 * 0.125 - 0.375;
        }
        b.trees.push(t);
    }
    let mut d = super::c02::noise(n * cols, 92);
    d[n * cols - 1] = real(-2., 2.);
    for c in 0..cols {
        if cols == 8 && c != 7 {
            // Down to the bottom.
            d[c * n] = f64::NAN;
            d[c * n + 1] = [1.5, -1.5, f64::NAN][c % 3];
        }
    }
    d[0] = f64::NAN;
    let m = Matrix::new(&d, n, cols);
    let par = boolean();
    let g = [
        b.predict_contributions(&m, ContributionsMethod::BranchDifference, par),
        b.predict_contributions(&m, ContributionsMethod::MidpointDifference, par),
        b.predict_contributions(&m, ContributionsMethod::ModeDifference, par),
    ];
    for i in 0..n {
        let want = differences(&b, trees, &row(&d, n, cols, i));
        for k in 0..3 {
            for j in 0..=cols {
                check!(close(g[k][i * (cols + 1) + j], want[k][j]), "difference contributions are sums over the trees and the row's path");
            }
        }
    }
}
