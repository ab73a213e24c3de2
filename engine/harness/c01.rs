//! Prediction = base score + the weights of the leaves the documented routing rule reaches.
use super::util::*;

fn one_tree() -> Tree {
    let o = TreeOpts { weights: true, covers: vec![2.0, 1.0, 3.0], gains: false };
    let m = any_miss();
    let s = match choice(5) {
        0 => Sk::L,
        1 => sk(choice(2), m, Sk::L, Sk::L),
        2 => sk(0, m, sk(1, any_miss(), Sk::L, Sk::L), Sk::L),
        3 => sk(1, m, Sk::L, sk(1, any_miss(), Sk::L, Sk::L)),
        _ => sk3(1, Sk::L, Sk::L, sk(0, Miss::Right, Sk::L, Sk::L)),
    };
    build(&s, &o)
}

fn value(missing: f64) -> f64 {
    if boolean() {
        missing
    } else {
        real(-6., 6.)
    }
}

fn check_all(b: &GradientBooster, d: &[f64], rows: usize, cols: usize, used: usize) {
    let m = Matrix::new(d, rows, cols);
    let serial = b.predict(&m, false);
    let par = b.predict(&m, true);
    let idx = b.predict_leaf_indices(&m);
    check!(serial.len() == rows && par.len() == rows, "one prediction per row");
    check!(idx.len() == rows * used, "one leaf per row and tree");
    for r in 0..rows {
        let x = row(d, rows, cols, r);
        let mut want = b.base_score;
        let mut single = b.base_score;
        for (k, t) in b.trees.iter().take(used).enumerate() {
            let l = route(t, &x, b.missing);
            check!(idx[k * rows + r] == l, "leaf index is the routed leaf");
            want += f64::from(t.nodes[l].weight_value);
            single += t.predict_row_from_row_slice(&x, &b.missing);
        }
        check!(close(serial[r], want), "prediction is base score plus routed leaf weights");
        check!(close(par[r], want), "parallel prediction is base score plus routed leaf weights");
        check!(close(single, want), "row-slice prediction is the routed leaf weight");
    }
}

/// One symbolic tree (weights, split values, shape, missing direction), one row of two features.
pub fn symbolic_trees() {
    let mut b = GradientBooster::default();
    b.base_score = real(-4., 4.);
    b.missing = pick(&[f64::NAN, 0.0, -2.5]);
    b.trees = vec![one_tree()];
    let d: Vec<f64> = (0..2).map(|_| value(b.missing)).collect();
    cover("routed");
    check_all(&b, &d, 1, 2, 1);
}

/// Three stumps, two rows: the number of trees used is the prediction iteration.
pub fn iterations() {
    let o = TreeOpts { weights: true, covers: vec![1.0], gains: false };
    let mut b = GradientBooster::default();
    b.base_score = real(-4., 4.);
    b.trees = vec![
        build(&sk(0, Miss::Left, Sk::L, Sk::L), &o),
        build(&sk(1, Miss::Own, Sk::L, Sk::L), &o),
        build(&sk(0, Miss::Right, Sk::L, Sk::L), &o),
    ];
    let d: Vec<f64> = vec![value(f64::NAN), real(-6., 6.), real(-6., 6.), value(f64::NAN)];
    let n = choice(5);
    let used = if n == 4 {
        b.prediction_iteration = None;
        3
    } else {
        b.prediction_iteration = Some(n);
        n
    };
    check_all(&b, &d, 2, 2, used);
}

/// A batch of rows larger than any chunk a row loop is likely to use: position and neighbours do
/// not influence a row's prediction.
pub fn many_rows() {
    let o = TreeOpts { weights: true, covers: vec![1.0], gains: false };
    let rows = if thorough() { 300 } else { 70 };
    let mut b = GradientBooster::default();
    b.base_score = real(-4., 4.);
    b.trees = vec![build(&sk(0, Miss::Own, sk(2, Miss::Left, Sk::L, Sk::L), Sk::L), &o), build(&sk(1, Miss::Right, Sk::L, Sk::L), &o)];
    let mut d = Vec::new();
    for c in 0..3 {
        for r in 0..rows {
            let k = (r * 7 + c * 5) % 11;
            d.push(if k == 0 { f64::NAN } else { k as f64 - 5.0 });
        }
    }
    let at = pick(&[0, 1, 31, 32, 63, 64, rows - 1]);
    d[at] = real(-6., 6.);
    d[rows + at] = real(-6., 6.);
    check_all(&b, &d, rows, 3, 2);
}

/// Values that only double precision tells apart, very large and small ones, zeros of both signs and infinities, against
/// every one of them as split value and as missing value; weights arbitrary.
pub fn precision() {
    let fine = [0.1, f64::from(0.1f32), 16777216.0, 16777217.0, 0.0, -0.0, f64::MIN_POSITIVE, -1e300, 1e300, 1.0 + f64::EPSILON, 1.0, f64::MAX];
    let o = TreeOpts { weights: true, covers: vec![1.0], gains: false };
    let mut b = GradientBooster::default();
    b.base_score = real(-4., 4.);
    b.trees = vec![build(&sk(0, Miss::Own, Sk::L, Sk::L), &o)];
    b.trees[0].nodes[0].split_value = pick(&fine);
    b.missing = pick(&[f64::NAN, 0.1, 16777217.0, 0.0, -1e300]);
    let v = pick(&fine);
    check_all(&b, &[v, f64::INFINITY, f64::NEG_INFINITY], 3, 1, 1);
}

/// Rows that agree in one feature and differ in the other, next to each other, in any order: a row's prediction is its own.
/// Three rows of two features, one tree of two levels with fixed weights.
pub fn neighbours() {
    let o = TreeOpts { weights: false, covers: vec![1.0], gains: false };
    let mut b = GradientBooster::default();
    b.base_score = 0.25;
    let s = if boolean() { sk(0, any_miss(), sk(1, any_miss(), Sk::L, Sk::L), Sk::L) } else { sk(1, any_miss(), Sk::L, sk(0, any_miss(), Sk::L, Sk::L)) };
    b.trees = vec![build(&s, &o), build(&sk(1, Miss::Left, Sk::L, Sk::L), &o)];
    let (u, v) = (real(-6., 6.), real(-6., 6.));
    let d = match choice(4) {
        0 => vec![u, u, u, v, 1.0, v],
        1 => vec![1.0, v, v, u, u, u],
        2 => vec![f64::NAN, f64::NAN, u, v, 2.0, v],
        _ => vec![u, v, u, v, u, v],
    };
    check_all(&b, &d, 3, 2, 2);
}

/// Sizes: 4100 rows, or 1200 trees, or 300 features, with one arbitrary value in an arbitrary place (of six) and arbitrary
/// weights in one tree; serial and parallel.
pub fn sizes() {
    let (rows, cols, trees) = pick(&[(4100usize, 2usize, 2usize), (3, 2, 1200), (3, 300, 3)]);
    let arbitrary = TreeOpts { weights: true, covers: vec![1.0], gains: false };
    let mut b = GradientBooster::default();
    b.base_score = 0.25;
    let at_tree = pick(&[0, trees / 2, trees - 1]);
    for k in 0..trees {
        let s = sk((k * 131 + cols - 1) % cols, Miss::Right, Sk::L, Sk::L);
        if k == at_tree {
            b.trees.push(build(&s, &arbitrary));
            continue;
        }
        let mut t = Tree::new();
        for i in 0..3 {
            t.nodes.push(leaf(i, [0.0, 1.0, -0.5][i] * (1.0 + (k % 16) as f32), 1.0));
        }
        let n = &mut t.nodes[0];
        n.is_leaf = false;
        n.split_feature = (k * 131 + cols - 1) % cols;
        n.split_value = (k % 5) as f64 - 2.0;
        (n.left_child, n.right_child, n.missing_node) = (1, 2, 2);
        b.trees.push(t);
    }
    let mut d = Vec::new();
    for c in 0..cols {
        for r in 0..rows {
            let k = (r * 7 + c * 5) % 11;
            d.push(if k == 0 { f64::NAN } else { k as f64 - 5.0 });
        }
    }
    let at = pick(&[0, 1, rows / 2, 1023 % rows, 1024 % rows, rows - 1]);
    d[(cols - 1) * rows + at] = real(-6., 6.);
    check_all(&b, &d, rows, cols, trees);
}

/// Sums that single precision cannot represent: fixed scores and weights, the prediction is exact to double precision; one arbitrary value.
pub fn exact_sums() {
    let mut b = GradientBooster::default();
    b.base_score = pick(&[1.0 + 1e-12, 1e9 + 0.125, -3.0e-9, 0.1]);
    for k in 0..4 {
        let mut t = Tree::new();
        for i in 0..3 {
            t.nodes.push(leaf(i, [0.0, 16777216.0, 1.0e-7][i] * [1.0, -1.0, 0.5, 0.3][k], 1.0));
        }
        let n = &mut t.nodes[0];
        n.is_leaf = false;
        n.split_value = k as f64;
        (n.left_child, n.right_child, n.missing_node) = (1, 2, 2);
        b.trees.push(t);
    }
    let x = real(-1., 5.);
    let d = [x, f64::NAN, -9.0];
    let m = Matrix::new(&d, 3, 1);
    for p in [b.predict(&m, false), b.predict(&m, true)] {
        for r in 0..3 {
            let mut want = b.base_score;
            let mut size = b.base_score.abs();
            for t in &b.trees {
                let w = f64::from(t.nodes[route(t, &d[r..=r], b.missing)].weight_value);
                want += w;
                size += w.abs();
            }
            check!((p[r] - want).abs() <= 1e-13 * size, "the sum is exact to double precision, in whatever order");
        }
    }
}
