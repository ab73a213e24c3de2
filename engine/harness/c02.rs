//! Training and prediction agree: replaying the training rows through the finished trees gives
//! every node's cover, every leaf's weight and every split's gain.
use super::util::*;

pub struct Pre {
    pub y: Vec<f64>,
    pub w: Vec<f64>,
    pub x2: Vec<f64>,
}
pub fn presets(n: usize, which: usize) -> Pre {
    let ys = [
        [1.0, -2.0, 3.0, 0.5, -1.5, 2.5, 0.0, -3.0],
        [0.0, 1.0, 1.0, 0.0, 1.0, 0.0, 1.0, 0.0],
    ];
    let ws = [[1.0; 8], [2.0, 1.0, 0.5, 3.0, 1.0, 0.25, 1.5, 1.0]];
    let x2 = [5.0, f64::NAN, 1.0, 3.0, 3.0, f64::NAN, 2.0, 4.0];
    Pre { y: ys[which % 2][..n].to_vec(), w: ws[(which / 2) % 2][..n].to_vec(), x2: x2[..n].to_vec() }
}

/// What training must have recorded, given the data and the finished trees.
pub fn audit(b: &GradientBooster, d: &[f64], rows: usize, cols: usize, y: &[f64], w: &[f64]) {
    let mut yhat = vec![b.base_score; rows];
    // Sums over many rows are rounded to single precision.
    let tol = 2e-4 * (rows as f64 / 64.0).max(1.0);
    let close = |a: f64, b: f64| (a - b) <= tol && (a - b) >= -tol;
    let (l1, l2, mds, lr) = (f64::from(b.l1), f64::from(b.l2), f64::from(b.max_delta_step), f64::from(b.learning_rate));
    for t in &b.trees {
        check_well_formed(t);
        let (g, h) = grad_hess(&b.objective_type, y, &yhat, w);
        let n = t.nodes.len();
        let (mut gs, mut hs, mut cnt) = (vec![0.0; n], vec![0.0; n], vec![0; n]);
        for r in 0..rows {
            let p = walk(t, &row(d, rows, cols, r), b.missing);
            for i in &p {
                gs[*i] += g[r];
                hs[*i] += h[r];
                cnt[*i] += 1;
            }
            yhat[r] += f64::from(t.nodes[*p.last().unwrap()].weight_value);
        }
        // Missing branches get their weight from the missing node treatment, not from their rows.
        let mut is_missing_child = vec![false; n];
        for nd in &t.nodes {
            if ternary(nd) {
                is_missing_child[nd.missing_node] = true;
            }
        }
        for (i, nd) in t.nodes.iter().enumerate() {
            check!(close(f64::from(nd.hessian_sum), hs[i]), "a node's cover is the hessian sum of the training rows routed to it");
            let opt = opt_weight(gs[i], hs[i], l1, l2, mds);
            // With treatment None also the missing branches that have rows.
            let own_rows = matches!(b.missing_node_treatment, MissingNodeTreatment::None) && cnt[i] > 0;
            if (!is_missing_child[i] || own_rows) && !matches!(b.missing_node_treatment, MissingNodeTreatment::AverageLeafWeight) {
                check!(close(f64::from(nd.weight_value), lr * opt), "a node's weight is the shrunken regularised optimum of the training rows routed to it");
            }
            if !nd.is_leaf {
                check!(cnt[nd.left_child] > 0 && cnt[nd.right_child] > 0, "both sides of a split received training rows");
                let own = |j: usize| gain_of(gs[j], hs[j], l2, opt_weight(gs[j], hs[j], l1, l2, mds));
                if !matches!(b.missing_node_treatment, MissingNodeTreatment::AverageLeafWeight) {
                    let given = |j: usize| gain_of(gs[j], hs[j], l2, f64::from(t.nodes[j].weight_value) / lr);
                    let m = if ternary(nd) { given(nd.missing_node) } else { 0.0 };
                    let want = given(nd.left_child) + given(nd.right_child) + m - given(i);
                    check!(close(f64::from(nd.split_gain), want), "a split's recorded gain is the loss reduction of the weights its branches have");
                }
                if !is_missing_child[i] {
                    // The missing branch counts with the weight its treatment gave it when the split was made.
                    let missing = match (ternary(nd), &b.missing_node_treatment) {
                        (false, _) => Some(0.0),
                        (true, MissingNodeTreatment::None) => Some(if hs[nd.missing_node] == 0.0 { 0.0 } else { own(nd.missing_node) }),
                        (true, MissingNodeTreatment::AssignToParent) => Some(gain_of(gs[nd.missing_node], hs[nd.missing_node], l2, opt)),
                        _ => None,
                    };
                    if let Some(m) = missing {
                        // Without rows the missing branch still has its weight, and pays its share of l2.
                        let empty = ternary(nd) && cnt[nd.missing_node] == 0;
                        let m = if empty { -l2 * opt * opt } else { m };
                        let want = own(nd.left_child) + own(nd.right_child) + m - own(i);
                        check!(close(f64::from(nd.split_gain), want), "a split's recorded gain is the loss reduction of its branches");
                    }
                }
            }
        }
    }
    let m = Matrix::new(d, rows, cols);
    let p = b.predict(&m, false);
    for r in 0..rows {
        check!(close(p[r], yhat[r]), "prediction on the training rows is the score training accumulated");
    }
}

pub fn config(k: usize) -> GradientBooster {
    let mut b = small();
    b.iterations = 2;
    match k {
        0 => {}
        1 => {
            b.objective_type = ObjectiveType::LogLoss;
            b.l2 = 1.0;
            b.min_leaf_weight = 0.125;
            b.initialize_base_score = true;
        }
        2 => {
            b.create_missing_branch = true;
            b.missing_node_treatment = MissingNodeTreatment::None;
            b.grow_policy = GrowPolicy::LossGuide;
        }
        3 => {
            b.l1 = 0.5;
            b.max_delta_step = 0.75;
            b.allow_missing_splits = false;
        }
        4 => {
            b.create_missing_branch = true;
            b.allow_missing_splits = false;
            b.missing_node_treatment = MissingNodeTreatment::AssignToParent;
            b.l2 = 1.0;
        }
        6 => {
            b.create_missing_branch = true;
            b.missing_node_treatment = MissingNodeTreatment::None;
            b.l1 = 0.25;
            b.l2 = 0.5;
            b.max_delta_step = 0.75;
        }
        _ => {
            b.nbins = 2;
            b.grow_policy = GrowPolicy::LossGuide;
            b.parallel = true;
        }
    }
    b
}

/// Every value (and order, and tie) of one feature; the targets are fixed.
pub fn fit_symbolic_x() {
    let k = choice(7);
    let mut b = config(k);
    let n = if thorough() { 6 } else { 5 };
    let which = if k == 1 { 1 + 2 * choice(2) } else { choice(4) };
    let p = presets(n, which);
    let miss = choice(3);
    let mut d: Vec<f64> = Vec::new();
    for r in 0..n {
        d.push(if (miss == 1 && r == 1) || (miss == 2 && (r == 0 || r == 3)) { f64::NAN } else { real(-6., 6.) });
    }
    d.extend(&p.x2);
    let m = Matrix::new(&d, n, 2);
    b.fit(&m, &p.y, &p.w, None).unwrap();
    check!(b.trees.len() == 2, "one tree per iteration");
    if b.trees[0].nodes.len() > 3 {
        cover("deep");
    }
    audit(&b, &d, n, 2, &p.y, &p.w);
}

/// One target is arbitrary; the features are fixed; missing values are NaN, 9 or -7.
pub fn fit_symbolic_y() {
    let mut b = config(pick(&[0, 2, 3, 4, 5, 6]));
    let n = 7;
    let p = presets(n, 2 * choice(2));
    let mut y = p.y.clone();
    let at = choice(2) * 4;
    y[at] = real(-6., 6.);
    let mut d = vec![2.0, 1.0, 2.0, f64::NAN, 4.0, 3.0, 1.0];
    d.extend(&p.x2);
    b.missing = pick(&[f64::NAN, 9.0, -7.0]);
    mark(&mut d, b.missing);
    let m = Matrix::new(&d, n, 2);
    b.fit(&m, &y, &p.w, None).unwrap();
    audit(&b, &d, n, 2, &y, &p.w);
}

/// Numbers without a pattern, the same on every run.
pub fn noise(n: usize, seed: u64) -> Vec<f64> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            ((s >> 40) % 4096) as f64 / 1024.0 - 2.0
        })
        .collect()
}

/// 70 rows, three features with ties and missing values, two feature values arbitrary, depth up to 12, four settings: sums
/// over more rows than a vectorised loop takes at once, subtracted histograms, long index ranges.
pub fn many_rows() {
    let n = 70;
    let mut b = config(pick(&[0, 1, 2, 5]));
    b.iterations = 2;
    b.max_depth = pick(&[3, 12]);
    b.nbins = pick(&[256, 7]);
    let mut d = noise(3 * n, 5);
    for (i, v) in d.iter_mut().enumerate() {
        if i >= n && i < 2 * n {
            *v = (*v * 2.0).round();
        }
        if i % 11 == 3 {
            *v = f64::NAN;
        }
    }
    d[1] = real(-2., 2.);
    if thorough() {
        d[40] = real(-2., 2.);
    }
    let y: Vec<f64> = noise(n, 9).iter().map(|v| if matches!(b.objective_type, ObjectiveType::LogLoss) { f64::from(*v > 0.3) } else { *v }).collect();
    let w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0][i % 3]).collect();
    let m = Matrix::new(&d, n, 3);
    b.fit(&m, &y, &w, None).unwrap();
    audit(&b, &d, n, 3, &y, &w);
}

/// 300 rows of distinct values, more than 256 bins, one value arbitrary.
pub fn many_bins() {
    let n = 300;
    let mut b = config(pick(&[0, 2]));
    b.iterations = 1;
    b.max_depth = 3;
    b.nbins = 1000;
    let mut d: Vec<f64> = (0..n).map(|i| ((i * 137) % 307) as f64).collect();
    d[7] = f64::NAN;
    d[100] = real(240., 310.);
    let y: Vec<f64> = d.iter().zip(noise(n, 3)).map(|(x, e)| if *x > 250.0 && *x < 280.0 { 2.0 } else { 0.25 * e }).collect();
    let w = vec![1.0; n];
    let m = Matrix::new(&d, n, 1);
    b.fit(&m, &y, &w, None).unwrap();
    audit(&b, &d, n, 1, &y, &w);
}

/// Trees that do not split (depth 0, nothing to separate, too large a gamma or leaf weight), before and between trees that do;
/// one target or feature value arbitrary.
pub fn stumps() {
    let mut b = config(pick(&[0, 2, 4]));
    b.iterations = 3;
    b.learning_rate = 0.5;
    let mut y = [1.0, -2.0, 3.0, 0.5];
    let mut d = vec![2.0, 1.0, 3.0, 4.0];
    match choice(4) {
        0 => b.max_depth = 0,
        1 => d = vec![5.0; 4],
        2 => b.gamma = 4.0,
        _ => b.min_leaf_weight = 3.0,
    }
    if boolean() {
        y[1] = real(-4., 4.);
    } else {
        d[2] = real(0., 6.);
    }
    let w = [1.0, 2.0, 0.5, 1.0];
    b.fit(&Matrix::new(&d, 4, 1), &y, &w, None).unwrap();
    check!(b.trees.len() == 3, "one tree per iteration");
    if b.trees[0].nodes.len() == 1 {
        cover("stump");
    }
    audit(&b, &d, 4, 1, &y, &w);
}

/// Infinite feature values beside two arbitrary ones and a missing one.
pub fn infinite() {
    let mut b = config(pick(&[0, 2, 3, 5]));
    let n = 6;
    let p = presets(n, choice(4));
    let (up, down) = (f64::INFINITY, f64::NEG_INFINITY);
    let mut d = match choice(3) {
        0 => vec![up, real(-6., 6.), 1.0, up, f64::NAN, real(-6., 6.)],
        1 => vec![down, real(-6., 6.), up, f64::NAN, down, real(-6., 6.)],
        _ => vec![real(-6., 6.), up, down, up, real(-6., 6.), down],
    };
    d.extend(&p.x2);
    let m = Matrix::new(&d, n, 2);
    b.fit(&m, &p.y, &p.w, None).unwrap();
    audit(&b, &d, n, 2, &p.y, &p.w);
}

/// Sizes: 1100 rows, or 300 features, or 40 trees; one feature value arbitrary (in [0.3, 0.5] with 1100 rows), four settings, serial and parallel.
pub fn sizes() {
    let (n, cols, trees, depth) = pick(&[(1100usize, 2usize, 1usize, 4usize), (16, 300, 2, 3), (10, 2, 40, 2)]);
    let mut b = config(pick(&[0, 1, 2, 5]));
    b.iterations = trees;
    b.max_depth = depth;
    b.parallel = boolean();
    let mut d = noise(cols * n, 21);
    for (i, v) in d.iter_mut().enumerate() {
        if i % 13 == 5 {
            *v = f64::NAN;
        }
    }
    let logistic = matches!(b.objective_type, ObjectiveType::LogLoss);
    let at = (cols * 2 / 3) * n + 2;
    // The target follows the column with the arbitrary value.
    let y: Vec<f64> = noise(n, 33).iter().enumerate().map(|(r, e)| {
        let x = d[(cols * 2 / 3) * n + r];
        let v = 0.5 * e + if x > 0.4 { 1.0 } else { 0.0 };
        if logistic { f64::from(v > 0.5) } else { v }
    }).collect();
    d[at] = if n > 100 { real(0.3, 0.5) } else { real(-2., 2.) };
    let w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0][i % 3]).collect();
    let m = Matrix::new(&d, n, cols);
    b.fit(&m, &y, &w, None).unwrap();
    check!(b.trees.len() == trees, "one tree per iteration");
    audit(&b, &d, n, cols, &y, &w);
}

/// Targets (and weights) of very large and very small scale: what is recorded scales with them. 6 rows, three arbitrary feature values.
pub fn scales() {
    let s = pick(&[1.0 / 1048576.0, 1.0, 1048576.0]);
    let ws = pick(&[1.0 / 4096.0, 1.0, 4096.0]);
    let mut b = small();
    b.iterations = 2;
    b.min_leaf_weight = (0.5 * ws) as f32;
    b.base_score = 0.5 * s;
    b.max_depth = 2;
    if boolean() {
        b.create_missing_branch = true;
    } else {
        b.l1 = (0.125 * s * ws) as f32;
        b.l2 = ws as f32;
    }
    let n = 6;
    let p = presets(n, 2);
    let y: Vec<f64> = p.y.iter().map(|v| v * s).collect();
    let w: Vec<f64> = p.w.iter().map(|v| v * ws).collect();
    let mut d = vec![real(-6., 6.), 1.0, f64::NAN, real(-6., 6.), 3.0, real(-6., 6.)];
    d.extend(&p.x2);
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    // Back to the scale one, where tolerances mean what they say.
    b.base_score /= s;
    b.min_leaf_weight = 0.5;
    b.l1 = (f64::from(b.l1) / (s * ws)) as f32;
    b.l2 = (f64::from(b.l2) / ws) as f32;
    for t in &mut b.trees {
        for nd in &mut t.nodes {
            nd.weight_value = nd.weight_value * (1.0 / s) as f32;
            nd.hessian_sum = nd.hessian_sum * (1.0 / ws) as f32;
            nd.split_gain = nd.split_gain * (1.0 / (s * s * ws)) as f32;
        }
    }
    if b.trees[1].nodes.len() > 3 {
        cover("split");
    }
    audit(&b, &d, n, 2, &p.y, &p.w);
}

/// Sums that single precision loses when it accumulates: one row of weight 2^24 among 200 of weight one, large targets that cancel, base scores of
/// double precision; one arbitrary feature value.
pub fn exact_sums() {
    let n = 200;
    let mut b = small();
    b.max_depth = 1;
    b.learning_rate = 1.0;
    b.base_score = pick(&[0.0, 1.0 + 1e-9]);
    b.parallel = boolean();
    let heavy = boolean();
    let mut w = vec![1.0; n];
    let mut y = vec![0.25 + b.base_score; n];
    if heavy {
        w[3] = 16777216.0;
        y[3] = b.base_score;
    } else {
        y[3] = b.base_score + 33554432.0;
        y[7] = b.base_score - 33554432.0;
    }
    // Rows 3 and 7 and most others on one side, the rest on the other.
    let mut d: Vec<f64> = (0..n).map(|r| if r % 10 == 1 { 5.0 } else { 1.0 }).collect();
    for r in 0..n {
        if r % 10 == 1 {
            y[r] += 64.0;
        }
    }
    d[0] = real(0., 6.);
    b.fit(&Matrix::new(&d, n, 1), &y, &w, None).unwrap();
    let t = &b.trees[0];
    // The root alone and the left child come from sums, the right child from a difference.
    let (mut g, mut h) = (vec![0.0; t.nodes.len()], vec![0.0; t.nodes.len()]);
    for r in 0..n {
        for i in walk(t, &d[r..=r], b.missing) {
            g[i] += (b.base_score - y[r]) * w[r];
            h[i] += w[r];
        }
    }
    for (i, nd) in t.nodes.iter().enumerate() {
        if i == 0 || !t.nodes[0].is_leaf && i == t.nodes[0].left_child {
            check!((f64::from(nd.hessian_sum) - h[i]).abs() <= 4e-7 * h[i], "a cover is the sum of the hessians to the last digit");
            let want = -g[i] / h[i];
            check!((f64::from(nd.weight_value) - want).abs() <= 1e-5 * want.abs(), "a weight is the optimum of the exact sums");
        }
    }
}

/// Missing branches of several rows that are split further: one tree of depth 3 on 8 rows, three of them missing in the first feature, one of their
/// targets arbitrary.
pub fn missing_rows() {
    let n = 8;
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.max_depth = pick(&[2, 3]);
    b.l2 = pick(&[0.0, 1.0]);
    b.create_missing_branch = true;
    b.missing_node_treatment = pick(&[MissingNodeTreatment::AssignToParent, MissingNodeTreatment::None, MissingNodeTreatment::AverageNodeWeight]);
    let nan = f64::NAN;
    let d = [1.0, 2.0, 6.0, 5.0, 1.0, nan, nan, nan, 1.0, 2.0, 1.0, 2.0, nan, 1.0, 2.0, nan];
    let mut y = [-4.0, -5.0, 6.0, 5.0, -4.0, 2.5, -1.5, 0.5];
    y[5 + choice(3)] = real(-4., 4.);
    let w = [1.0, 1.0, 2.0, 1.0, 1.0, 1.0, 0.5, 1.0];
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    audit(&b, &d, n, 2, &y, &w);
}

/// Trees grown on two of three columns, whichever are drawn: two trees on 6 rows with missing values, seven settings, one target or one value arbitrary.
pub fn columns() {
    let n = 6;
    let k = choice(7);
    let mut b = config(k);
    b.colsample_bytree = 0.7;
    b.max_depth = 2;
    let nan = f64::NAN;
    let mut d = [1.0, 2.0, nan, 1.0, 2.0, 3.0, 1.0, nan, 3.0, 3.0, 2.0, 1.0, 2.0, 1.0, 1.0, 3.0, nan, 2.0];
    let p = presets(n, if k == 1 { 3 } else { 2 });
    let mut y = p.y.clone();
    if k == 1 || boolean() {
        d[8] = real(0., 4.);
    } else {
        b.iterations = 1;
        y[2] = real(-3., 3.);
    }
    b.missing = marker(k);
    mark(&mut d, b.missing);
    b.fit(&Matrix::new(&d, n, 3), &y, &p.w, None).unwrap();
    audit(&b, &d, n, 3, &y, &p.w);
}
