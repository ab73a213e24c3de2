//! Symmetries of training: what must not matter does not matter.
use super::util::*;

fn setting(k: usize) -> GradientBooster {
    let mut b = small();
    b.iterations = 2;
    b.max_depth = 2;
    // No splits on rounding noise.
    b.gamma = 0.0009765625;
    match k {
        0 => {}
        1 => {
            b.create_missing_branch = true;
            b.missing_node_treatment = MissingNodeTreatment::AverageLeafWeight;
            b.l2 = 1.0;
        }
        2 => {
            b.grow_policy = GrowPolicy::LossGuide;
            b.max_leaves = 4;
            b.l2 = 1.0;
        }
        _ => {
            b.objective_type = ObjectiveType::LogLoss;
            b.initialize_base_score = true;
            b.l2 = 1.0;
            b.min_leaf_weight = 0.125;
        }
    }
    b
}
const Y: [[f64; 5]; 2] = [[1.0, -2.0, 3.25, 0.5, -1.5], [0.1, 0.85, 0.7, 0.35, 0.95]];
const X2: [f64; 5] = [4.0, f64::NAN, 1.0, 3.0, 3.0];

fn first() -> Vec<f64> {
    (0..5).map(|r| if r == 4 && !thorough() { 0.5 } else { real(-6., 6.) }).collect()
}
fn fitted(k: usize, d: &[f64], rows: usize, y: &[f64], w: &[f64]) -> GradientBooster {
    let mut b = setting(k);
    b.fit(&Matrix::new(d, rows, d.len() / rows), y, w, None).unwrap();
    b
}

/// The order of the training rows: 5 rows, two features, four feature values arbitrary, three permutations, four settings, unequal
/// weights: the same trees.
pub fn row_order() {
    let k = choice(4);
    let x = first();
    let y = Y[if k == 3 { 1 } else { 0 }];
    let w = [1.0, 2.0, 0.5, 1.0, 1.5];
    let perm = pick(&[[4, 3, 2, 1, 0], [1, 2, 3, 4, 0], [2, 0, 3, 1, 4]]);
    let mut d = x.clone();
    d.extend(X2);
    let mut e: Vec<f64> = perm.iter().map(|i| x[*i]).collect();
    e.extend(perm.iter().map(|i| X2[*i]));
    let (py, pw): (Vec<f64>, Vec<f64>) = perm.iter().map(|i| (y[*i], w[*i])).unzip();
    same_trees(&fitted(k, &d, 5, &y, &w), &fitted(k, &e, 5, &py, &pw), "the order of the training rows does not matter");
}

/// A strictly increasing transformation of a feature (2x + 1, x / 4 - 100): the same trees with transformed split values, and the
/// same prediction of any row.
pub fn monotone_transform() {
    let k = choice(4);
    let x = first();
    let y = Y[if k == 3 { 1 } else { 0 }];
    let w = [1.0; 5];
    let (s, t) = pick(&[(2.0, 1.0), (0.25, -100.0)]);
    let mut d = x.clone();
    d.extend(X2);
    let mut e: Vec<f64> = x.iter().map(|v| v * s + t).collect();
    e.extend(X2);
    let (a, b) = (fitted(k, &d, 5, &y, &w), fitted(k, &e, 5, &y, &w));
    let q = real(-7., 7.);
    let z = if boolean() { f64::NAN } else { 3.5 };
    let p = a.predict(&Matrix::new(&[q, z], 1, 2), false)[0];
    let r = b.predict(&Matrix::new(&[q * s + t, z], 1, 2), false)[0];
    check!(close(p, r), "an increasing transformation of a feature does not change predictions");
    for (m, n) in a.trees.iter().zip(&b.trees) {
        check!(m.nodes.len() == n.nodes.len(), "an increasing transformation of a feature does not change the trees");
        for (u, v) in m.nodes.iter().zip(&n.nodes) {
            check!(close32(u.weight_value, v.weight_value) && u.split_feature == v.split_feature, "an increasing transformation of a feature does not change the trees");
            if !u.is_leaf && u.split_feature == 0 {
                check!(close(u.split_value * s + t, v.split_value), "split values follow the transformation");
            }
        }
    }
}

/// A row of weight 2 or 3 and the same row twice or thrice: the same trees (four feature values arbitrary).
pub fn weight_is_repetition() {
    let k = choice(3);
    let x = first();
    let y = Y[0];
    let times = pick(&[[2, 1, 1, 1, 1], [1, 1, 3, 1, 2]]);
    let w: Vec<f64> = times.iter().map(|t| *t as f64).collect();
    let mut d = x.clone();
    d.extend(X2);
    let idx: Vec<usize> = (0..5).flat_map(|i| vec![i; times[i]]).collect();
    let mut e: Vec<f64> = idx.iter().map(|i| x[*i]).collect();
    e.extend(idx.iter().map(|i| X2[*i]));
    let py: Vec<f64> = idx.iter().map(|i| y[*i]).collect();
    let n = idx.len();
    same_trees(&fitted(k, &d, 5, &y, &w), &fitted(k, &e, n, &py, &vec![1.0; n]), "a weight is a number of repetitions");
}

/// A column without information (constant, all missing), before, between or after the others: the same trees up to the
/// numbering of the features, and its value in a row does not influence the prediction.
pub fn useless_column() {
    let k = choice(4);
    let x = first();
    let y = Y[if k == 3 { 1 } else { 0 }];
    let w = [1.0; 5];
    let c = pick(&[2.0, f64::NAN, 0.0]);
    let at = choice(3);
    let mut d = x.clone();
    d.extend(X2);
    let mut e = d.clone();
    for _ in 0..5 {
        e.insert(at * 5, c);
    }
    let (a, b) = (fitted(k, &d, 5, &y, &w), fitted(k, &e, 5, &y, &w));
    let m = "a column without information does not matter";
    check!(a.trees.len() == b.trees.len(), "{m}");
    for (s, t) in a.trees.iter().zip(&b.trees) {
        check!(s.nodes.len() == t.nodes.len(), "{m}");
        for (u, v) in s.nodes.iter().zip(&t.nodes) {
            check!(close32(u.weight_value, v.weight_value) && u.is_leaf == v.is_leaf, "{m}");
            if !u.is_leaf {
                let f = if v.split_feature > at { v.split_feature - 1 } else { v.split_feature };
                check!(v.split_feature != at && u.split_feature == f && close(u.split_value, v.split_value), "{m}");
            }
        }
    }
    let q = [real(-6., 6.), 2.0];
    let mut r = q.to_vec();
    r.insert(at, real(-6., 6.));
    check!(close(a.predict(&Matrix::new(&q, 1, 2), false)[0], b.predict(&Matrix::new(&r, 1, 3), false)[0]), "{m} when predicting");
}

/// Rows of weight zero, with arbitrary or missing feature values and any target, do not influence the predictions of the
/// other training rows, nor the covers and weights of the leaves they reach.
pub fn zero_weight() {
    let k = choice(4);
    let x = first();
    let y = Y[if k == 3 { 1 } else { 0 }];
    let mut d = x[..4].to_vec();
    d.extend(&X2[..4]);
    let mut e = x[..4].to_vec();
    e.push(if boolean() { f64::NAN } else { real(-6., 6.) });
    e.extend(&X2[..4]);
    e.push(2.0);
    let w = [1.0, 2.0, 0.5, 1.0];
    let mut b = setting(k);
    b.fit(&Matrix::new(&d, 4, 2), &y[..4], &w, None).unwrap();
    let mut c = setting(k);
    c.fit(&Matrix::new(&e, 5, 2), &y, &[1.0, 2.0, 0.5, 1.0, 0.0], None).unwrap();
    let m = Matrix::new(&d, 4, 2);
    let (p, q) = (b.predict(&m, false), c.predict(&m, false));
    for r in 0..4 {
        check!(close(p[r], q[r]), "rows of weight zero do not influence the predictions of other training rows");
    }
}

/// Scaling all weights by 2, 8, 4096 or 1/256 with the minimum leaf weight and gamma scaled alike and no other regularisation: the same splits and predictions.
pub fn weight_scale() {
    let x = first();
    let y = Y[0];
    let s = pick(&[2.0, 8.0, 4096.0, 1.0 / 256.0]);
    let mut d = x.clone();
    d.extend(X2);
    let w = [1.0, 2.0, 0.5, 1.0, 1.5];
    let k = pick(&[0, 1]);
    let mut a = setting(k);
    a.l2 = 0.0;
    a.initialize_base_score = k == 0;
    let mut b = setting(k);
    b.l2 = 0.0;
    b.initialize_base_score = k == 0;
    b.gamma *= s as f32;
    b.min_leaf_weight *= s as f32;
    let v: Vec<f64> = w.iter().map(|x| x * s).collect();
    let m = Matrix::new(&d, 5, 2);
    a.fit(&m, &y, &w, None).unwrap();
    b.fit(&m, &y, &v, None).unwrap();
    let (p, q) = (a.predict(&m, false), b.predict(&m, false));
    for r in 0..5 {
        check!(close(p[r], q[r]), "the unit of the weights does not matter");
    }
}

/// Larger: 120 rows with ties and missing values, three features, two trees of depth 4, four settings, 20 bins or as many as values;
/// one feature value arbitrary. Rows reversed or interleaved, a feature transformed, rows written as often as their weight
/// says, a useless column added, all weights scaled: the same predictions of the training rows.
pub fn sizes() {
    let (n, cols) = (120, 3);
    let k = choice(4);
    let nbins = pick(&[20, 256]);
    let mk = || {
        let mut b = setting(k);
        b.max_depth = 4;
        b.nbins = nbins;
        b
    };
    let mut d: Vec<f64> = super::c02::noise(cols * n, 51).iter().enumerate().map(|(i, v)| if i % 19 == 4 { f64::NAN } else { (v * 16.0).round() / 16.0 }).collect();
    let y: Vec<f64> = super::c02::noise(n, 52).iter().enumerate().map(|(r, e)| {
        let v = (e * 8.0).round() / 16.0 + if d[n + r] > 0.4 { 1.0 } else { 0.0 };
        if k == 3 { if v > 0.5 { 1.0 } else { 0.0 } } else { v }
    }).collect();
    d[n + 7] = real(0.3, 0.5);
    let w: Vec<f64> = (0..n).map(|i| [1.0, 3.0, 2.0, 1.0][i % 4]).collect();
    let mut a = mk();
    let mut b = mk();
    let (mut e, mut z, mut v, mut c) = (d.clone(), y.clone(), w.clone(), cols);
    let mut back: Vec<usize> = (0..n).collect();
    let how = choice(5);
    match how {
        0 => {
            let perm: Vec<usize> = (0..n).map(|i| i * 49 % n).collect();
            e = (0..cols).flat_map(|f| perm.iter().map(move |i| f * n + i)).map(|i| d[i]).collect();
            z = perm.iter().map(|i| y[*i]).collect();
            v = perm.iter().map(|i| w[*i]).collect();
            for (at, i) in perm.iter().enumerate() {
                back[*i] = at;
            }
        }
        1 => {
            for i in n..2 * n {
                e[i] = d[i] * 64.0 - 1000.0;
            }
        }
        2 => {
            let rep: Vec<usize> = (0..n).flat_map(|i| vec![i; w[i] as usize]).collect();
            e = (0..cols).flat_map(|f| rep.iter().map(move |i| f * n + i)).map(|i| d[i]).collect();
            z = rep.iter().map(|i| y[*i]).collect();
            v = vec![1.0; rep.len()];
            for i in 0..n {
                back[i] = rep.iter().position(|j| *j == i).unwrap();
            }
        }
        3 => {
            e.splice(n..n, vec![pick(&[7.0, f64::NAN]); n]);
            c += 1;
        }
        _ => {
            a.l2 = 0.0;
            b.l2 = 0.0;
            b.gamma *= 64.0;
            b.min_leaf_weight *= 64.0;
            v = w.iter().map(|x| x * 64.0).collect();
        }
    }
    let m = Matrix::new(&d, n, cols);
    a.fit(&m, &y, &w, None).unwrap();
    let o = Matrix::new(&e, z.len(), c);
    b.fit(&o, &z, &v, None).unwrap();
    let (p, q) = (a.predict(&m, false), b.predict(&o, false));
    for r in 0..n {
        check!(close(p[r], q[back[r]]), "what carries no information does not change predictions");
    }
}
