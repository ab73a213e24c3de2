//! Monotone constraints: with everything else equal, raising a constrained feature never moves the
//! prediction the wrong way.
use super::util::*;

fn constraints(pos0: bool, second: usize) -> ConstraintMap {
    let mut m = ConstraintMap::new();
    m.insert(0, if pos0 { Constraint::Positive } else { Constraint::Negative });
    match second {
        1 => {
            m.insert(1, Constraint::Unconstrained);
        }
        2 => {
            m.insert(1, Constraint::Negative);
        }
        _ => {}
    }
    m
}

fn treatment(k: usize) -> MissingNodeTreatment {
    [
        MissingNodeTreatment::None,
        MissingNodeTreatment::AssignToParent,
        MissingNodeTreatment::AverageLeafWeight,
        MissingNodeTreatment::AverageNodeWeight,
    ][k]
}

/// `k`: 0..=1 imputed missing values, 2..=5 a branch of their own, one per treatment.
fn options(b: &mut GradientBooster, k: usize) {
    match k {
        0 => {}
        1 => {
            b.grow_policy = GrowPolicy::LossGuide;
            b.allow_missing_splits = false;
        }
        k => {
            b.create_missing_branch = true;
            b.missing_node_treatment = treatment((k - 2) % 4);
            b.allow_missing_splits = k % 2 == 0;
            b.force_children_to_bound_parent = k == 5;
        }
    }
}

/// `lo` and `hi` are predictions of rows that differ in feature `f` only, `hi` having the larger value.
fn ordered(lo: f64, hi: f64, c: Option<&Constraint>) {
    match c {
        Some(Constraint::Positive) => {
            check!(hi - lo >= -1e-5, "raising a positively constrained feature does not lower the prediction")
        }
        Some(Constraint::Negative) => {
            check!(hi - lo <= 1e-5, "raising a negatively constrained feature does not raise the prediction")
        }
        _ => {}
    }
}

const X0: [f64; 8] = [1.0, 1.0, 1.0, 2.0, 2.0, 2.0, 3.0, 3.0];
const X1: [f64; 8] = [1.0, 2.0, 3.0, 1.0, 2.0, f64::NAN, 1.0, 3.0];

/// Every cell of the training grid against every cell above it in the constrained feature.
fn grid(b: &GradientBooster) {
    let cm = b.monotone_constraints.as_ref().unwrap();
    let (v0, v1) = ([0.5, 1.0, 2.0, 3.0], [1.0, 2.0, 3.0, b.missing]);
    let mut d0 = Vec::new();
    let mut d1 = Vec::new();
    for a in v0 {
        for c in v1 {
            d0.push(a);
            d1.push(c);
        }
    }
    let n = d0.len();
    d0.extend(&d1);
    let p = b.predict(&Matrix::new(&d0, n, 2), false);
    for i in 0..4 {
        for j in 0..4 {
            for k in i + 1..4 {
                ordered(p[i * 4 + j], p[k * 4 + j], cm.get(&0));
                if k < 3 {
                    ordered(p[j * 4 + i], p[j * 4 + k], cm.get(&1));
                }
            }
        }
    }
}

/// Full training, 8 rows on a fixed 3x3 grid with a missing value, one arbitrary target in [-6, 6]
/// (two positions), both constraint signs, second feature free, explicitly unconstrained or
/// constrained, missing values marked NaN, 99 or -99, imputed missing values and a missing branch with all four treatments.
pub fn fit_symbolic_y() {
    let mut b = small();
    b.iterations = 1;
    b.min_leaf_weight = 0.0;
    let k = choice(6);
    options(&mut b, k);
    b.missing = marker(k);
    b.monotone_constraints = Some(constraints(boolean(), choice(3)));
    let mut y = [2.0, -1.0, 0.5, 3.0, -2.0, 1.0, 4.0, -3.0];
    y[pick(&[1, 6])] = real(-6., 6.);
    let mut d = X0.to_vec();
    d.extend(&X1);
    mark(&mut d, b.missing);
    b.fit(&Matrix::new(&d, 8, 2), &y, &[1.0; 8], None).unwrap();
    if b.trees[0].nodes.len() > 3 {
        cover("deep");
    }
    grid(&b);
}

/// One tree on arbitrary gradients (four of eight free), same grid and options.
pub fn tree_symbolic_gradients() {
    let mut b = small();
    b.learning_rate = 1.0;
    b.iterations = 1;
    b.min_leaf_weight = 0.0;
    b.max_depth = 2;
    b.base_score = 0.0;
    let k = choice(6);
    options(&mut b, k);
    b.missing = marker(k + 1);
    b.monotone_constraints = Some(constraints(boolean(), if thorough() { choice(3) } else { 0 }));
    let mut y = [2.0, -1.0, 0.5, 3.0, -2.0, 1.0, 4.0, -3.0];
    y[0] = real(-4., 4.);
    y[3] = real(-4., 4.);
    let mut d = X0.to_vec();
    d.extend(&X1);
    mark(&mut d, b.missing);
    b.fit(&Matrix::new(&d, 8, 2), &y, &[1.0; 8], None).unwrap();
    grid(&b);
}

/// One tree of depth 4 on 16 rows of three features (values 0 to 3, missing values in the last), no pattern in the targets (four sets), one of them arbitrary;
/// the other features not listed or listed as unconstrained; every cell of the grid.
pub fn deep() {
    let n = 16;
    let mut b = small();
    b.iterations = 1;
    b.min_leaf_weight = 0.0;
    b.max_depth = 4;
    options(&mut b, pick(&[0, 2, 3]));
    let set = choice(4) as u64;
    let c = if set % 2 == 0 { Constraint::Positive } else { Constraint::Negative };
    b.monotone_constraints = Some(match choice(2) {
        0 => ConstraintMap::from([(0, c)]),
        _ => ConstraintMap::from([(0, c), (1, Constraint::Unconstrained), (2, Constraint::Unconstrained)]),
    });
    let mut d: Vec<f64> = super::c02::noise(3 * n, 21 + set).iter().map(|v| (v + 2.0).floor()).collect();
    d[2 * n + 3] = f64::NAN;
    let mut y: Vec<f64> = super::c02::noise(n, 31 + set).iter().map(|v| (v * 4.0).round()).collect();
    y[(5 * set) as usize % n] = real(-8., 8.);
    b.fit(&Matrix::new(&d, n, 3), &y, &vec![1.0; n], None).unwrap();
    let mut g: [Vec<f64>; 3] = Default::default();
    for i in 0..80 {
        g[0].push((i % 4) as f64);
        g[1].push((i / 4 % 4) as f64);
        g[2].push([0.0, 1.0, 2.0, 3.0, f64::NAN][i / 16]);
    }
    let p = b.predict(&Matrix::new(&g.concat(), 80, 3), false);
    for i in 0..80 {
        if i % 4 != 3 {
            ordered(p[i], p[i + 1], Some(&c));
        }
    }
}

/// Full training of two trees on 6 rows, both features of two rows arbitrary, fixed targets, both objectives;
/// then any row and any larger value of the constrained feature.
pub fn fit_symbolic_x() {
    let mut b = small();
    b.iterations = 2;
    b.min_leaf_weight = 0.0;
    if boolean() {
        b.objective_type = ObjectiveType::LogLoss;
    }
    let k = choice(6);
    options(&mut b, k);
    b.monotone_constraints = Some(constraints(boolean(), 0));
    let log = matches!(b.objective_type, ObjectiveType::LogLoss);
    let y = if log { [0.0, 1.0, 0.0, 1.0, 1.0, 0.0] } else { [2.0, -1.0, 0.5, 3.0, -2.0, 1.0] };
    let mut d = vec![1.0, real(0., 4.), 2.0, 2.0, real(0., 4.), 3.0];
    d.extend(&[1.0, 2.0, 1.0, f64::NAN, 2.0, 3.0]);
    b.fit(&Matrix::new(&d, 6, 2), &y, &[1.0; 6], None).unwrap();
    let lo = real(0., 4.);
    let hi = real(0., 4.);
    assume(lo < hi);
    let other = pick(&[1.0, 2.0, f64::NAN]);
    let p = b.predict(&Matrix::new(&[lo, hi, other, other], 2, 2), false);
    ordered(p[0], p[1], b.monotone_constraints.as_ref().unwrap().get(&0));
}

/// Trees grown on some of the columns, and on some of the rows: any draws; 6 rows, three features, constraints on the second or third or both, of either
/// sign; two columns of three for two trees, or the rows drawn at random or by gradient for one; one target arbitrary; every cell of the grid.
pub fn sampled() {
    let n = 6;
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.max_depth = 3;
    b.l2 = 0.5;
    match choice(3) {
        0 => {
            b.colsample_bytree = 0.7;
            b.iterations = 2;
        }
        1 => {
            b.sample_method = SampleMethod::Random;
            b.subsample = 0.75;
        }
        _ => {
            b.sample_method = SampleMethod::Goss;
            b.top_rate = 0.34;
            b.other_rate = 0.34;
            b.create_missing_branch = true;
        }
    }
    let (p, q) = if boolean() { (Constraint::Positive, Constraint::Negative) } else { (Constraint::Negative, Constraint::Positive) };
    b.monotone_constraints = Some(match choice(3) {
        0 => ConstraintMap::from([(1, p)]),
        1 => ConstraintMap::from([(2, p)]),
        _ => ConstraintMap::from([(1, p), (2, q)]),
    });
    let d = [1.0, 2.0, f64::NAN, 1.0, 2.0, 1.0, 1.0, 2.0, 3.0, 3.0, 2.0, 1.0, 2.0, 1.0, 1.0, 3.0, 3.0, 2.0];
    let mut y = [2.0, -1.0, 3.0, -2.0, 1.0, 0.5];
    y[pick(&[0, 3])] = real(-3., 3.);
    b.fit(&Matrix::new(&d, n, 3), &y, &[1.0; 6], None).unwrap();
    let mut g = vec![Vec::new(), Vec::new(), Vec::new()];
    for i in 0..27 {
        g[0].push([1.0, 2.0, f64::NAN][i / 9]);
        g[1].push((1 + i / 3 % 3) as f64);
        g[2].push((1 + i % 3) as f64);
    }
    let v = b.predict(&Matrix::new(&g.concat(), 27, 3), false);
    let cm = b.monotone_constraints.as_ref().unwrap();
    for i in 0..27 {
        for up in 1..3 {
            if i % 3 + up < 3 {
                ordered(v[i], v[i + up], cm.get(&2));
            }
            if i / 3 % 3 + up < 3 {
                ordered(v[i], v[i + 3 * up], cm.get(&1));
            }
        }
    }
}

/// One tree of depth 6 on 48 rows of ten features with many missing values; constraints on the first and the last feature, of either sign;
/// imputed missing values (both policies) and missing branches that are split further, with and without further constrained features; one target
/// arbitrary; every training row at every value of each constrained feature.
pub fn large() {
    let (n, cols) = (48, 10);
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.l2 = 0.25;
    b.max_depth = 6;
    let k = choice(3);
    b.parallel = k == 1;
    match k {
        0 => {}
        1 => b.grow_policy = GrowPolicy::LossGuide,
        _ => {
            b.create_missing_branch = true;
            b.allow_missing_splits = true;
            b.missing_node_treatment = MissingNodeTreatment::None;
        }
    }
    let set = choice(if thorough() { 8 } else { 4 }) as u64;
    let (c, e) = if set % 2 == 0 { (Constraint::Positive, Constraint::Negative) } else { (Constraint::Negative, Constraint::Positive) };
    b.monotone_constraints = Some(ConstraintMap::from([(0, c), (9, e), (4, Constraint::Unconstrained)]));
    let mut d: Vec<f64> = super::c02::noise(cols * n, 41 + set).iter().map(|v| ((v + 2.0) * 1.5).floor()).collect();
    for f in [1, 2, 5] {
        for r in 0..n {
            if (r * 7 + f * 3 + set as usize) % 3 == 0 {
                d[f * n + r] = f64::NAN;
            }
        }
    }
    // The constrained features matter, in the allowed direction, beside noise.
    let noise = super::c02::noise(n, 51 + set);
    let sign = if set % 2 == 0 { 1.0 } else { -1.0 };
    let mut y: Vec<f64> = (0..n)
        .map(|r| {
            let m = if d[n + r].is_nan() { 1.5 } else { 0.0 };
            (noise[r] * 8.0).round() * 0.25 + m + sign * (d[r] - d[9 * n + r]) * 0.5
        })
        .collect();
    y[(5 * set) as usize % n] = real(-0.5, 0.5);
    b.fit(&Matrix::new(&d, n, cols), &y, &vec![1.0; n], None).unwrap();
    if b.trees[0].nodes.iter().any(|n| n.depth == 6) {
        cover("depth 6");
    }
    for (f, c) in [(0, c), (9, e)] {
        let mut last: Option<Vec<f64>> = None;
        for v in 0..6 {
            let mut g = d.clone();
            for r in 0..n {
                g[f * n + r] = v as f64;
            }
            let p = b.predict(&Matrix::new(&g, n, cols), false);
            if let Some(q) = &last {
                for r in 0..n {
                    ordered(q[r], p[r], Some(&c));
                }
            }
            last = Some(p);
        }
    }
}
