//! Growth limits: no setting of the stopping and regularisation parameters is ever exceeded, and
//! every tree is a well-formed tree.
use super::util::*;

fn data(n: usize) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    let x0 = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, f64::NAN, 3.0, 2.0, f64::NAN];
    let x1 = [4.0, f64::NAN, 1.0, 3.0, 2.0, 1.0, 4.0, f64::NAN, 2.0, 3.0, 1.0, 4.0];
    let y = [1.0, 0.0, 1.0, 1.0, 0.0, 1.0, 0.0, 0.0, 1.0, 1.0, 0.0, 1.0];
    let w = [1.0, 2.0, 0.5, 1.0, 1.0, 0.25, 3.0, 1.0, 1.0, 0.5, 1.0, 1.0];
    let mut d = x0[..n].to_vec();
    d.extend(&x1[..n]);
    (d, y[..n].to_vec(), w[..n].to_vec())
}

fn mode(b: &mut GradientBooster, k: usize) {
    match k {
        0 => {}
        1 => b.grow_policy = GrowPolicy::LossGuide,
        2 => {
            b.create_missing_branch = true;
            b.missing_node_treatment = MissingNodeTreatment::None;
        }
        3 => {
            b.create_missing_branch = true;
            b.grow_policy = GrowPolicy::LossGuide;
            b.missing_node_treatment = MissingNodeTreatment::AverageLeafWeight;
        }
        4 => {
            b.allow_missing_splits = false;
            b.parallel = true;
        }
        _ => {
            b.create_missing_branch = true;
            b.missing_node_treatment = MissingNodeTreatment::AverageNodeWeight;
            b.allow_missing_splits = false;
        }
    }
}

fn limits(b: &GradientBooster) {
    check!(b.trees.len() == b.iterations, "one tree per iteration when training is not stopped early");
    for t in &b.trees {
        check_well_formed(t);
        check!(leaves(t) <= b.max_leaves.max(1), "a tree has at most max_leaves leaves");
        let mut missing_child = vec![false; t.nodes.len()];
        for n in &t.nodes {
            if ternary(n) {
                missing_child[n.missing_node] = true;
            }
        }
        for (i, n) in t.nodes.iter().enumerate() {
            check!(n.depth <= b.max_depth, "a tree is at most max_depth deep");
            if i > 0 && !missing_child[i] {
                check!(n.hessian_sum - b.min_leaf_weight >= -1e-4, "no side of a split is lighter than min_leaf_weight");
            }
            if !n.is_leaf {
                check!(n.split_gain - b.gamma >= -1e-4, "no split gains less than gamma");
                check!(n.split_gain > 0.0, "a split reduces the loss");
            }
            if b.max_delta_step > 0.0 {
                let lim = b.learning_rate * b.max_delta_step + 1e-4;
                check!(n.weight_value <= lim && n.weight_value >= -lim, "no weight exceeds the shrunken max_delta_step");
            }
        }
    }
}

/// Two trees, 12 fixed rows with missing values, both objectives, depth 0 to 4, leaf limit 0 to 7 or none, both growth
/// policies, imputed missing values and missing branches; gamma, min_leaf_weight and the shrinkage arbitrary, one at a time.
pub fn symbolic_parameters() {
    let (mut d, y, w) = data(12);
    let mut b = small();
    b.iterations = 2;
    b.l2 = 1.0;
    b.min_leaf_weight = 0.0;
    if boolean() {
        b.objective_type = ObjectiveType::LogLoss;
    }
    let k = choice(6);
    mode(&mut b, k);
    b.missing = marker(k + 1);
    mark(&mut d, b.missing);
    match choice(4) {
        0 => {
            b.gamma = real32(0., 4.);
            b.max_leaves = pick(&[3, usize::MAX]);
        }
        1 => {
            b.min_leaf_weight = real32(0., 4.);
            b.max_depth = pick(&[2, 4]);
        }
        2 => {
            b.learning_rate = real32(0., 2.);
            b.max_delta_step = 0.25;
            b.iterations = 1;
        }
        _ => {
            b.max_delta_step = real32(0., 1.);
            b.iterations = 1;
        }
    }
    b.fit(&Matrix::new(&d, 12, 2), &y, &w, None).unwrap();
    if b.trees[0].nodes.len() > 3 {
        cover("deep");
    }
    limits(&b);
}

/// Three trees; the values of one feature are arbitrary for three of 9 rows; every depth limit 0 to 4 and leaf limit 0 to 7.
pub fn symbolic_x() {
    let (mut d, y, w) = data(9);
    let mut b = small();
    b.min_leaf_weight = 0.25;
    let k = choice(6);
    mode(&mut b, k);
    b.missing = marker(k);
    mark(&mut d, b.missing);
    match choice(3) {
        0 => {
            b.max_depth = choice(5);
            b.iterations = pick(&[1, 3]);
        }
        1 => {
            b.max_leaves = choice(8);
            b.max_depth = 6;
        }
        _ => {
            b.max_leaves = 4;
            b.max_depth = 2;
            b.objective_type = ObjectiveType::LogLoss;
            b.iterations = 2;
        }
    }
    d[1] = real(0., 9.);
    d[4] = real(0., 9.);
    b.fit(&Matrix::new(&d, 9, 2), &y, &w, None).unwrap();
    if leaves(&b.trees[0]) == b.max_leaves {
        cover("leaf limit reached");
    }
    limits(&b);
}

/// Larger trees: 40 rows of three features with ties and missing values, depth 3 to 8, leaf limits from 4 to 12 or none, both policies, all ways
/// of handling missing values; the targets depend on some rows only, so that some nodes cannot be split; gamma or min_leaf_weight arbitrary, or one target.
pub fn larger() {
    let n = 40;
    let mut b = small();
    b.min_leaf_weight = 0.0;
    mode(&mut b, choice(6));
    b.max_depth = pick(&[3, 5, 8]);
    b.max_leaves = pick(&[4, 5, 7, 12, usize::MAX]);
    let mut d: Vec<f64> = super::c02::noise(3 * n, 61).iter().map(|v| ((v + 2.0) * 2.0).floor()).collect();
    for r in 0..n {
        if r % 4 == 1 {
            d[n + r] = f64::NAN;
        }
    }
    let e = super::c02::noise(n, 62);
    let mut y: Vec<f64> = (0..n).map(|r| if d[r] < 3.0 { 2.0 } else { (e[r] * 8.0).round() * 0.5 }).collect();
    match choice(3) {
        0 => b.gamma = real32(0., 2.),
        1 => b.min_leaf_weight = real32(0., 4.),
        _ => y[(0..n).find(|r| d[*r] >= 3.0).unwrap()] = real(-1., 1.),
    }
    b.fit(&Matrix::new(&d, n, 3), &y, &vec![1.0; n], None).unwrap();
    let t = &b.trees[0];
    if leaves(t) == b.max_leaves {
        cover("leaf limit reached");
    }
    if t.nodes.iter().any(|n| n.depth == b.max_depth) {
        cover("depth limit reached");
    }
    limits(&b);
}

/// Growth on some of the rows (drawn at random or by gradient) or columns, whichever are drawn: two trees on 6 rows, limits of depth, leaves, weight, gain and step,
/// all ways of handling missing values, with a monotone constraint or not; one value arbitrary.
pub fn sampled() {
    let (mut d, y, w) = data(6);
    let mut b = small();
    b.iterations = 2;
    b.min_leaf_weight = 0.0;
    mode(&mut b, choice(6));
    match choice(3) {
        0 => {
            b.colsample_bytree = 0.5;
            b.monotone_constraints = Some(ConstraintMap::from([(0, Constraint::Negative)]));
        }
        1 => {
            b.sample_method = SampleMethod::Random;
            b.subsample = 0.75;
            b.iterations = 1;
        }
        _ => {
            b.sample_method = SampleMethod::Goss;
            b.top_rate = 0.34;
            b.other_rate = 0.5;
            b.iterations = 1;
        }
    }
    match choice(4) {
        0 => b.max_depth = pick(&[1, 2]),
        1 => b.max_leaves = pick(&[2, 3, 4]),
        2 => {
            b.min_leaf_weight = 1.0;
            b.gamma = 0.25;
        }
        _ => {
            b.max_delta_step = 0.25;
            b.learning_rate = 0.5;
        }
    }
    d[2] = real(0., 9.);
    b.fit(&Matrix::new(&d, 6, 2), &y, &w, None).unwrap();
    limits(&b);
}
