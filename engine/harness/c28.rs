//! Children that bound their parent: with `force_children_to_bound_parent` a node's weight lies between those of its left
//! and right child.
use super::util::*;

/// The weights of every split of a tree grown on these gradients, without other constraints: those of the rows, except that
/// the side nearer to a parent outside of their range has the parent's weight; and the gain is that of these weights.
fn audit(b: &GradientBooster, t: &Tree, d: &[f64], rows: usize, cols: usize, g: &[f64], h: &[f64]) {
    check_well_formed(t);
    let n = t.nodes.len();
    let (mut gs, mut hs) = (vec![0.0; n], vec![0.0; n]);
    for r in 0..rows {
        for i in walk(t, &row(d, rows, cols, r), b.missing) {
            gs[i] += g[r];
            hs[i] += h[r];
        }
    }
    let (l1, l2, mds, lr) = (f64::from(b.l1), f64::from(b.l2), f64::from(b.max_delta_step), f64::from(b.learning_rate));
    let w = |i: usize| f64::from(t.nodes[i].weight_value);
    let averaged = b.create_missing_branch && matches!(b.missing_node_treatment, MissingNodeTreatment::AverageLeafWeight);
    for nd in &t.nodes {
        if nd.is_leaf {
            continue;
        }
        let (i, l, r) = (nd.num, nd.left_child, nd.right_child);
        let (mut lo, mut hi) = if w(l) < w(r) { (w(l), w(r)) } else { (w(r), w(l)) };
        if averaged && ternary(nd) && !t.nodes[nd.missing_node].is_leaf {
            // The averages are taken over the leaves below, those of the missing branch included.
            let m = w(nd.missing_node);
            lo = if m < lo { m } else { lo };
            hi = if m > hi { m } else { hi };
        }
        check!(lo <= w(i) + 1e-5 && w(i) <= hi + 1e-5, "a parent's weight lies between its children's");
        if averaged || b.monotone_constraints.is_some() {
            continue;
        }
        let (mut a, mut c) = (lr * opt_weight(gs[l], hs[l], l1, l2, mds), lr * opt_weight(gs[r], hs[r], l1, l2, mds));
        let p = w(i);
        if (a > p && c > p) || (a < p && c < p) {
            cover("moved");
            let left = if a > p { a < c } else { a > c };
            if left {
                a = p;
            } else {
                c = p;
            }
        }
        check!(close(w(l), a) && close(w(r), c), "sides whose range excludes the parent's weight are extended to it, others have the optimal weights of their rows");
        let gain = |k: usize| gain_of(gs[k], hs[k], l2, w(k) / lr);
        let mut x = gain(l) + gain(r) - gain(i);
        if ternary(nd) {
            x += gain(nd.missing_node);
        }
        check!(close(f64::from(nd.split_gain), x), "the gain is that of the weights given");
    }
}

fn treatment(b: &mut GradientBooster) {
    b.create_missing_branch = true;
    b.force_children_to_bound_parent = true;
    b.missing_node_treatment = pick(&[
        MissingNodeTreatment::None,
        MissingNodeTreatment::AssignToParent,
        MissingNodeTreatment::AverageLeafWeight,
        MissingNodeTreatment::AverageNodeWeight,
    ]);
}

fn replay(b: &GradientBooster, d: &[f64], n: usize, cols: usize, y: &[f64], w: &[f64]) {
    let mut yhat = vec![b.base_score; n];
    for t in &b.trees {
        let (g, h) = grad_hess(&b.objective_type, y, &yhat, w);
        audit(b, t, d, n, cols, &g, &h);
        for r in 0..n {
            yhat[r] += f64::from(t.nodes[route(t, &row(d, n, cols, r), b.missing)].weight_value);
        }
    }
}

/// Two trees of depth 3 on 7 rows with missing values, three values of one feature arbitrary; missing branches with the four
/// treatments, l1 and l2, a largest step, a minimal gain.
pub fn fit_symbolic_x() {
    let n = 7;
    let mut b = small();
    treatment(&mut b);
    b.iterations = 2;
    match choice(4) {
        0 => b.l2 = 1.0,
        1 => b.l2 = 4.0,
        2 => {
            b.l1 = 0.5;
            b.l2 = 2.0;
        }
        _ => {
            b.max_delta_step = 1.0;
            b.l2 = 1.0;
            b.gamma = 0.25;
        }
    }
    let mi = f64::NAN;
    let mut d = vec![1.0, mi, 3.0, 3.5, 2.0, mi, 4.0, 2.0, 1.0, mi, 5.0, 1.0, 3.0, 4.0];
    for r in [0, 3, 6] {
        d[r] = real(0., 5.);
    }
    let y = pick(&[[1.0, -2.0, 3.0, 2.5, -1.5, 4.0, 0.25], [2.0, 3.0, 3.25, 2.5, 4.0, 2.25, 5.0]]);
    let w = [1.0, 2.0, 0.5, 1.0, 1.5, 1.0, 1.0];
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    replay(&b, &d, n, 2, &y, &w);
}

/// One tree of depth 2 on 6 fixed rows, one target arbitrary in [-4, 5]; the four treatments, splitting the missing branch allowed or not.
pub fn fit_symbolic_y() {
    let n = 6;
    let mut b = small();
    treatment(&mut b);
    b.max_depth = 2;
    b.l2 = pick(&[1.0, 3.0]);
    b.allow_missing_splits = boolean();
    let mi = f64::NAN;
    let d = [1.0, mi, 3.0, 1.0, 2.0, 4.0, 2.0, 1.0, mi, 5.0, 1.0, 3.0];
    let mut y = [1.0, 2.0, 3.0, 0.75, 2.5, 4.0];
    y[choice(6)] = real(-4., 5.);
    let w = [1.0, 2.0, 1.0, 1.0, 0.5, 1.0];
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    replay(&b, &d, n, 2, &y, &w);
}

/// With monotone constraints on one or both features as well (missing branches or imputation): two trees of depth 3 on 7 rows, two values of one feature or one target arbitrary.
pub fn constrained() {
    let n = 7;
    let mut b = small();
    treatment(&mut b);
    if matches!(b.missing_node_treatment, MissingNodeTreatment::None) {
        b.create_missing_branch = boolean();
    }
    b.iterations = 2;
    b.l2 = 1.0;
    let (p, q) = (Constraint::Positive, Constraint::Negative);
    b.monotone_constraints = Some(match choice(3) {
        0 => ConstraintMap::from([(0, p)]),
        1 => ConstraintMap::from([(0, q)]),
        _ => ConstraintMap::from([(0, p), (1, q)]),
    });
    b.missing = marker(if b.create_missing_branch { 1 } else { 2 });
    let mi = b.missing;
    let mut d = vec![1.0, mi, 3.0, 3.5, 2.0, mi, 4.0, 2.0, 1.0, mi, 5.0, 1.0, 3.0, 4.0];
    let mut y = [1.0, -2.0, 3.0, 2.5, -1.5, 4.0, 0.25];
    if boolean() {
        d[0] = real(0., 5.);
        d[3] = real(0., 5.);
    } else {
        b.iterations = 1;
        y[pick(&[2, 4])] = real(-4., 5.);
    }
    let w = [1.0, 2.0, 0.5, 1.0, 1.5, 1.0, 1.0];
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    replay(&b, &d, n, 2, &y, &w);
}

/// Larger trees: 40 rows, four features with a third of the values missing, depth 6, two trees; treatments and policies, one arbitrary feature value.
pub fn larger() {
    let (n, cols) = (40, 4);
    let mut b = small();
    treatment(&mut b);
    b.iterations = 2;
    b.max_depth = 6;
    b.l2 = pick(&[0.5, 4.0]);
    b.min_leaf_weight = 0.25;
    if boolean() {
        b.grow_policy = GrowPolicy::LossGuide;
    }
    let mut d: Vec<f64> = super::c02::noise(cols * n, 281).iter().map(|v| ((v + 2.0) * 4.0).floor()).collect();
    for i in 0..cols * n {
        if (i * 7 + i / n) % 3 == 0 {
            d[i] = f64::NAN;
        }
    }
    d[1] = real(0., 16.);
    let y: Vec<f64> = super::c02::noise(n, 282).iter().map(|v| (v * 16.0).round() / 8.0).collect();
    let w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0][i % 3]).collect();
    b.fit(&Matrix::new(&d, n, cols), &y, &w, None).unwrap();
    replay(&b, &d, n, cols, &y, &w);
}

/// Missing values imputed (no missing branches), where a split that gains always bounds its parent: one tree of depth 3 on 7 rows with
/// missing values, l1, l2, a largest step; one target or three feature values arbitrary.
pub fn imputed() {
    let n = 7;
    let mut b = small();
    b.force_children_to_bound_parent = true;
    match choice(4) {
        0 => b.l2 = 1.0,
        1 => b.l2 = 4.0,
        2 => {
            b.l1 = 0.5;
            b.l2 = 2.0;
        }
        _ => {
            b.max_delta_step = 1.0;
            b.l2 = 1.0;
        }
    }
    let mi = f64::NAN;
    let mut d = vec![1.0, mi, 3.0, 3.5, 2.0, mi, 4.0, 2.0, 1.0, mi, 5.0, 1.0, 3.0, 4.0];
    let mut y = [2.0, 3.0, 3.25, 2.5, 4.0, 2.25, 5.0];
    if boolean() {
        for r in [0, 3, 6] {
            d[r] = real(0., 5.);
        }
    } else {
        b.max_depth = 2;
        y[pick(&[2, 4])] = real(-4., 5.);
    }
    let w = [1.0, 2.0, 0.5, 1.0, 1.5, 1.0, 1.0];
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    replay(&b, &d, n, 2, &y, &w);
}

/// Trees grown on two of three columns, whichever are drawn (two trees, one value arbitrary), and on rows drawn at random: 6 rows, the four treatments, both policies.
pub fn sampled() {
    let n = 6;
    let mut b = small();
    treatment(&mut b);
    b.l2 = pick(&[1.0, 4.0]);
    if boolean() {
        b.grow_policy = GrowPolicy::LossGuide;
    }
    let mi = f64::NAN;
    let mut d = [1.0, 2.0, mi, 1.0, 2.0, mi, 1.0, mi, 3.0, 3.0, 2.0, 1.0, 2.0, 1.0, 1.0, mi, mi, 2.0];
    let y = [2.0, 3.0, 3.25, 2.5, 4.0, 2.25];
    let w = [1.0, 2.0, 0.5, 1.0, 1.5, 1.0];
    if boolean() {
        b.colsample_bytree = 0.7;
        b.iterations = 2;
        d[8] = real(0., 5.);
        b.fit(&Matrix::new(&d, n, 3), &y, &w, None).unwrap();
        replay(&b, &d, n, 3, &y, &w);
        return;
    }
    b.sample_method = SampleMethod::Random;
    b.subsample = 0.75;
    b.fit(&Matrix::new(&d, n, 3), &y, &w, None).unwrap();
    for t in &b.trees {
        for nd in t.nodes.iter().filter(|nd| !nd.is_leaf) {
            let v = |i: usize| f64::from(t.nodes[i].weight_value);
            let (mut lo, mut hi) = (v(nd.left_child).min(v(nd.right_child)), v(nd.left_child).max(v(nd.right_child)));
            if matches!(b.missing_node_treatment, MissingNodeTreatment::AverageLeafWeight) && !t.nodes[nd.missing_node].is_leaf {
                lo = lo.min(v(nd.missing_node));
                hi = hi.max(v(nd.missing_node));
            }
            check!(lo <= v(nd.num) + 1e-5 && v(nd.num) <= hi + 1e-5, "a parent's weight lies between its children's");
        }
    }
}
