//! Missing values: which rows a missing branch gets, when it may be split further, and what weight each treatment
//! gives it.
use super::util::*;

/// What has to hold for the missing branches of a tree grown on these gradients.
fn audit(b: &GradientBooster, t: &Tree, d: &[f64], rows: usize, cols: usize, g: &[f64], h: &[f64]) {
    check_well_formed(t);
    let n = t.nodes.len();
    let (mut gs, mut hs, mut cnt, mut seen) = (vec![0.0; n], vec![0.0; n], vec![0; n], vec![0; n]);
    let is_missing = |v: f64| if b.missing.is_nan() { v.is_nan() } else { v == b.missing };
    for r in 0..rows {
        let x = row(d, rows, cols, r);
        let p = walk(t, &x, b.missing);
        for i in &p {
            gs[*i] += g[r];
            hs[*i] += h[r];
            cnt[*i] += 1;
        }
        for s in p.windows(2) {
            // Rows that came here with a value of the split feature.
            if !is_missing(x[t.nodes[s[0]].split_feature]) {
                seen[s[1]] += 1;
            }
        }
    }
    let (l1, l2, mds, lr) = (f64::from(b.l1), f64::from(b.l2), f64::from(b.max_delta_step), f64::from(b.learning_rate));
    let w = |i: usize| f64::from(t.nodes[i].weight_value);
    for (i, nd) in t.nodes.iter().enumerate() {
        check!(close(f64::from(nd.hessian_sum), hs[i]), "a node's cover is the hessian sum of the training rows routed to it");
        if nd.is_leaf {
            continue;
        }
        let (l, r, m) = (nd.left_child, nd.right_child, nd.missing_node);
        if !b.create_missing_branch {
            check!(m == l || m == r, "without a missing branch missing values go left or right");
            if !b.allow_missing_splits {
                check!(seen[l] > 0 && seen[r] > 0, "no split separates only missing from present values");
            }
            continue;
        }
        check!(m != l && m != r, "missing values have a branch of their own");
        check!(seen[m] == 0 && seen[l] == cnt[l] && seen[r] == cnt[r], "the missing branch gets the rows with a missing value, the others the rest");
        if cnt[m] == 0 || !b.allow_missing_splits || b.terminate_missing_features.contains(&nd.split_feature) {
            check!(t.nodes[m].is_leaf, "a missing branch that must not be split is a leaf");
        } else if !t.nodes[m].is_leaf {
            cover("missing branch split");
        }
        let average = (w(l) * hs[l] + w(r) * hs[r]) / (hs[l] + hs[r]);
        match b.missing_node_treatment {
            MissingNodeTreatment::AssignToParent => check!(close(w(m), w(i)), "AssignToParent: the missing branch has its parent's weight"),
            MissingNodeTreatment::AverageNodeWeight => {
                check!(close(w(m), average), "AverageNodeWeight: the missing branch has the cover weighted average of the other two")
            }
            MissingNodeTreatment::AverageLeafWeight => {
                if t.nodes[m].is_leaf {
                    check!(close(w(m), average), "AverageLeafWeight: a missing leaf has the cover weighted average of its siblings");
                    check!(close(w(i), average), "AverageLeafWeight: a parent has the cover weighted average of its children");
                } else {
                    let all = (w(l) * hs[l] + w(r) * hs[r] + w(m) * hs[m]) / (hs[l] + hs[r] + hs[m]);
                    check!(close(w(i), all), "AverageLeafWeight: a parent has the cover weighted average of its children");
                }
            }
            MissingNodeTreatment::None => {
                if cnt[m] == 0 {
                    check!(close(w(m), w(i)), "None: an empty missing branch has its parent's weight");
                } else {
                    check!(close(w(m), lr * opt_weight(gs[m], hs[m], l1, l2, mds)), "None: the missing branch has the optimal weight of its rows");
                }
            }
        }
        if b.force_children_to_bound_parent && !matches!(b.missing_node_treatment, MissingNodeTreatment::AverageLeafWeight) {
            let (lo, hi) = if w(l) < w(r) { (w(l), w(r)) } else { (w(r), w(l)) };
            check!(lo <= w(i) + 1e-5 && w(i) <= hi + 1e-5, "a parent's weight lies between its children's");
        }
    }
}

fn options(b: &mut GradientBooster, k: usize) {
    b.create_missing_branch = k < 4;
    b.missing_node_treatment = match k {
        0 => MissingNodeTreatment::None,
        1 => MissingNodeTreatment::AssignToParent,
        2 => MissingNodeTreatment::AverageLeafWeight,
        _ => MissingNodeTreatment::AverageNodeWeight,
    };
}

fn replay(b: &GradientBooster, d: &[f64], n: usize, cols: usize, y: &[f64], w: &[f64]) {
    let mut yhat = vec![b.base_score; n];
    for t in &b.trees {
        let (g, h) = grad_hess(&b.objective_type, y, &yhat, w);
        audit(b, t, d, n, cols, &g, &h);
        for r in 0..n {
            yhat[r] += f64::from(t.nodes[route(t, &row(d, n, cols, r), b.missing)].weight_value);
        }
    }
}

/// Two trees of depth 3 on 7 rows with missing values in two features, three values of one feature arbitrary; missing
/// branches with the four treatments, splitting the missing branch allowed, forbidden or ended for either feature,
/// children bounding their parent or not, and imputation; missing value NaN or -9.
pub fn fit_symbolic_x() {
    let n = 7;
    let mut b = small();
    options(&mut b, choice(5));
    b.iterations = 2;
    b.l2 = pick(&[0.0, 1.0]);
    if b.l2 > 0.0 {
        b.l1 = 0.25;
        b.max_delta_step = 0.375;
    }
    b.learning_rate = 0.5;
    match choice(4) {
        0 => b.allow_missing_splits = false,
        1 => {}
        2 => b.terminate_missing_features = HashSet::from([0]),
        _ => b.terminate_missing_features = HashSet::from([1]),
    }
    b.force_children_to_bound_parent = boolean();
    let nan = boolean();
    b.missing = if nan { f64::NAN } else { -9.0 };
    let mi = b.missing;
    let mut d = vec![1.0, mi, 3.0, mi, 2.0, mi, 4.0, 2.0, 1.0, mi, 5.0, 1.0, 3.0, mi];
    let span = if thorough() { 4 } else { 2 };
    for r in [0, 2, 4, 6].iter().take(span) {
        d[*r] = real(0., 5.);
    }
    let y = [1.0, -2.0, 3.0, 0.5, -1.5, 4.0, 0.25];
    let w = [1.0, 2.0, 0.5, 1.0, 1.5, 1.0, 1.0];
    let m = Matrix::new(&d, n, 2);
    b.fit(&m, &y, &w, None).unwrap();
    replay(&b, &d, n, 2, &y, &w);
}

/// One tree of depth 2 on 6 fixed rows, one target arbitrary (so that gradient sums may also cancel), every treatment.
pub fn fit_symbolic_y() {
    let n = 6;
    let mut b = small();
    options(&mut b, choice(4));
    b.max_depth = 2;
    b.l2 = 1.0;
    b.learning_rate = 0.5;
    b.allow_missing_splits = boolean();
    b.force_children_to_bound_parent = boolean();
    let mi = f64::NAN;
    let d = [1.0, mi, 3.0, mi, 2.0, 4.0, 2.0, 1.0, mi, 5.0, 1.0, 3.0];
    let mut y = [1.0, -2.0, 3.0, 0.5, -1.5, 4.0];
    y[pick(&[1, 4])] = real(-4., 5.);
    let w = [1.0, 2.0, 1.0, 1.0, 0.5, 1.0];
    let m = Matrix::new(&d, n, 2);
    b.fit(&m, &y, &w, None).unwrap();
    replay(&b, &d, n, 2, &y, &w);
}

/// A missing value of -9 instead of NaN changes nothing: the trees of both trainings (two trees, 6 rows, four arbitrary
/// feature values) and the predictions of a further row are the same.
pub fn custom_missing() {
    let n = 6;
    let mk = |mi: f64, k: usize| {
        let mut b = small();
        options(&mut b, k);
        b.iterations = 2;
        b.l2 = 1.0;
        b.missing = mi;
        b
    };
    let k = choice(5);
    let (a, c, e) = (real(0., 5.), real(0., 5.), real(0., 5.));
    let data = |mi: f64| vec![a, mi, 3.0, mi, c, 4.0, 2.0, 1.0, mi, e, 1.0, 3.0];
    let y = [1.0, -2.0, 3.0, 0.5, -1.5, 4.0];
    let w = [1.0, 2.0, 1.0, 1.0, 0.5, 1.0];
    let (d1, d2) = (data(f64::NAN), data(-9.0));
    let (mut p, mut q) = (mk(f64::NAN, k), mk(-9.0, k));
    p.fit(&Matrix::new(&d1, n, 2), &y, &w, None).unwrap();
    q.fit(&Matrix::new(&d2, n, 2), &y, &w, None).unwrap();
    same_trees(&p, &q, "the value that marks missing does not matter");
    let v = real(0., 5.);
    let (r1, r2) = if boolean() { ([v, f64::NAN], [v, -9.0]) } else { ([f64::NAN, v], [-9.0, v]) };
    let a = p.predict(&Matrix::new(&r1, 1, 2), false)[0];
    let b = q.predict(&Matrix::new(&r2, 1, 2), false)[0];
    check!(close(a, b), "the value that marks missing does not matter when predicting");
}

/// Larger trees: 40 rows, four features with a third of the values missing, depth 6, two trees; the four treatments, missing branches split further everywhere, except for
/// two features, or nowhere, both policies, children bounding their parent or not; one arbitrary feature value.
pub fn larger() {
    let (n, cols) = (40, 4);
    let mut b = small();
    let k = choice(5);
    options(&mut b, k);
    b.iterations = 2;
    b.max_depth = 6;
    b.l2 = 0.5;
    // Without a minimum, splits that give a side no rows may be found, from what rounding leaves in the histograms.
    b.min_leaf_weight = if k < 2 { 0.0 } else { 0.25 };
    b.missing = pick(&[f64::NAN, -9.0]);
    match choice(3) {
        0 => b.allow_missing_splits = false,
        1 => {}
        _ => b.terminate_missing_features = HashSet::from([1, 3]),
    }
    if boolean() {
        b.grow_policy = GrowPolicy::LossGuide;
        b.force_children_to_bound_parent = true;
    }
    let mut d: Vec<f64> = super::c02::noise(cols * n, 131).iter().map(|v| ((v + 2.0) * 4.0).floor()).collect();
    for i in 0..cols * n {
        if (i * 7 + i / n) % 3 == 0 {
            d[i] = b.missing;
        }
    }
    let y: Vec<f64> = super::c02::noise(n, 132).iter().map(|v| (v * 16.0).round() / 8.0).collect();
    d[1] = real(0., 16.);
    let w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0][i % 3]).collect();
    b.fit(&Matrix::new(&d, n, cols), &y, &w, None).unwrap();
    if b.trees[0].nodes.iter().any(|nd| nd.depth > 3 && b.trees[0].nodes.iter().any(|p| ternary(p) && p.missing_node == nd.num && !nd.is_leaf)) {
        cover("missing branch split deep down");
    }
    replay(&b, &d, n, cols, &y, &w);
}

/// Missing branches of trees grown on two of three columns, whichever are drawn: two trees on 6 rows; treatments, splitting missing branches allowed, forbidden or ended
/// for a feature; one arbitrary feature value. And of trees grown on some of the rows: the treatments in terms of the covers recorded.
pub fn sampled() {
    let n = 6;
    let mut b = small();
    options(&mut b, choice(5));
    b.l2 = 0.5;
    b.l1 = 0.125;
    b.learning_rate = 0.5;
    match choice(3) {
        0 => b.allow_missing_splits = false,
        1 => {}
        _ => b.terminate_missing_features = HashSet::from([2]),
    }
    let mi = f64::NAN;
    let mut d = [1.0, 2.0, mi, 1.0, 2.0, mi, 1.0, mi, 3.0, 3.0, 2.0, 1.0, 2.0, 1.0, 1.0, mi, mi, 2.0];
    let y = [1.0, -2.0, 3.0, 0.5, -1.5, 4.0];
    let w = [1.0, 2.0, 0.5, 1.0, 1.5, 1.0];
    if boolean() {
        b.colsample_bytree = 0.7;
        b.iterations = 2;
        d[8] = real(0., 5.);
        b.fit(&Matrix::new(&d, n, 3), &y, &w, None).unwrap();
        replay(&b, &d, n, 3, &y, &w);
        return;
    }
    if boolean() {
        b.sample_method = SampleMethod::Random;
        b.subsample = 0.75;
    } else {
        b.sample_method = SampleMethod::Goss;
        b.top_rate = 0.34;
        b.other_rate = 0.5;
    }
    b.fit(&Matrix::new(&d, n, 3), &y, &w, None).unwrap();
    let t = &b.trees[0];
    check_well_formed(t);
    let x = |i: usize| f64::from(t.nodes[i].weight_value);
    let c = |i: usize| f64::from(t.nodes[i].hessian_sum);
    for nd in t.nodes.iter().filter(|nd| !nd.is_leaf) {
        let (i, l, r, m) = (nd.num, nd.left_child, nd.right_child, nd.missing_node);
        if !b.create_missing_branch {
            check!(m == l || m == r, "without a missing branch missing values go left or right");
            continue;
        }
        check!(m != l && m != r, "missing values have a branch of their own");
        if !b.allow_missing_splits || b.terminate_missing_features.contains(&nd.split_feature) {
            check!(t.nodes[m].is_leaf, "a missing branch that must not be split is a leaf");
        } else if !t.nodes[m].is_leaf {
            cover("missing branch split");
        }
        let average = (x(l) * c(l) + x(r) * c(r)) / (c(l) + c(r));
        match b.missing_node_treatment {
            MissingNodeTreatment::AssignToParent => check!(close(x(m), x(i)), "AssignToParent: the missing branch has its parent's weight"),
            MissingNodeTreatment::AverageNodeWeight => check!(close(x(m), average), "AverageNodeWeight: the missing branch has the cover weighted average of the other two"),
            MissingNodeTreatment::AverageLeafWeight => {
                if t.nodes[m].is_leaf {
                    check!(close(x(m), average), "AverageLeafWeight: a missing leaf has the cover weighted average of its siblings");
                }
                let all = (x(l) * c(l) + x(r) * c(r) + x(m) * c(m)) / (c(l) + c(r) + c(m));
                check!(close(x(i), all), "AverageLeafWeight: a parent has the cover weighted average of its children");
            }
            MissingNodeTreatment::None => {}
        }
    }
}
