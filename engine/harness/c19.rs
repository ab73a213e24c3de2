//! The same data and parameters give the same model however it is run: threads, logging, repeated fits, unit weights.
use super::util::*;

/// Two trees on 5 rows, five feature values arbitrary, six settings: serial against parallel training, logging on and off, a
/// fit after a fit on other data, a fit after a refused fit, and unit weights against none. Predictions of any further
/// row serial and parallel agree, alone or in a batch; leaf indices are the leaves of the routing.
pub fn fits() {
    let n = 5;
    let k = choice(6);
    let p = super::c02::presets(n, if k == 1 { 1 } else { 2 });
    let mut d: Vec<f64> = (0..n).map(|r| if r == 3 { f64::NAN } else if r < 3 || thorough() { real(-6., 6.) } else { 1.0 }).collect();
    d.extend(&p.x2);
    let mi = marker(k);
    mark(&mut d, mi);
    let m = Matrix::new(&d, n, 2);
    let how = choice(4);
    let mut a = super::c02::config(k);
    let mut b = super::c02::config(k);
    a.missing = mi;
    b.missing = mi;
    a.parallel = false;
    b.parallel = false;
    match how {
        0 => {
            a.fit(&m, &p.y, &p.w, None).unwrap();
            b.parallel = true;
            b.log_iterations = 1;
            b.fit(&m, &p.y, &p.w, None).unwrap();
        }
        1 => {
            a.fit(&m, &p.y, &p.w, None).unwrap();
            let o = [3.0, 1.0, 2.0, 5.0, 4.0, 4.0, mi, 1.0];
            b.early_stopping_rounds = Some(1);
            let it = b.iterations;
            b.iterations = if k % 2 == 0 { 1 } else { 3 };
            b.insert_metadata("note".to_string(), "of the first fit".to_string());
            b.fit(&Matrix::new(&o, 4, 2), &[0.0, 1.0, 1.0, 0.0], &[1.0; 4], Some(vec![(Matrix::new(&o, 4, 2), &[1.0, 0.0, 0.0, 1.0], &[1.0; 4])])).unwrap();
            b.early_stopping_rounds = None;
            b.iterations = it;
            b.fit(&m, &p.y, &p.w, None).unwrap();
            check!(b.best_iteration.is_none() && b.evaluation_history.is_none() && b.prediction_iteration.is_none(), "a fit keeps nothing of an earlier one");
        }
        2 => {
            a.fit(&m, &p.y, &p.w, None).unwrap();
            b.fit(&m, &p.y, &p.w, None).unwrap();
            check!(b.fit(&m, &[f64::NAN; 5], &p.w, None).is_err(), "NaN targets are refused");
        }
        _ => {
            a.fit(&m, &p.y, &[1.0; 5], None).unwrap();
            b.fit_unweighted(&m, &p.y, None).unwrap();
        }
    }
    same_trees(&a, &b, "the same data and parameters give the same trees");
    // An arbitrary row, alone and inside a batch.
    let r = [real(-6., 6.), if boolean() { mi } else { 2.5 }];
    let one = a.predict(&Matrix::new(&r, 1, 2), false)[0];
    let batch = [1.0, r[0], mi, 2.0, r[1], 3.0];
    let bm = Matrix::new(&batch, 3, 2);
    let s = b.predict(&bm, false);
    let q = b.predict(&bm, true);
    check!(s.len() == 3 && q.len() == 3, "one prediction per row");
    for i in 0..3 {
        check!(close(s[i], q[i]), "parallel and serial predictions agree");
    }
    check!(close(s[1], one), "a row's prediction does not depend on its batch");
    let l = b.predict_leaf_indices(&bm);
    check!(l.len() == 3 * b.trees.len(), "one leaf index per row and tree");
    for (t, tree) in b.trees.iter().enumerate() {
        for i in 0..3 {
            check!(l[t * 3 + i] == route(tree, &row(&batch, 3, 2, i), b.missing), "leaf indices are the leaves rows are routed to");
        }
    }
}

/// Larger: 230 rows, 5 features, six trees, four settings with binary or ternary splits, an evaluation
/// set; serial against parallel training, with and without logging of every first, second or fourth iteration, and fitted
/// once more. One feature value is arbitrary. Predictions, leaf indices and all kinds of contributions of all rows are the
/// same computed serially and in parallel.
pub fn sizes() {
    let (n, cols) = (230, 5);
    let k = choice(4);
    let mk = || {
        let mut b = small();
        b.iterations = 6;
        b.max_depth = 4;
        b.l2 = 0.5;
        b.parallel = false;
        b.evaluation_metric = Some(Metric::RootMeanSquaredError);
        b.initialize_base_score = k != 1;
        match k {
            0 => {}
            1 => {
                b.create_missing_branch = true;
                b.missing_node_treatment = MissingNodeTreatment::AverageLeafWeight;
            }
            2 => {
                b.grow_policy = GrowPolicy::LossGuide;
                b.early_stopping_rounds = Some(4);
            }
            _ => {
                b.max_leaves = 5;
                b.l1 = 0.25;
                b.max_delta_step = 0.5;
            }
        }
        b
    };
    let mut d = super::c02::noise(cols * n, 41);
    for i in 0..cols * n {
        if i % 17 == 3 {
            d[i] = f64::NAN;
        }
    }
    let y: Vec<f64> = super::c02::noise(n, 42).iter().enumerate().map(|(r, e)| (e * 4.0).round() / 8.0 + if d[2 * n + r] > 0.4 { 1.0 } else { 0.0 }).collect();
    d[2 * n + 7] = real(0.25, 0.5);
    let w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0][i % 3]).collect();
    let m = Matrix::new(&d, n, cols);
    let fit = |b: &mut GradientBooster| b.fit(&m, &y, &w, Some(vec![(Matrix::new(&d, n, cols), &y, &w)])).unwrap();
    let (mut a, mut b) = (mk(), mk());
    fit(&mut a);
    match choice(4) {
        0 => b.log_iterations = 1,
        1 => b.parallel = true,
        2 => {
            b.parallel = true;
            b.log_iterations = 2;
        }
        _ => {
            b.log_iterations = 4;
            let z: Vec<f64> = y.iter().map(|v| 3.0 - 2.0 * v).collect();
            b.fit(&m, &z, &w, Some(vec![(Matrix::new(&d, n, cols), &z, &w)])).unwrap();
        }
    }
    fit(&mut b);
    same_trees(&a, &b, "the same data and parameters give the same trees");
    check!(close(a.base_score, b.base_score) && a.best_iteration == b.best_iteration, "the same data and parameters give the same model");
    let (ha, hb) = (a.evaluation_history.as_ref().unwrap(), b.evaluation_history.as_ref().unwrap());
    check!(ha.rows == hb.rows && ha.data.len() == hb.data.len(), "the same data and parameters give the same history");
    for (u, v) in ha.data.iter().zip(&hb.data) {
        check!(close(*u, *v), "the same data and parameters give the same history");
    }
    let (s, p) = (a.predict(&m, false), b.predict(&m, true));
    check!(s.len() == n && p.len() == n, "one prediction per row");
    for r in 0..n {
        check!(close(s[r], p[r]), "parallel and serial predictions agree");
    }
    let method = |c: usize| match c {
        0 => ContributionsMethod::Average,
        1 => ContributionsMethod::Weight,
        2 => ContributionsMethod::Shapley,
        _ => ContributionsMethod::ModeDifference,
    };
    for c in 0..if k == 1 { 4 } else { 3 } {
        let (s, p) = (a.predict_contributions(&m, method(c), false), b.predict_contributions(&m, method(c), true));
        check!(s.len() == n * (cols + 1) && p.len() == s.len(), "contributions of every row and feature");
        for r in 0..s.len() {
            check!(close(s[r], p[r]), "parallel and serial contributions agree");
        }
    }
    let l = b.predict_leaf_indices(&m);
    for (t, tree) in b.trees.iter().enumerate() {
        for i in 0..n {
            check!(l[t * n + i] == route(tree, &row(&d, n, cols, i), b.missing), "leaf indices are the leaves rows are routed to");
        }
    }
}
