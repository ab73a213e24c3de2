//! Validation: unusable parameters and data are refused with an error, usable ones are not.
use super::util::*;

/// A number of any size around zero, NaN or an infinity.
fn number() -> f64 {
    match choice(4) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        _ => real(-5., 5.),
    }
}

/// Whether `f` says yes; an ordinary panic is a refusal.
fn accepts(f: impl FnOnce() -> bool) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) if e.is::<String>() || e.is::<&str>() => false,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// The constructor with each of the ten bounded numeric parameters in turn arbitrary, NaN or infinite: accepted iff
/// it is a number and not negative.
pub fn parameters() {
    let k = choice(10);
    let x = number();
    let v = |i: usize, d: f64| if i == k { x } else { d };
    let f = |i: usize, d: f64| -> f32 {
        if i != k {
            d as f32
        } else if x == x && x < 1e30 && x > -1e30 {
            x as f32
        } else if x == x {
            if x > 0.0 { f32::INFINITY } else { f32::NEG_INFINITY }
        } else {
            f32::NAN
        }
    };
    let r = GradientBooster::new(
        ObjectiveType::LogLoss,
        3,
        f(0, 0.3),
        5,
        usize::MAX,
        f(1, 0.0),
        f(2, 1.0),
        f(3, 0.0),
        f(4, 0.0),
        f(5, 1.0),
        0.5,
        256,
        true,
        true,
        None,
        f(6, 1.0),
        v(7, 0.1),
        v(8, 0.2),
        v(9, 1.0),
        0,
        f64::NAN,
        false,
        SampleMethod::None,
        GrowPolicy::DepthWise,
        None,
        None,
        true,
        HashSet::new(),
        MissingNodeTreatment::AssignToParent,
        0,
        false,
    );
    let valid = x == x && x >= 0.0;
    check!(r.is_ok() == valid, "a parameter is accepted iff it is a number that is not negative");
}

/// Fitting with one arbitrary, NaN or infinite entry in the targets, weights, or the targets or weights of one of two
/// evaluation sets, at any position: refused iff a target is NaN or a weight is NaN or negative. A refused fit changes
/// nothing in a model fitted before.
pub fn fit_data() {
    let d = [1.0, 2.0, 3.0, 4.0];
    let y0 = [0.0, 1.0, 2.0, 0.5];
    let w0 = [1.0, 2.0, 1.0, 1.0];
    let mut b = small();
    b.max_depth = 1;
    b.evaluation_metric = Some(Metric::RootMeanSquaredError);
    let m = Matrix::new(&d, 4, 1);
    b.fit(&m, &y0, &w0, None).unwrap();
    let before = b.predict(&m, false);
    let (mut y, mut w, mut ey, mut ew) = (y0, w0, y0, w0);
    let k = choice(4);
    let at = choice(4);
    let x = match choice(3) {
        0 => f64::NAN,
        1 => pick(&[f64::NEG_INFINITY, f64::INFINITY, -1e-13, -1e300]),
        _ => real(-5., 5.),
    };
    match k {
        0 => y[at] = x,
        1 => w[at] = x,
        2 => ey[at] = x,
        _ => ew[at] = x,
    }
    let other = Matrix::new(&d, 4, 1);
    let ev = Matrix::new(&d, 4, 1);
    let evals = match choice(3) {
        0 => Some(vec![(ev, &ey[..], &ew[..]), (other, &y0[..], &w0[..])]),
        1 => Some(vec![(other, &y0[..], &w0[..]), (ev, &ey[..], &ew[..])]),
        _ if k >= 2 => Some(vec![(ev, &ey[..], &ew[..])]),
        _ => None,
    };
    let r = b.fit(&m, &y, &w, evals);
    let valid = if k % 2 == 0 { x == x } else { x == x && x >= 0.0 };
    check!(r.is_ok() == valid, "a fit is refused iff a target is NaN or a weight is NaN or negative");
    if !valid {
        let after = b.predict(&m, false);
        for i in 0..4 {
            check!(before[i] == after[i], "a refused fit leaves the model as it was");
        }
    } else {
        check!(b.trees.len() == 1, "an accepted fit trains");
    }
}

/// A NaN among the features, anywhere, is refused (error or panic) when another value marks missing ones, also when
/// predicting, and is a missing value otherwise; the other entries of its column are arbitrary.
pub fn feature_nan() {
    let n = 4;
    let mut d = vec![real(0., 5.), 2.0, real(0., 5.), 3.0, 1.0, 2.0, 2.0, 4.0];
    let at = choice(2 * n + 1);
    if at < 2 * n {
        d[at] = f64::NAN;
    }
    let mut b = small();
    b.missing = pick(&[f64::NAN, -1.0, 2.0]);
    b.create_missing_branch = boolean();
    let y = [0.0, 1.0, 2.0, 0.5];
    let m = Matrix::new(&d, n, 2);
    let valid = at == 2 * n || b.missing.is_nan();
    let accepted = accepts(|| b.fit(&m, &y, &[1.0; 4], None).is_ok());
    check!(accepted == valid, "NaN features are refused iff another value marks missing ones");
    if accepted && !b.missing.is_nan() {
        // A NaN in a row to predict, in a feature the model looks at.
        let r = [if boolean() { f64::NAN } else { 1.0 }, f64::NAN];
        let q = Matrix::new(&r, 1, 2);
        let mut looked = false;
        for t in &b.trees {
            let mut i = 0;
            while !t.nodes[i].is_leaf && !looked {
                let v = r[t.nodes[i].split_feature];
                looked = v.is_nan();
                i = child(&t.nodes[i], v, b.missing);
            }
        }
        let mut p = vec![0.0];
        let fine = accepts(|| {
            p = b.predict(&q, false);
            true
        });
        check!(!(looked && fine && p[0] == p[0]), "a NaN feature is not silently routed when another value marks missing ones");
    }
}

/// Text names of metrics: the four names are accepted as what they say, everything else is refused.
pub fn metric_names() {
    let names = ["AUC", "LogLoss", "RootMeanSquaredLogError", "RootMeanSquaredError", "auc", "", "RMSE", "AUC "];
    let k = choice(names.len());
    let r = names[k].parse::<Metric>();
    match r {
        Ok(m) => {
            let got = serde_json::to_string(&m).unwrap();
            check!(k < 4 && got == format!("\"{}\"", names[k]), "a metric name is parsed as that metric");
        }
        Err(_) => check!(k >= 4, "a valid metric name is accepted"),
    }
}

/// Training data without anything to learn (equal targets, weights of zero, any rows or none drawn, no columns drawn), no regularisation: 3 rows, two arbitrary feature values, with
/// and without missing ones, both missing modes; minimum leaf weight 0 or arbitrary: every weight is a number.
pub fn nothing_to_learn() {
    let mut b = small();
    b.l2 = 0.0;
    b.create_missing_branch = boolean();
    b.allow_missing_splits = boolean();
    b.min_leaf_weight = if boolean() { 0.0 } else { real32(0., 2.) };
    let d = [real(0., 5.), if boolean() { f64::NAN } else { 3.0 }, real(0., 5.)];
    let mut y = [1.0, 1.0, 1.0];
    let mut w = [1.0, 1.0, 2.0];
    match choice(4) {
        0 => {}
        1 => w = [0.0; 3],
        2 => {
            b.sample_method = SampleMethod::Random;
            b.subsample = 0.5;
            y = [1.0, 2.0, -1.0];
        }
        _ => {
            b.colsample_bytree = 0.5;
            y = [1.0, 2.0, -1.0];
        }
    }
    b.fit(&Matrix::new(&d, 3, 1), &y, &w, None).unwrap();
    for t in &b.trees {
        for n in &t.nodes {
            check!(n.weight_value == n.weight_value, "a weight is a number");
        }
    }
}
