//! Saving and loading: a loaded model is the saved one, in every parameter and every prediction.
use super::util::*;

fn feq(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b
}
fn feq32(a: f32, b: f32) -> bool {
    (a.is_nan() && b.is_nan()) || a == b
}
fn text<T: serde::Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap()
}

/// Every public field of the two boosters is the same.
pub fn same(a: &GradientBooster, b: &GradientBooster) {
    let m = "every parameter is what it should be";
    check!(text(&a.objective_type) == text(&b.objective_type), "{m}: objective");
    check!(a.iterations == b.iterations && a.max_depth == b.max_depth && a.max_leaves == b.max_leaves && a.nbins == b.nbins, "{m}: sizes");
    check!(feq32(a.learning_rate, b.learning_rate), "{m}: learning rate");
    check!(feq32(a.l1, b.l1) && feq32(a.l2, b.l2) && feq32(a.gamma, b.gamma), "{m}: regularisation");
    check!(feq32(a.max_delta_step, b.max_delta_step) && feq32(a.min_leaf_weight, b.min_leaf_weight), "{m}: leaf limits");
    check!(feq(a.base_score, b.base_score), "{m}: base score");
    check!(feq32(a.subsample, b.subsample) && feq(a.top_rate, b.top_rate) && feq(a.other_rate, b.other_rate) && feq(a.colsample_bytree, b.colsample_bytree), "{m}: sampling rates");
    check!(feq(a.missing, b.missing), "{m}: missing value");
    check!(a.seed == b.seed && a.parallel == b.parallel && a.allow_missing_splits == b.allow_missing_splits && a.create_missing_branch == b.create_missing_branch, "{m}: switches");
    check!(text(&a.sample_method) == text(&b.sample_method) && text(&a.grow_policy) == text(&b.grow_policy), "{m}: methods");
    check!(text(&a.evaluation_metric) == text(&b.evaluation_metric) && text(&a.missing_node_treatment) == text(&b.missing_node_treatment), "{m}: metric, treatment");
    check!(a.early_stopping_rounds == b.early_stopping_rounds && a.initialize_base_score == b.initialize_base_score, "{m}: early stopping");
    check!(a.best_iteration == b.best_iteration && a.prediction_iteration == b.prediction_iteration, "{m}: iterations");
    check!(a.log_iterations == b.log_iterations && a.force_children_to_bound_parent == b.force_children_to_bound_parent, "{m}: logging, bounds");
    check!(a.terminate_missing_features == b.terminate_missing_features, "{m}: terminate_missing_features");
    match (&a.monotone_constraints, &b.monotone_constraints) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            check!(x.len() == y.len(), "{m}: constraints");
            for (k, v) in x {
                check!(y.get(k).is_some_and(|w| text(v) == text(w)), "{m}: constraints");
            }
        }
        _ => symrt::fail("every parameter is what it should be: constraints"),
    }
    match (&a.evaluation_history, &b.evaluation_history) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            check!(x.rows == y.rows && x.cols == y.cols, "{m}: history size");
            for i in 0..x.rows {
                for j in 0..x.cols {
                    check!(feq(*x.get(i, j), *y.get(i, j)), "{m}: history values");
                }
            }
        }
        _ => symrt::fail("every parameter is what it should be: history"),
    }
    check!(a.trees.len() == b.trees.len(), "{m}: trees");
    for (s, t) in a.trees.iter().zip(&b.trees) {
        check!(s.nodes.len() == t.nodes.len(), "{m}: nodes");
        for (x, y) in s.nodes.iter().zip(&t.nodes) {
            check!(x.num == y.num && x.depth == y.depth && x.is_leaf == y.is_leaf, "{m}: node");
            check!(x.left_child == y.left_child && x.right_child == y.right_child && x.missing_node == y.missing_node, "{m}: children");
            check!(x.split_feature == y.split_feature && x.split_value == y.split_value, "{m}: split");
            check!(x.weight_value == y.weight_value && x.hessian_sum == y.hessian_sum && x.split_gain == y.split_gain, "{m}: node values");
        }
    }
}

/// A booster in which every option is set, one of four ways.
pub fn varied(k: usize) -> GradientBooster {
    let mut b = small();
    b.objective_type = if k % 2 == 0 { ObjectiveType::LogLoss } else { ObjectiveType::SquaredLoss };
    b.max_leaves = if k == 0 { usize::MAX } else { k };
    b.seed = [0, 1, u64::MAX, 1 << 53][k % 4];
    b.nbins = [256, 1, u16::MAX, 17][k % 4];
    b.parallel = k % 2 == 1;
    b.allow_missing_splits = k % 3 == 0;
    b.create_missing_branch = k % 2 == 0;
    b.grow_policy = if k % 2 == 0 { GrowPolicy::LossGuide } else { GrowPolicy::DepthWise };
    b.sample_method = [SampleMethod::Random, SampleMethod::Goss, SampleMethod::None, SampleMethod::Random][k % 4..].iter().next().map(|s| match s {
        SampleMethod::None => SampleMethod::None,
        SampleMethod::Random => SampleMethod::Random,
        SampleMethod::Goss => SampleMethod::Goss,
    }).unwrap();
    b.evaluation_metric = [None, Some(Metric::AUC), Some(Metric::LogLoss), Some(Metric::RootMeanSquaredError)][k % 4];
    b.missing_node_treatment = [
        MissingNodeTreatment::None,
        MissingNodeTreatment::AverageLeafWeight,
        MissingNodeTreatment::AverageNodeWeight,
        MissingNodeTreatment::AssignToParent,
    ][k % 4];
    b.early_stopping_rounds = if k % 2 == 0 { Some(k) } else { None };
    b.initialize_base_score = k % 2 == 0;
    b.log_iterations = k;
    b.force_children_to_bound_parent = k % 2 == 1;
    b.best_iteration = if k % 2 == 0 { Some(k) } else { None };
    b.prediction_iteration = if k % 2 == 0 { Some(1) } else { None };
    if k > 0 {
        b.monotone_constraints = Some(ConstraintMap::from([(0, Constraint::Positive), (k, Constraint::Negative), (7, Constraint::Unconstrained)]));
        b.terminate_missing_features = HashSet::from([k, 2]);
    }
    b
}

/// Arbitrary numeric parameters (each one), trees of four shapes with arbitrary weights, gains and split values, an
/// evaluation history with arbitrary and NaN entries, options set four ways, missing NaN, infinite or arbitrary; metadata; the
/// prediction, contributions and importance of an arbitrary row; saving the loaded model again.
pub fn round_trip() {
    let k = choice(4);
    let mut b = varied(k);
    b.learning_rate = real32(0., 9.);
    b.l1 = real32(0., 9.);
    b.l2 = real32(0., 9.);
    b.gamma = real32(0., 9.);
    b.max_delta_step = real32(0., 9.);
    b.min_leaf_weight = real32(0., 9.);
    b.base_score = real(-9., 9.);
    b.subsample = real32(0., 1.);
    b.top_rate = real(0., 1.);
    b.other_rate = real(0., 1.);
    b.colsample_bytree = real(0., 1.);
    b.missing = match choice(4) {
        0 => f64::NAN,
        1 => real(-99., -9.),
        2 => f64::INFINITY,
        _ => f64::NEG_INFINITY,
    };
    let o = TreeOpts { weights: true, covers: vec![1.0, 2.5, 0.1, 3.3], gains: true };
    b.trees = vec![build(&super::c08::shapes(choice(4)), &o), build(&Sk::L, &o)];
    if k != 1 {
        let h = vec![real(-9., 9.), f64::NAN, 0.1, real(-9., 9.)];
        b.evaluation_history = Some(if boolean() { RowMajorMatrix::new(h, 2, 2) } else { RowMajorMatrix::new(h, 4, 1) });
    }
    let meta = pick(&["plain", "", "quote \" backslash \\ newline \n unicode \u{e9}\u{1f600}"]);
    b.insert_metadata("key \"1\"".to_string(), meta.to_string());
    let s = b.json_dump().unwrap();
    let c = match GradientBooster::from_json(&s) {
        Ok(c) => c,
        Err(_) => symrt::fail("a saved model can be loaded"),
    };
    same(&b, &c);
    check!(c.get_metadata(&"key \"1\"".to_string()) == Some(meta.to_string()), "metadata is kept");
    check!(c.get_metadata(&"absent".to_string()).is_none(), "no metadata is invented");
    let r = [real(-4., 4.), if boolean() { b.missing } else { real(-4., 4.) }];
    let m = Matrix::new(&r, 1, 2);
    check!(b.predict(&m, false)[0] == c.predict(&m, false)[0], "a loaded model predicts what the saved one predicts");
    let (x, y) = (b.predict_contributions(&m, ContributionsMethod::Weight, false), c.predict_contributions(&m, ContributionsMethod::Weight, false));
    for j in 0..3 {
        check!(x[j] == y[j], "a loaded model's contributions are the saved one's");
    }
    let d = GradientBooster::from_json(&c.json_dump().unwrap()).unwrap();
    same(&c, &d);
}

/// Trained models: two trees on 5 rows, three feature values arbitrary (one of them infinite in some), evaluated on a set whose metric is NaN;
/// the loaded model predicts any further row as the trained one and continues to be usable.
pub fn trained() {
    let k = choice(6);
    let mut b = super::c02::config(k);
    let p = super::c02::presets(5, if k == 1 { 1 } else { 2 });
    let third = if boolean() { f64::INFINITY } else { real(-4., 4.) };
    let mut d = vec![real(-4., 4.), 1.0, third, f64::NAN, real(-4., 4.)];
    d.extend(&p.x2);
    let m = Matrix::new(&d, 5, 2);
    let ed = [1.0, 2.0, 2.0, 1.0];
    b.evaluation_metric = Some(Metric::AUC);
    b.early_stopping_rounds = if boolean() { Some(1) } else { None };
    b.fit(&m, &p.y, &p.w, Some(vec![(Matrix::new(&ed, 2, 2), &[1.0, choice(2) as f64], &[1.0, 1.0])])).unwrap();
    let c = match GradientBooster::from_json(&b.json_dump().unwrap()) {
        Ok(c) => c,
        Err(_) => symrt::fail("a trained model can be loaded after saving"),
    };
    same(&b, &c);
    let r = [real(-4., 4.), if boolean() { f64::NAN } else { 2.0 }];
    let q = Matrix::new(&r, 1, 2);
    check!(b.predict(&q, false)[0] == c.predict(&q, false)[0], "a loaded model predicts what the trained one predicts");
}

/// Models saved before an option existed: each option that has a default may be absent from the text and then has
/// that default, everything else (arbitrary numbers, trees) is kept; a file with a required entry missing is refused.
pub fn absent_options() {
    let mut b = varied(2);
    b.l2 = real32(0., 9.);
    b.base_score = real(-9., 9.);
    b.trees = vec![build(&super::c08::shapes(1), &TreeOpts { weights: true, covers: vec![1.0, 2.0], gains: false })];
    b.monotone_constraints = Some(ConstraintMap::from([(1, Constraint::Negative)]));
    let mut v: serde_json::Value = serde_json::from_str(&b.json_dump().unwrap()).unwrap();
    let optional = [
        "l1", "max_delta_step", "top_rate", "other_rate", "colsample_bytree", "sample_method", "grow_policy", "evaluation_metric",
        "early_stopping_rounds", "initialize_base_score", "terminate_missing_features", "evaluation_history", "best_iteration",
        "prediction_iteration", "missing_node_treatment", "log_iterations", "force_children_to_bound_parent",
    ];
    let required = ["objective_type", "iterations", "l2", "gamma", "base_score", "trees", "parallel", "seed", "create_missing_branch"];
    let all = optional.len();
    let k = choice(all + 1 + required.len());
    let gone: Vec<&str> = if k < all { vec![optional[k]] } else if k == all { optional.to_vec() } else { vec![required[k - all - 1]] };
    for g in &gone {
        v.as_object_mut().unwrap().remove(*g);
    }
    let r = GradientBooster::from_json(&v.to_string());
    if k > all {
        check!(r.is_err(), "a model with a required entry missing is refused");
        return;
    }
    let c = match r {
        Ok(c) => c,
        Err(_) => symrt::fail("a model saved without an option that has a default can be loaded"),
    };
    for g in &gone {
        match *g {
            "l1" => b.l1 = 0.0,
            "max_delta_step" => b.max_delta_step = 0.0,
            "top_rate" => b.top_rate = 0.1,
            "other_rate" => b.other_rate = 0.2,
            "colsample_bytree" => b.colsample_bytree = 1.0,
            "sample_method" => b.sample_method = SampleMethod::None,
            "grow_policy" => b.grow_policy = GrowPolicy::DepthWise,
            "evaluation_metric" => b.evaluation_metric = None,
            "early_stopping_rounds" => b.early_stopping_rounds = None,
            "initialize_base_score" => b.initialize_base_score = false,
            "terminate_missing_features" => b.terminate_missing_features = HashSet::new(),
            "evaluation_history" => b.evaluation_history = None,
            "best_iteration" => b.best_iteration = None,
            "prediction_iteration" => b.prediction_iteration = None,
            "missing_node_treatment" => b.missing_node_treatment = MissingNodeTreatment::AssignToParent,
            "log_iterations" => b.log_iterations = 0,
            _ => b.force_children_to_bound_parent = false,
        }
    }
    same(&b, &c);
}

/// Through a file, in a directory of its own: a saved model is read back; overwriting a longer file leaves nothing of
/// it; an unreadable path, an unwritable path and damaged text give an error.
pub fn file() {
    let dir = std::env::temp_dir().join(format!("verif-c17-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("model.json");
    let p = path.to_str().unwrap().to_string();
    let mut b = varied(choice(4));
    b.trees = vec![build(&super::c08::shapes(choice(4)), &TreeOpts { weights: true, covers: vec![1.0, 2.0], gains: true })];
    if boolean() {
        std::fs::write(&path, vec![b'x'; 100_000]).unwrap();
    }
    let saved = b.save_booster(&p).is_ok();
    let loaded = GradientBooster::load_booster(&p);
    let cut = std::fs::read_to_string(&path).unwrap_or_default();
    std::fs::write(&path, &cut[..cut.len() / 2]).unwrap();
    let broken = GradientBooster::load_booster(&p);
    let absent = GradientBooster::load_booster(dir.join("absent").to_str().unwrap());
    let unwritable = b.save_booster(dir.join("no").join("dir").to_str().unwrap());
    std::fs::remove_dir_all(&dir).unwrap();
    check!(saved, "a model can be saved to a file");
    match loaded {
        Ok(c) => same(&b, &c),
        Err(_) => symrt::fail("a model saved to a file can be loaded from it"),
    }
    check!(broken.is_err(), "a damaged file is refused");
    check!(absent.is_err(), "an absent file is an error");
    check!(unwritable.is_err(), "a path that cannot be written is an error");
}

/// Log loss training with the automatic base score on targets of one class only (two rows, one arbitrary feature value).
pub fn one_class() {
    let mut b = small();
    b.objective_type = ObjectiveType::LogLoss;
    b.initialize_base_score = true;
    b.l2 = 1.0;
    let y = choice(2) as f64;
    let d = [real(0., 4.), 2.0];
    let m = Matrix::new(&d, 2, 1);
    b.fit(&m, &[y, y], &[1.0, 1.0], None).unwrap();
    check!(GradientBooster::from_json(&b.json_dump().unwrap()).is_ok(), "a model trained on one class can be loaded after saving");
}
