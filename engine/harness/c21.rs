//! Parameters: constructor, defaults and setters give a booster exactly the parameters they are given.
use super::c17::{same, varied};
use super::util::*;

const SIZES: [usize; 5] = [0, 1, 7, 300, usize::MAX];

/// The constructor with every numeric parameter arbitrary, sizes including 0 and the largest, options set four ways: every
/// parameter is the one that was passed, no tree, no history, no iteration chosen.
pub fn constructor() {
    let k = choice(4);
    let mut e = varied(k);
    e.evaluation_history = None;
    e.best_iteration = None;
    e.prediction_iteration = None;
    e.iterations = pick(&SIZES);
    e.max_depth = [3, 0, 1, usize::MAX][k];
    e.learning_rate = real32(0., 1e12);
    e.l1 = real32(0., 1e12);
    e.l2 = real32(0., 1e12);
    e.gamma = real32(0., 1e12);
    e.max_delta_step = real32(0., 1e12);
    e.min_leaf_weight = real32(0., 1e12);
    e.base_score = real(-1e12, 1e12);
    e.subsample = real32(0., 1e12);
    e.top_rate = real(0., 1e12);
    e.other_rate = real(0., 1e12);
    e.colsample_bytree = real(0., 1e12);
    e.missing = if boolean() { f64::NAN } else { real(-1e12, 1e12) };
    let v = varied(k);
    let r = GradientBooster::new(
        v.objective_type,
        e.iterations,
        e.learning_rate,
        e.max_depth,
        e.max_leaves,
        e.l1,
        e.l2,
        e.gamma,
        e.max_delta_step,
        e.min_leaf_weight,
        e.base_score,
        e.nbins,
        e.parallel,
        e.allow_missing_splits,
        v.monotone_constraints,
        e.subsample,
        e.top_rate,
        e.other_rate,
        e.colsample_bytree,
        e.seed,
        e.missing,
        e.create_missing_branch,
        v.sample_method,
        v.grow_policy,
        e.evaluation_metric,
        e.early_stopping_rounds,
        e.initialize_base_score,
        v.terminate_missing_features,
        e.missing_node_treatment,
        e.log_iterations,
        e.force_children_to_bound_parent,
    );
    match r {
        Ok(b) => same(&e, &b),
        Err(_) => symrt::fail("the constructor accepts usable parameters"),
    }
}

/// The default booster has the documented defaults.
pub fn defaults() {
    let mut e = small();
    e.objective_type = ObjectiveType::LogLoss;
    e.iterations = 10;
    e.learning_rate = 0.3;
    e.max_depth = 5;
    e.max_leaves = usize::MAX;
    e.l1 = 0.0;
    e.l2 = 1.0;
    e.gamma = 0.0;
    e.max_delta_step = 0.0;
    e.min_leaf_weight = 1.0;
    e.base_score = 0.5;
    e.nbins = 256;
    e.parallel = true;
    e.allow_missing_splits = true;
    e.monotone_constraints = None;
    e.subsample = 1.0;
    e.top_rate = 0.1;
    e.other_rate = 0.2;
    e.colsample_bytree = 1.0;
    e.seed = 0;
    e.missing = f64::NAN;
    e.create_missing_branch = false;
    e.sample_method = SampleMethod::None;
    e.grow_policy = GrowPolicy::DepthWise;
    e.evaluation_metric = None;
    e.early_stopping_rounds = None;
    e.initialize_base_score = true;
    e.terminate_missing_features = HashSet::new();
    e.missing_node_treatment = MissingNodeTreatment::AssignToParent;
    e.log_iterations = 0;
    e.force_children_to_bound_parent = false;
    e.base_score = 0.5;
    same(&e, &GradientBooster::default());
}

fn one(i: usize, e: &mut GradientBooster, b: GradientBooster) -> GradientBooster {
    let n = |e: &mut f32| {
        *e = real32(-1e12, 1e12);
        *e
    };
    match i {
        0 => {
            e.objective_type = ObjectiveType::SquaredLoss;
            b.set_objective_type(ObjectiveType::SquaredLoss)
        }
        1 => {
            e.objective_type = ObjectiveType::LogLoss;
            b.set_objective_type(ObjectiveType::LogLoss)
        }
        2 => {
            e.iterations = pick(&SIZES);
            b.set_iterations(e.iterations)
        }
        3 => {
            e.max_depth = pick(&SIZES);
            b.set_max_depth(e.max_depth)
        }
        4 => {
            e.max_leaves = pick(&SIZES);
            b.set_max_leaves(e.max_leaves)
        }
        5 => {
            e.nbins = pick(&[0, 1, 255, 256, u16::MAX]);
            b.set_nbins(e.nbins)
        }
        6 => {
            let v = n(&mut e.learning_rate);
            b.set_learning_rate(v)
        }
        7 => {
            let v = n(&mut e.l1);
            b.set_l1(v)
        }
        8 => {
            let v = n(&mut e.l2);
            b.set_l2(v)
        }
        9 => {
            let v = n(&mut e.gamma);
            b.set_gamma(v)
        }
        10 => {
            let v = n(&mut e.max_delta_step);
            b.set_max_delta_step(v)
        }
        11 => {
            let v = n(&mut e.min_leaf_weight);
            b.set_min_leaf_weight(v)
        }
        12 => {
            e.base_score = real(-1e12, 1e12);
            b.set_base_score(e.base_score)
        }
        13 => {
            e.initialize_base_score = boolean();
            b.set_initialize_base_score(e.initialize_base_score)
        }
        14 => {
            e.parallel = boolean();
            b.set_parallel(e.parallel)
        }
        15 => {
            e.allow_missing_splits = boolean();
            b.set_allow_missing_splits(e.allow_missing_splits)
        }
        16 => {
            let c = || {
                Some(ConstraintMap::from([(3, Constraint::Negative), (1, Constraint::Positive), (5, Constraint::Unconstrained)]))
            };
            if boolean() {
                e.monotone_constraints = c();
                b.set_monotone_constraints(c())
            } else {
                e.monotone_constraints = None;
                b.set_monotone_constraints(None)
            }
        }
        17 => {
            let v = n(&mut e.subsample);
            b.set_subsample(v)
        }
        18 => {
            e.colsample_bytree = real(-1e12, 1e12);
            b.set_colsample_bytree(e.colsample_bytree)
        }
        19 => {
            e.seed = pick(&[0, 1, 1 << 40, u64::MAX]);
            b.set_seed(e.seed)
        }
        20 => {
            e.missing = if boolean() { f64::NAN } else { real(-1e12, 1e12) };
            b.set_missing(e.missing)
        }
        21 => {
            e.create_missing_branch = boolean();
            b.set_create_missing_branch(e.create_missing_branch)
        }
        22 => {
            let s = |k| [SampleMethod::None, SampleMethod::Random, SampleMethod::Goss].into_iter().nth(k).unwrap();
            let k = choice(3);
            e.sample_method = s(k);
            b.set_sample_method(s(k))
        }
        23 => {
            e.evaluation_metric = pick(&[
                None,
                Some(Metric::AUC),
                Some(Metric::LogLoss),
                Some(Metric::RootMeanSquaredError),
                Some(Metric::RootMeanSquaredLogError),
            ]);
            b.set_evaluation_metric(e.evaluation_metric)
        }
        24 => {
            e.early_stopping_rounds = pick(&[None, Some(0), Some(1), Some(30)]);
            b.set_early_stopping_rounds(e.early_stopping_rounds)
        }
        25 => {
            // Given as the index of the last iteration to use.
            let p = pick(&[None, Some(0), Some(1), Some(30)]);
            e.prediction_iteration = p.map(|i| i + 1);
            b.set_prediction_iteration(p)
        }
        _ => {
            let t = if boolean() { HashSet::new() } else { HashSet::from([2, 0]) };
            e.terminate_missing_features = t.clone();
            b.set_terminate_missing_features(t)
        }
    }
}

/// Every setter on a model with trees and metadata, two of them in a row, in any order: the parameter is the value given
/// (arbitrary number, sizes including 0 and the largest), everything else stays.
pub fn setters() {
    let k = choice(2) + 1;
    let (mut e, mut b) = (varied(k), varied(k));
    let t = || vec![Tree { nodes: vec![leaf(0, 0.25, 1.0)] }];
    (e.trees, b.trees) = (t(), t());
    b.insert_metadata("a".to_string(), "b".to_string());
    let i = choice(27);
    let j = if thorough() { choice(27) } else { (i + 1 + choice(3)) % 27 };
    b = one(i, &mut e, b);
    b = one(j, &mut e, b);
    same(&e, &b);
    check!(b.get_metadata(&"a".to_string()) == Some("b".to_string()), "setters keep metadata");
}

/// Metadata: what was inserted last for a key is what is read, other keys are untouched; five keys and texts.
pub fn metadata() {
    let mut b = small();
    let keys = ["a", "", "A", "a ", "\u{e9}"];
    let mut e: HashMap<String, String> = HashMap::new();
    for i in 0..3 {
        let (k, v) = (pick(&keys), pick(&["x", "", "y"]));
        e.insert(k.to_string(), format!("{v}{i}"));
        b.insert_metadata(k.to_string(), format!("{v}{i}"));
    }
    for k in keys {
        check!(b.get_metadata(&k.to_string()) == e.get(k).cloned(), "metadata is what was inserted");
    }
}
