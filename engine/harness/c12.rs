//! Evaluation history and early stopping.
use super::util::*;

/// The metric as its definition has it.
pub fn metric(m: &Metric, y: &[f64], p: &[f64], w: &[f64]) -> f64 {
    let ws: f64 = w.iter().sum();
    let mut s = 0.0;
    match m {
        Metric::AUC => {
            let (mut pos, mut neg) = (0.0, 0.0);
            for i in 0..y.len() {
                if y[i] > 0.5 {
                    pos += w[i];
                    for j in 0..y.len() {
                        if y[j] <= 0.5 {
                            if p[i] > p[j] {
                                s += w[i] * w[j];
                            } else if p[i] == p[j] {
                                s += 0.5 * w[i] * w[j];
                            }
                        }
                    }
                } else {
                    neg += w[i];
                }
            }
            s / (pos * neg)
        }
        Metric::LogLoss => {
            for i in 0..y.len() {
                s += w[i] * log_loss(y[i], p[i]);
            }
            s / ws
        }
        Metric::RootMeanSquaredLogError => {
            for i in 0..y.len() {
                let d = y[i].ln_1p() - p[i].ln_1p();
                s += w[i] * d * d;
            }
            (s / ws).sqrt()
        }
        Metric::RootMeanSquaredError => {
            for i in 0..y.len() {
                let d = y[i] - p[i];
                s += w[i] * d * d;
            }
            (s / ws).sqrt()
        }
    }
}

/// Position of the best value; the first one wins, NaN loses against every number.
fn better(old: f64, new: f64, maximize: bool) -> bool {
    if new.is_nan() {
        return false;
    }
    if old.is_nan() {
        return true;
    }
    if maximize {
        new > old
    } else {
        new < old
    }
}

type Set<'a> = (&'a [f64], usize, &'a [f64], &'a [f64]);
fn audit(b: &GradientBooster, cols: usize, sets: &[Set], m: &Metric, values: bool) {
    let h = b.evaluation_history.as_ref().unwrap();
    check!(h.rows == b.trees.len(), "one history row per iteration trained");
    check!(h.cols == sets.len(), "one history column per evaluation set");
    if values {
        for (k, (d, rows, y, w)) in sets.iter().enumerate() {
            let mut p = vec![b.base_score; *rows];
            for (i, t) in b.trees.iter().enumerate() {
                for r in 0..*rows {
                    let j = route(t, &row(d, *rows, cols, r), b.missing);
                    p[r] += f64::from(t.nodes[j].weight_value);
                }
                let want = metric(m, y, &p, w);
                let got = *h.get(i, k);
                check!((want.is_nan() && got.is_nan()) || close(want, got), "a history entry is the metric of the model so far on that evaluation set");
            }
        }
    }
    let maximize = matches!(m, Metric::AUC);
    match b.early_stopping_rounds {
        None => {
            check!(b.trees.len() == b.iterations, "without early stopping every iteration is trained");
            check!(b.best_iteration.is_none() && b.prediction_iteration.is_none(), "no best iteration without early stopping");
        }
        Some(rounds) => {
            let last = sets.len() - 1;
            let mut best = 0;
            for i in 0..b.trees.len() {
                check!(i == 0 || i - best <= rounds.max(1), "training went on after it should have stopped");
                if i > 0 && better(*h.get(best, last), *h.get(i, last), maximize) {
                    best = i;
                }
                // Enough rounds without improvement: this was the last one.
                if i > best && i - best >= rounds {
                    check!(b.trees.len() == i + 1, "training stops once the last evaluation set has not improved for the given rounds");
                }
            }
            let n = b.trees.len();
            if n < b.iterations {
                cover("stopped early");
                check!(n - 1 > best && n - 1 - best >= rounds, "training stopped although the last evaluation set had improved recently");
            } else {
                cover("ran to the end");
            }
            check!(b.best_iteration == Some(best), "the best iteration is the first with the best value on the last evaluation set");
            check!(b.prediction_iteration == Some(best + 1), "predictions use the trees up to the best iteration");
        }
    }
}

fn booster(k: usize) -> (GradientBooster, Metric) {
    let mut b = small();
    b.iterations = 5;
    b.max_depth = 2;
    b.learning_rate = 0.8;
    let m = match k {
        0 => {
            b.evaluation_metric = Some(Metric::RootMeanSquaredError);
            Metric::RootMeanSquaredError
        }
        1 => {
            b.objective_type = ObjectiveType::LogLoss;
            b.min_leaf_weight = 0.1;
            b.l2 = 0.1;
            Metric::LogLoss
        }
        2 => {
            b.objective_type = ObjectiveType::LogLoss;
            b.min_leaf_weight = 0.1;
            b.evaluation_metric = Some(Metric::AUC);
            Metric::AUC
        }
        _ => Metric::RootMeanSquaredLogError,
    };
    (b, m)
}

/// Five iterations on fixed training data; two evaluation sets (one the training data), the other with two rows
/// whose feature values are arbitrary (or missing) and of every label combination; four metrics, default metrics of
/// both objectives, no early stopping or 0 to 3 rounds; order of the sets; unequal weights.
pub fn rows_anywhere() {
    let k = choice(4);
    let (mut b, m) = booster(k);
    b.early_stopping_rounds = pick(&[None, Some(0), Some(1), Some(2), Some(3)]);
    b.create_missing_branch = k == 1;
    let d = [1.0, 2.0, 3.0, 4.0, 5.0, f64::NAN, 3.0, 1.0, 3.0, 2.0, 2.0, 1.0];
    let y = [0.0, 1.0, 1.0, 0.0, 1.0, 0.0];
    let w = [1.0, 2.0, 1.0, 1.0, 0.5, 1.0];
    let lab = choice(4);
    let ey = [(lab % 2) as f64, (lab / 2) as f64, 1.0];
    let ew = [1.0, 3.0, 0.5];
    let ed = [real(0., 6.), if boolean() { f64::NAN } else { real(0., 6.) }, 2.5, real(0., 4.), 2.0, 1.5];
    let tm = Matrix::new(&d, 6, 2);
    let em = Matrix::new(&ed, 3, 2);
    if boolean() {
        b.fit(&tm, &y, &w, Some(vec![(Matrix::new(&d, 6, 2), &y, &w), (em, &ey, &ew)])).unwrap();
        audit(&b, 2, &[(&d, 6, &y, &w), (&ed, 3, &ey, &ew)], &m, true);
    } else {
        b.fit(&tm, &y, &w, Some(vec![(em, &ey, &ew), (Matrix::new(&d, 6, 2), &y, &w)])).unwrap();
        audit(&b, 2, &[(&ed, 3, &ey, &ew), (&d, 6, &y, &w)], &m, true);
    }
}

/// Eight iterations at learning rates 0.5 and 1.9, LogLoss metric, an evaluation set with three arbitrary targets in [0, 1]:
/// every course the metric can take; 1 to 3 rounds. Predictions use the trees up to the best iteration.
pub fn any_course() {
    let mut b = small();
    b.iterations = 8;
    b.learning_rate = pick(&[0.5, 1.9]);
    b.max_depth = 2;
    b.evaluation_metric = Some(Metric::LogLoss);
    b.early_stopping_rounds = Some(1 + choice(3));
    let d = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0];
    let y = [1.0, 3.0, -2.0, -3.0, 4.0, 4.0];
    let w = [1.0; 6];
    let which = choice(3);
    let ed = [[1.0, 4.0, 3.0], [5.0, 2.0, 4.0], [3.0, 6.0, 1.0]][which];
    let ey = [real(0., 1.), real(0., 1.), real(0., 1.)];
    let ew = [1.0, 2.0, 0.5];
    let m = Matrix::new(&d, 6, 1);
    b.fit(&m, &y, &w, Some(vec![(Matrix::new(&ed, 3, 1), &ey, &ew)])).unwrap();
    audit(&b, 1, &[(&ed, 3, &ey, &ew)], &Metric::LogLoss, false);
    let p = b.predict(&m, false);
    let n = b.best_iteration.unwrap() + 1;
    for r in 0..6 {
        let mut s = b.base_score;
        for t in &b.trees[..n] {
            s += f64::from(t.nodes[route(t, &[d[r]], b.missing)].weight_value);
        }
        check!(close(p[r], s), "prediction uses the trees up to and including the best iteration");
    }
    if which == 0 {
        // A second fit forgets the first.
        b.early_stopping_rounds = None;
        b.fit(&m, &y, &w, None).unwrap();
        check!(b.trees.len() == 8 && b.evaluation_history.is_none(), "a new fit starts from nothing");
        check!(b.best_iteration.is_none() && b.prediction_iteration.is_none(), "a new fit forgets the best iteration");
    }
}

/// One to four evaluation sets, or none (nothing to stop by), five iterations, no early stopping or one or two rounds; one arbitrary row in the first and in the last set; missing values marked NaN, 99 or -99.
pub fn several_sets() {
    let k = pick(&[0, 1, 2]);
    let (mut b, m) = booster(k);
    b.early_stopping_rounds = pick(&[None, Some(1), Some(2)]);
    let n = choice(5);
    b.missing = marker(k);
    let mut d = [1.0, 2.0, 3.0, 4.0, 5.0, f64::NAN, 3.0, 1.0, 3.0, 2.0, 2.0, 1.0];
    let y = [0.0, 1.0, 1.0, 0.0, 1.0, 0.0];
    let w = [1.0, 2.0, 1.0, 1.0, 0.5, 1.0];
    let (first, last) = (real(0., 6.), real(0., 6.));
    let ed: Vec<[f64; 6]> = (0..4)
        .map(|k| match k {
            0 => [first, 2.0, 4.5, 1.0, 2.0, 3.0],
            1 => [1.0, 3.0, 5.0, 1.0, 2.0, 3.0],
            2 => [4.0, 2.0, 3.0, 3.0, 1.0, 1.0],
            _ => [b.missing, 2.0, 1.5, 2.0, 2.0, 3.0],
        })
        .collect();
    let mut ed = ed;
    mark(&mut d, b.missing);
    if n > 0 {
        ed[n - 1][1] = last;
    }
    let ey = [[1.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    let ew = [[1.0, 3.0, 0.5], [1.0, 1.0, 1.0], [2.0, 0.25, 1.0], [1.0, 1.0, 4.0]];
    let m2 = Matrix::new(&d, 6, 2);
    if n == 0 {
        b.fit(&m2, &y, &w, if boolean() { None } else { Some(vec![]) }).unwrap();
        check!(b.trees.len() == b.iterations, "without evaluation data every iteration is trained");
        check!(b.best_iteration.is_none() && b.prediction_iteration.is_none(), "no best iteration without evaluation data");
        return;
    }
    let sets: Vec<_> = (0..n).map(|i| (Matrix::new(&ed[i], 3, 2), &ey[i][..], &ew[i][..])).collect();
    b.fit(&m2, &y, &w, Some(sets)).unwrap();
    let sets: Vec<Set> = (0..n).map(|i| (&ed[i][..], 3, &ey[i][..], &ew[i][..])).collect();
    audit(&b, 2, &sets, &m, true);
}

/// Trees that do not split (no depth, too large a gamma, too large a leaf weight) change the predictions all the same: four iterations, three metrics, one
/// arbitrary target in each of training and evaluation set; no early stopping or one round.
pub fn stumps() {
    let (mut b, m) = booster(pick(&[0, 1]));
    b.iterations = 4;
    b.learning_rate = 0.5;
    b.early_stopping_rounds = pick(&[None, Some(1)]);
    match choice(3) {
        0 => b.max_depth = 0,
        1 => b.gamma = 0.75,
        _ => b.min_leaf_weight = if matches!(m, Metric::LogLoss) { 0.625 } else { 2.5 },
    }
    let d = [1.0, 2.0, 3.0, 4.0];
    let log = matches!(m, Metric::LogLoss);
    let y = [1.0, if log { 0.0 } else { real(-2., 2.) }, 0.0, 1.0];
    let w = [1.0, 2.0, 1.0, 0.5];
    let ed = [1.5, 4.0, if log { real(0., 5.) } else { 2.0 }];
    let ey = [0.0, if log { 1.0 } else { real(-2., 2.) }, 1.0];
    let ew = [1.0, 0.5, 2.0];
    b.fit(&Matrix::new(&d, 4, 1), &y, &w, Some(vec![(Matrix::new(&ed, 3, 1), &ey, &ew)])).unwrap();
    if b.trees.iter().any(|t| t.nodes.len() == 1) {
        cover("stump");
    }
    audit(&b, 1, &[(&ed, 3, &ey, &ew)], &m, true);
}

/// A long training: 120 iterations, patience of 10 or 40 rounds or none, an evaluation set of 600 rows (the training rows disturbed) with one arbitrary feature value.
pub fn long() {
    let n = 600;
    let k = pick(&[0, 1]);
    let (mut b, m) = booster(k);
    b.iterations = 120;
    b.max_depth = 2;
    b.learning_rate = 0.25;
    b.early_stopping_rounds = pick(&[None, Some(10), Some(40)]);
    let (tn, mut d) = (30, super::c02::noise(60, 81));
    d[4] = f64::NAN;
    let y: Vec<f64> = super::c02::noise(tn, 82).iter().map(|v| f64::from(*v > 0.0)).collect();
    let mut ed = super::c02::noise(2 * n, 83);
    ed[7] = real(-2., 2.);
    let ey: Vec<f64> = super::c02::noise(n, 84).iter().map(|v| f64::from(*v > 0.5)).collect();
    let ew: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0][i % 3]).collect();
    b.fit(&Matrix::new(&d, tn, 2), &y, &vec![1.0; tn], Some(vec![(Matrix::new(&ed, n, 2), &ey, &ew)])).unwrap();
    audit(&b, 2, &[(&ed, n, &ey, &ew)], &m, true);
}
