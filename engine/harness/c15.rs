//! Metrics are what their definitions say, for all predictions, ties and weights.
use super::c12::metric;
use super::util::*;
use crate::metric::{is_comparison_better, metric_callables};

/// AUC of 4 (thorough: 5) rows with arbitrary predictions (every order and tie) and every labelling: the weighted share of
/// (positive, negative) pairs ranked correctly, ties counting half; NaN when a class is absent; maximised.
pub fn auc() {
    let n = if thorough() { 5 } else { 4 };
    let y: Vec<f64> = (0..n).map(|_| choice(2) as f64).collect();
    let p: Vec<f64> = (0..n).map(|_| real(-8., 8.)).collect();
    let w = pick(&[[1.0; 5], [2.0, 0.5, 3.0, 1.25, 0.75], [2.0, 0.0, 0.25, 0.0, 1.0]])[..n].to_vec();
    let (f, maximize) = metric_callables(&Metric::AUC);
    check!(maximize, "AUC is maximised");
    let got = f(&y, &p, &w);
    let want = metric(&Metric::AUC, &y, &p, &w);
    check!((got.is_nan() && want.is_nan()) || close(got, want), "AUC is the share of correctly ranked pairs");
}

/// LogLoss, RMSE and RMSLE of 3 rows, eight sets of predictions and targets: one arbitrary target (LogLoss, RMSE), weight
/// (all) or prediction (RMSE); minimised.
pub fn losses() {
    let m = pick(&[Metric::LogLoss, Metric::RootMeanSquaredError, Metric::RootMeanSquaredLogError]);
    let what = match m {
        Metric::LogLoss => choice(2),
        Metric::RootMeanSquaredError => choice(3),
        _ => 1,
    };
    loss(m, what)
}
/// The same with an arbitrary prediction or target inside exp or ln, which are uninterpreted with axioms.
pub fn losses_uf() {
    match choice(3) {
        0 => loss(Metric::LogLoss, 2),
        k => loss(Metric::RootMeanSquaredLogError, 2 * (k - 1)),
    }
}
fn loss(m: Metric, what: usize) {
    let n = 3;
    let (f, maximize) = metric_callables(&m);
    check!(!maximize, "losses are minimised");
    let k = choice(8);
    let log1p = matches!(m, Metric::RootMeanSquaredLogError);
    let mut y = if log1p { vec![1.0 + k as f64, 0.0, 30.5] } else { vec![1.0, 0.0, 0.5] };
    let mut p = match (k, log1p) {
        (0, _) => vec![0.25, 1.5, -0.5],
        (1, false) => vec![-3.0, 30.0, 2.0],
        (2, false) => vec![16.0, -16.0, 0.0],
        (3, false) => vec![-30.0, 5.0, -8.0],
        (4, false) => vec![-1.0, -1.0, -1.0],
        (5, false) => vec![45.0, -800.0, 40.0],
        (i, _) => vec![0.5 * i as f64, 100.0 / i as f64, 0.0],
    };
    let mut w = if k % 2 == 0 { vec![1.0, 2.5, 0.5] } else { vec![0.125, 0.0625, 0.25] };
    let at = choice(n);
    match what {
        0 => y[at] = real(0., 1.),
        1 => w[at] = real(0., 8.),
        _ => p[at] = real(-0.5, 8.),
    }
    let got = f(&y, &p, &w);
    let ws = w[0] + w[1] + w[2];
    let mut s = 0.0;
    for i in 0..n {
        s += w[i]
            * match m {
                Metric::LogLoss => log_loss(y[i], p[i]),
                Metric::RootMeanSquaredError => (y[i] - p[i]) * (y[i] - p[i]),
                _ => {
                    let d = y[i].ln_1p() - p[i].ln_1p();
                    d * d
                }
            };
    }
    if matches!(m, Metric::LogLoss) {
        check!(close(got * ws, s), "log loss is the weighted mean of the rows' losses");
    } else {
        check!(got >= 0.0 && close(got * got * ws, s), "the root of the weighted mean of the rows' squared errors");
    }
}

/// Comparison of metric values: arbitrary numbers or NaN, both directions: strictly better only, NaN loses.
pub fn comparison() {
    let v = if boolean() { f64::NAN } else { real(-9., 9.) };
    let c = if boolean() { f64::NAN } else { real(-9., 9.) };
    let maximize = boolean();
    let got = is_comparison_better(v, c, maximize);
    let want = !c.is_nan() && (v.is_nan() || if maximize { c > v } else { c < v });
    check!(got == want, "a value is better iff strictly better, and NaN is never better");
}

/// Predictions of zero of either sign are equal, infinite ones are the largest; very close ones differ; one arbitrary prediction.
pub fn auc_special() {
    let y = [1.0, 0.0, 0.0, 1.0, 0.0, 1.0];
    let w = [1.0, 2.0, 0.5, 0.25, 1.0, 3.0];
    let mut p = match choice(4) {
        0 => [0.0, -0.0, 0.0, -0.0, 1.0, -1.0],
        1 => [f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, 1.0, f64::INFINITY, f64::NEG_INFINITY],
        2 => [1.0, 1.0 + f64::EPSILON, 1.0, 1.0 - 1e-12, 1.0 + 1e-12, 1.0],
        _ => [1e-30, 0.0, -1e-30, 1e-31, 2e-30, 0.0],
    };
    p[choice(6)] = real(-2., 2.);
    let got = metric_callables(&Metric::AUC).0(&y, &p, &w);
    check!(close(got, metric(&Metric::AUC, &y, &p, &w)), "AUC is the share of correctly ranked pairs");
}

/// 1100 rows with many ties, one arbitrary prediction (RMSE, AUC), target (LogLoss) or weight (RMSLE).
pub fn sizes() {
    let n = 1100;
    let m = pick(&[Metric::AUC, Metric::LogLoss, Metric::RootMeanSquaredError, Metric::RootMeanSquaredLogError]);
    let mut y: Vec<f64> = super::c02::noise(n, 111).iter().map(|v| f64::from(*v > 0.0)).collect();
    let mut p: Vec<f64> = super::c02::noise(n, 112).iter().map(|v| (v * 16.0).round() / 16.0).collect();
    let mut w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0, 0.0][i % 4]).collect();
    match m {
        Metric::LogLoss => y[1037] = real(0., 1.),
        Metric::RootMeanSquaredLogError => {
            w[1037] = real(0., 8.);
            p = p.iter().map(|v| v.abs()).collect();
        }
        _ => p[1037] = real(-3., 3.),
    }
    let got = metric_callables(&m).0(&y, &p, &w);
    match m {
        Metric::AUC => check!(close(got, metric(&m, &y, &p, &w)), "AUC is the share of correctly ranked pairs"),
        _ => {
            let ws: f64 = w.iter().sum();
            let mut s = 0.0;
            for i in 0..n {
                s += w[i]
                    * match m {
                        Metric::LogLoss => log_loss(y[i], p[i]),
                        Metric::RootMeanSquaredError => (y[i] - p[i]) * (y[i] - p[i]),
                        _ => (y[i].ln_1p() - p[i].ln_1p()) * (y[i].ln_1p() - p[i].ln_1p()),
                    };
            }
            let total = if matches!(m, Metric::LogLoss) { got } else { got * got };
            check!(got >= 0.0 && close(total * ws, s), "the (root of the) weighted mean of the rows' losses");
        }
    }
}
