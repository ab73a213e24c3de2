//! Objectives: gradients and hessians are the derivatives of the loss, and the automatic base score is its
//! minimiser.
use super::util::*;
use crate::objective::{calc_init_callables, gradient_hessian_callables, LogLoss, ObjectiveFunction, SquaredLoss};

/// Squared loss: two rows with arbitrary target, prediction and weight; gradient is weight * (prediction - target), hessian the weight.
pub fn squared() {
    let n = 2;
    let s = pick(&[50.0, 1e12]);
    let y: Vec<f64> = (0..n).map(|_| real(-s, s)).collect();
    let p: Vec<f64> = (0..n).map(|_| real(-s, s)).collect();
    let w: Vec<f64> = (0..n).map(|_| real(0., s)).collect();
    let (g, h) = gradient_hessian_callables(&ObjectiveType::SquaredLoss)(&y, &p, &w);
    check!(g.len() == n && h.len() == n, "one gradient and hessian per row");
    for i in 0..n {
        check!(close(f64::from(g[i]), w[i] * (p[i] - y[i])), "squared loss gradient");
        check!(close(f64::from(h[i]), w[i]), "squared loss hessian");
    }
}

/// Log loss: two rows, arbitrary target in [0, 1] and weight, predictions from -700 to 700 (25 of them): gradient is
/// weight * (sigmoid - target), hessian weight * sigmoid * (1 - sigmoid), both inside their ranges, whatever the other row.
pub fn log_loss() {
    let n = 2;
    let y: Vec<f64> = (0..n).map(|_| real(0., 1.)).collect();
    let grid = [
        -700.0, -60.0, -40.0, -36.0, -31.0, -20.0, -16.0, -10.0, -5.0, -2.0, -1.0, -0.25, 0.0, 0.25, 1.0, 2.0, 5.0, 10.0, 16.0, 20.0,
        31.0, 36.0, 40.0, 60.0, 700.0,
    ];
    let k = choice(grid.len());
    let p = vec![grid[k], grid[(k + 8) % grid.len()]];
    let w: Vec<f64> = (0..n).map(|_| real(0., 8.)).collect();
    let (g, h) = gradient_hessian_callables(&ObjectiveType::LogLoss)(&y, &p, &w);
    check!(g.len() == n && h.len() == n, "one gradient and hessian per row");
    for i in 0..n {
        let q = sigmoid(p[i]);
        check!(close(f64::from(g[i]), w[i] * (q - y[i])), "log loss gradient");
        check!(close(f64::from(h[i]), w[i] * q * (1.0 - q)), "log loss hessian");
        check!(f64::from(h[i]) >= 0.0 && f64::from(h[i]) <= w[i] * 0.25 + 1e-6, "log loss hessian inside its range");
    }
    // To six digits, also where they are tiny.
    let (y, w) = ([0.0, 1.0], [pick(&[1.0, 1e-6, 1e6]), 2.0]);
    let (g, h) = gradient_hessian_callables(&ObjectiveType::LogLoss)(&y, &p, &w);
    for i in 0..n {
        let q = sigmoid(p[i]);
        let near = |a: f32, b: f64| (f64::from(a) - b).abs() <= 1e-6 * b.abs() + 1e-9 * w[i];
        check!(near(g[i], w[i] * (q - y[i])), "log loss gradient to six digits");
        check!(near(h[i], w[i] * q * (1.0 - q)), "log loss hessian to six digits");
    }
}

/// 1100 rows: each row has its own gradient and hessian, and the automatic base score is that of all of them; one arbitrary target and weight; also the loss itself.
pub fn sizes() {
    let n = 1100;
    let squared = boolean();
    let o = if squared { ObjectiveType::SquaredLoss } else { ObjectiveType::LogLoss };
    let mut y: Vec<f64> = super::c02::noise(n, 121).iter().map(|v| f64::from(*v > 0.5)).collect();
    let p = super::c02::noise(n, 122);
    let mut w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0, 0.25][i % 4]).collect();
    let s = calc_init_callables(&o)(&y, &w);
    let q = if squared { s } else { sigmoid(s) };
    let t: f64 = (0..n).map(|i| w[i] * (q - y[i])).sum();
    check!(t.abs() < 1e-6, "with the base score the gradients cancel");
    y[1050] = real(0., 1.);
    w[1040] = real(0., 8.);
    let (g, h) = gradient_hessian_callables(&o)(&y, &p, &w);
    let l = if squared { SquaredLoss::calc_loss(&y, &p, &w) } else { LogLoss::calc_loss(&y, &p, &w) };
    check!(g.len() == n && h.len() == n && l.len() == n, "one gradient, hessian and loss per row");
    for i in 0..n {
        let q = sigmoid(p[i]);
        let (gw, hw, lw) = if squared {
            (w[i] * (p[i] - y[i]), w[i], w[i] * (p[i] - y[i]) * (p[i] - y[i]))
        } else {
            (w[i] * (q - y[i]), w[i] * q * (1.0 - q), w[i] * super::util::log_loss(y[i], p[i]))
        };
        check!(close(f64::from(g[i]), gw), "every row's gradient is its own");
        check!(close(f64::from(h[i]), hw), "every row's hessian is its own");
        check!(close(f64::from(l[i]), lw), "every row's loss is its own");
    }
}

/// The same with arbitrary predictions, exp being an uninterpreted function with axioms.
pub fn log_loss_uf() {
    let n = 2;
    let y: Vec<f64> = (0..n).map(|_| real(0., 1.)).collect();
    let p: Vec<f64> = (0..n).map(|_| real(-20., 20.)).collect();
    let w: Vec<f64> = (0..n).map(|i| if i == 0 { real(0., 8.) } else { 2.5 }).collect();
    let (g, h) = gradient_hessian_callables(&ObjectiveType::LogLoss)(&y, &p, &w);
    for i in 0..n {
        let q = sigmoid(p[i]);
        check!(close(f64::from(g[i]), w[i] * (q - y[i])), "log loss gradient");
        check!(close(f64::from(h[i]), w[i] * q * (1.0 - q)), "log loss hessian");
    }
}

/// The automatic base score of log loss, one arbitrary target and weight, ln and exp being uninterpreted with axioms.
pub fn initial_score_uf() {
    let y = [real(0.01, 0.99), 1.0, 0.0];
    let w = [1.0, real(0.25, 8.), 0.5];
    let q = sigmoid(calc_init_callables(&ObjectiveType::LogLoss)(&y, &w));
    let mut t = 0.0;
    for i in 0..3 {
        t += w[i] * (q - y[i]);
    }
    check!(close(t, 0.0), "the base score's probability is the weighted mean of the targets");
}

/// The automatic base score: squared loss with 3 rows, arbitrary targets and one arbitrary weight; log loss with 27
/// target vectors and fixed weights: with it the gradients of the training rows cancel. Also through a fit without iterations.
pub fn initial_score() {
    let n = 3;
    let squared = boolean();
    let o = if squared { ObjectiveType::SquaredLoss } else { ObjectiveType::LogLoss };
    let (y, w) = if squared {
        ((0..n).map(|_| real(-50., 50.)).collect::<Vec<f64>>(), vec![1.0, real(0.25, 8.), 0.5])
    } else {
        ((0..n).map(|_| pick(&[0.0, 1.0, 0.3])).collect::<Vec<f64>>(), vec![1.0, 2.5, 0.5])
    };
    let mut b = small();
    b.objective_type = o;
    b.iterations = 0;
    b.initialize_base_score = boolean();
    b.base_score = 0.25;
    let d = [1.0, 2.0, 3.0];
    let m = Matrix::new(&d, 3, 1);
    b.fit(&m, &y, &w, None).unwrap();
    let p = b.predict(&m, false);
    for s in p {
        if !b.initialize_base_score {
            check!(close(s, 0.25), "without trees the prediction is the base score");
            continue;
        }
        let q = if squared { s } else { sigmoid(s) };
        let mut t = 0.0;
        for i in 0..n {
            t += w[i] * (q - y[i]);
        }
        check!(close(t, 0.0), "the base score is the minimiser of the loss");
    }
}
