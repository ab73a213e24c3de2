//! Sampling: a tree is grown on exactly the rows and columns sampled for it, the way its sampling
//! method describes, and the same seed gives the same model. Every draw of the generator is arbitrary.
use super::util::*;

/// Which rows a tree was grown on, and with what factor: found from the cover of its root.
fn decode(cover: f64, h: &[f64], factors: &[f64]) -> Vec<f64> {
    let n = h.len();
    let mut f = vec![0usize; n];
    loop {
        let s: f64 = (0..n).map(|i| factors[f[i]] * h[i]).sum();
        if (s - cover).abs() < 5e-4 {
            return f.iter().map(|i| factors[*i]).collect();
        }
        let mut i = 0;
        while i < n {
            f[i] += 1;
            if f[i] < factors.len() {
                break;
            }
            f[i] = 0;
            i += 1;
        }
        if i == n {
            symrt::fail("a tree's root cover is no sum of the hessians of some of the rows");
        }
    }
}

/// Weights and covers of a tree grown on rows `r` with gradient and hessian scaled by `f[r]`.
fn audit_tree(b: &GradientBooster, t: &Tree, d: &[f64], rows: usize, cols: usize, g: &[f64], h: &[f64], f: &[f64]) {
    check_well_formed(t);
    let n = t.nodes.len();
    let (mut gs, mut hs) = (vec![0.0; n], vec![0.0; n]);
    for r in 0..rows {
        if f[r] != 0.0 {
            for i in walk(t, &row(d, rows, cols, r), b.missing) {
                gs[i] += g[r] * f[r];
                hs[i] += h[r] * f[r];
            }
        }
    }
    for (i, nd) in t.nodes.iter().enumerate() {
        check!(close(f64::from(nd.hessian_sum), hs[i]), "a node's cover is the hessian sum of the sampled rows routed to it");
        if hs[i] > 0.0 {
            let opt = opt_weight(gs[i], hs[i], f64::from(b.l1), f64::from(b.l2), 0.0);
            check!(close(f64::from(nd.weight_value), f64::from(b.learning_rate) * opt), "a node's weight is the optimum of the sampled rows routed to it");
        }
    }
}

fn data() -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    // Hessians (weights) whose subset sums are all different.
    let d = vec![1.0, 2.0, 3.0, 4.0, f64::NAN, 6.0, 2.0, 2.0, 1.0, 3.0, 1.0, 3.0];
    let y = vec![2.0, -1.0, 0.5, 3.0, -0.25, 1.5];
    let w = vec![1.0, 2.0, 4.0, 8.0, 16.0, 32.0];
    (d, y, w)
}

/// Random row sampling, two trees on 5 rows, every subset of rows at every iteration, arbitrary rate (or exactly 1):
/// each row is in iff its draw is below the rate; every row's score is updated, sampled or not; both missing modes.
pub fn random_rows() {
    let (d, y, w) = data();
    let n = 5;
    let mut d: Vec<f64> = d[..n].iter().chain(&d[6..6 + n]).copied().collect();
    let (y, w) = (y[..n].to_vec(), w[..n].to_vec());
    let mut b = small();
    b.iterations = 2;
    b.max_depth = 2;
    b.l2 = 1.0;
    b.create_missing_branch = boolean();
    b.missing = marker(if b.create_missing_branch { 2 } else { 1 });
    mark(&mut d, b.missing);
    b.missing_node_treatment = MissingNodeTreatment::None;
    b.allow_missing_splits = false;
    b.sample_method = SampleMethod::Random;
    let all = boolean();
    b.subsample = if all { 1.0 } else { real32(0.05, 0.95) };
    let rate = f64::from(b.subsample);
    rand::verif_clear_draws();
    let m = Matrix::new(&d, n, 2);
    b.fit(&m, &y, &w, None).unwrap();
    let draws = rand::verif_draws();
    check!(b.trees.len() == 2, "one tree per iteration");
    let mut yhat = vec![b.base_score; n];
    for (k, t) in b.trees.iter().enumerate() {
        let (g, h) = grad_hess(&b.objective_type, &y, &yhat, &w);
        let f = decode(f64::from(t.nodes[0].hessian_sum), &h, &[0.0, 1.0]);
        if all {
            check!(f.iter().all(|x| *x == 1.0), "at rate 1 every row is used");
        }
        let mut c = 0;
        for r in 0..n {
            if f[r] != 0.0 {
                c += 1;
            }
        }
        if draws.len() == 2 * n {
            let mut below = 0;
            for x in &draws[k * n..(k + 1) * n] {
                if *x < rate {
                    below += 1;
                }
            }
            check!(c == below, "the rows used are those whose draw is below the sampling rate");
        }
        if !b.create_missing_branch {
            audit_tree(&b, t, &d, n, 2, &g, &h, &f);
        }
        for r in 0..n {
            yhat[r] += f64::from(t.nodes[route(t, &row(&d, n, 2, r), b.missing)].weight_value);
        }
    }
    let p = b.predict(&m, false);
    for r in 0..n {
        check!(close(p[r], yhat[r]), "predictions add up the trees");
    }
}

/// Gradient based one-side sampling, 6 rows, one root with one arbitrary target or two trees with fixed ones: the rows with the largest gradients
/// are all used as they are, the others are dropped or used with factor (1 - top) / other, as many as draws below
/// other * n / (n - top * n); four rate pairs.
pub fn goss() {
    let (d, mut y, _) = data();
    // All sums of these with factors 0, 1 and (1 - top) / other differ.
    let w = [15.46875, 9.65625, 18.03125, 12.15625, 19.703125, 17.6875];
    let n = 6;
    let mut b = small();
    b.iterations = 2;
    b.max_depth = 2;
    b.sample_method = SampleMethod::Goss;
    let (top, other) = pick(&[(0.25, 0.5), (0.5, 0.25), (0.375, 0.25), (0.5, 0.75)]);
    b.top_rate = top;
    b.other_rate = other;
    b.l2 = 1.0;
    if boolean() {
        b.iterations = 1;
        b.max_depth = 0;
        y[choice(2) * 3] = real(-4., 5.);
    }
    rand::verif_clear_draws();
    let m = Matrix::new(&d, n, 2);
    b.fit(&m, &y, &w, None).unwrap();
    let draws = rand::verif_draws();
    let fact = (1.0 - top) / other;
    let top_n = (top * n as f64) as usize;
    let rand_n = (other * n as f64) as usize;
    let sub = rand_n as f64 / (n - top_n) as f64;
    let mut yhat = vec![b.base_score; n];
    for (k, t) in b.trees.iter().enumerate() {
        let (g, h) = grad_hess(&b.objective_type, &y, &yhat, &w);
        let f = decode(f64::from(t.nodes[0].hessian_sum), &h, &[0.0, 1.0, fact]);
        let mut sampled = 0;
        let mut top = 0;
        for r in 0..n {
            if f[r] == 1.0 {
                top += 1;
                for s in 0..n {
                    if f[s] != 1.0 {
                        check!(g[r].abs() >= g[s].abs() - 1e-4, "the rows kept as they are have the largest gradients");
                    }
                }
            } else if f[r] != 0.0 {
                sampled += 1;
            }
        }
        check!(top == top_n, "the share of rows with large gradients that is kept is the top rate");
        if draws.len() == b.iterations * (n - top_n) {
            let mut below = 0;
            for x in &draws[k * (n - top_n)..(k + 1) * (n - top_n)] {
                if *x < sub {
                    below += 1;
                }
            }
            check!(sampled == below, "the rows sampled from the rest are those whose draw is below the rate");
        }
        audit_tree(&b, t, &d, n, 2, &g, &h, &f);
        for r in 0..n {
            yhat[r] += f64::from(t.nodes[route(t, &row(&d, n, 2, r), b.missing)].weight_value);
        }
    }
}

/// Column sampling: two trees on four columns (one of arbitrary values), every subset that can be drawn: at most
/// floor(rate * columns) features in a tree, and its root is the best split among a set of that many features.
pub fn columns() {
    let n = 5;
    let mut d = vec![1.0, 2.0, 3.0, 4.0, 5.0, 1.0, 1.0, 2.0, 2.0, 2.0, 5.0, 1.0, 4.0, 2.0, 3.0];
    let y = [2.0, -1.0, 0.5, 3.0, -0.25];
    let w = [1.0; 5];
    for r in 0..n {
        d.push(if r < 2 { real(0., 6.) } else { r as f64 });
    }
    let mut b = small();
    b.iterations = 2;
    b.max_depth = 2;
    b.l2 = 1.0;
    b.colsample_bytree = pick(&[0.25, 0.5, 0.8, 1.0, 0.6, 0.4, 0.9, 0.2]);
    let amount = (4.0 * b.colsample_bytree).floor() as usize;
    let m = Matrix::new(&d, n, 4);
    b.fit(&m, &y, &w, None).unwrap();
    let mut yhat = vec![b.base_score; n];
    for t in &b.trees {
        let mut used = HashSet::new();
        for nd in &t.nodes {
            if !nd.is_leaf {
                used.insert(nd.split_feature);
            }
        }
        check!(used.len() <= amount, "a tree uses no more features than were sampled for it");
        let (g, h) = grad_hess(&b.objective_type, &y, &yhat, &w);
        // Best gain of every feature at the root.
        let mut best = vec![0.0f64; 4];
        let (tg, th): (f64, f64) = (g.iter().sum(), h.iter().sum());
        for c in 0..4 {
            for v in 0..n {
                let cut = d[c * n + v];
                let (mut lg, mut lh) = (0.0, 0.0);
                for r in 0..n {
                    if d[c * n + r] < cut {
                        lg += g[r];
                        lh += h[r];
                    }
                }
                if lh > 0.0 {
                    let gain = lg * lg / (lh + 1.0) + (tg - lg) * (tg - lg) / (th - lh + 1.0) - tg * tg / (th + 1.0);
                    if gain > best[c] {
                        best[c] = gain;
                    }
                }
            }
        }
        let mut above = 0;
        let own = if t.nodes[0].is_leaf { 0.0 } else { best[t.nodes[0].split_feature] };
        for c in 0..4 {
            if best[c] > own + 1e-4 {
                above += 1;
            }
        }
        check!(above <= 4 - amount, "the split is the best of the sampled features");
        if above > 0 {
            cover("best feature not sampled");
        }
        for r in 0..n {
            yhat[r] += f64::from(t.nodes[route(t, &row(&d, n, 4, r), b.missing)].weight_value);
        }
    }
}

/// The same seed and parameters give the same model: all sampling methods with column sampling, any draws.
pub fn same_seed() {
    let (d, y, w) = data();
    let n = 4;
    let d: Vec<f64> = d[..n].iter().chain(&d[6..6 + n]).copied().collect();
    let (y, w) = (y[..n].to_vec(), w[..n].to_vec());
    let mk = |s: usize, c: f64| {
        let mut b = small();
        b.iterations = 2;
        b.max_depth = 2;
        b.l2 = 1.0;
        b.sample_method = if s == 0 { SampleMethod::Random } else { SampleMethod::Goss };
        b.subsample = 0.5;
        b.top_rate = 0.5;
        b.other_rate = 0.25;
        b.colsample_bytree = c;
        b.seed = 7;
        b
    };
    let (s, c) = (choice(2), pick(&[0.5, 1.0]));
    let m = Matrix::new(&d, n, 2);
    let mut a = mk(s, c);
    let mut b = mk(s, c);
    a.fit(&m, &y, &w, None).unwrap();
    b.fit(&m, &y, &w, None).unwrap();
    same_trees(&a, &b, "two fits with one seed give the same trees");
    // Refitting is fitting.
    b.fit(&m, &y, &w, None).unwrap();
    same_trees(&a, &b, "fitting again with one seed gives the same trees");
}

/// Rows and columns are drawn anew for every tree, at the rate asked for: 40 trees, pseudo random draws, 8 rows with one arbitrary target
/// (so that every order of the gradients occurs), row sampling at two rates, GOSS at two, and columns at two.
pub fn drawn_anew() {
    let n = 8;
    let k = choice(6);
    let mut b = small();
    b.iterations = 40;
    b.learning_rate = 0.05;
    b.max_depth = 0;
    b.l2 = 1.0;
    b.seed = 5;
    let w: Vec<f64> = (0..n).map(|i| f64::from(1 << (2 * i)) / 16.0).collect();
    let mut y = vec![2.0, -1.0, 0.5, 3.0, -0.25, 1.5, -2.0, 1.0];
    let mut d: Vec<f64> = (0..n).map(|i| i as f64).collect();
    for c in [[0.0, 1.0, 0.0, 1.0, 0.0, 1.0, 0.0, 1.0], [0.0, 0.0, 1.0, 1.0, 0.0, 1.0, 1.0, 0.0], [3.0, 1.0, 2.0, 5.0, 4.0, 1.0, 2.0, 6.0]] {
        d.extend(c);
    }
    let m = Matrix::new(&d, n, 4);
    rand::verif_pseudo(true);
    if k < 4 {
        let ones = vec![1.0; n];
        // Of the rows, `rate` take part beyond the ones that always do.
        let (rate, always, factor) = match k {
            0 | 1 => {
                b.sample_method = SampleMethod::Random;
                b.subsample = [0.25, 0.75][k];
                y[1] = real(-4., 4.);
                (f64::from(b.subsample), 0, 1.0)
            }
            _ => {
                b.sample_method = SampleMethod::Goss;
                b.top_rate = 0.25;
                b.other_rate = [0.25, 0.5][k - 2];
                (b.other_rate / 0.75, 2, 0.75 / b.other_rate)
            }
        };
        let w = if k < 2 { &w } else { &ones };
        b.fit(&m, &y, w, None).unwrap();
        let mut sets = Vec::new();
        let mut total = 0.0;
        for t in &b.trees {
            let c = f64::from(t.nodes[0].hessian_sum);
            if k < 2 {
                let f = decode(c, w, &[0.0, 1.0]);
                total += f.iter().sum::<f64>();
                sets.push(f);
            } else {
                total += (c - f64::from(always)) / factor;
                sets.push(vec![c]);
            }
        }
        check!(sets.iter().any(|s| *s != sets[0]), "the rows are drawn anew for every tree");
        if k < 2 {
            for r in 0..n {
                check!(sets.iter().any(|s| s[r] == 0.0) && sets.iter().any(|s| s[r] == 1.0), "every row takes part in some trees and not in others");
            }
        }
        let want = rate * f64::from(40 * (8 - always));
        check!(total > 0.6 * want && total < 1.4 * want, "rows take part at the rate asked for");
    } else {
        b.max_depth = 1;
        b.colsample_bytree = [0.25, 0.5][k - 4];
        if k == 5 {
            b.iterations = 12;
            y[1] = real(-1., -0.5);
        } else {
            d[1] = real(0., 7.);
        }
        let m = Matrix::new(&d, n, 4);
        b.fit(&m, &y, &vec![1.0; n], None).unwrap();
        let mut used = HashSet::new();
        for t in &b.trees {
            if !t.nodes[0].is_leaf {
                used.insert(t.nodes[0].split_feature);
            }
        }
        check!(used.len() >= [4, 2][k - 4], "the columns are drawn anew for every tree");
    }
    rand::verif_pseudo(false);
}

/// Sizes: 600 rows sampled at random or by GOSS (the number of rows kept as they are, and multiples of the factor, show in the root's cover), or 80 columns of which
/// 30 are drawn; pseudo random draws, one arbitrary feature value.
pub fn sizes() {
    let k = choice(3);
    let (n, cols) = if k == 2 { (12, 80) } else { (600, 2) };
    let mut b = small();
    b.iterations = 12;
    b.max_depth = 2;
    b.l2 = 1.0;
    b.learning_rate = 0.1;
    b.seed = 3;
    b.parallel = boolean();
    let mut d = super::c02::noise(n * cols, 101);
    let y = super::c02::noise(n, 102);
    d[1] = if n > 100 { real(-0.1, 0.1) } else { real(-2., 2.) };
    match k {
        0 => {
            b.sample_method = SampleMethod::Random;
            b.subsample = 0.75;
        }
        1 => {
            b.sample_method = SampleMethod::Goss;
            b.top_rate = 0.25;
            b.other_rate = 0.125;
        }
        _ => b.colsample_bytree = 0.375,
    }
    rand::verif_pseudo(true);
    b.fit(&Matrix::new(&d, n, cols), &y, &vec![1.0; n], None).unwrap();
    rand::verif_pseudo(false);
    let mut used = HashSet::new();
    for t in &b.trees {
        let c = f64::from(t.nodes[0].hessian_sum);
        match k {
            0 => check!(c > 390.0 && c < 510.0 && c == c.round(), "a share of about subsample of the rows takes part"),
            1 => {
                let rest = (c - 150.0) / 6.0;
                check!((rest - rest.round()).abs() < 1e-3, "the top rate share of the rows takes part as it is, the others with their factor");
                check!(rest > 45.0 && rest < 110.0, "a share of about other_rate of the rows takes part besides");
            }
            _ => {}
        }
        let here: HashSet<usize> = t.nodes.iter().filter(|n| !n.is_leaf).map(|n| n.split_feature).collect();
        check!(k < 2 || here.len() <= 30, "a tree uses no more features than were sampled for it");
        used.extend(here);
    }
    if k == 2 {
        check!(used.iter().any(|f| *f >= 64) && used.iter().any(|f| *f < 16), "columns are drawn from all columns");
    }
}
