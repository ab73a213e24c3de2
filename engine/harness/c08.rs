//! Additive contributions: Weight, Average, Shapley and ProbabilityChange contributions of a row sum
//! to its prediction, and each is what its definition says.
use super::util::*;

pub fn shapes(k: usize) -> Sk {
    let m = any_miss;
    match k {
        0 => Sk::L,
        1 => sk(0, m(), sk(1, m(), Sk::L, Sk::L), Sk::L),
        2 => sk(1, m(), Sk::L, sk(1, m(), Sk::L, Sk::L)),
        3 => sk3(0, sk(1, Miss::Left, Sk::L, Sk::L), Sk::L, sk(1, Miss::Right, Sk::L, Sk::L)),
        _ => sk(0, m(), sk(1, Miss::Own, Sk::L, Sk::L), sk(0, Miss::Left, Sk::L, sk(1, Miss::Right, Sk::L, Sk::L))),
    }
}

pub fn mean(t: &Tree, i: usize) -> f64 {
    let n = &t.nodes[i];
    if n.is_leaf {
        return f64::from(n.weight_value);
    }
    let mut kids = vec![n.left_child, n.right_child];
    if ternary(n) {
        kids.push(n.missing_node);
    }
    let (mut s, mut c) = (0.0, 0.0);
    for k in kids {
        let h = f64::from(t.nodes[k].hessian_sum);
        s += h * mean(t, k);
        c += h;
    }
    s / c
}

fn path_deltas(t: &Tree, row: &[f64], missing: f64, value: &dyn Fn(usize) -> f64, out: &mut [f64]) {
    let n = out.len() - 1;
    out[n] += value(0);
    let p = walk(t, row, missing);
    for s in p.windows(2) {
        out[t.nodes[s[0]].split_feature] += value(s[1]) - value(s[0]);
    }
}

/// Expectation of the tree when only the features in `known` are known.
pub fn expect(t: &Tree, i: usize, row: &[f64], missing: f64, known: usize) -> f64 {
    let n = &t.nodes[i];
    if n.is_leaf {
        return f64::from(n.weight_value);
    }
    if known >> n.split_feature & 1 == 1 {
        return expect(t, child(n, row[n.split_feature], missing), row, missing, known);
    }
    let mut kids = vec![n.left_child, n.right_child];
    if ternary(n) {
        kids.push(n.missing_node);
    }
    let (mut s, mut c) = (0.0, 0.0);
    for k in kids {
        let h = f64::from(t.nodes[k].hessian_sum);
        s += h * expect(t, k, row, missing, known);
        c += h;
    }
    s / c
}

fn shapley(t: &Tree, row: &[f64], missing: f64, out: &mut [f64]) {
    let f = row.len();
    let fact = |n: usize| (1..=n).product::<usize>() as f64;
    out[f] += expect(t, 0, row, missing, 0);
    for i in 0..f {
        for s in 0..1usize << f {
            if s >> i & 1 == 1 {
                continue;
            }
            let k = s.count_ones() as usize;
            let c = fact(k) * fact(f - k - 1) / fact(f);
            out[i] += c * (expect(t, 0, row, missing, s | 1 << i) - expect(t, 0, row, missing, s));
        }
    }
}

fn value(missing: f64) -> f64 {
    if boolean() {
        missing
    } else {
        real(-4., 4.)
    }
}

fn covers() -> Vec<f32> {
    pick(&[vec![2.0, 1.0, 3.0, 0.5], vec![1.0, 5.0, 2.0]])
}

/// Two trees (five shapes with every missing direction, depth up to 3, repeated features, missing branches, also
/// empty ones) with arbitrary leaf and node weights and split values, two rows of two features with arbitrary or missing
/// values, arbitrary base score; serial and parallel.
pub fn tree_methods() {
    let missing = pick(&[f64::NAN, -3.0]);
    let o = TreeOpts { weights: true, covers: covers(), gains: false };
    let mut b = small();
    b.missing = missing;
    b.base_score = real(-2., 2.);
    let k = choice(5);
    b.trees = vec![build(&shapes(k), &o), build(&sk(0, Miss::Left, Sk::L, Sk::L), &TreeOpts { weights: false, covers: vec![1.0, 2.0], gains: false })];
    let r = [[value(missing), value(missing)], [0.25, missing]];
    let d = [r[0][0], r[1][0], r[0][1], r[1][1]];
    let m = Matrix::new(&d, 2, 2);
    let par = boolean();
    let pred = b.predict(&m, false);
    for method in 0..3 {
        let got = b.predict_contributions(
            &m,
            match method {
                0 => ContributionsMethod::Weight,
                1 => ContributionsMethod::Average,
                _ => ContributionsMethod::Shapley,
            },
            par,
        );
        check!(got.len() == 6, "one contribution per row and feature, and the bias");
        for i in 0..2 {
            let g = &got[i * 3..i * 3 + 3];
            let mut want = vec![0.0, 0.0, b.base_score];
            for t in &b.trees {
                match method {
                    0 => path_deltas(t, &r[i], missing, &|j| f64::from(t.nodes[j].weight_value), &mut want),
                    1 => path_deltas(t, &r[i], missing, &|j| mean(t, j), &mut want),
                    _ => shapley(t, &r[i], missing, &mut want),
                }
            }
            match method {
                0 => check!(close(g[0] + g[1] + g[2], pred[i]), "Weight contributions sum to the prediction"),
                1 => check!(close(g[0] + g[1] + g[2], pred[i]), "Average contributions sum to the prediction"),
                _ => check!(close(g[0] + g[1] + g[2], pred[i]), "Shapley contributions sum to the prediction"),
            }
            for j in 0..3 {
                match method {
                    0 => check!(close(g[j], want[j]), "a Weight contribution is the change of node weight along the row's path"),
                    1 => check!(close(g[j], want[j]), "an Average contribution is the change of mean leaf weight along the row's path"),
                    _ => check!(close(g[j], want[j]), "a Shapley contribution is the Shapley value of the feature"),
                }
            }
        }
    }
}

/// Shapley values with three features, depth 3 and repeated features; empty missing branches.
pub fn shapley_three() {
    let s = match choice(4) {
        0 => sk(0, Miss::Left, sk(1, Miss::Right, Sk::L, sk(2, Miss::Left, Sk::L, Sk::L)), sk(2, Miss::Left, sk(0, Miss::Left, Sk::L, Sk::L), Sk::L)),
        1 => sk(2, Miss::Right, sk(2, Miss::Left, Sk::L, sk(1, Miss::Left, Sk::L, Sk::L)), sk(2, Miss::Right, Sk::L, Sk::L)),
        2 => sk3(1, sk3(0, Sk::L, Sk::L, Sk::L), sk3(2, Sk::L, Sk::L, Sk::L), Sk::L),
        _ => sk3(0, sk3(0, Sk::L, Sk::L, Sk::L), Sk::L, sk3(1, Sk::L, Sk::L, Sk::L)),
    };
    let covers = pick(&[vec![0.0, 2.0, 1.0, 0.0, 3.0, 0.5, 1.0], vec![1.0, 2.0, 4.0]]);
    let t = build(&s, &TreeOpts { weights: true, covers, gains: false });
    // A branch with rows has a cover; only missing branches may be empty.
    assume(t.nodes.iter().all(|n| n.is_leaf || (t.nodes[n.left_child].hessian_sum > 0.0 && t.nodes[n.right_child].hessian_sum > 0.0 && n.hessian_sum > 0.0)));
    let mut b = small();
    b.base_score = 0.0;
    b.trees = vec![t];
    let r: Vec<f64> = (0..3).map(|i| if i == 1 { value(f64::NAN) } else { real(-4., 4.) }).collect();
    let m = Matrix::new(&r, 1, 3);
    let g = b.predict_contributions(&m, ContributionsMethod::Shapley, false);
    let mut want = vec![0.0; 4];
    shapley(&b.trees[0], &r, f64::NAN, &mut want);
    for j in 0..4 {
        check!(close(g[j], want[j]), "a Shapley contribution is the Shapley value of the feature");
    }
    check!(close(g.iter().sum::<f64>(), b.predict(&m, false)[0]), "Shapley contributions sum to the prediction");
}

/// ProbabilityChange: telescoping probabilities along the paths of two trees, arbitrary split and feature values, fixed
/// weights of either sign and size.
pub fn probability_change() {
    telescope(false)
}
/// The same with arbitrary weights and base score, exp being an uninterpreted function with axioms.
pub fn probability_change_uf() {
    telescope(true)
}
fn telescope(symbolic: bool) {
    let o = TreeOpts { weights: symbolic, covers: vec![1.0], gains: false };
    let mut b = small();
    b.objective_type = ObjectiveType::LogLoss;
    b.base_score = if symbolic { real(-2., 2.) } else { pick(&[-1.5, 0.0, 0.75]) };
    b.trees = vec![
        build(&sk(0, any_miss(), sk(1, Miss::Right, Sk::L, Sk::L), Sk::L), &o),
        build(&sk(1, Miss::Own, Sk::L, Sk::L), &TreeOpts { weights: false, covers: vec![1.0], gains: false }),
    ];
    if !symbolic && boolean() {
        for (i, nd) in b.trees[0].nodes.iter_mut().enumerate() {
            nd.weight_value = [0.3, -4.0, 2.5, -0.125, 8.0, -1.0][i % 6];
        }
    } else if !symbolic && boolean() {
        // Far out in one tree and back in the next.
        for t in &mut b.trees {
            for nd in &mut t.nodes {
                nd.weight_value *= 24.0;
            }
        }
        for nd in &mut b.trees[1].nodes {
            nd.weight_value = 11.0 - nd.weight_value;
        }
    }
    let r = [value(f64::NAN), value(f64::NAN)];
    let m = Matrix::new(&r, 1, 2);
    let g = b.predict_contributions(&m, ContributionsMethod::ProbabilityChange, boolean());
    let p = b.predict(&m, false)[0];
    check!(close(g.iter().sum::<f64>(), sigmoid(p)), "ProbabilityChange contributions sum to the predicted probability");
    let mut want = vec![0.0, 0.0, sigmoid(b.base_score)];
    let mut lo = b.base_score;
    for t in &b.trees {
        let w = |i: usize| sigmoid(lo + f64::from(t.nodes[i].weight_value));
        let path = walk(t, &r, f64::NAN);
        want[2] += w(0) - sigmoid(lo);
        for s in path.windows(2) {
            want[t.nodes[s[0]].split_feature] += w(s[1]) - w(s[0]);
        }
        lo += f64::from(t.nodes[*path.last().unwrap()].weight_value);
    }
    for j in 0..3 {
        check!(close(g[j], want[j]), "a ProbabilityChange contribution is the change of probability along the row's path");
    }
}

/// A trained model (two trees, one arbitrary feature value per row for three of five rows, missing branch and
/// imputation): the contributions of every training row sum to its prediction.
pub fn trained() {
    let mut b = super::c02::config(pick(&[0, 1, 2, 4]));
    let p = super::c02::presets(5, if matches!(b.objective_type, ObjectiveType::LogLoss) { 1 } else { 2 });
    let mut d = vec![real(-4., 4.), 1.0, real(-4., 4.), f64::NAN, real(-4., 4.)];
    d.extend(&p.x2);
    let m = Matrix::new(&d, 5, 2);
    b.fit(&m, &p.y, &p.w, None).unwrap();
    let pred = b.predict(&m, false);
    for method in 0..3 {
        let g = b.predict_contributions(
            &m,
            match method {
                0 => ContributionsMethod::Weight,
                1 => ContributionsMethod::Average,
                _ => ContributionsMethod::Shapley,
            },
            true,
        );
        for i in 0..5 {
            check!(close(g[i * 3] + g[i * 3 + 1] + g[i * 3 + 2], pred[i]), "contributions of a trained model sum to the prediction");
        }
    }
}

/// Three trees with fixed weights and arbitrary split values, the first one, two, none or all of them used for prediction,
/// three rows of two features with two arbitrary values, NaN or -3 missing, serial and parallel: the contributions of every method are those
/// of the model that has only the trees used, whose prediction they sum to.
pub fn iterations() {
    let missing = pick(&[f64::NAN, -3.0]);
    let mut b = small();
    b.missing = missing;
    b.objective_type = ObjectiveType::LogLoss;
    b.base_score = 0.25;
    let fixed = |t: &mut Tree, w: [f32; 3]| {
        for (n, w) in t.nodes.iter_mut().zip(w) {
            n.weight_value = w;
        }
    };
    let o = |c: Vec<f32>| TreeOpts { weights: false, covers: c, gains: false };
    b.trees = vec![
        build(&sk(0, Miss::Left, Sk::L, Sk::L), &o(vec![1.0, 2.0])),
        build(&sk(1, Miss::Right, Sk::L, Sk::L), &o(vec![3.0, 2.0])),
        build(&sk(0, Miss::Right, Sk::L, Sk::L), &o(vec![1.0, 4.0])),
    ];
    fixed(&mut b.trees[0], [0.25, 0.5, -0.75]);
    fixed(&mut b.trees[1], [-0.25, 0.125, 1.5]);
    fixed(&mut b.trees[2], [0.5, -1.0, 2.0]);
    let used = choice(5);
    b.prediction_iteration = if used < 4 { Some(used) } else { None };
    let mut part = GradientBooster::from_json(&b.json_dump().unwrap()).unwrap();
    part.prediction_iteration = None;
    part.trees.truncate(used);
    let d = [real(-4., 4.), 0.5, missing, missing, real(-4., 4.), 1.0];
    let m = Matrix::new(&d, 3, 2);
    let par = boolean();
    let which = choice(4);
    let method = || match which {
        0 => ContributionsMethod::Weight,
        1 => ContributionsMethod::Average,
        2 => ContributionsMethod::Shapley,
        _ => ContributionsMethod::ProbabilityChange,
    };
    let got = b.predict_contributions(&m, method(), par);
    let want = part.predict_contributions(&m, method(), !par);
    let pred = part.predict(&m, false);
    for i in 0..3 {
        let mut s = 0.0;
        for j in 0..3 {
            check!(close(got[3 * i + j], want[3 * i + j]), "contributions are those of the trees used");
            s += got[3 * i + j];
        }
        let p = if which == 3 { 1.0 / (1.0 + (-pred[i]).exp()) } else { pred[i] };
        check!(close(s, p), "contributions sum to the prediction of the trees used");
    }
}

/// Deep trees of seven features: a chain of seven splits (features in order, or one of them repeated), all four missing
/// directions, branches lighter and heavier than each other by orders of magnitude, four arbitrary feature values of a row.
pub fn deep() {
    let chain = |f: [usize; 7], right: bool, own: usize| {
        let mut s = Sk::L;
        for (i, f) in f.iter().enumerate().rev() {
            s = if i == own {
                sk3(*f, Sk::L, s, Sk::L)
            } else if right {
                sk(*f, Miss::Left, Sk::L, s)
            } else {
                sk(*f, Miss::Right, s, Sk::L)
            };
        }
        s
    };
    let f = pick(&[[0, 1, 2, 3, 4, 5, 6], [3, 1, 0, 1, 5, 1, 3]]);
    let s = chain(f, boolean(), pick(&[2, 5, 9]));
    let covers = pick(&[vec![1.0, 4096.0, 0.5, 2.0], vec![2.0, 1.0, 3.0], vec![512.0, 1.0, 1.0, 0.0078125]]);
    let mut t = build(&s, &TreeOpts { weights: false, covers, gains: false });
    for (i, n) in t.nodes.iter_mut().enumerate() {
        n.split_value = 0.25 * (i % 3) as f64;
        n.weight_value = ((i * 5) % 7) as f32 * 0.75 - 2.0;
    }
    let mut b = small();
    b.base_score = 0.5;
    b.trees = vec![t];
    let mut r = [real(-4., 4.), real(-4., 4.), f64::NAN, real(-4., 4.), 0.75, real(-4., 4.), -1.0];
    if boolean() {
        r[2] = 2.0;
        r[4] = f64::NAN;
    }
    let m = Matrix::new(&r, 1, 7);
    let p = b.predict(&m, false)[0];
    let t = &b.trees[0];
    let g = b.predict_contributions(&m, ContributionsMethod::Shapley, false);
    let mut want = vec![0.0; 8];
    want[7] = b.base_score;
    shapley(t, &r, f64::NAN, &mut want);
    for j in 0..8 {
        check!(close(g[j], want[j]), "a Shapley contribution is the Shapley value of the feature");
    }
    check!(close(g.iter().sum::<f64>(), p), "Shapley contributions sum to the prediction");
    let g = b.predict_contributions(&m, ContributionsMethod::Average, false);
    let mut want = vec![0.0; 8];
    want[7] = b.base_score;
    path_deltas(t, &r, f64::NAN, &|j| mean(t, j), &mut want);
    for j in 0..8 {
        check!(close(g[j], want[j]), "an Average contribution is the change of mean leaf weight along the row's path");
    }
}

/// Sizes: 1100 rows, 300 features or 300 trees, serial and parallel, every method; one arbitrary feature value: contributions are the sums over the trees
/// of what the definitions give.
pub fn sizes() {
    let (n, cols, trees) = pick(&[(1100usize, 2usize, 2usize), (3, 300, 3), (2, 2, 300)]);
    let mut b = small();
    b.base_score = 0.25;
    b.objective_type = ObjectiveType::LogLoss;
    for k in 0..trees {
        let f = (k * 151 + cols - 1) % cols;
        let mut t = build(&sk(f, Miss::Left, Sk::L, sk((f + 1) % cols, Miss::Right, Sk::L, Sk::L)), &TreeOpts { weights: false, covers: vec![1.0, 2.0, 3.0], gains: false });
        for (i, nd) in t.nodes.iter_mut().enumerate() {
            nd.split_value = 0.5 * (k % 3) as f64 - 0.5;
            nd.weight_value = (((i + k) * 5) % 7) as f32 * 0.125 - 0.375;
        }
        b.trees.push(t);
    }
    let mut d = super::c02::noise(n * cols, 91);
    let at = n * cols - 1;
    d[at] = real(-2., 2.);
    d[0] = f64::NAN;
    let m = Matrix::new(&d, n, cols);
    let par = boolean();
    let pred = b.predict(&m, par);
    for method in 0..4 {
        let g = b.predict_contributions(
            &m,
            match method {
                0 => ContributionsMethod::Weight,
                1 => ContributionsMethod::Average,
                2 => ContributionsMethod::Shapley,
                _ => ContributionsMethod::ProbabilityChange,
            },
            par,
        );
        check!(g.len() == n * (cols + 1), "one contribution per row and feature, and the bias");
        for i in 0..n {
            let g = &g[i * (cols + 1)..(i + 1) * (cols + 1)];
            let p = if method == 3 { sigmoid(pred[i]) } else { pred[i] };
            check!(close(g.iter().sum::<f64>(), p), "contributions sum to the prediction");
            let r = row(&d, n, cols, i);
            if method < 2 {
                let mut want = vec![0.0; cols + 1];
                want[cols] = b.base_score;
                for t in &b.trees {
                    if method == 0 {
                        path_deltas(t, &r, f64::NAN, &|j| f64::from(t.nodes[j].weight_value), &mut want);
                    } else {
                        path_deltas(t, &r, f64::NAN, &|j| mean(t, j), &mut want);
                    }
                }
                for j in 0..=cols {
                    check!(close(g[j], want[j]), "a contribution is the change along the row's path");
                }
            }
        }
    }
}
