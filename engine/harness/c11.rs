//! Feature importance: counts, gains and covers of the splits on a feature; normalised values sum to one.
use super::util::*;

fn oracle(b: &GradientBooster, m: usize) -> HashMap<usize, f64> {
    let mut s: HashMap<usize, (f64, f64)> = HashMap::new();
    for t in &b.trees {
        for n in t.nodes.iter().filter(|n| !n.is_leaf) {
            let e = s.entry(n.split_feature).or_insert((0.0, 0.0));
            e.0 += match m {
                0 => 1.0,
                1 | 2 => f64::from(n.split_gain),
                _ => f64::from(n.hessian_sum),
            };
            e.1 += 1.0;
        }
    }
    s.into_iter().map(|(k, (v, c))| (k, if m == 1 || m == 3 { v / c } else { v })).collect()
}
fn method(m: usize) -> ImportanceMethod {
    match m {
        0 => ImportanceMethod::Weight,
        1 => ImportanceMethod::Gain,
        2 => ImportanceMethod::TotalGain,
        3 => ImportanceMethod::Cover,
        _ => ImportanceMethod::TotalCover,
    }
}
fn compare(b: &GradientBooster, m: usize) {
    let want = oracle(b, m);
    let got = b.calculate_feature_importance(method(m), false);
    check!(got.len() == want.len(), "exactly the features used in splits have an importance");
    let norm = b.calculate_feature_importance(method(m), true);
    check!(norm.len() == want.len(), "exactly the features used in splits have a normalised importance");
    let total: f64 = {
        let mut k: Vec<&usize> = want.keys().collect();
        k.sort();
        k.iter().map(|k| want[*k]).sum()
    };
    let mut keys: Vec<&usize> = want.keys().collect();
    keys.sort();
    for k in keys {
        let Some(g) = got.get(k) else { symrt::fail("a feature used in a split has an importance") };
        check!(close(f64::from(*g), want[k]), "importance is the count, (mean) gain or (mean) cover of the splits on the feature");
        let Some(n) = norm.get(k) else { symrt::fail("a feature used in a split has a normalised importance") };
        // n = want / total, without dividing in the oracle
        check!(close(f64::from(*n) * total, want[k]), "normalised importance is the share of the total");
    }
}

/// Three trees (the first of any C08 shape), every gain arbitrary, fixed covers; all five methods.
pub fn definitions() {
    let covers = pick(&[vec![2.0, 1.0, 3.0, 0.5], vec![1.0, 5.0, 2.0]]);
    let o = TreeOpts { weights: false, covers, gains: true };
    let m = choice(5);
    let mut b = small();
    let k = choice(5);
    b.trees = vec![build(&super::c08::shapes(k), &o), build(&sk(1, Miss::Own, Sk::L, Sk::L), &o), build(&sk(3, Miss::Left, Sk::L, Sk::L), &o)];
    // A feature's total is positive.
    for t in &b.trees {
        for n in &t.nodes {
            assume(n.is_leaf || n.split_gain > 0.0);
        }
    }
    // Importance describes the whole model, whichever trees are used to predict.
    b.prediction_iteration = pick(&[None, Some(1)]);
    compare(&b, m);
}

/// Trained models with a missing branch and without: importance against the recorded splits.
pub fn trained() {
    let mut b = super::c02::config(pick(&[0, 1, 2, 3]));
    let p = super::c02::presets(5, if matches!(b.objective_type, ObjectiveType::LogLoss) { 1 } else { 2 });
    let mut d = vec![real(-4., 4.), 1.0, real(-4., 4.), f64::NAN, real(-4., 4.)];
    d.extend(&p.x2);
    b.fit(&Matrix::new(&d, 5, 2), &p.y, &p.w, None).unwrap();
    compare(&b, choice(5));
}

/// Sizes: 300 trees or 300 features, gains and covers of very different size, one of them arbitrary; all five methods.
pub fn sizes() {
    let (trees, cols) = pick(&[(300, 3), (12, 300)]);
    let mut b = small();
    for k in 0..trees {
        let f = (k * 101) % cols;
        let s = sk(f, Miss::Left, Sk::L, sk((f + 1) % cols, Miss::Own, sk((f + 150) % cols, Miss::Right, Sk::L, Sk::L), Sk::L));
        let mut t = build(&s, &TreeOpts { weights: false, covers: vec![1.0, 2.0, 0.5], gains: false });
        for (i, n) in t.nodes.iter_mut().enumerate() {
            n.split_gain = [0.0009765625, 1.0, 2.0, 0.125][(i + k) % 4];
        }
        b.trees.push(t);
    }
    b.trees[5].nodes[0].split_gain = real32(0.0009765625, 8.);
    compare(&b, choice(5));
}
