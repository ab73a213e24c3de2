//! Partial dependence: the cover-weighted expectation of the model with one feature fixed.
use super::util::*;

/// Every tree shape of C08 plus a second tree, arbitrary weights and split values, any or a missing value, each of
/// two features, NaN or custom missing value, serial and parallel, also with fewer trees used.
pub fn expectation() {
    let missing = pick(&[f64::NAN, -3.0]);
    let covers = pick(&[vec![2.0, 1.0, 3.0, 0.5], vec![1.0, 5.0, 2.0]]);
    let o = TreeOpts { weights: true, covers, gains: false };
    let mut b = small();
    b.missing = missing;
    b.parallel = boolean();
    b.base_score = real(-2., 2.);
    let k = choice(5);
    b.trees = vec![
        build(&super::c08::shapes(k), &o),
        build(&sk(1, Miss::Own, Sk::L, Sk::L), &TreeOpts { weights: false, covers: vec![1.0, 2.0], gains: false }),
    ];
    let used = if boolean() {
        b.prediction_iteration = Some(1);
        1
    } else {
        2
    };
    let f = choice(2);
    let v = if boolean() { missing } else { real(-4., 4.) };
    let mut row = [0.0, 0.0];
    row[f] = v;
    let mut want = b.base_score;
    for t in &b.trees[..used] {
        want += super::c08::expect(t, 0, &row, missing, 1 << f);
    }
    check!(close(b.value_partial_dependence(f, v), want), "partial dependence is the cover-weighted expectation with the feature fixed");
}

/// Trained models: one feature, so the partial dependence at a value is the prediction at that value; any query value.
pub fn one_feature() {
    let mut b = super::c02::config(pick(&[0, 1, 2, 4]));
    let p = super::c02::presets(5, if matches!(b.objective_type, ObjectiveType::LogLoss) { 1 } else { 2 });
    let x = vec![real(-4., 4.), 1.0, real(-4., 4.), f64::NAN, 2.0];
    b.fit(&Matrix::new(&x, 5, 1), &p.y, &p.w, None).unwrap();
    let v = if boolean() { f64::NAN } else { real(-5., 5.) };
    let q = b.predict(&Matrix::new(&[v], 1, 1), false)[0];
    check!(close(b.value_partial_dependence(0, v), q), "with one feature, partial dependence is the prediction");
}

/// Deep trees (a chain of seven splits on seven features or fewer, very unequal covers, missing branches) with arbitrary leaf weights, and models of no
/// or 300 trees; each feature, any value.
pub fn sizes() {
    let mut b = small();
    b.base_score = real(-2., 2.);
    b.parallel = boolean();
    match choice(3) {
        0 => {}
        1 => {
            let f = pick(&[[0, 1, 2, 3, 4, 5, 6], [3, 1, 0, 1, 5, 1, 3]]);
            let right = boolean();
            let mut s = Sk::L;
            for (i, f) in f.iter().enumerate().rev() {
                s = match i % 4 {
                    2 => sk3(*f, Sk::L, s, Sk::L),
                    _ if right => sk(*f, Miss::Left, Sk::L, s),
                    _ => sk(*f, Miss::Right, s, Sk::L),
                };
            }
            let covers = pick(&[vec![1.0, 4096.0, 0.5, 2.0], vec![512.0, 1.0, 1.0, 0.0078125]]);
            b.trees = vec![build(&s, &TreeOpts { weights: true, covers, gains: false })];
            for (i, n) in b.trees[0].nodes.iter_mut().enumerate() {
                n.split_value = 0.25 * (i % 3) as f64;
            }
        }
        _ => {
            for k in 0..300 {
                let mut t = build(&sk(k % 7, Miss::Left, Sk::L, sk((k + 1) % 7, Miss::Own, Sk::L, Sk::L)), &TreeOpts { weights: false, covers: vec![1.0, 2.0], gains: false });
                for (i, n) in t.nodes.iter_mut().enumerate() {
                    n.split_value = 0.25 * ((i + k) % 3) as f64;
                    n.weight_value = (((i + k) * 5) % 7) as f32 * 0.125 - 0.375;
                }
                b.trees.push(t);
            }
        }
    }
    let f = choice(7);
    let v = if boolean() { f64::NAN } else { real(-4., 4.) };
    let mut row = [0.0; 7];
    row[f] = v;
    let mut want = b.base_score;
    for t in &b.trees {
        want += super::c08::expect(t, 0, &row, f64::NAN, 1 << f);
    }
    check!(close(b.value_partial_dependence(f, v), want), "partial dependence is the cover-weighted expectation with the feature fixed");
}
