//! Binning: bin 0 is for missing values only, bins keep the order of the values, cutting on a bin is
//! cutting on the value, and the cuts are the distinct values or the weighted quantiles.
use super::util::*;

/// What the cuts and bins of one column have to satisfy.
fn column(x: &[f64], w: &[f64], bins: &[u16], cuts: &[f64], nbins: u16, missing: f64) {
    let miss = |v: f64| if missing.is_nan() { v.is_nan() } else { v == missing };
    let k = cuts.len();
    check!(k >= 1 && cuts[k - 1] == f64::MAX, "the last cut is above every value");
    for i in 1..k {
        check!(cuts[i - 1] < cuts[i], "cuts are strictly increasing");
    }
    let vals: Vec<(f64, f64)> = x.iter().zip(w).filter(|(v, _)| !miss(**v)).map(|(v, w)| (*v, *w)).collect();
    for c in &cuts[..k - 1] {
        check!(vals.iter().any(|(v, _)| v == c), "every cut is a value of the column");
    }
    for (v, b) in x.iter().zip(bins) {
        let b = *b as usize;
        if miss(*v) {
            check!(b == 0, "a missing value is in bin 0");
        } else {
            check!(b >= 1 && b < k, "a value that is not missing is in a bin of its own feature");
            // Bin b starts at cut b-1 and ends at cut b, and the cuts increase: splitting on the bin is
            // splitting on the cut.
            check!(*v >= cuts[b - 1] && (b == k - 1 || *v < cuts[b]), "splitting on a bin is splitting on its cut value");
        }
    }
    // Distinct values with the weight below and up to each.
    let mut vals = vals;
    vals.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut steps: Vec<(f64, f64, f64)> = Vec::new();
    let mut total = 0.0;
    for (v, w) in &vals {
        let same = steps.last().map_or(false, |s| s.0 == *v);
        if same {
            steps.last_mut().unwrap().2 += *w;
        } else {
            steps.push((*v, total, total + *w));
        }
        total += *w;
    }
    let distinct = steps.len();
    if distinct <= nbins as usize {
        check!(k - 1 == distinct, "with enough bins every distinct value has its own");
    } else if k - 1 != distinct || distinct > nbins as usize + 1 {
        // One value more than bins may still get a cut each.
        cover("quantiles");
        check!(k - 1 <= nbins as usize, "no more bins than asked for");
        // Weighted quantiles at i / nbins: a value whose cumulative weight reaches it.
        let mut of_cuts: Vec<(f64, f64)> = Vec::new();
        let mut at = 0;
        for c in &cuts[..k - 1] {
            while steps[at].0 < *c {
                at += 1;
            }
            of_cuts.push((steps[at].1, steps[at].2));
        }
        let is = |i: u16, s: &(f64, f64)| {
            let want = f64::from(i) / f64::from(nbins) * total;
            s.1 >= want - 1e-9 && s.0 <= want + 1e-9
        };
        for i in 0..nbins {
            check!(of_cuts.iter().any(|s| is(i, s)), "the weighted quantiles of the column are among the cuts");
        }
        for s in &of_cuts {
            check!((0..nbins).any(|i| is(i, s)), "every cut is a weighted quantile of the column");
        }
    }
}

/// A column of 5 (thorough: 6) arbitrary values with every order, tie and hit of the missing value, 0 to 2 further
/// missing rows, between two fixed columns (one all missing or constant); bin counts 1 to 8; equal and unequal weights;
/// missing value NaN or -1.
pub fn columns() {
    let n = if thorough() { 6 } else { 5 };
    let missing = pick(&[f64::NAN, -1.0]);
    let holes = choice(3);
    let nbins = pick(&[1, 2, 3, 4, 8]);
    let w: Vec<f64> = if boolean() { vec![1.0; n] } else { [2.0, 1.0, 0.5, 3.0, 1.5, 0.25][..n].to_vec() };
    let x: Vec<f64> = (0..n)
        .map(|i| if (holes == 1 && i == 2) || (holes == 2 && (i == 0 || i == n - 1)) { missing } else { real(-2., 2.) })
        .collect();
    let first: Vec<f64> = (0..n).map(|i| if boolean_of(n, holes) { missing } else { i as f64 }).collect();
    let mut d = first.clone();
    d.extend(&x);
    d.extend(vec![7.0; n]);
    let b = bin_matrix(&Matrix::new(&d, n, 3), &w, nbins, missing).unwrap();
    check!(b.binned_data.len() == d.len(), "one bin per value");
    for (c, col) in [first, x, vec![7.0; n]].iter().enumerate() {
        column(col, &w, &b.binned_data[c * n..(c + 1) * n], b.cuts.get_col(c), nbins, missing);
    }
}
fn boolean_of(n: usize, holes: usize) -> bool {
    n > 0 && holes == 1
}

/// 40 fixed values with two arbitrary ones among them, so that quantile cuts have real work to do.
pub fn long_column() {
    let n = 40;
    let nbins = pick(&[4, 8, 16]);
    let mut x: Vec<f64> = (0..n).map(|i| ((i * 17) % 41) as f64).collect();
    let mut w: Vec<f64> = (0..n).map(|i| [1.0, 0.5, 2.0, 1.0][i % 4]).collect();
    if boolean() {
        w = vec![1.0; n];
    }
    x[3] = real(-2., 60.);
    if thorough() {
        x[20] = real(-2., 60.);
    }
    x[11] = f64::NAN;
    let b = bin_matrix(&Matrix::new(&x, n, 1), &w, nbins, f64::NAN).unwrap();
    column(&x, &w, &b.binned_data, b.cuts.get_col(0), nbins, f64::NAN);
}

/// Training sees exactly the binned data: with `nbins` below the number of distinct values, every split value of a
/// trained model is one of the column's values and the training rows on its two sides are not both of one bin.
pub fn splits_are_cuts() {
    let n = 6;
    let mut b = small();
    b.nbins = pick(&[2, 3]);
    b.min_leaf_weight = 0.0;
    b.iterations = 1;
    b.create_missing_branch = boolean();
    let y = [1.0, -2.0, 3.0, 0.5, -1.5, 2.5];
    let w = [1.0, 1.0, 2.0, 1.0, 0.5, 1.0];
    let mut x: Vec<f64> = (0..4).map(|_| real(-2., 2.)).collect();
    x.push(f64::NAN);
    x.push(0.0);
    let m = Matrix::new(&x, n, 1);
    b.fit(&m, &y, &w, None).unwrap();
    let binned = bin_matrix(&m, &w, b.nbins, f64::NAN).unwrap();
    for nd in &b.trees[0].nodes {
        if !nd.is_leaf {
            let cuts = binned.cuts.get_col(0);
            check!(cuts[..cuts.len() - 1].iter().any(|c| *c == nd.split_value), "a model splits on cut values only");
        }
    }
}

/// Values that only double precision tells apart, very large and small ones, and one arbitrary value.
pub fn precision() {
    let missing = pick(&[f64::NAN, 0.1, 16777217.0]);
    let mut x = vec![
        0.1, f64::from(0.1f32), 16777216.0, 16777217.0, 0.0, f64::MIN_POSITIVE, -1e300, 1e300, 1.0 + f64::EPSILON, 1.0, -0.0, 1e-9, 2e-9,
        -2.0, -2.0 - 1e-12, 255.0, 256.0, 65536.0,
    ];
    if boolean() {
        x.reverse();
    }
    x.push(real(-3., 3.));
    let n = x.len();
    let w = vec![1.0; n];
    let nbins = pick(&[5, 30]);
    let b = bin_matrix(&Matrix::new(&x, n, 1), &w, nbins, missing).unwrap();
    column(&x, &w, &b.binned_data, b.cuts.get_col(0), nbins, missing);
}

/// A column of 300 (thorough: 700) values, more than 256 of them distinct, one arbitrary; 20 to 1000 bins; equal and unequal weights.
pub fn many_bins() {
    let n = if thorough() { 700 } else { 300 };
    let mut x: Vec<f64> = (0..n).map(|i| ((i * 137) % 1009) as f64 / 4.0).collect();
    x[10] = real(100., if thorough() { 140. } else { 115. });
    x[20] = f64::NAN;
    let w: Vec<f64> = if boolean() { vec![1.0; n] } else { (0..n).map(|i| [1.0, 0.5, 2.0, 0.25][i % 4]).collect() };
    let nbins = pick(&[20, 255, 256, 257, 1000]);
    let b = bin_matrix(&Matrix::new(&x, n, 1), &w, nbins, f64::NAN).unwrap();
    column(&x, &w, &b.binned_data, b.cuts.get_col(0), nbins, f64::NAN);
}

/// 300 columns of five values each, or one of 3000 values; one arbitrary value in the last column; every column has its own cuts and bins.
pub fn sizes() {
    let (n, cols) = pick(&[(5usize, 300usize), (3000, 1)]);
    let mut d: Vec<f64> = (0..n * cols).map(|i| ((i * 7919) % 4001) as f64).collect();
    d[(cols - 1) * n + 1] = if n < 10 { real(-1., 4002.) } else { real(1000., 1004.) };
    d[3] = f64::NAN;
    let w = vec![1.0; n];
    let nbins = pick(&[3, 256]);
    let b = bin_matrix(&Matrix::new(&d, n, cols), &w, nbins, f64::NAN).unwrap();
    for c in 0..cols {
        if c % 43 == 0 || c + 1 == cols {
            column(&d[c * n..(c + 1) * n], &w, &b.binned_data[c * n..(c + 1) * n], b.cuts.get_col(c), nbins, f64::NAN);
        }
    }
}
