//! Greedy optimality: every split taken is the best one available in its node, and a node is left
//! unsplit only when the limits forbid a split or none reduces the loss by more than gamma.
use super::util::*;

/// What every admissible split of a set of rows would gain (without gamma). For each feature and
/// each observed value `v` of it, rows below `v` go left; rows with a missing value go to their own
/// branch (not counted) or to the side where they gain more.
fn candidates(b: &GradientBooster, d: &[f64], rows: usize, cols: usize, own: &[usize], g: &[f64], h: &[f64], w: f64) -> Vec<f64> {
    let (l1, l2, mds) = (f64::from(b.l1), f64::from(b.l2), f64::from(b.max_delta_step));
    let mlw = f64::from(b.min_leaf_weight);
    let gain = |s: (f64, f64)| gain_of(s.0, s.1, l2, opt_weight(s.0, s.1, l1, l2, mds));
    let add = |a: (f64, f64), c: (f64, f64)| (a.0 + c.0, a.1 + c.1);
    let tot = own.iter().fold((0.0, 0.0), |a, r| (a.0 + g[*r], a.1 + h[*r]));
    let parent = gain_of(tot.0, tot.1, l2, w);
    let mut out = Vec::new();
    let weight = |s: (f64, f64)| opt_weight(s.0, s.1, l1, l2, mds);
    for f in 0..cols {
        // Does the constraint of the feature allow these sides? Near ties of the weights may be decided by rounding.
        let c = b.monotone_constraints.as_ref().and_then(|m| m.get(&f));
        let allowed = |l: (f64, f64), r: (f64, f64)| match c {
            Some(Constraint::Positive) => weight(r) - weight(l) > 1e-6,
            Some(Constraint::Negative) => weight(l) - weight(r) > 1e-6,
            _ => true,
        };
        for v in 0..rows {
            let cut = d[f * rows + v];
            if is_missing(cut, b.missing) {
                continue;
            }
            let (mut l, mut r, mut m) = ((0.0, 0.0), (0.0, 0.0), (0.0, 0.0));
            let (mut nl, mut nr, mut nm) = (0, 0, 0);
            for i in own {
                let x = d[f * rows + *i];
                let s = (g[*i], h[*i]);
                if is_missing(x, b.missing) {
                    m = add(m, s);
                    nm += 1;
                } else if x < cut {
                    l = add(l, s);
                    nl += 1;
                } else {
                    r = add(r, s);
                    nr += 1;
                }
            }
            if b.create_missing_branch {
                if nl == 0 || nr == 0 || l.1 < mlw || r.1 < mlw {
                    continue;
                }
                if !allowed(l, r) {
                    continue;
                }
                let (wl, wr) = (weight(l), weight(r));
                let wm = match b.missing_node_treatment {
                    MissingNodeTreatment::AssignToParent => w,
                    MissingNodeTreatment::None => {
                        if nm == 0 {
                            w
                        } else if m.0 < 1e-6 && m.0 > -1e-6 {
                            continue;
                        } else {
                            opt_weight(m.0, m.1, l1, l2, mds)
                        }
                    }
                    _ => (wl * l.1 + wr * r.1) / (l.1 + r.1),
                };
                out.push(gain(l) + gain(r) + gain_of(m.0, m.1, l2, wm) - parent);
            } else {
                if (nl == 0 || nr == 0) && !b.allow_missing_splits {
                    continue;
                }
                if !b.allow_missing_splits && (l.1 < mlw || r.1 < mlw) {
                    continue;
                }
                // Without l2 the loss of an empty side is not defined, and such a split is not demanded.
                if (nl == 0 || nr == 0) && l2 == 0.0 {
                    continue;
                }
                let (left, right) = (gain(add(l, m)) + gain(r), gain(l) + gain(add(r, m)));
                let (to_left, to_right) = (allowed(add(l, m), r), allowed(l, add(r, m)));
                if !to_left && !to_right {
                    continue;
                }
                // A forbidden direction is as good as none.
                let left = if nm > 0 && !to_left { right - 1.0 } else { left };
                let right = if nm > 0 && !to_right { left - 1.0 } else { right };
                // Empty sides.
                let (a, c, total) = if nm > 0 && left > right + 1e-6 {
                    (add(l, m), r, left)
                } else if nm > 0 && right > left + 1e-6 {
                    (l, add(r, m), right)
                } else if nm > 0 {
                    // A tie: either direction may have been taken.
                    if nl == 0 || nr == 0 || l.1 < mlw || r.1 < mlw {
                        continue;
                    }
                    (l, r, right)
                } else {
                    (l, r, gain(l) + gain(r))
                };
                let empty = a.1 == 0.0 || c.1 == 0.0;
                if empty || a.1 < mlw || c.1 < mlw {
                    continue;
                }
                out.push(total - parent);
            }
        }
    }
    out
}

fn audit(b: &GradientBooster, d: &[f64], rows: usize, cols: usize, y: &[f64], w: &[f64]) {
    let mut yhat = vec![b.base_score; rows];
    let gamma = f64::from(b.gamma);
    // Sums over many rows are rounded to single precision.
    let tol = 2e-4 * (rows as f64 / 64.0).max(1.0);
    for t in &b.trees {
        let (g, h) = grad_hess(&b.objective_type, y, &yhat, w);
        let mut own: Vec<Vec<usize>> = vec![Vec::new(); t.nodes.len()];
        for r in 0..rows {
            let p = walk(t, &row(d, rows, cols, r), b.missing);
            for i in &p {
                own[*i].push(r);
            }
            yhat[r] += f64::from(t.nodes[*p.last().unwrap()].weight_value);
        }
        let mut missing_leaf = vec![false; t.nodes.len()];
        for n in &t.nodes {
            if ternary(n) && t.nodes[n.missing_node].is_leaf {
                missing_leaf[n.missing_node] = !b.allow_missing_splits || own[n.missing_node].is_empty();
            }
        }
        // Below a constrained split weights are kept within bounds, which is not modelled here.
        let mut bounded = vec![false; t.nodes.len()];
        for i in 0..t.nodes.len() {
            let n = &t.nodes[i];
            if n.is_leaf {
                continue;
            }
            let c = b.monotone_constraints.as_ref().and_then(|m| m.get(&n.split_feature));
            if bounded[i] || matches!(c, Some(Constraint::Positive | Constraint::Negative)) {
                for k in [n.left_child, n.right_child, n.missing_node] {
                    bounded[k] = true;
                }
            }
        }
        for (i, n) in t.nodes.iter().enumerate() {
            if missing_leaf[i] || bounded[i] || n.depth >= b.max_depth {
                continue;
            }
            if !n.is_leaf && !b.create_missing_branch && !b.allow_missing_splits {
                // Weight and number of the rows with a value of the split feature, on either side.
                let (mut l, mut r) = ((0.0, 0), (0.0, 0));
                for k in &own[i] {
                    let x = d[n.split_feature * rows + *k];
                    if !is_missing(x, b.missing) {
                        let s = if x < n.split_value { &mut l } else { &mut r };
                        s.0 += h[*k];
                        s.1 += 1;
                    }
                }
                let min = f64::from(b.min_leaf_weight) - tol;
                check!(l.1 > 0 && r.1 > 0 && l.0 >= min && r.0 >= min, "without missing splits both sides weigh enough without the missing values");
            }
            let c = candidates(b, d, rows, cols, &own[i], &g, &h, f64::from(n.weight_value) / f64::from(b.learning_rate));
            for x in c {
                if n.is_leaf {
                    check!(x - gamma <= tol, "a node is left unsplit only if no admissible split reduces the loss by more than gamma");
                } else {
                    check!(x - f64::from(n.split_gain) <= tol, "no admissible split of the node gains more than the one taken");
                }
            }
        }
    }
}

fn config(k: usize) -> GradientBooster {
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.max_depth = 3;
    b.iterations = 2;
    match k {
        0 => {}
        1 => {
            b.objective_type = ObjectiveType::LogLoss;
            b.l2 = 1.0;
            b.gamma = 0.0625;
        }
        2 => {
            b.allow_missing_splits = false;
            b.min_leaf_weight = 1.25;
            b.gamma = 0.5;
        }
        3 => {
            b.l1 = 0.5;
            b.l2 = 0.5;
            b.max_delta_step = 1.5;
            b.parallel = true;
        }
        4 => {
            b.create_missing_branch = true;
            b.min_leaf_weight = 0.75;
            b.l2 = 0.5;
            b.missing_node_treatment = pick(&[
                MissingNodeTreatment::AssignToParent,
                MissingNodeTreatment::None,
                MissingNodeTreatment::AverageNodeWeight,
            ]);
        }
        _ => {
            b.l2 = 2.0;
            b.grow_policy = GrowPolicy::LossGuide;
        }
    }
    b
}

/// Two trees of depth 3 on 5 (thorough: 6) rows and three features, one of them constant: every value, order and tie of one
/// feature, fixed targets (two sets) and weights, six settings of objective, regularisation, limits and
/// missing handling.
pub fn fit_symbolic_x() {
    let k = choice(6);
    let mut b = config(k);
    let n = if thorough() { 6 } else { 5 };
    let p = super::c02::presets(n, if k == 1 { 3 } else { 2 * choice(2) });
    let miss = choice(3);
    let mut d: Vec<f64> = (0..n)
        .map(|r| if (miss == 1 && r == 1) || (miss == 2 && (r == 0 || r == 3)) { f64::NAN } else { real(-6., 6.) })
        .collect();
    d.extend(vec![7.0; n]);
    d.extend(&p.x2);
    b.fit(&Matrix::new(&d, n, 3), &p.y, &p.w, None).unwrap();
    audit(&b, &d, n, 3, &p.y, &p.w);
}

/// One tree on 6 fixed rows with missing values: one target arbitrary in [-4, 4] at depth 2 (thorough: also two at depth 1).
pub fn fit_symbolic_y() {
    let two = thorough() && boolean();
    let k = if two { pick(&[0, 5]) } else { pick(&[0, 2, 4, 5]) };
    let mut b = config(k);
    b.iterations = 1;
    b.missing = marker(k);
    let mut x = [1.0, 2.0, 3.0, f64::NAN, 2.0, 4.0, 1.0, 1.0, f64::NAN, 2.0, 1.0, 2.0];
    mark(&mut x, b.missing);
    let mut y = [1.0, -2.0, 3.0, 0.5, -1.5, 2.5];
    y[1] = real(-4., 4.);
    b.max_depth = 2;
    if two {
        y[3] = real(-4., 4.);
        b.max_depth = 1;
    }
    let w = [1.0, 1.0, 2.0, 1.0, 0.5, 1.0];
    b.fit(&Matrix::new(&x, 6, 2), &y, &w, None).unwrap();
    audit(&b, &x, 6, 2, &y, &w);
}

/// Which nodes are split, and in which order, when the number of leaves is limited: level by level, or the node with the
/// largest loss term first; a node that comes before one that was split is itself split, or has no admissible split.
fn order(b: &GradientBooster, t: &Tree, d: &[f64], rows: usize, cols: usize, y: &[f64], w: &[f64]) {
    let (g, h) = grad_hess(&b.objective_type, y, &vec![b.base_score; rows], w);
    let mut own: Vec<Vec<usize>> = vec![Vec::new(); t.nodes.len()];
    for r in 0..rows {
        for i in walk(t, &row(d, rows, cols, r), b.missing) {
            own[i].push(r);
        }
    }
    let lr = f64::from(b.learning_rate);
    let loss = |i: usize| {
        let s = own[i].iter().fold((0.0, 0.0), |a, r| (a.0 + g[*r], a.1 + h[*r]));
        gain_of(s.0, s.1, f64::from(b.l2), f64::from(t.nodes[i].weight_value) / lr)
    };
    let whole = |i: usize, msg: &str| {
        let n = &t.nodes[i];
        if n.depth < b.max_depth {
            for x in candidates(b, d, rows, cols, &own[i], &g, &h, f64::from(n.weight_value) / lr) {
                check!(x - f64::from(b.gamma) <= 2e-4, "{}", msg);
            }
        }
    };
    let guided = matches!(b.grow_policy, GrowPolicy::LossGuide);
    let add = if b.create_missing_branch { 2 } else { 1 };
    // Nodes waiting for their turn.
    let mut queue = vec![0];
    let mut next = 1;
    loop {
        // The node split next is the one whose children come next.
        let s = match queue.iter().position(|i| !t.nodes[*i].is_leaf && t.nodes[*i].left_child.min(t.nodes[*i].missing_node) == next) {
            Some(k) => queue.remove(k),
            None => break,
        };
        for q in queue.clone() {
            if if guided { loss(q) - loss(s) > 1e-3 } else { q < s } {
                cover("passed over");
                check!(t.nodes[q].is_leaf, "nodes are split in the order of the growth policy");
                whole(q, "a node is passed over only if it has no admissible split");
                queue.retain(|i| *i != q);
            }
        }
        let n = &t.nodes[s];
        let mut kids = vec![n.left_child, n.right_child];
        if ternary(n) {
            if b.allow_missing_splits && !own[n.missing_node].is_empty() {
                queue.push(n.missing_node);
            }
            kids.push(n.missing_node);
        }
        next = 1 + kids.iter().max().unwrap();
        queue.extend([n.left_child, n.right_child]);
    }
    if leaves(t) + add <= b.max_leaves {
        for q in queue {
            whole(q, "a node is left unsplit only if it has no admissible split or the leaf limit forbids it");
        }
    } else {
        cover("limit");
    }
}

/// One tree on 7 rows, two features with missing values, both growth policies, at most 2 to 5 leaves, imputation and missing branches;
/// one target or two feature values arbitrary.
pub fn leaf_limit() {
    let n = 7;
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.max_depth = pick(&[2, 4]);
    b.l2 = 1.0;
    b.max_leaves = 2 + choice(4);
    b.create_missing_branch = boolean();
    b.missing_node_treatment = if b.create_missing_branch { pick(&[MissingNodeTreatment::None, MissingNodeTreatment::AssignToParent]) } else { MissingNodeTreatment::None };
    if boolean() {
        b.grow_policy = GrowPolicy::LossGuide;
    }
    let mut d = vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0, f64::NAN, 2.0, 1.0, 2.0, 3.0, 1.0, f64::NAN, 3.0];
    let mut y = [1.0, -2.0, 0.25, 3.0, -1.5, 2.5, 0.75];
    if boolean() {
        y[pick(&[0, 4])] = real(-4., 4.);
    } else {
        d[2] = real(0., 7.);
        d[10] = real(0., 4.);
    }
    let w = [1.0, 1.0, 2.0, 1.0, 0.5, 1.0, 1.0];
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    order(&b, &b.trees[0], &d, n, 2, &y, &w);
}

/// The best order-respecting split is taken at the root under a monotone constraint (no missing
/// values, depth 1); every value, order and tie of one feature of 5 rows.
pub fn constrained_root() {
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.max_depth = 1;
    b.l2 = 1.0;
    let pos = boolean();
    b.create_missing_branch = boolean();
    b.missing_node_treatment = MissingNodeTreatment::None;
    b.monotone_constraints =
        Some(ConstraintMap::from([(0, if pos { Constraint::Positive } else { Constraint::Negative })]));
    let p = super::c02::presets(5, 2 * choice(2));
    let n = 5;
    let mut d: Vec<f64> = (0..n).map(|_| real(-6., 6.)).collect();
    d.extend(&[1.0, 1.0, 2.0, 2.0, 2.0]);
    b.fit(&Matrix::new(&d, n, 2), &p.y, &p.w, None).unwrap();
    let (g, h) = grad_hess(&b.objective_type, &p.y, &[b.base_score; 5], &p.w);
    let root = &b.trees[0].nodes[0];
    for f in 0..2 {
        for v in 0..n {
            let (mut l, mut r) = ((0.0, 0.0), (0.0, 0.0));
            for i in 0..n {
                let s = if d[f * n + i] < d[f * n + v] { &mut l } else { &mut r };
                s.0 += g[i];
                s.1 += h[i];
            }
            if l.1 == 0.0 {
                continue;
            }
            let (wl, wr) = (opt_weight(l.0, l.1, 0.0, 1.0, 0.0), opt_weight(r.0, r.1, 0.0, 1.0, 0.0));
            if f == 0 && ((pos && wl >= wr - 1e-6) || (!pos && wl <= wr + 1e-6)) {
                continue;
            }
            let t = (l.0 + r.0, l.1 + r.1);
            let x = gain_of(l.0, l.1, 1.0, wl) + gain_of(r.0, r.1, 1.0, wr) - t.0 * t.0 / (t.1 + 1.0);
            // An empty missing branch costs its (the parent's) weight.
            let wt = opt_weight(t.0, t.1, 0.0, 1.0, 0.0);
            let x = if b.create_missing_branch { x - wt * wt } else { x };
            if root.is_leaf {
                check!(x <= 2e-4, "the root is left unsplit only if no order-respecting split reduces the loss");
            } else {
                check!(x - f64::from(root.split_gain) <= 2e-4, "no order-respecting split of the root gains more than the one taken");
            }
        }
    }
}

/// Constraints and missing values together, down to depth 2 where no constrained split lies above: 6 rows, two arbitrary values of the
/// constrained feature, missing values in both features, either sign, imputed missing values and missing branches.
pub fn constrained_missing() {
    let n = 6;
    let mut b = small();
    b.min_leaf_weight = pick(&[0.0, 1.25]);
    b.max_depth = 2;
    b.l2 = pick(&[0.0, 1.0]);
    b.create_missing_branch = boolean();
    b.missing_node_treatment = MissingNodeTreatment::AssignToParent;
    b.allow_missing_splits = boolean();
    let c = if boolean() { Constraint::Positive } else { Constraint::Negative };
    b.monotone_constraints = Some(ConstraintMap::from([(0, c)]));
    let p = super::c02::presets(n, 2 * choice(2));
    let mut d = vec![real(-6., 6.), f64::NAN, 1.0, real(-6., 6.), 2.0, 3.0];
    if boolean() {
        d[4] = f64::NAN;
    }
    d.extend(&[1.0, 1.0, f64::NAN, 1.0, 2.0, 2.0]);
    b.fit(&Matrix::new(&d, n, 2), &p.y, &p.w, None).unwrap();
    let t = &b.trees[0];
    if t.nodes[0].split_feature == 0 && !t.nodes[0].is_leaf {
        cover("constrained split");
    }
    audit(&b, &d, n, 2, &p.y, &p.w);
}

/// Missing branches of several rows, whose gradients may cancel, are split like other nodes: one tree of depth 3 on 8 rows, three of
/// them missing in the first feature, one of their targets arbitrary.
pub fn missing_rows() {
    let n = 8;
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.max_depth = pick(&[2, 3]);
    b.l2 = 1.0;
    b.create_missing_branch = true;
    b.missing_node_treatment = pick(&[
        MissingNodeTreatment::AssignToParent,
        MissingNodeTreatment::None,
        MissingNodeTreatment::AverageNodeWeight,
    ]);
    let nan = f64::NAN;
    let d = [1.0, 2.0, 6.0, 5.0, 1.0, nan, nan, nan, 1.0, 2.0, 1.0, 2.0, 2.0, 1.0, 2.0, 3.0];
    let mut y = [-4.0, -5.0, 6.0, 5.0, -4.0, 2.5, -1.5, 0.5];
    y[5 + choice(3)] = real(-4., 4.);
    let w = [1.0; 8];
    b.fit(&Matrix::new(&d, n, 2), &y, &w, None).unwrap();
    let t = &b.trees[0];
    if ternary(&t.nodes[0]) && !t.nodes[t.nodes[0].missing_node].is_leaf {
        cover("missing branch split");
    }
    audit(&b, &d, n, 2, &y, &w);
}

/// Sizes: 90 distinct values (the largest or another of them with an exceptional target), 80 features (the informative one anywhere), or a tree of depth 6 on 48 rows;
/// one feature value arbitrary.
pub fn sizes() {
    let what = choice(3);
    let (n, cols, depth) = [(90, 1, 1), (12, 80, 1), (48, 3, 6)][what];
    let k = pick(&[0, 4, 5]);
    let mut b = config(k);
    b.max_depth = depth;
    b.iterations = 1;
    b.min_leaf_weight = 0.0;
    b.gamma = 0.0;
    b.parallel = k == 0;
    let mut d = super::c02::noise(cols * n, 71);
    let mut y: Vec<f64> = super::c02::noise(n, 72).iter().map(|v| v * 0.25).collect();
    match what {
        0 => {
            // Every value once, in some order.
            for r in 0..n {
                d[r] = ((r * 37) % n) as f64;
            }
            let top = pick(&[89.0, 88.0, 0.0, 64.0]);
            y[d.iter().position(|v| *v == top).unwrap()] = 3.0;
            d[5] = real(-1., 90.);
        }
        1 => {
            let f = pick(&[0, 31, 63, 64, 79]);
            for r in 0..n {
                y[r] += d[f * n + r];
            }
            d[f * n + 3] = real(-2., 2.);
        }
        _ => {
            for r in 0..n {
                if r % 5 == 2 {
                    d[n + r] = f64::NAN;
                }
                y[r] *= 4.0;
            }
            d[7] = real(-2., 2.);
        }
    }
    let w = vec![1.0; n];
    b.fit(&Matrix::new(&d, n, cols), &y, &w, None).unwrap();
    if b.trees[0].nodes.iter().any(|n| n.depth == 6) {
        cover("depth 6");
    }
    audit(&b, &d, n, cols, &y, &w);
}

/// Targets of very large and very small scale; 6 rows, three arbitrary feature values.
pub fn scales() {
    let s = pick(&[1.0 / 65536.0, 1.0, 65536.0]);
    let mut b = small();
    b.min_leaf_weight = 0.0;
    b.iterations = 2;
    b.max_depth = 2;
    b.base_score = 0.5 * s;
    b.create_missing_branch = boolean();
    b.missing_node_treatment = MissingNodeTreatment::AssignToParent;
    let n = 6;
    let p = super::c02::presets(n, 2 * choice(2));
    let y: Vec<f64> = p.y.iter().map(|v| v * s).collect();
    let mut d = vec![real(-6., 6.), 1.0, f64::NAN, real(-6., 6.), 3.0, real(-6., 6.)];
    d.extend(&p.x2);
    b.fit(&Matrix::new(&d, n, 2), &y, &p.w, None).unwrap();
    b.base_score /= s;
    for t in &mut b.trees {
        for nd in &mut t.nodes {
            nd.weight_value = nd.weight_value * (1.0 / s) as f32;
            nd.split_gain = nd.split_gain * (1.0 / (s * s)) as f32;
        }
    }
    audit(&b, &d, n, 2, &p.y, &p.w);
}
