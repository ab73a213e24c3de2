//! What the harnesses share: symbolic trees, the routing rule as stated in the documentation, and
//! the textbook formulas the properties are stated with.
#![allow(dead_code)]
pub use crate::binning::bin_matrix;
pub use crate::constraints::{Constraint, ConstraintMap};
pub use crate::data::{JaggedMatrix, Matrix, RowMajorMatrix};
pub use crate::gradientbooster::{
    ContributionsMethod, GradientBooster, GrowPolicy, ImportanceMethod, MissingNodeTreatment,
};
pub use crate::metric::Metric;
pub use crate::node::Node;
pub use crate::objective::ObjectiveType;
pub use crate::sampler::SampleMethod;
pub use crate::tree::Tree;
pub use std::collections::{HashMap, HashSet};
pub use symrt::{assume, boolean, check, choice, cover, pick, real, real32, thorough};

/// Equality up to the rounding of `f32` arithmetic.
pub fn close(a: f64, b: f64) -> bool {
    let d = a - b;
    d <= 2e-4 && d >= -2e-4
}
pub fn close32(a: f32, b: f32) -> bool {
    close(f64::from(a), f64::from(b))
}

pub fn leaf(num: usize, weight: f32, cover: f32) -> Node {
    Node {
        num,
        weight_value: weight,
        hessian_sum: cover,
        depth: 0,
        split_value: 0.0,
        split_feature: 0,
        split_gain: 0.0,
        missing_node: 0,
        left_child: 0,
        right_child: 0,
        is_leaf: true,
    }
}

/// Where missing values of a split go.
#[derive(Clone, Copy, PartialEq)]
pub enum Miss {
    Left,
    Right,
    Own,
}

/// A tree skeleton: `None` is a leaf, otherwise a split with its children.
pub enum Sk {
    L,
    S(usize, Miss, Box<Sk>, Box<Sk>, Option<Box<Sk>>),
}
pub fn sk(f: usize, m: Miss, l: Sk, r: Sk) -> Sk {
    Sk::S(f, m, Box::new(l), Box::new(r), if m == Miss::Own { Some(Box::new(Sk::L)) } else { None })
}
pub fn sk3(f: usize, l: Sk, r: Sk, mi: Sk) -> Sk {
    Sk::S(f, Miss::Own, Box::new(l), Box::new(r), Some(Box::new(mi)))
}

pub struct TreeOpts {
    /// Symbolic weights on every node (otherwise only split values are symbolic).
    pub weights: bool,
    /// Covers of the leaves, in creation order (cycled); parents get the sum.
    pub covers: Vec<f32>,
    pub gains: bool,
}

/// Builds a well-formed tree from a skeleton; weights, gains and split values are symbolic.
pub fn build(s: &Sk, o: &TreeOpts) -> Tree {
    let mut t = Tree::new();
    let mut n = 0;
    t.nodes.push(leaf(0, 0.0, 0.0));
    fill(&mut t, 0, s, 0, o, &mut n);
    t
}
fn fill(t: &mut Tree, i: usize, s: &Sk, depth: usize, o: &TreeOpts, n: &mut usize) -> f32 {
    let w = if o.weights { real32(-8., 8.) } else { (i as f32) * 0.5 - 1.0 };
    t.nodes[i].weight_value = w;
    t.nodes[i].depth = depth;
    t.nodes[i].num = i;
    let cover = match s {
        Sk::L => {
            *n += 1;
            o.covers[(*n - 1) % o.covers.len()]
        }
        Sk::S(f, m, l, r, mi) => {
            let sv = real(-4., 4.);
            let g = if o.gains { real32(0., 8.) } else { 1.0 };
            let base = t.nodes.len();
            let mut kids: Vec<(usize, &Sk)> = Vec::new();
            let k = if *m == Miss::Own { 3 } else { 2 };
            for j in 0..k {
                t.nodes.push(leaf(base + j, 0.0, 0.0));
            }
            let nd = &mut t.nodes[i];
            nd.is_leaf = false;
            nd.split_feature = *f;
            nd.split_value = sv;
            nd.split_gain = g;
            if *m == Miss::Own {
                nd.missing_node = base;
                nd.left_child = base + 1;
                nd.right_child = base + 2;
                kids.push((base, mi.as_ref().unwrap()));
            } else {
                nd.left_child = base;
                nd.right_child = base + 1;
                nd.missing_node = if *m == Miss::Left { base } else { base + 1 };
            }
            kids.push((nd.left_child, l));
            kids.push((nd.right_child, r));
            let mut c = 0.0;
            for (j, s) in kids {
                c += fill(t, j, s, depth + 1, o, n);
            }
            c
        }
    };
    t.nodes[i].hessian_sum = cover;
    cover
}

pub fn any_miss() -> Miss {
    pick(&[Miss::Left, Miss::Right, Miss::Own])
}

/// The documented routing rule.
pub fn is_missing(v: f64, missing: f64) -> bool {
    if missing.is_nan() { v.is_nan() } else { v == missing }
}
pub fn child(n: &Node, v: f64, missing: f64) -> usize {
    if is_missing(v, missing) {
        n.missing_node
    } else if v < n.split_value {
        n.left_child
    } else {
        n.right_child
    }
}
pub fn route(t: &Tree, row: &[f64], missing: f64) -> usize {
    let mut i = 0;
    while !t.nodes[i].is_leaf {
        i = child(&t.nodes[i], row[t.nodes[i].split_feature], missing);
    }
    i
}
/// Nodes on the way of a row, root first.
pub fn walk(t: &Tree, row: &[f64], missing: f64) -> Vec<usize> {
    let mut i = 0;
    let mut v = vec![0];
    while !t.nodes[i].is_leaf {
        i = child(&t.nodes[i], row[t.nodes[i].split_feature], missing);
        v.push(i);
    }
    v
}
/// Marks missing values with `m`.
pub fn mark(d: &mut [f64], m: f64) {
    for v in d.iter_mut().filter(|v| v.is_nan()) {
        *v = m;
    }
}
/// Markers of missing values: NaN, a number above and one below all others.
pub fn marker(k: usize) -> f64 {
    [f64::NAN, 99.0, -99.0][k % 3]
}
pub fn row(d: &[f64], rows: usize, cols: usize, r: usize) -> Vec<f64> {
    (0..cols).map(|c| d[c * rows + r]).collect()
}
pub fn ternary(n: &Node) -> bool {
    !n.is_leaf && n.missing_node != n.left_child && n.missing_node != n.right_child
}

/// Every node is reachable exactly once from the root, children are one level deeper, node
/// numbers are positions.
pub fn check_well_formed(t: &Tree) {
    check!(!t.nodes.is_empty(), "a tree has at least its root");
    let mut seen = vec![0; t.nodes.len()];
    let mut todo = vec![(0usize, 0usize)];
    while let Some((i, d)) = todo.pop() {
        check!(i < t.nodes.len(), "child index inside the tree");
        let n = &t.nodes[i];
        seen[i] += 1;
        check!(seen[i] == 1, "every node has one parent");
        check!(n.num == i, "a node's number is its position");
        check!(n.depth == d, "a child is one level below its parent");
        if !n.is_leaf {
            check!(n.left_child != n.right_child, "left and right child differ");
            check!(n.split_value == n.split_value, "split value is a number");
            todo.push((n.left_child, d + 1));
            todo.push((n.right_child, d + 1));
            if ternary(n) {
                todo.push((n.missing_node, d + 1));
            }
        }
    }
    check!(seen.iter().all(|s| *s == 1), "every node is reachable");
}
pub fn leaves(t: &Tree) -> usize {
    t.nodes.iter().filter(|n| n.is_leaf).count()
}

pub fn sigmoid(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
/// Negative log likelihood of a target under log odds `x`; exact where the probability rounds to 0 or 1.
pub fn log_loss(y: f64, x: f64) -> f64 {
    let tail = (-x.abs()).exp().ln_1p();
    let (ln_p, ln_q) = if x > 0.0 { (-tail, -x - tail) } else { (x - tail, -tail) };
    -(y * ln_p + (1.0 - y) * ln_q)
}
/// Optimal weight of a set of rows with gradient sum `g` and hessian sum `h`.
pub fn opt_weight(g: f64, h: f64, l1: f64, l2: f64, mds: f64) -> f64 {
    let s = if g > l1 {
        g - l1
    } else if g < -l1 {
        g + l1
    } else {
        0.0
    };
    let w = -s / (h + l2);
    if mds > 0.0 {
        if w > mds {
            return mds;
        }
        if w < -mds {
            return -mds;
        }
    }
    w
}
/// Reduction of the regularised second order loss (times two) that weight `w` gives.
pub fn gain_of(g: f64, h: f64, l2: f64, w: f64) -> f64 {
    -(2.0 * g * w + (h + l2) * w * w)
}

pub fn grad_hess(o: &ObjectiveType, y: &[f64], yhat: &[f64], w: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let mut g = Vec::new();
    let mut h = Vec::new();
    for i in 0..y.len() {
        match o {
            ObjectiveType::LogLoss => {
                let p = sigmoid(yhat[i]);
                g.push((p - y[i]) * w[i]);
                h.push(p * (1.0 - p) * w[i]);
            }
            ObjectiveType::SquaredLoss => {
                g.push((yhat[i] - y[i]) * w[i]);
                h.push(w[i]);
            }
        }
    }
    (g, h)
}

/// A booster for small training sets: no regularisation, tiny leaves allowed, no threads.
pub fn small() -> GradientBooster {
    let mut b = GradientBooster::default();
    b.objective_type = ObjectiveType::SquaredLoss;
    b.iterations = 1;
    b.learning_rate = 0.5;
    b.max_depth = 3;
    b.l2 = 0.0;
    b.min_leaf_weight = 0.5;
    b.base_score = 0.5;
    b.initialize_base_score = false;
    b.parallel = false;
    b
}

/// The two models have the same trees (weights, covers and gains up to rounding).
pub fn same_trees(a: &GradientBooster, b: &GradientBooster, msg: &str) {
    check!(a.trees.len() == b.trees.len(), "{}", msg);
    check!(close(a.base_score, b.base_score) || a.base_score == b.base_score, "{}", msg);
    for (s, t) in a.trees.iter().zip(&b.trees) {
        check!(s.nodes.len() == t.nodes.len(), "{}", msg);
        for (m, n) in s.nodes.iter().zip(&t.nodes) {
            check!(m.is_leaf == n.is_leaf && m.depth == n.depth && m.num == n.num, "{}", msg);
            check!(m.left_child == n.left_child && m.right_child == n.right_child && m.missing_node == n.missing_node, "{}", msg);
            check!(close32(m.weight_value, n.weight_value) && close32(m.hessian_sum, n.hessian_sum), "{}", msg);
            if !m.is_leaf {
                check!(m.split_feature == n.split_feature && close(m.split_value, n.split_value), "{}", msg);
                check!(close32(m.split_gain, n.split_gain), "{}", msg);
            }
        }
    }
}
