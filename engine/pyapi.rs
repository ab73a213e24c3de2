//! The harness API for Python: what `engine/pyharness/*.py` runs on. Compiled into the same extension
//! module as the repository's Python bindings, hence under the same instrumentation.
use pyo3::prelude::*;
use std::sync::{Mutex, OnceLock};

static CALLBACK: OnceLock<PyObject> = OnceLock::new();
static NAME: OnceLock<String> = OnceLock::new();
static SITES: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());

fn run_one() {
    Python::with_gil(|py| {
        let cb = CALLBACK.get().unwrap();
        if let Err(e) = cb.call1(py, (NAME.get().unwrap(),)) {
            // A panic of the runtime comes back as a panic. This is an exception the harness did not expect.
            symrt::fail(&format!("exception: {e}"))
        }
    })
}

/// Runs the explorer (or the replay) on the main thread with the GIL released.
#[pyfunction]
fn run(py: Python, names: Vec<String>, args: Vec<String>, callback: PyObject) -> PyResult<()> {
    let _ = CALLBACK.set(callback);
    let name = args.get(2).cloned().unwrap_or_default();
    let _ = NAME.set(name);
    let hs: Vec<symrt::Harness> =
        names.into_iter().map(|n| symrt::Harness { name: Box::leak(n.into_boxed_str()), run: run_one }).collect();
    let hs: &'static [symrt::Harness] = Box::leak(hs.into_boxed_slice());
    py.allow_threads(|| {
        // A thread of its own: the caller's stack and thread state are Python's.
        std::thread::spawn(move || symrt::main_args(hs, args)).join().ok();
    });
    Ok(())
}
#[pyfunction]
fn real(lo: f64, hi: f64) -> f64 {
    symrt::real(lo, hi)
}
#[pyfunction]
fn choice(n: usize) -> usize {
    symrt::choice(n)
}
#[pyfunction]
fn thorough() -> bool {
    symrt::thorough()
}
#[pyfunction]
fn assume(b: bool) {
    symrt::assume(b)
}
#[pyfunction]
fn fail(msg: &str) {
    symrt::fail(msg)
}
#[pyfunction]
fn cover(msg: &str) {
    symrt::cover(msg)
}
#[pyfunction]
fn reached(site: &str) {
    let s = {
        let mut g = SITES.lock().unwrap();
        match g.iter().find(|s| **s == site) {
            Some(s) => *s,
            None => {
                let s: &'static str = Box::leak(site.to_string().into_boxed_str());
                g.push(s);
                s
            }
        }
    };
    symrt::reached(s)
}
#[pyfunction]
fn less(a: f64, b: f64) -> bool {
    a < b
}
#[pyfunction]
fn equal(a: f64, b: f64) -> bool {
    a == b
}
#[pyfunction]
fn add(a: f64, b: f64) -> f64 {
    a + b
}
#[pyfunction]
fn sub(a: f64, b: f64) -> f64 {
    a - b
}
#[pyfunction]
fn mul(a: f64, b: f64) -> f64 {
    a * b
}
#[pyfunction]
fn div(a: f64, b: f64) -> f64 {
    a / b
}
/// Equal up to the rounding of `f32` arithmetic.
#[pyfunction]
fn close(a: f64, b: f64) -> bool {
    let d = a - b;
    d <= 2e-4 && d >= -2e-4
}
/// A value that was an `f32` and travelled as decimal text.
#[pyfunction]
fn from_f32_text(a: f64) -> f64 {
    symrt::narrowed(a)
}
#[pyfunction]
fn decide_equal(a: f64, b: f64) -> bool {
    symrt::decide_equal(a, b)
}
/// A number to write as text that is read as an `f32`.
#[pyfunction]
fn f32_text(a: f64) -> f64 {
    symrt::f32_text(a)
}

// The library on data given row by row: what the Python results are compared with.

use crate::constraints::Constraint;
use crate::data::Matrix;
use crate::gradientbooster::{ContributionsMethod, EvaluationData, GradientBooster, ImportanceMethod};
use pyo3::exceptions::PyValueError;
use std::collections::{HashMap, HashSet};

fn columns(rows: &[Vec<f64>]) -> Vec<f64> {
    let c = rows.first().map_or(0, Vec::len);
    (0..c).flat_map(|j| rows.iter().map(move |r| r[j])).collect()
}
type Set = (Vec<Vec<f64>>, Vec<f64>, Vec<f64>);

/// Fits the booster saved as `json` through the Rust interface.
#[pyfunction]
fn lib_fit(json: &str, constraints: HashMap<usize, i8>, terminate: HashSet<usize>, data: Set, eval: Option<Vec<Set>>) -> PyResult<String> {
    let err = |e: crate::errors::ForustError| PyValueError::new_err(e.to_string());
    let mut b = GradientBooster::from_json(json).map_err(err)?;
    b.monotone_constraints = Some(
        constraints
            .into_iter()
            .map(|(k, v)| {
                (
                    k,
                    match v {
                        1 => Constraint::Positive,
                        -1 => Constraint::Negative,
                        _ => Constraint::Unconstrained,
                    },
                )
            })
            .collect(),
    );
    b.terminate_missing_features = terminate;
    let flat = columns(&data.0);
    let m = Matrix::new(&flat, data.0.len(), data.0[0].len());
    let flats: Vec<Vec<f64>> = eval.iter().flatten().map(|e| columns(&e.0)).collect();
    let ev: Option<Vec<EvaluationData>> = eval.as_ref().map(|es| {
        es.iter().zip(&flats).map(|(e, f)| (Matrix::new(f, e.0.len(), e.0[0].len()), &e.1[..], &e.2[..])).collect()
    });
    b.fit(&m, &data.1, &data.2, ev).map_err(err)?;
    b.json_dump().map_err(err)
}
fn booster(json: &str) -> PyResult<GradientBooster> {
    GradientBooster::from_json(json).map_err(|e| PyValueError::new_err(e.to_string()))
}
#[pyfunction]
fn lib_predict(json: &str, rows: Vec<Vec<f64>>) -> PyResult<Vec<f64>> {
    let flat = columns(&rows);
    Ok(booster(json)?.predict(&Matrix::new(&flat, rows.len(), rows[0].len()), false))
}
#[pyfunction]
fn lib_contributions(json: &str, rows: Vec<Vec<f64>>, method: usize) -> PyResult<Vec<f64>> {
    let flat = columns(&rows);
    let m = match method {
        0 => ContributionsMethod::Weight,
        1 => ContributionsMethod::Average,
        2 => ContributionsMethod::BranchDifference,
        3 => ContributionsMethod::MidpointDifference,
        4 => ContributionsMethod::ModeDifference,
        5 => ContributionsMethod::ProbabilityChange,
        _ => ContributionsMethod::Shapley,
    };
    Ok(booster(json)?.predict_contributions(&Matrix::new(&flat, rows.len(), rows[0].len()), m, false))
}
#[pyfunction]
fn lib_importance(json: &str, method: usize, normalize: bool) -> PyResult<HashMap<usize, f64>> {
    let m = match method {
        0 => ImportanceMethod::Weight,
        1 => ImportanceMethod::Gain,
        2 => ImportanceMethod::Cover,
        3 => ImportanceMethod::TotalGain,
        _ => ImportanceMethod::TotalCover,
    };
    Ok(booster(json)?.calculate_feature_importance(m, normalize).into_iter().map(|(k, v)| (k, f64::from(v))).collect())
}
#[pyfunction]
fn lib_partial_dependence(json: &str, feature: usize, value: f64) -> PyResult<f64> {
    Ok(booster(json)?.value_partial_dependence(feature, value))
}

#[pymodule]
fn symapi(_py: Python, m: &PyModule) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(run, m)?)?;
    m.add_function(wrap_pyfunction!(real, m)?)?;
    m.add_function(wrap_pyfunction!(choice, m)?)?;
    m.add_function(wrap_pyfunction!(thorough, m)?)?;
    m.add_function(wrap_pyfunction!(assume, m)?)?;
    m.add_function(wrap_pyfunction!(fail, m)?)?;
    m.add_function(wrap_pyfunction!(cover, m)?)?;
    m.add_function(wrap_pyfunction!(reached, m)?)?;
    m.add_function(wrap_pyfunction!(less, m)?)?;
    m.add_function(wrap_pyfunction!(equal, m)?)?;
    m.add_function(wrap_pyfunction!(add, m)?)?;
    m.add_function(wrap_pyfunction!(sub, m)?)?;
    m.add_function(wrap_pyfunction!(mul, m)?)?;
    m.add_function(wrap_pyfunction!(div, m)?)?;
    m.add_function(wrap_pyfunction!(close, m)?)?;
    m.add_function(wrap_pyfunction!(from_f32_text, m)?)?;
    m.add_function(wrap_pyfunction!(decide_equal, m)?)?;
    m.add_function(wrap_pyfunction!(f32_text, m)?)?;
    m.add_function(wrap_pyfunction!(lib_fit, m)?)?;
    m.add_function(wrap_pyfunction!(lib_predict, m)?)?;
    m.add_function(wrap_pyfunction!(lib_contributions, m)?)?;
    m.add_function(wrap_pyfunction!(lib_importance, m)?)?;
    m.add_function(wrap_pyfunction!(lib_partial_dependence, m)?)?;
    Ok(())
}
