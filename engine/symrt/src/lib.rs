//! Runtime of the symbolic executor.
//!
//! The crate under analysis is compiled by rustc to LLVM IR and every floating point instruction
//! in that IR is redirected to a `sym_*` function below (see `../instrument.py`). A symbolic value
//! is an ordinary `f32`/`f64` bit pattern from a reserved range (biased exponent 1) whose low bits
//! name a term, so loads, stores, copies, containers and JSON text carry symbolic values
//! unchanged. Arithmetic builds Z3 terms over the reals; a comparison that is not decided by the
//! path condition is a branch point: Z3 decides which sides are feasible and every feasible side
//! is explored by re-execution. Integers and control data are concrete; structural choices made
//! through [`choice`] are explored exhaustively.
//!
//! With the `native` feature the same harness API reads the values of a counterexample from a
//! file and the code runs uninstrumented.

#[cfg(not(feature = "native"))]
mod sym;
#[cfg(not(feature = "native"))]
mod poly;
#[cfg(not(feature = "native"))]
mod z3;
#[cfg(not(feature = "native"))]
pub use sym::{assume_between, choice, cover, decide_equal, f32_text, less, main, main_args, narrowed, raw_real, reached, widen};

#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
pub use native::{assume_between, choice, cover, decide_equal, f32_text, less, main, main_args, narrowed, raw_real, reached, widen};

/// Panic payload: the path does not satisfy an assumption and is dropped.
#[derive(Clone)]
pub struct AssumeFail;
/// Panic payload: a property assertion failed.
#[derive(Clone)]
pub struct Violation(pub String);
/// Panic payload: the engine cannot represent an operation symbolically.
#[derive(Clone)]
pub struct Unsupported(pub String);

/// Any real in `[lo, hi]`.
pub fn real(lo: f64, hi: f64) -> f64 {
    f64::from_bits(raw_real(lo, hi, false))
}
/// Any real in `[lo, hi]`, as an `f32`.
pub fn real32(lo: f32, hi: f32) -> f32 {
    f32::from_bits(raw_real(f64::from(lo), f64::from(hi), true) as u32)
}
/// Deeper bounds are wanted.
pub fn thorough() -> bool {
    THOROUGH.load(std::sync::atomic::Ordering::Relaxed)
}
pub(crate) static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn boolean() -> bool {
    choice(2) == 1
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choice(xs.len())].clone()
}
#[inline(never)]
pub fn assume(b: bool) {
    if !b {
        throw(AssumeFail)
    }
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    throw(Violation(msg.to_string()))
}

thread_local! {
    /// The payload of the panic under way: it survives frames that replace it (Python's).
    static PENDING: std::cell::RefCell<Option<Box<dyn std::any::Any + Send>>> = const { std::cell::RefCell::new(None) };
}
pub(crate) fn throw<T: std::any::Any + Send + Clone>(payload: T) -> ! {
    PENDING.with(|p| *p.borrow_mut() = Some(Box::new(payload.clone())));
    std::panic::panic_any(payload)
}
/// The payload thrown by [`throw`], or the one caught.
pub(crate) fn thrown(caught: Box<dyn std::any::Any + Send>) -> Box<dyn std::any::Any + Send> {
    PENDING.with(|p| p.borrow_mut().take()).unwrap_or(caught)
}
/// Whether a path is being ended by a panic (and what called us should do nothing but return).
pub fn unwinding() -> bool {
    PENDING.with(|p| p.borrow().is_some())
}
/// Property assertion. `msg` identifies the assertion; it must not depend on symbolic values.
#[macro_export]
macro_rules! check {
    ($c:expr, $($m:tt)*) => {{
        $crate::reached(concat!(module_path!(), ":", line!()));
        if !($c) {
            $crate::fail(&format!($($m)*))
        }
    }};
}

pub struct Harness {
    pub name: &'static str,
    pub run: fn(),
}
