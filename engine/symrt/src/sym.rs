use crate::poly::{Poly, Rat};
use crate::z3::*;
use crate::{AssumeFail, Harness, Unsupported, Violation};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, CString};
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

const TAG64: u64 = 0x0015_5EED;
const SMALL_TIMEOUT_MS: u32 = 1500;
const BIG_TIMEOUT_MS: u32 = 20_000;
/// Symbolic values are finite reals of moderate size; concrete values at least this large are
/// compared without a term.
const HUGE: f64 = 1e30;

#[derive(Clone, Copy, PartialEq)]
enum V {
    C(f64),
    S(u32),
}
fn dec64(x: f64) -> V {
    let b = x.to_bits();
    if b >> 32 == TAG64 {
        V::S(b as u32)
    } else {
        V::C(x)
    }
}
fn dec32(x: f32) -> V {
    let b = x.to_bits();
    if b >> 23 == 1 {
        V::S(b & 0x7f_ffff)
    } else {
        V::C(f64::from(x))
    }
}
fn enc64(v: V) -> f64 {
    match v {
        V::C(x) => x,
        V::S(id) => f64::from_bits(TAG64 << 32 | u64::from(id)),
    }
}
fn enc32(v: V) -> f32 {
    match v {
        V::C(x) => x as f32,
        V::S(id) => {
            assert!(id < 0x7f_ffff);
            f32::from_bits(1 << 23 | id)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dec {
    /// A branch where both sides are feasible.
    Branch(bool),
    /// A branch whose other side the solver refuted.
    Forced(bool),
    Choice(u32),
}

enum Nd {
    Choice(usize),
    Real { ast: Ast, is32: bool },
}

#[derive(Default, Clone)]
struct Stats {
    paths: u64,
    assumed_out: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    fallback: u64,
    branches: u64,
    solver_us: u64,
    max_query_us: u64,
    terms: u64,
    covers: BTreeMap<String, u64>,
    asserts: BTreeMap<&'static str, u64>,
}
impl Stats {
    fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.assumed_out += o.assumed_out;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.fallback += o.fallback;
        self.branches += o.branches;
        self.solver_us += o.solver_us;
        self.max_query_us = self.max_query_us.max(o.max_query_us);
        self.terms += o.terms;
        for (k, v) in &o.asserts {
            *self.asserts.entry(k).or_default() += v;
        }
        for (k, v) in &o.covers {
            *self.covers.entry(k.clone()).or_default() += v;
        }
    }
}

struct Path {
    ctx: Ctx,
    real: Sort,
    solver: Solver,
    asserted: Vec<Ast>,
    /// Atoms of the polynomials: inputs and defined nonlinear terms, with an interval.
    atoms: Vec<(Ast, f64, f64)>,
    terms: Vec<Poly>,
    ids: HashMap<Poly, u32>,
    /// Possible signs of a canonical polynomial on this path.
    signs: HashMap<Poly, u8>,
    defs: HashMap<(u32, Poly, Poly, Poly), u32>,
    model: Option<Model>,
    prefix: Vec<Dec>,
    trace: Vec<Dec>,
    nd: Vec<Nd>,
    exps: Vec<(Poly, u32)>,
    lns: Vec<(Poly, u32)>,
    /// Values whose bit pattern was asked for, as f64 and as f32.
    bits: [Vec<V>; 2],
    work: Vec<Vec<Dec>>,
    unknown_sides: u64,
    stats: Stats,
    deadline: Instant,
}

thread_local! {
    static PATH: Cell<*mut Path> = const { Cell::new(std::ptr::null_mut()) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
fn path() -> &'static mut Path {
    let p = PATH.with(|p| p.get());
    assert!(!p.is_null(), "no symbolic path is active");
    unsafe { &mut *p }
}

const NEG: u8 = 1;
const ZERO: u8 = 2;
const POS: u8 = 4;

impl Path {
    fn num(&self, x: f64) -> Ast {
        match Rat::from_f64(x) {
            Some(r) => self.rat(r),
            None => unsupported("constant outside the exact range"),
        }
    }
    fn rat(&self, r: Rat) -> Ast {
        let s = CString::new(if r.d == 1 { format!("{}", r.n) } else { format!("{}/{}", r.n, r.d) }).unwrap();
        unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), self.real) }
    }
    fn poly(&self, v: V) -> Poly {
        match v {
            V::C(x) => match Rat::from_f64(x) {
                Some(r) => Poly::constant(r),
                // A magnitude below 2^-60 next to values of moderate size.
                None if x.abs() < 1e-18 => Poly::default(),
                None => unsupported("constant outside the exact range"),
            },
            V::S(i) => self.terms[i as usize].clone(),
        }
    }
    fn past(&self, p: &Poly) -> Ast {
        unsafe {
            let mut sum = Vec::new();
            for (m, c) in &p.0 {
                let mut f: Vec<Ast> = Vec::new();
                if m.is_empty() || *c != Rat::ONE {
                    f.push(self.rat(*c));
                }
                f.extend(m.iter().map(|v| self.atoms[*v as usize].0));
                sum.push(if f.len() == 1 { f[0] } else { Z3_mk_mul(self.ctx, f.len() as u32, f.as_ptr()) });
            }
            match sum.len() {
                0 => self.rat(Rat::ZERO),
                1 => sum[0],
                n => Z3_mk_add(self.ctx, n as u32, sum.as_ptr()),
            }
        }
    }
    fn ast(&self, v: V) -> Ast {
        self.past(&self.poly(v))
    }
    fn wrap(&mut self, p: Poly) -> V {
        if let Some(c) = p.as_const() {
            return V::C(c.to_f64());
        }
        if let Some(i) = self.ids.get(&p) {
            return V::S(*i);
        }
        let i = self.terms.len() as u32;
        self.terms.push(p.clone());
        self.ids.insert(p, i);
        self.stats.terms += 1;
        V::S(i)
    }
    fn wrap_opt(&mut self, p: Option<Poly>) -> V {
        match p {
            Some(p) => self.wrap(p),
            None => unsupported("polynomial too large"),
        }
    }
    fn atom(&mut self, ast: Ast, lo: f64, hi: f64) -> u32 {
        self.atoms.push((ast, lo, hi));
        self.atoms.len() as u32 - 1
    }
    fn interval(&self, p: &Poly) -> (f64, f64) {
        p.interval(&|v| {
            let a = &self.atoms[v as usize];
            (a.1, a.2)
        })
    }
    fn numeral(&self, a: Ast) -> f64 {
        unsafe {
            let a = if Z3_is_algebraic_number(self.ctx, a) {
                Z3_get_algebraic_number_lower(self.ctx, a, 20)
            } else {
                a
            };
            let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, a)).to_string_lossy().into_owned();
            let exact = |t: &str| t.parse::<f64>().unwrap();
            match s.split_once('/') {
                None => exact(&s),
                Some((n, d)) if n.len() < 16 && d.len() < 16 => exact(n) / exact(d),
                Some(_) => {
                    let s = CStr::from_ptr(Z3_get_numeral_decimal_string(self.ctx, a, 40))
                        .to_string_lossy()
                        .into_owned();
                    s.trim_end_matches('?').parse().unwrap()
                }
            }
        }
    }
    fn not(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_not(self.ctx, a) }
    }
    fn assert(&mut self, a: Ast) {
        self.asserted.push(a);
        unsafe { Z3_solver_assert(self.ctx, self.solver, a) }
    }
    fn set_model(&mut self, m: Option<Model>) {
        unsafe {
            if let Some(m) = m {
                Z3_model_inc_ref(self.ctx, m);
            }
            if let Some(o) = self.model {
                Z3_model_dec_ref(self.ctx, o);
            }
        }
        self.model = m;
    }
    /// Satisfiability of the path condition and `extra`; on sat optionally keeps the model.
    fn check(&mut self, extra: Option<Ast>, keep: bool) -> i32 {
        let t = Instant::now();
        let r = unsafe {
            if let Some(e) = extra {
                Z3_solver_push(self.ctx, self.solver);
                Z3_solver_assert(self.ctx, self.solver, e);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            if r == L_TRUE && keep {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                self.set_model(Some(m));
            }
            if extra.is_some() {
                Z3_solver_pop(self.ctx, self.solver, 1);
            }
            r
        };
        let mut r = r;
        if r == L_UNDEF {
            self.stats.fallback += 1;
            unsafe {
                let l = CString::new("QF_NRA").unwrap();
                let s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
                Z3_solver_inc_ref(self.ctx, s);
                set_timeout(self.ctx, s, BIG_TIMEOUT_MS);
                for a in &self.asserted {
                    Z3_solver_assert(self.ctx, s, *a);
                }
                if let Some(e) = extra {
                    Z3_solver_assert(self.ctx, s, e);
                }
                r = Z3_solver_check(self.ctx, s);
                if r == L_TRUE && keep {
                    let m = Z3_solver_get_model(self.ctx, s);
                    self.set_model(Some(m));
                }
                Z3_solver_dec_ref(self.ctx, s);
            }
        }
        match r {
            L_TRUE => self.stats.sat += 1,
            L_FALSE => self.stats.unsat += 1,
            _ => self.stats.unknown += 1,
        }
        let us = t.elapsed().as_micros() as u64;
        self.stats.solver_us += us;
        self.stats.max_query_us = self.stats.max_query_us.max(us);
        if us > 1_000_000 && std::env::var("SYM_SLOW").is_ok() {
            eprintln!("slow query {us} us r={r} asserted={}", self.asserted.len());
            for a in &self.asserted {
                eprintln!("(assert {})", unsafe { CStr::from_ptr(Z3_ast_to_string(self.ctx, *a)).to_string_lossy() });
            }
            if let Some(e) = extra {
                eprintln!("EXTRA (assert {})", unsafe { CStr::from_ptr(Z3_ast_to_string(self.ctx, e)).to_string_lossy() });
            }
        }
        r
    }
    fn eval_bool(&mut self, a: Ast) -> Option<bool> {
        let m = self.model?;
        let mut out = std::ptr::null_mut();
        unsafe {
            if !Z3_model_eval(self.ctx, m, a, true, &mut out) {
                return None;
            }
            match Z3_get_bool_value(self.ctx, out) {
                L_TRUE => Some(true),
                L_FALSE => Some(false),
                _ => None,
            }
        }
    }
    /// A branch on `cond`: returns the side this path takes.
    fn branch(&mut self, cond: Ast) -> bool {
        let pos = self.trace.len();
        if pos < self.prefix.len() {
            let d = self.prefix[pos];
            self.trace.push(d);
            let v = match d {
                Dec::Branch(v) => {
                    let a = if v { cond } else { self.not(cond) };
                    self.assert(a);
                    v
                }
                Dec::Forced(v) => v,
                Dec::Choice(_) => panic!("nondeterministic re-execution: branch where a choice was recorded"),
            };
            return v;
        }
        self.stats.branches += 1;
        if Instant::now() > self.deadline {
            crate::throw(Timeout)
        }
        if self.model.is_none() && self.check(None, true) != L_TRUE {
            // The prefix was reported satisfiable; a model is only needed to pick a side.
            self.model = None;
        }
        let (v, mut decided) = match self.eval_bool(cond) {
            Some(v) => (v, true),
            None => (true, false),
        };
        let neg = self.not(cond);
        let other = if v { neg } else { cond };
        let r = self.check(Some(other), false);
        if !decided {
            // Without a model both sides have to be decided.
            let this = if v { cond } else { neg };
            match self.check(Some(this), true) {
                L_TRUE => decided = true,
                L_FALSE => {
                    // Only the other side is feasible.
                    self.trace.push(Dec::Forced(!v));
                    return !v;
                }
                _ => self.unknown_sides += 1,
            }
        }
        let _ = decided;
        match r {
            L_FALSE => {
                self.trace.push(Dec::Forced(v));
            }
            r => {
                if r == L_TRUE {
                    let mut p = self.trace.clone();
                    p.push(Dec::Branch(!v));
                    self.work.push(p);
                } else {
                    self.unknown_sides += 1;
                }
                self.trace.push(Dec::Branch(v));
                self.assert(if v { cond } else { neg });
            }
        }
        v
    }
    /// Signs `p` can have according to what is known without the solver.
    fn mask(&mut self, p: &Poly) -> u8 {
        let (lo, hi) = self.interval(p);
        let mut m = 7;
        if lo > 0.0 {
            m = POS;
        } else if hi < 0.0 {
            m = NEG;
        }
        m & self.signs.get(p).copied().unwrap_or(7)
    }
    /// Whether the sign of `p` is one of `want`; a branch point unless already decided.
    fn sign_in(&mut self, p: &Poly, want: u8) -> bool {
        if let Some(c) = p.as_const() {
            let s = if c.n < 0 {
                NEG
            } else if c.n == 0 {
                ZERO
            } else {
                POS
            };
            return s & want != 0;
        }
        if let Some((c, l)) = p.square_of_linear() {
            // p = c * l^2
            let away = if c.n > 0 { POS } else { NEG };
            let at_zero = want & ZERO != 0;
            let off_zero = want & away != 0;
            return match (at_zero, off_zero) {
                (true, true) => true,
                (false, false) => false,
                (z, _) => self.sign_in(&l, ZERO) == z,
            };
        }
        let Some((q, flip)) = p.canonical() else { unsupported("coefficient overflow") };
        let want = if flip { (want & ZERO) | (want & NEG) << 2 | (want & POS) >> 2 } else { want };
        let k = self.mask(&q);
        if k & want == 0 {
            return false;
        }
        if k & !want == 0 {
            return true;
        }
        let w = k & want;
        let (a, zero) = (self.past(&q), self.rat(Rat::ZERO));
        // The condition on the signs that are still possible.
        let lt = |s: &Path| unsafe { Z3_mk_lt(s.ctx, a, zero) };
        let gt = |s: &Path| unsafe { Z3_mk_lt(s.ctx, zero, a) };
        let eq = |s: &Path| unsafe { Z3_mk_eq(s.ctx, a, zero) };
        let c = match (w, k & !w) {
            (NEG, _) => lt(self),
            (POS, _) => gt(self),
            (ZERO, NEG) => unsafe { Z3_mk_le(self.ctx, zero, a) },
            (ZERO, POS) => unsafe { Z3_mk_le(self.ctx, a, zero) },
            (ZERO, _) => eq(self),
            (_, NEG) => unsafe { Z3_mk_le(self.ctx, zero, a) },
            (_, POS) => unsafe { Z3_mk_le(self.ctx, a, zero) },
            _ => {
                let e = eq(self);
                self.not(e)
            }
        };
        let r = self.branch(c);
        let left = if r { w } else { k & !w };
        self.signs.insert(q, left);
        r
    }
    fn diff(&self, a: V, b: V) -> Poly {
        match self.poly(a).add_scaled(&self.poly(b), Rat::ONE.neg()) {
            Some(p) => p,
            None => unsupported("polynomial too large"),
        }
    }
    fn lt(&mut self, a: V, b: V) -> bool {
        match (a, b) {
            (V::C(x), V::C(y)) => x < y,
            (V::C(x), V::S(_)) if !(x.abs() < HUGE) => x < 0.0,
            (V::S(_), V::C(y)) if !(y.abs() < HUGE) => y > 0.0,
            _ => {
                let d = self.diff(a, b);
                self.sign_in(&d, NEG)
            }
        }
    }
    fn eq(&mut self, a: V, b: V) -> bool {
        match (a, b) {
            (V::C(x), V::C(y)) => x == y,
            (V::C(x), V::S(_)) | (V::S(_), V::C(x)) if !(x.abs() < HUGE) => false,
            _ => {
                let d = self.diff(a, b);
                self.sign_in(&d, ZERO)
            }
        }
    }
    fn fresh(&mut self, name: &str) -> Ast {
        let s = CString::new(format!("{name}!{}", self.atoms.len())).unwrap();
        unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), self.real) }
    }
    fn op(&mut self, op: u32, a: V, b: V) -> V {
        // Infinite or NaN concrete operands follow IEEE rules with a finite other operand.
        let special = |v: V| matches!(v, V::C(x) if !(x.abs() < HUGE));
        if special(a) || special(b) {
            let nan = matches!(a, V::C(x) if x.is_nan()) || matches!(b, V::C(x) if x.is_nan());
            if nan {
                return V::C(f64::NAN);
            }
            return match (op, a, b) {
                (0, V::C(x), V::S(_)) | (1, V::C(x), V::S(_)) => V::C(x),
                (0, V::S(_), V::C(y)) => V::C(y),
                (1, V::S(_), V::C(y)) => V::C(-y),
                (3, V::S(_), V::C(_)) => V::C(0.0),
                (2, V::C(x), s @ V::S(_)) | (2, s @ V::S(_), V::C(x)) | (3, V::C(x), s @ V::S(_)) => {
                    if self.eq(s, V::C(0.0)) {
                        if op == 2 {
                            V::C(if x.is_infinite() { f64::NAN } else { 0.0 })
                        } else {
                            V::C(x)
                        }
                    } else if self.lt(s, V::C(0.0)) {
                        V::C(-x)
                    } else {
                        V::C(x)
                    }
                }
                _ => unsupported("special operand"),
            };
        }
        match (op, a, b) {
            (0 | 1, _, V::C(y)) if y == 0.0 => return a,
            (0, V::C(x), _) if x == 0.0 => return b,
            (2 | 3, _, V::C(y)) if y == 1.0 => return a,
            (2, V::C(x), _) if x == 1.0 => return b,
            (2, V::C(z), _) | (2, _, V::C(z)) if z == 0.0 => return V::C(0.0),
            _ => {}
        }
        let (p, q) = (self.poly(a), self.poly(b));
        match op {
            0 => {
                let r = p.add_scaled(&q, Rat::ONE);
                self.wrap_opt(r)
            }
            1 => {
                let r = p.add_scaled(&q, Rat::ONE.neg());
                self.wrap_opt(r)
            }
            2 => {
                let r = p.mul(&q);
                self.wrap_opt(r)
            }
            3 => self.div(a, b, p, q),
            _ => unsupported("frem of a symbolic value"),
        }
    }
    fn div(&mut self, a: V, b: V, p: Poly, q: Poly) -> V {
        if let Some(c) = q.as_const() {
            if c.is_zero() {
                // The sign of a symbolic zero is taken as positive.
                if self.eq(a, V::C(0.0)) {
                    return V::C(f64::NAN);
                }
                let n = self.lt(a, V::C(0.0));
                return V::C(if n { f64::NEG_INFINITY } else { f64::INFINITY });
            }
            let r = c.inv().and_then(|i| p.scale(i));
            return self.wrap_opt(r);
        }
        if self.eq(b, V::C(0.0)) {
            return self.div(a, V::C(0.0), p, Poly::default());
        }
        let Some((d, _)) = q.canonical() else { unsupported("coefficient overflow") };
        // q = k * d with d canonical; p / q = (p/k) / d = (lead * n) / d with n canonical.
        let k = *q.0.iter().next_back().unwrap().1;
        let r = k.inv().and_then(|i| p.scale(i));
        let Some(p1) = r else { unsupported("coefficient overflow") };
        if p1.as_const().is_some_and(|c| c.is_zero()) {
            return V::C(0.0);
        }
        let lead = *p1.0.iter().next_back().unwrap().1;
        let Some((n, _)) = p1.canonical() else { unsupported("coefficient overflow") };
        if n == d {
            return V::C(lead.to_f64());
        }
        // Exact division by a monomial-wise multiple.
        if let Some(x) = exact_div(&n, &d) {
            let r = x.scale(lead);
            return self.wrap_opt(r);
        }
        let key = (101, n.clone(), d.clone(), Poly::default());
        let v = match self.defs.get(&key) {
            Some(v) => *v,
            None => {
                let x = self.fresh("q");
                let v = self.atom(x, f64::NEG_INFINITY, f64::INFINITY);
                let (ni, di) = (self.interval(&n), self.interval(&d));
                if di.0 > 0.0 || di.1 < 0.0 {
                    let c = [ni.0 / di.0, ni.0 / di.1, ni.1 / di.0, ni.1 / di.1];
                    self.atoms[v as usize].1 = c.iter().copied().fold(f64::INFINITY, f64::min);
                    self.atoms[v as usize].2 = c.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                }
                let (na, da) = (self.past(&n), self.past(&d));
                let m = [x, da];
                let c = unsafe { Z3_mk_eq(self.ctx, Z3_mk_mul(self.ctx, 2, m.as_ptr()), na) };
                self.fact(c);
                self.defs.insert(key, v);
                v
            }
        };
        let r = Poly::var(v).scale(lead);
        self.wrap_opt(r)
    }
    fn neg(&mut self, a: V) -> V {
        let r = self.poly(a).scale(Rat::ONE.neg());
        self.wrap_opt(r)
    }
    fn le_fact(&mut self, a: Ast, b: Ast) {
        let c = unsafe { Z3_mk_le(self.ctx, a, b) };
        self.fact(c)
    }
    fn same_order(&mut self, x: Ast, y: Ast, rx: Ast, ry: Ast) {
        let c = unsafe { Z3_mk_eq(self.ctx, Z3_mk_lt(self.ctx, x, y), Z3_mk_lt(self.ctx, rx, ry)) };
        self.fact(c);
        let c = unsafe { Z3_mk_eq(self.ctx, Z3_mk_lt(self.ctx, y, x), Z3_mk_lt(self.ctx, ry, rx)) };
        self.fact(c);
    }
    fn un(&mut self, op: u32, a: V) -> V {
        let p = self.poly(a);
        match op {
            // fabs
            0 => {
                if self.lt(a, V::C(0.0)) {
                    self.neg(a)
                } else {
                    a
                }
            }
            // sqrt
            1 => {
                if self.lt(a, V::C(0.0)) {
                    return V::C(f64::NAN);
                }
                let key = (1, p.clone(), Poly::default(), Poly::default());
                if let Some(v) = self.defs.get(&key) {
                    return self.wrap(Poly::var(*v));
                }
                let x = self.fresh("sqrt");
                let hi = self.interval(&p).1.max(0.0).sqrt() * 1.0001 + 1e-9;
                let v = self.atom(x, 0.0, hi);
                let z = self.rat(Rat::ZERO);
                self.le_fact(z, x);
                let m = [x, x];
                let c = unsafe { Z3_mk_eq(self.ctx, Z3_mk_mul(self.ctx, 2, m.as_ptr()), self.past(&p)) };
                self.fact(c);
                self.defs.insert(key, v);
                self.wrap(Poly::var(v))
            }
            // exp: positive, above its tangent at 0, strictly increasing, exp(-x) = 1/exp(x)
            2 => {
                if let Some((_, v)) = self.exps.iter().find(|(y, _)| *y == p) {
                    return self.wrap(Poly::var(*v));
                }
                // exp(ln a) = a, exp(-ln a) = 1/a
                for (y, v) in self.lns.clone() {
                    let l = Poly::var(v);
                    if p == l {
                        return self.wrap(y);
                    }
                    if l.scale(Rat::ONE.neg()).is_some_and(|n| n == p) {
                        let y = self.wrap(y);
                        return self.op(3, V::C(1.0), y);
                    }
                }
                let x = self.fresh("exp");
                let (lo, hi) = self.interval(&p);
                let v = self.atom(x, (lo.exp() * 0.999).max(0.0), hi.exp() * 1.001);
                let ax = self.past(&p);
                let (z, one) = (self.rat(Rat::ZERO), self.rat(Rat::ONE));
                let c = unsafe { Z3_mk_lt(self.ctx, z, x) };
                self.fact(c);
                let s = [one, ax];
                let t = unsafe { Z3_mk_add(self.ctx, 2, s.as_ptr()) };
                self.le_fact(t, x);
                self.same_order(ax, z, x, one);
                for (y, vy) in self.exps.clone() {
                    let (ay, ey) = (self.past(&y), self.atoms[vy as usize].0);
                    self.same_order(ax, ay, x, ey);
                    if p.add_scaled(&y, Rat::ONE).is_some_and(|s| s.0.is_empty()) {
                        let m = [x, ey];
                        let c = unsafe { Z3_mk_eq(self.ctx, Z3_mk_mul(self.ctx, 2, m.as_ptr()), one) };
                        self.fact(c);
                    }
                }
                self.exps.push((p, v));
                self.wrap(Poly::var(v))
            }
            // ln, log1p: below its tangent at 1, strictly increasing, ln(1) = 0
            3 | 4 => {
                let arg = if op == 4 { self.op(0, a, V::C(1.0)) } else { a };
                if self.eq(arg, V::C(0.0)) {
                    return V::C(f64::NEG_INFINITY);
                }
                if self.lt(arg, V::C(0.0)) {
                    return V::C(f64::NAN);
                }
                let p = self.poly(arg);
                if let Some((_, v)) = self.lns.iter().find(|(y, _)| *y == p) {
                    return self.wrap(Poly::var(*v));
                }
                let x = self.fresh("ln");
                let (lo, hi) = self.interval(&p);
                let v = self.atom(
                    x,
                    if lo > 0.0 { lo.ln() - 1e-3 } else { f64::NEG_INFINITY },
                    if hi > 0.0 { hi.ln() + 1e-3 } else { f64::INFINITY },
                );
                let ax = self.past(&p);
                let (z, one) = (self.rat(Rat::ZERO), self.rat(Rat::ONE));
                let s = [ax, one];
                let t = unsafe { Z3_mk_sub(self.ctx, 2, s.as_ptr()) };
                self.le_fact(x, t);
                self.same_order(ax, one, x, z);
                for (y, vy) in self.lns.clone() {
                    let (ay, ey) = (self.past(&y), self.atoms[vy as usize].0);
                    self.same_order(ax, ay, x, ey);
                }
                self.lns.push((p, v));
                self.wrap(Poly::var(v))
            }
            // floor, ceil, round, trunc: the integer is decided by branching
            5..=8 => {
                let mut k = 0.0;
                // Find k with k <= x < k+1, searching outwards from zero.
                if self.lt(a, V::C(0.0)) {
                    loop {
                        k -= 1.0;
                        if !self.lt(a, V::C(k)) {
                            break;
                        }
                        if k < -4096.0 {
                            unsupported("rounding a large symbolic value");
                        }
                    }
                } else {
                    while !self.lt(a, V::C(k + 1.0)) {
                        k += 1.0;
                        if k > 4096.0 {
                            unsupported("rounding a large symbolic value");
                        }
                    }
                }
                let r = match op {
                    5 => k,
                    6 => {
                        if self.eq(a, V::C(k)) {
                            k
                        } else {
                            k + 1.0
                        }
                    }
                    7 => {
                        if self.lt(a, V::C(k + 0.5)) || (k < 0.0 && self.eq(a, V::C(k + 0.5))) {
                            k
                        } else {
                            k + 1.0
                        }
                    }
                    _ => {
                        if k < 0.0 && !self.eq(a, V::C(k)) {
                            k + 1.0
                        } else {
                            k
                        }
                    }
                };
                V::C(r)
            }
            // expm1
            9 => {
                let e = self.un(2, a);
                self.op(1, e, V::C(1.0))
            }
            _ => unsupported("unary operation"),
        }
    }
    /// A consequence of a term's definition.
    fn fact(&mut self, a: Ast) {
        self.assert(a);
        if self.model.is_some() && self.eval_bool(a) != Some(true) {
            self.set_model(None);
        }
    }
}

/// `n / d` when it is a polynomial (division with remainder zero).
fn exact_div(n: &Poly, d: &Poly) -> Option<Poly> {
    let (dm, dc) = d.0.iter().next_back()?;
    let mut r = n.clone();
    let mut q = Poly::default();
    for _ in 0..60 {
        let Some((rm, rc)) = r.0.iter().next_back() else { return Some(q) };
        let mut m = rm.clone();
        for v in dm {
            let i = m.iter().position(|x| x == v)?;
            m.remove(i);
        }
        let c = rc.mul(dc.inv()?)?;
        let t = Poly(std::collections::BTreeMap::from([(m, c)]));
        r = r.add_scaled(&t.mul(d)?, Rat::ONE.neg())?;
        q = q.add_scaled(&t, Rat::ONE)?;
    }
    None
}

fn unsupported(s: &str) -> ! {
    crate::throw(Unsupported(s.to_string()))
}

unsafe fn set_timeout(ctx: Ctx, s: Solver, ms: u32) {
    let p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    let k = CString::new("timeout").unwrap();
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), ms);
    Z3_solver_set_params(ctx, s, p);
}

// ---------------------------------------------------------------- harness API

pub fn raw_real(lo: f64, hi: f64, is32: bool) -> u64 {
    let p = path();
    let s = CString::new(format!("x{}", p.nd.len())).unwrap();
    let a = unsafe { Z3_mk_const(p.ctx, Z3_mk_string_symbol(p.ctx, s.as_ptr()), p.real) };
    let (l, h) = (p.num(lo), p.num(hi));
    unsafe {
        let c = Z3_mk_le(p.ctx, l, a);
        p.assert(c);
        let c = Z3_mk_le(p.ctx, a, h);
        p.assert(c);
    }
    p.set_model(None);
    p.nd.push(Nd::Real { ast: a, is32 });
    let at = p.atom(a, lo, hi);
    let v = p.wrap(Poly::var(at));
    if is32 {
        u64::from(enc32(v).to_bits())
    } else {
        enc64(v).to_bits()
    }
}

pub fn choice(n: usize) -> usize {
    assert!(n > 0);
    let p = path();
    let pos = p.trace.len();
    let c = if n == 1 {
        0
    } else if pos < p.prefix.len() {
        match p.prefix[pos] {
            Dec::Choice(c) => {
                p.trace.push(Dec::Choice(c));
                c as usize
            }
            _ => panic!("nondeterministic re-execution: choice where a branch was recorded"),
        }
    } else {
        for i in (1..n).rev() {
            let mut w = p.trace.clone();
            w.push(Dec::Choice(i as u32));
            p.work.push(w);
        }
        p.trace.push(Dec::Choice(0));
        0
    };
    p.nd.push(Nd::Choice(c));
    c
}

/// Constrains `x` to `[lo, hi]` without exploring the outside.
pub fn assume_between(x: f64, lo: f64, hi: f64) {
    let p = path();
    match dec64(x) {
        V::C(x) => {
            if !(x >= lo && x <= hi) {
                crate::throw(AssumeFail)
            }
        }
        v => {
            let (l, h, a) = (p.num(lo), p.num(hi), p.ast(v));
            unsafe {
                let c = Z3_mk_le(p.ctx, l, a);
                p.assert(c);
                let c = Z3_mk_le(p.ctx, a, h);
                p.assert(c);
            }
            p.set_model(None);
            if p.check(None, true) == L_FALSE {
                crate::throw(AssumeFail)
            }
        }
    }
}

/// Comparison for the stand-in crates, which are not instrumented.
pub fn less(a: f64, b: f64) -> bool {
    sym_fcmp64(4, a, b)
}
pub fn widen(x: f32) -> f64 {
    sym_fpext(x)
}
/// The value of an `f32` from its decimal text, read as an `f64`.
pub fn narrowed(x: f64) -> f64 {
    match dec64(x) {
        V::C(x) => sym_fpext(x as f32),
        v => enc64(v),
    }
}
/// A number whose decimal text reads as the `f32` of `x`.
pub fn f32_text(x: f64) -> f64 {
    f64::from(sym_fptrunc(x))
}
/// Equality of two values, by the solver even where the terms are the same.
pub fn decide_equal(a: f64, b: f64) -> bool {
    let (x, y) = (dec64(a), dec64(b));
    if let (V::S(_), V::S(_)) = (x, y) {
        let p = path();
        let (s, t) = (p.ast(x), p.ast(y));
        let ne = p.not(unsafe { Z3_mk_eq(p.ctx, s, t) });
        if p.check(Some(ne), false) == L_FALSE {
            return true;
        }
    }
    sym_fcmp64(1, a, b)
}
/// An assertion site was evaluated.
pub fn reached(site: &'static str) {
    *path().stats.asserts.entry(site).or_default() += 1;
}
pub fn cover(label: &str) {
    *path().stats.covers.entry(label.to_string()).or_default() += 1;
}

// ---------------------------------------------------------------- instrumentation entry points

macro_rules! ops {
    ($($f64:ident $f32:ident $code:expr, $op:tt;)*) => {$(
        #[no_mangle]
        pub extern "C-unwind" fn $f64(a: f64, b: f64) -> f64 {
            match (dec64(a), dec64(b)) {
                (V::C(x), V::C(y)) => x $op y,
                (x, y) => enc64(path().op($code, x, y)),
            }
        }
        #[no_mangle]
        pub extern "C-unwind" fn $f32(a: f32, b: f32) -> f32 {
            match (dec32(a), dec32(b)) {
                (V::C(_), V::C(_)) => a $op b,
                (x, y) => enc32(path().op($code, x, y)),
            }
        }
    )*};
}
ops! {
    sym_fadd64 sym_fadd32 0, +;
    sym_fsub64 sym_fsub32 1, -;
    sym_fmul64 sym_fmul32 2, *;
    sym_fdiv64 sym_fdiv32 3, /;
    sym_frem64 sym_frem32 4, %;
}

#[no_mangle]
pub extern "C-unwind" fn sym_fneg64(a: f64) -> f64 {
    match dec64(a) {
        V::C(x) => -x,
        v => enc64(path().neg(v)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fneg32(a: f32) -> f32 {
    match dec32(a) {
        V::C(_) => -a,
        v => enc32(path().neg(v)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fpext(a: f32) -> f64 {
    match dec32(a) {
        V::C(x) => x,
        v => enc64(v),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fptrunc(a: f64) -> f32 {
    match dec64(a) {
        V::C(x) => x as f32,
        v => enc32(v),
    }
}

/// Predicates: 0 false, 1 oeq, 2 ogt, 3 oge, 4 olt, 5 ole, 6 one, 7 ord, 8 uno, 9 ueq, 10 ugt,
/// 11 uge, 12 ult, 13 ule, 14 une, 15 true.
fn cmp(p: u32, a: V, b: V) -> bool {
    let nan = |v: V| matches!(v, V::C(x) if x.is_nan());
    if nan(a) || nan(b) {
        return p >= 8;
    }
    let q = path_for(a, b);
    match p {
        0 => false,
        15 => true,
        7 => true,
        8 => false,
        1 | 9 => eq2(q, a, b),
        6 | 14 => !eq2(q, a, b),
        2 | 10 => lt2(q, b, a),
        4 | 12 => lt2(q, a, b),
        3 | 11 => !lt2(q, a, b),
        5 | 13 => !lt2(q, b, a),
        _ => unreachable!(),
    }
}
fn path_for(a: V, b: V) -> Option<&'static mut Path> {
    match (a, b) {
        (V::C(_), V::C(_)) => None,
        _ => Some(path()),
    }
}
fn lt2(p: Option<&'static mut Path>, a: V, b: V) -> bool {
    match (p, a, b) {
        (_, V::C(x), V::C(y)) => x < y,
        (Some(p), a, b) => p.lt(a, b),
        _ => unreachable!(),
    }
}
fn eq2(p: Option<&'static mut Path>, a: V, b: V) -> bool {
    match (p, a, b) {
        (_, V::C(x), V::C(y)) => x == y,
        (Some(p), a, b) => p.eq(a, b),
        _ => unreachable!(),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fcmp64(p: u32, a: f64, b: f64) -> bool {
    cmp(p, dec64(a), dec64(b))
}
#[no_mangle]
pub extern "C-unwind" fn sym_fcmp32(p: u32, a: f32, b: f32) -> bool {
    cmp(p, dec32(a), dec32(b))
}

fn native_un(op: u32, x: f64) -> f64 {
    match op {
        0 => x.abs(),
        1 => x.sqrt(),
        2 => x.exp(),
        3 => x.ln(),
        4 => x.ln_1p(),
        5 => x.floor(),
        6 => x.ceil(),
        7 => x.round(),
        8 => x.trunc(),
        9 => x.exp_m1(),
        _ => unreachable!(),
    }
}
fn native_un32(op: u32, x: f32) -> f32 {
    match op {
        0 => x.abs(),
        1 => x.sqrt(),
        2 => x.exp(),
        3 => x.ln(),
        4 => x.ln_1p(),
        5 => x.floor(),
        6 => x.ceil(),
        7 => x.round(),
        8 => x.trunc(),
        9 => x.exp_m1(),
        _ => unreachable!(),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_un64(op: u32, a: f64) -> f64 {
    match dec64(a) {
        V::C(x) => native_un(op, x),
        v => enc64(path().un(op, v)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_un32(op: u32, a: f32) -> f32 {
    match dec32(a) {
        V::C(_) => native_un32(op, a),
        v => enc32(path().un(op, v)),
    }
}
/// 0 minnum, 1 maxnum, 2 copysign, 3 pow
fn bin(op: u32, a: V, b: V) -> V {
    let nan = |v: V| matches!(v, V::C(x) if x.is_nan());
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(match op {
            0 => x.min(y),
            1 => x.max(y),
            2 => x.copysign(y),
            _ => x.powf(y),
        });
    }
    let p = path();
    match op {
        0 | 1 => {
            if nan(a) {
                return b;
            }
            if nan(b) {
                return a;
            }
            if let V::C(x) = a {
                if !(x.abs() < HUGE) {
                    return if (x < 0.0) == (op == 0) { a } else { b };
                }
            }
            if let V::C(x) = b {
                if !(x.abs() < HUGE) {
                    return if (x < 0.0) == (op == 0) { b } else { a };
                }
            }
            // Code that compares and code that takes the minimum are explored alike.
            if p.lt(a, b) == (op == 0) {
                a
            } else {
                b
            }
        }
        2 if a == b => a,
        2 => {
            let m = match a {
                V::C(x) => V::C(x.abs()),
                v => p.un(0, v),
            };
            let neg = match b {
                V::C(y) => y.is_sign_negative(),
                v => p.lt(v, V::C(0.0)),
            };
            if neg {
                match m {
                    V::C(x) => V::C(-x),
                    v => p.neg(v),
                }
            } else {
                m
            }
        }
        _ => match b {
            V::C(k) if k == 2.0 => p.op(2, a, a),
            V::C(k) if k == 1.0 => a,
            V::C(k) if k == 0.5 => p.un(1, a),
            _ => unsupported("pow of a symbolic value"),
        },
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_bin64(op: u32, a: f64, b: f64) -> f64 {
    enc64(bin(op, dec64(a), dec64(b)))
}
#[no_mangle]
pub extern "C-unwind" fn sym_bin32(op: u32, a: f32, b: f32) -> f32 {
    enc32(bin(op, dec32(a), dec32(b)))
}
#[no_mangle]
pub extern "C-unwind" fn sym_powi64(a: f64, n: i32) -> f64 {
    match dec64(a) {
        V::C(x) => x.powi(n),
        v => {
            let p = path();
            let mut r = V::C(1.0);
            for _ in 0..n.unsigned_abs() {
                r = match r {
                    V::C(x) if x == 1.0 => v,
                    _ => p.op(2, r, v),
                };
            }
            if n < 0 {
                r = p.op(3, V::C(1.0), r);
            }
            enc64(r)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_powi32(a: f32, n: i32) -> f32 {
    match dec32(a) {
        V::C(_) => a.powi(n),
        v => sym_fptrunc(sym_powi64(enc64(v), n)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fma64(a: f64, b: f64, c: f64) -> f64 {
    match (dec64(a), dec64(b), dec64(c)) {
        (V::C(x), V::C(y), V::C(z)) => x.mul_add(y, z),
        _ => sym_fadd64(sym_fmul64(a, b), c),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_fma32(a: f32, b: f32, c: f32) -> f32 {
    match (dec32(a), dec32(b), dec32(c)) {
        (V::C(_), V::C(_), V::C(_)) => a.mul_add(b, c),
        _ => sym_fadd32(sym_fmul32(a, b), c),
    }
}
/// Float to integer casts: the truncated value is made concrete by branching.
#[no_mangle]
pub extern "C-unwind" fn sym_conc64(a: f64) -> f64 {
    sym_un64(8, a)
}
#[no_mangle]
pub extern "C-unwind" fn sym_conc32(a: f32) -> f32 {
    sym_un32(8, a)
}
#[no_mangle]
pub extern "C-unwind" fn sym_nobits64(a: f64) -> f64 {
    if let V::S(_) = dec64(a) {
        unsupported("bit pattern of a symbolic f64")
    }
    a
}
#[no_mangle]
pub extern "C-unwind" fn sym_nobits32(a: f32) -> f32 {
    if let V::S(_) = dec32(a) {
        unsupported("bit pattern of a symbolic f32")
    }
    a
}
/// The bit pattern of a value, for comparisons and hashing: equal values get equal patterns and different values
/// different ones. Of a symbolic value, nothing else holds of it.
fn bits(v: V, w: usize) -> V {
    if PATH.with(|p| p.get()).is_null() {
        return v;
    }
    let p = path();
    if let V::C(x) = v {
        if x.is_nan() {
            return v;
        }
        if !p.bits[w].iter().any(|b| matches!(b, V::S(_))) {
            if p.bits[w].len() <= MAX_BITS && !p.bits[w].iter().any(|b| matches!(b, V::C(y) if y.to_bits() == x.to_bits())) {
                p.bits[w].push(v);
            }
            return v;
        }
    }
    if p.bits[w].len() > MAX_BITS {
        unsupported("bit pattern of a symbolic value")
    }
    for i in 0..p.bits[w].len() {
        let b = p.bits[w][i];
        let zeros = matches!((v, b), (V::C(x), V::C(y)) if x.to_bits() != y.to_bits());
        if !zeros && p.eq(v, b) {
            return b;
        }
    }
    p.bits[w].push(v);
    v
}
const MAX_BITS: usize = 48;
#[no_mangle]
pub extern "C-unwind" fn sym_bits64(a: f64) -> f64 {
    enc64(bits(dec64(a), 0))
}
#[no_mangle]
pub extern "C-unwind" fn sym_bits32(a: f32) -> f32 {
    enc32(bits(dec32(a), 1))
}
#[no_mangle]
pub extern "C-unwind" fn sym_unsupported() {
    unsupported("float instruction without a symbolic counterpart")
}
extern "C" {
    static sym_cov: u8;
    static sym_cov_len: u64;
}
fn total(a: V, b: V) -> i8 {
    match (a, b) {
        (V::C(x), V::C(y)) => x.total_cmp(&y) as i8,
        (V::C(x), _) if x.is_nan() => {
            if x.is_sign_negative() {
                -1
            } else {
                1
            }
        }
        (_, V::C(_)) if matches!(b, V::C(y) if y.is_nan()) => -total(b, a),
        _ => {
            let p = path();
            if p.lt(a, b) {
                -1
            } else if p.lt(b, a) {
                1
            } else {
                0
            }
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_total_cmp64(a: &f64, b: &f64) -> i8 {
    total(dec64(*a), dec64(*b))
}
#[no_mangle]
pub extern "C-unwind" fn sym_total_cmp32(a: &f32, b: &f32) -> i8 {
    total(dec32(*a), dec32(*b))
}
#[no_mangle]
pub extern "C-unwind" fn sym_isneg64(a: f64) -> bool {
    match dec64(a) {
        V::C(x) => x.is_sign_negative(),
        v => path().lt(v, V::C(0.0)),
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_isneg32(a: f32) -> bool {
    match dec32(a) {
        V::C(x) => x.is_sign_negative(),
        v => path().lt(v, V::C(0.0)),
    }
}

// ---------------------------------------------------------------- explorer

struct Found {
    msg: String,
    values: Vec<Vec<String>>,
}

struct Shared {
    stack: Vec<Vec<Dec>>,
    active: usize,
    stats: Stats,
    found: Vec<Found>,
    /// When the first of them was found.
    first_found: Option<Instant>,
    samples: Vec<Vec<String>>,
    unsupported: BTreeMap<String, u64>,
    unknown_sides: u64,
    stop: bool,
    timed_out: bool,
}

struct SendPtr(*mut Path);
unsafe impl Send for SendPtr {}

#[derive(Clone)]
struct Timeout;

enum Outcome {
    TimedOut,
    Done,
    Assumed,
    Bad(String),
    Unsup(String),
}

fn run_path(p: &mut Path, run: fn()) -> Outcome {
    let sp = SendPtr(p);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                let sp = sp;
                PATH.with(|c| c.set(sp.0));
                // rayon runs on this thread alone: its closures see this path's terms.
                let _pool = rayon_core::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().unwrap();
                match std::panic::catch_unwind(run) {
                    Ok(()) => Outcome::Done,
                    Err(e) => {
                        let e = crate::thrown(e);
                        if e.downcast_ref::<Timeout>().is_some() {
                            Outcome::TimedOut
                        } else if e.downcast_ref::<AssumeFail>().is_some() {
                            Outcome::Assumed
                        } else if let Some(v) = e.downcast_ref::<Violation>() {
                            Outcome::Bad(v.0.clone())
                        } else if let Some(v) = e.downcast_ref::<Unsupported>() {
                            Outcome::Unsup(v.0.clone())
                        } else {
                            Outcome::Bad(format!("panic: {}", LAST.with(|l| l.borrow().clone())))
                        }
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// Value lists that satisfy the path condition, preferring short dyadic numbers.
fn models(p: &mut Path) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = Vec::new();
    let reals: Vec<Ast> = p.nd.iter().filter_map(|n| if let Nd::Real { ast, .. } = n { Some(*ast) } else { None }).collect();
    unsafe { set_timeout(p.ctx, p.solver, 4000) };
    for grid in [Some(1.0), Some(8.0), Some(1024.0), None] {
        unsafe {
            Z3_solver_push(p.ctx, p.solver);
            if let Some(g) = grid {
                let g = p.num(g);
                for r in &reals {
                    let m = [*r, g];
                    let t = Z3_mk_is_int(p.ctx, Z3_mk_mul(p.ctx, 2, m.as_ptr()));
                    Z3_solver_assert(p.ctx, p.solver, t);
                }
            }
            let mut ok = Z3_solver_check(p.ctx, p.solver) == L_TRUE;
            let mut m = std::ptr::null_mut();
            if ok {
                m = Z3_solver_get_model(p.ctx, p.solver);
                Z3_model_inc_ref(p.ctx, m);
            } else if grid.is_none() {
                p.set_model(None);
                if p.check(None, true) == L_TRUE {
                    m = p.model.unwrap();
                    Z3_model_inc_ref(p.ctx, m);
                    ok = true;
                }
            }
            if ok {
                let mut v = Vec::new();
                for n in &p.nd {
                    match n {
                        Nd::Choice(c) => v.push(format!("c:{c}")),
                        Nd::Real { ast, is32 } => {
                            let mut o = std::ptr::null_mut();
                            Z3_model_eval(p.ctx, m, *ast, true, &mut o);
                            let x = p.numeral(o);
                            v.push(if *is32 { format!("r:{:?}", x as f32) } else { format!("r:{x:?}") });
                        }
                    }
                }
                if !out.contains(&v) {
                    out.push(v);
                }
                Z3_model_dec_ref(p.ctx, m);
            }
            Z3_solver_pop(p.ctx, p.solver, 1);
        }
    }
    out
}

static SOLVER_ERROR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" fn on_error(_: Ctx, code: std::os::raw::c_int) {
    eprintln!("z3 error {code}");
    SOLVER_ERROR.store(true, std::sync::atomic::Ordering::Relaxed);
}

/// How long exploration goes on after a counterexample.
const AFTER_FOUND: Duration = Duration::from_secs(90);

fn worker(shared: &Mutex<Shared>, cv: &Condvar, run: fn(), mut deadline: Instant, max_found: usize, go_on: bool) {
    let mut ctx: Ctx = std::ptr::null_mut();
    let mut used = 0u64;
    loop {
        let prefix = {
            let mut g = shared.lock().unwrap();
            loop {
                if g.stop {
                    break None;
                }
                if let (Some(t), false) = (g.first_found, go_on) {
                    deadline = deadline.min(t + AFTER_FOUND);
                }
                if Instant::now() > deadline {
                    g.stop = true;
                    g.timed_out = true;
                    cv.notify_all();
                    break None;
                }
                if let Some(p) = g.stack.pop() {
                    g.active += 1;
                    break Some(p);
                }
                if g.active == 0 {
                    cv.notify_all();
                    break None;
                }
                g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
        };
        let Some(prefix) = prefix else { break };
        if ctx.is_null() || used > 20_000 {
            unsafe {
                if !ctx.is_null() {
                    Z3_del_context(ctx);
                }
                let cfg = Z3_mk_config();
                ctx = Z3_mk_context(cfg);
                Z3_del_config(cfg);
                Z3_set_error_handler(ctx, Some(on_error));
            }
            used = 0;
        }
        let mut p = unsafe {
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            set_timeout(ctx, solver, SMALL_TIMEOUT_MS);
            Path {
                ctx,
                real: Z3_mk_real_sort(ctx),
                solver,
                asserted: Vec::new(),
                atoms: Vec::new(),
                terms: Vec::new(),
                ids: HashMap::new(),
                signs: HashMap::new(),
                defs: HashMap::new(),
                model: None,
                prefix,
                trace: Vec::new(),
                nd: Vec::new(),
                exps: Vec::new(),
                lns: Vec::new(),
                bits: [Vec::new(), Vec::new()],
                work: Vec::new(),
                unknown_sides: 0,
                stats: Stats::default(),
                deadline,
            }
        };
        let out = run_path(&mut p, run);
        used += p.stats.terms + 1;
        let mut found = None;
        let mut sample = None;
        match &out {
            Outcome::Done => {
                p.stats.paths += 1;
                // A few completed paths are written out, to be run natively. The choice is by a
                // hash of the decisions taken, so that it is spread over the exploration.
                let n = p.trace.iter().fold(7u64, |h, d| {
                    let x = match d {
                        Dec::Branch(b) => 1 + u64::from(*b),
                        Dec::Forced(_) => 0,
                        Dec::Choice(c) => 3 + u64::from(*c),
                    };
                    (h ^ x).wrapping_mul(0x100_0000_01b3)
                });
                let have = shared.lock().unwrap().samples.len();
                if have < 12 && (have < 2 || n % 509 == 0) {
                    sample = models(&mut p).pop();
                }
            }
            Outcome::TimedOut => {}
            Outcome::Assumed => p.stats.assumed_out += 1,
            Outcome::Bad(m) => {
                p.stats.paths += 1;
                let n = shared.lock().unwrap().found.iter().filter(|f| &f.msg == m).count();
                if n < 3 {
                    found = Some(Found { msg: m.clone(), values: models(&mut p) });
                }
            }
            Outcome::Unsup(_) => p.stats.paths += 1,
        }
        p.set_model(None);
        unsafe { Z3_solver_dec_ref(ctx, p.solver) };
        let mut g = shared.lock().unwrap();
        g.active -= 1;
        g.stats.add(&p.stats);
        g.unknown_sides += p.unknown_sides;
        g.samples.extend(sample);
        if let Some(f) = found {
            g.found.push(f);
            g.first_found.get_or_insert_with(Instant::now);
            if g.found.len() >= max_found {
                g.stop = true;
            }
        }
        if let Outcome::TimedOut = out {
            g.timed_out = true;
            g.stop = true;
        }
        if let Outcome::Unsup(m) = out {
            *g.unsupported.entry(m).or_default() += 1;
        }
        g.stack.append(&mut p.work);
        cv.notify_all();
    }
    unsafe {
        if !ctx.is_null() {
            Z3_del_context(ctx);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// `symx list` | `symx run HARNESS [--jobs N] [--timeout S] [--max-found N]`; prints one JSON object.
pub fn main(hs: &[Harness]) -> ! {
    main_args(hs, std::env::args().collect())
}
pub fn main_args(hs: &[Harness], args: Vec<String>) -> ! {
    if args.get(1).map(String::as_str) == Some("list") {
        for h in hs {
            println!("{}", h.name);
        }
        std::process::exit(0);
    }
    let name = args.get(2).expect("usage: symx run HARNESS").clone();
    let opt = |k: &str, d: u64| {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok()).unwrap_or(d)
    };
    let jobs = opt("--jobs", 8) as usize;
    let secs = opt("--timeout", 600);
    crate::THOROUGH.store(args.iter().any(|a| a == "--thorough"), std::sync::atomic::Ordering::Relaxed);
    let max_found = opt("--max-found", 6) as usize;
    let Some(h) = hs.iter().find(|h| h.name == name) else {
        eprintln!("unknown harness {name}");
        std::process::exit(2)
    };
    std::panic::set_hook(Box::new(|i| {
        LAST.with(|l| *l.borrow_mut() = i.to_string());
    }));
    let t = Instant::now();
    let shared = Mutex::new(Shared {
        stack: vec![Vec::new()],
        active: 0,
        stats: Stats::default(),
        found: Vec::new(),
        first_found: None,
        samples: Vec::new(),
        unsupported: BTreeMap::new(),
        unknown_sides: 0,
        stop: false,
        timed_out: false,
    });
    let cv = Condvar::new();
    let deadline = t + Duration::from_secs(secs);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| worker(&shared, &cv, h.run, deadline, max_found, h.name.ends_with("_uf")));
        }
    });
    let g = shared.into_inner().unwrap();
    let ver = unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() };
    let mut o = String::new();
    let st = &g.stats;
    let _ = write!(
        o,
        "{{\"harness\":\"{}\",\"solver\":\"{}\",\"complete\":{},\"timed_out\":{},\"paths\":{},\"assumed_out\":{},\"branches\":{},\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"fallback_queries\":{},\"unknown_sides\":{},\"rounded_coefficients\":{},\"terms\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"wall_seconds\":{:.3}",
        h.name,
        esc(&ver),
        !g.timed_out && !SOLVER_ERROR.load(std::sync::atomic::Ordering::Relaxed) && g.found.is_empty() && g.unsupported.is_empty() && g.unknown_sides == 0,
        g.timed_out,
        st.paths,
        st.assumed_out,
        st.branches,
        st.sat,
        st.unsat,
        st.unknown,
        st.fallback,
        g.unknown_sides,
        crate::poly::ROUNDED.load(std::sync::atomic::Ordering::Relaxed),
        st.terms,
        st.solver_us as f64 / 1e6,
        st.max_query_us as f64 / 1e6,
        t.elapsed().as_secs_f64()
    );
    o.push_str(",\"covers\":{");
    for (i, (k, v)) in st.covers.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    o.push_str("},\"unsupported\":{");
    for (i, (k, v)) in g.unsupported.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    o.push_str("},\"found\":[");
    for (i, f) in g.found.iter().enumerate() {
        let _ = write!(o, "{}{{\"msg\":\"{}\",\"models\":[", if i > 0 { "," } else { "" }, esc(&f.msg));
        for (j, v) in f.values.iter().enumerate() {
            let _ = write!(o, "{}[", if j > 0 { "," } else { "" });
            for (k, x) in v.iter().enumerate() {
                let _ = write!(o, "{}\"{}\"", if k > 0 { "," } else { "" }, x);
            }
            o.push(']');
        }
        o.push_str("]}");
    }
    o.push_str("],\"asserts\":{");
    for (i, (k, v)) in st.asserts.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    o.push_str("},\"samples\":[");
    for (j, v) in g.samples.iter().enumerate() {
        let _ = write!(o, "{}[", if j > 0 { "," } else { "" });
        for (k, x) in v.iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if k > 0 { "," } else { "" }, x);
        }
        o.push(']');
    }
    o.push_str("],\"blocks\":[");
    let cov = unsafe { std::slice::from_raw_parts(&sym_cov as *const u8, sym_cov_len as usize) };
    let hit: Vec<String> = cov.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, _)| i.to_string()).collect();
    o.push_str(&hit.join(","));
    o.push_str("]}");
    println!("{o}");
    std::process::exit(0)
}

/// Fixed hash keys: re-execution has to be deterministic.
///
/// # Safety
/// `buf` must be valid for `n` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    n as isize
}
