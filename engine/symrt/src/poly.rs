//! Exact multivariate polynomials over the rationals: the normal form of symbolic values.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Coefficients that did not fit and were rounded (a measure of exactness, reported).
pub static ROUNDED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a as i128
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return None;
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Some(Rat { n: s * (n / g), d: s * (d / g) })
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let mut m = (b & ((1 << 52) - 1)) as i128;
        let mut e2 = if e == 0 {
            -1074
        } else {
            m |= 1 << 52;
            e - 1075
        };
        if m == 0 {
            return Some(Rat::ZERO);
        }
        while m & 1 == 0 {
            m >>= 1;
            e2 += 1;
        }
        if x < 0.0 {
            m = -m;
        }
        if e2 >= 0 {
            if e2 > 60 {
                return None;
            }
            Rat::new(m << e2, 1)
        } else {
            if e2 < -110 {
                // Below 2^-57: to the nearest multiple of 2^-110.
                let k = -110 - e2;
                ROUNDED.fetch_add(1, Relaxed);
                return if k > 60 { Some(Rat::ZERO) } else { Rat::new(m / (1i128 << k), 1i128 << 110) };
            }
            Rat::new(m, 1i128 << -e2)
        }
    }
    /// Where a coefficient outgrows 128 bits it is rounded as a double would be.
    fn round(x: f64) -> Option<Rat> {
        ROUNDED.fetch_add(1, Relaxed);
        Rat::from_f64(x)
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        self.exact_add(o).or_else(|| Rat::round(self.to_f64() + o.to_f64()))
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        self.exact_mul(o).or_else(|| Rat::round(self.to_f64() * o.to_f64()))
    }
    fn exact_add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d);
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Rat::new(a.checked_add(b)?, (self.d / g).checked_mul(o.d)?)
    }
    fn exact_mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
    pub fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
}

/// Sorted variable indices, repeated for powers; the empty monomial is the constant.
pub type Mono = Vec<u32>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub BTreeMap<Mono, Rat>);

const MAX_TERMS: usize = 300;
const MAX_DEG: usize = 8;

impl Poly {
    pub fn constant(r: Rat) -> Poly {
        let mut m = BTreeMap::new();
        if !r.is_zero() {
            m.insert(Vec::new(), r);
        }
        Poly(m)
    }
    pub fn var(v: u32) -> Poly {
        Poly(BTreeMap::from([(vec![v], Rat::ONE)]))
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::ZERO),
            1 => self.0.get(&Vec::new() as &Mono).copied(),
            _ => None,
        }
    }
    pub fn degree(&self) -> usize {
        self.0.keys().map(|m| m.len()).max().unwrap_or(0)
    }
    pub fn add_scaled(&self, o: &Poly, k: Rat) -> Option<Poly> {
        let mut r = self.0.clone();
        for (m, c) in &o.0 {
            let c = c.mul(k)?;
            match r.get_mut(m) {
                Some(x) => {
                    let s = x.add(c)?;
                    if s.is_zero() {
                        r.remove(m);
                    } else {
                        *x = s;
                    }
                }
                None => {
                    if !c.is_zero() {
                        r.insert(m.clone(), c);
                    }
                }
            }
        }
        if r.len() > MAX_TERMS {
            return None;
        }
        Some(Poly(r))
    }
    pub fn scale(&self, k: Rat) -> Option<Poly> {
        Poly::default().add_scaled(self, k)
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if self.0.len() * o.0.len() > 4 * MAX_TERMS || self.degree() + o.degree() > MAX_DEG {
            return None;
        }
        let mut r: BTreeMap<Mono, Rat> = BTreeMap::new();
        for (m1, c1) in &self.0 {
            for (m2, c2) in &o.0 {
                let mut m = m1.clone();
                m.extend(m2);
                m.sort_unstable();
                let c = c1.mul(*c2)?;
                let e = r.entry(m).or_insert(Rat::ZERO);
                *e = e.add(c)?;
            }
        }
        r.retain(|_, c| !c.is_zero());
        if r.len() > MAX_TERMS {
            return None;
        }
        Some(Poly(r))
    }
    /// Divides by the leading coefficient: `(canonical, negative)` where `negative` says the sign
    /// of the canonical polynomial is the opposite of this one's.
    pub fn canonical(&self) -> Option<(Poly, bool)> {
        let lead = *self.0.iter().next_back()?.1;
        Some((self.scale(lead.inv()?)?, lead.n < 0))
    }
    /// `Some((c, l))` when this equals `c * l^2` with `l` of degree one.
    pub fn square_of_linear(&self) -> Option<(Rat, Poly)> {
        if self.degree() != 2 {
            return None;
        }
        let mut vars: Vec<Option<u32>> = vec![None];
        for m in self.0.keys() {
            for v in m {
                if !vars.contains(&Some(*v)) {
                    vars.push(Some(*v));
                }
            }
        }
        let half = Rat::new(1, 2)?;
        let k = vars.len();
        let coef = |i: usize, j: usize| -> Option<Rat> {
            let mut m: Mono = [vars[i], vars[j]].iter().flatten().copied().collect();
            m.sort_unstable();
            let c = self.0.get(&m).copied().unwrap_or(Rat::ZERO);
            if i == j {
                Some(c)
            } else {
                c.mul(half)
            }
        };
        let p = (0..k).find(|i| coef(*i, *i).is_some_and(|c| !c.is_zero()))?;
        let mpp = coef(p, p)?;
        for i in 0..k {
            for j in i..k {
                if coef(i, j)?.mul(mpp)? != coef(p, i)?.mul(coef(p, j)?)? {
                    return None;
                }
            }
        }
        let mut l = Poly::default();
        for (i, v) in vars.iter().enumerate() {
            let c = coef(p, i)?;
            let t = match v {
                None => Poly::constant(Rat::ONE),
                Some(v) => Poly::var(*v),
            };
            l = l.add_scaled(&t, c)?;
        }
        Some((mpp.inv()?, l))
    }
    /// Interval of values given the interval of every variable.
    pub fn interval(&self, bounds: &dyn Fn(u32) -> (f64, f64)) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        for (m, c) in &self.0 {
            let (mut a, mut b) = (1.0f64, 1.0f64);
            let mut i = 0;
            while i < m.len() {
                let v = m[i];
                let mut k = 0;
                while i < m.len() && m[i] == v {
                    k += 1;
                    i += 1;
                }
                let (l, h) = bounds(v);
                let (pl, ph) = if k % 2 == 0 {
                    let x = l.abs().max(h.abs()).powi(k);
                    let n = if l <= 0.0 && h >= 0.0 { 0.0 } else { l.abs().min(h.abs()).powi(k) };
                    (n, x)
                } else {
                    (l.powi(k), h.powi(k))
                };
                let ps = [a * pl, a * ph, b * pl, b * ph];
                if ps.iter().any(|x| x.is_nan()) {
                    return (f64::NEG_INFINITY, f64::INFINITY);
                }
                a = ps.iter().copied().fold(f64::INFINITY, f64::min);
                b = ps.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            }
            let c = c.to_f64();
            let (x, y) = (a * c, b * c);
            lo += x.min(y);
            hi += x.max(y);
        }
        // Outward slack for the rounding of this computation.
        let s = 1e-9 * (lo.abs().max(hi.abs()) + 1.0);
        (lo - s, hi + s)
    }
}
