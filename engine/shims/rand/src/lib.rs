//! Stand-in for `rand`: a draw is an arbitrary value of the requested range (its documented
//! contract), so every random choice becomes a symbolic variable or an explored choice.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ops::{Range, RangeInclusive};

thread_local! {
    /// A generator is a fixed function from (seed, position) to an arbitrary value.
    static TABLE: RefCell<HashMap<(u64, u64, u64, u64), u64>> = RefCell::new(HashMap::new());
    static LOG: RefCell<Vec<f64>> = const { RefCell::new(Vec::new()) };
    static FIXED: Cell<bool> = const { Cell::new(false) };
    static FRESH: Cell<u64> = const { Cell::new(1 << 40) };
}
/// The real-valued draws made so far on this path.
pub fn verif_draws() -> Vec<f64> {
    LOG.with(|l| l.borrow().clone())
}
pub fn verif_clear_draws() {
    LOG.with(|l| l.borrow_mut().clear())
}
/// From now on (or no longer) draws are pseudo random numbers, not arbitrary ones.
pub fn verif_pseudo(on: bool) {
    FIXED.with(|f| f.set(on))
}
/// A well mixed number of the seed and position, if draws are pseudo random.
fn mixed(at: (u64, u64)) -> Option<u64> {
    if !FIXED.with(|f| f.get()) {
        return None;
    }
    let mut z = at.0.wrapping_mul(0xD1342543DE82EF95) ^ at.1.wrapping_mul(0x9E3779B97F4A7C15);
    for m in [0xBF58476D1CE4E5B9u64, 0x94D049BB133111EB] {
        z = (z ^ (z >> 30)).wrapping_mul(m);
    }
    Some(z ^ (z >> 31))
}
fn memo(rng: (u64, u64), a: u64, b: u64, f: impl FnOnce() -> u64) -> u64 {
    let k = (rng.0, rng.1, a, b);
    if let Some(v) = TABLE.with(|t| t.borrow().get(&k).copied()) {
        return v;
    }
    let v = f();
    TABLE.with(|t| t.borrow_mut().insert(k, v));
    v
}

pub mod rngs {
    #[derive(Clone, Debug)]
    pub struct StdRng {
        pub(crate) seed: u64,
        pub(crate) pos: u64,
    }
    pub type SmallRng = StdRng;
    pub type ThreadRng = StdRng;
}
pub fn thread_rng() -> rngs::StdRng {
    rngs::StdRng::from_entropy()
}
pub fn random<T: Standard01>() -> T {
    thread_rng().gen()
}

pub trait SeedableRng: Sized {
    fn seed_from_u64(state: u64) -> Self;
    fn from_entropy() -> Self {
        let s = FRESH.with(|f| {
            f.set(f.get() + 1);
            f.get()
        });
        Self::seed_from_u64(s)
    }
}
impl SeedableRng for rngs::StdRng {
    fn seed_from_u64(seed: u64) -> Self {
        rngs::StdRng { seed, pos: 0 }
    }
}

/// A type `gen_range` can draw.
pub trait SampleUniform: Sized + PartialOrd {
    fn half_open(at: (u64, u64), lo: Self, hi: Self) -> Self;
    fn closed(at: (u64, u64), lo: Self, hi: Self) -> Self;
}
fn logged(x: f64) -> f64 {
    LOG.with(|l| l.borrow_mut().push(x));
    x
}
impl SampleUniform for f64 {
    fn half_open(at: (u64, u64), lo: f64, hi: f64) -> f64 {
        Self::closed(at, lo, hi - (hi - lo) / 1048576.0)
    }
    fn closed(at: (u64, u64), lo: f64, hi: f64) -> f64 {
        if let Some(z) = mixed(at) {
            return lo + (hi - lo) * ((z >> 11) as f64 / (1u64 << 53) as f64);
        }
        logged(f64::from_bits(memo(at, lo.to_bits(), hi.to_bits(), || symrt::real(lo, hi).to_bits())))
    }
}
impl SampleUniform for f32 {
    fn half_open(at: (u64, u64), lo: f32, hi: f32) -> f32 {
        Self::closed(at, lo, hi - (hi - lo) / 1048576.0)
    }
    fn closed(at: (u64, u64), lo: f32, hi: f32) -> f32 {
        if let Some(z) = mixed(at) {
            return lo + (hi - lo) * ((z >> 40) as f32 / (1u64 << 24) as f32);
        }
        let x = f32::from_bits(memo(at, u64::from(lo.to_bits()), u64::from(hi.to_bits()), || {
            u64::from(symrt::real32(lo, hi).to_bits())
        }) as u32);
        logged(symrt::widen(x));
        x
    }
}
macro_rules! int_range {
    ($($t:ty),*) => {$(
        impl SampleUniform for $t {
            fn half_open(at: (u64, u64), lo: $t, hi: $t) -> $t {
                assert!(lo < hi, "cannot sample empty range");
                if let Some(z) = mixed(at) {
                    return lo + (z % ((hi - lo) as u64)) as $t;
                }
                lo + memo(at, lo as u64, hi as u64, || symrt::choice((hi - lo) as usize) as u64) as $t
            }
            fn closed(at: (u64, u64), lo: $t, hi: $t) -> $t {
                Self::half_open(at, lo, hi + 1)
            }
        }
    )*};
}
int_range!(u8, u16, u32, u64, usize, i32, i64);

pub trait SampleRange<T> {
    fn pick(self, at: (u64, u64)) -> T;
}
impl<T: SampleUniform> SampleRange<T> for Range<T> {
    fn pick(self, at: (u64, u64)) -> T {
        T::half_open(at, self.start, self.end)
    }
}
impl<T: SampleUniform> SampleRange<T> for RangeInclusive<T> {
    fn pick(self, at: (u64, u64)) -> T {
        let (lo, hi) = self.into_inner();
        T::closed(at, lo, hi)
    }
}

pub trait Standard01: Sized {
    fn std01(at: (u64, u64)) -> Self;
}
impl Standard01 for f64 {
    fn std01(at: (u64, u64)) -> f64 {
        (0.0..1.0f64).pick(at)
    }
}
impl Standard01 for f32 {
    fn std01(at: (u64, u64)) -> f32 {
        (0.0..1.0f32).pick(at)
    }
}
impl Standard01 for bool {
    fn std01(at: (u64, u64)) -> bool {
        mixed(at).unwrap_or_else(|| memo(at, 0, 0, || symrt::choice(2) as u64)) % 2 == 1
    }
}

pub trait RngCore {
    /// The next position of this generator's sequence.
    fn at(&mut self) -> (u64, u64);
    fn next_u32(&mut self) -> u32 {
        let at = self.at();
        mixed(at).unwrap_or_else(|| memo(at, 1, 4, || symrt::choice(4) as u64)) as u32
    }
    fn next_u64(&mut self) -> u64 {
        u64::from(self.next_u32())
    }
}
impl RngCore for rngs::StdRng {
    fn at(&mut self) -> (u64, u64) {
        self.pos += 1;
        (self.seed, self.pos)
    }
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn at(&mut self) -> (u64, u64) {
        (**self).at()
    }
}

pub trait Rng: RngCore {
    fn gen_range<T: SampleUniform, R: SampleRange<T>>(&mut self, range: R) -> T {
        range.pick(self.at())
    }
    fn gen<T: Standard01>(&mut self) -> T {
        T::std01(self.at())
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        symrt::less(self.gen::<f64>(), p)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

fn index(rng: &mut (impl RngCore + ?Sized), n: usize) -> usize {
    usize::half_open(rng.at(), 0, n)
}

pub mod seq {
    use super::RngCore;
    pub trait IteratorRandom: Iterator + Sized {
        /// Any sub-multiset of `amount` items (all of them when there are fewer).
        fn choose_multiple<R: RngCore + ?Sized>(self, rng: &mut R, amount: usize) -> Vec<Self::Item> {
            let all: Vec<Self::Item> = self.collect();
            let mut left = all.len();
            let mut out = Vec::with_capacity(amount.min(left));
            for x in all {
                let need = amount.saturating_sub(out.len());
                let take = need >= left || (need > 0 && crate::index(rng, 2) == 1);
                left -= 1;
                if take {
                    out.push(x);
                }
            }
            out
        }
        fn choose<R: RngCore + ?Sized>(self, rng: &mut R) -> Option<Self::Item> {
            let mut all: Vec<Self::Item> = self.collect();
            if all.is_empty() {
                return None;
            }
            let i = crate::index(rng, all.len());
            Some(all.swap_remove(i))
        }
    }
    impl<I: Iterator> IteratorRandom for I {}

    pub trait SliceRandom {
        type Item;
        fn shuffle<R: RngCore + ?Sized>(&mut self, rng: &mut R);
        fn choose_multiple<R: RngCore + ?Sized>(&self, rng: &mut R, amount: usize) -> std::vec::IntoIter<&Self::Item>;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn shuffle<R: RngCore + ?Sized>(&mut self, rng: &mut R) {
            for i in (1..self.len()).rev() {
                let j = crate::index(rng, i + 1);
                self.swap(i, j);
            }
        }
        fn choose_multiple<R: RngCore + ?Sized>(&self, rng: &mut R, amount: usize) -> std::vec::IntoIter<&T> {
            IteratorRandom::choose_multiple(self.iter(), rng, amount).into_iter()
        }
    }
}

pub mod prelude {
    pub use crate::rngs::StdRng;
    pub use crate::seq::{IteratorRandom, SliceRandom};
    pub use crate::{Rng, RngCore, SeedableRng};
}
