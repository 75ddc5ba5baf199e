//! Stand-in for `ff` 0.14: the trait signatures the analysed workspace is typed against.
#![no_std]
extern crate alloc;

use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use rand_core::{Rng, TryRng};
pub use subtle;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait Field:
    Sized
    + Eq
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + fmt::Debug
    + 'static
    + ConditionallySelectable
    + ConstantTimeEq
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Sum
    + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;

    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        match Self::try_random(rng) {
            Ok(v) => v,
            Err(e) => match e {},
        }
    }
    fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error>;

    fn is_zero(&self) -> Choice {
        self.ct_eq(&Self::ZERO)
    }
    fn is_zero_vartime(&self) -> bool {
        self.is_zero().into()
    }
    #[must_use]
    fn square(&self) -> Self;
    #[must_use]
    fn cube(&self) -> Self {
        self.square() * self
    }
    #[must_use]
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self);
    fn sqrt_alt(&self) -> (Choice, Self) {
        Self::sqrt_ratio(self, &Self::ONE)
    }
    fn sqrt(&self) -> CtOption<Self> {
        let (is_square, res) = Self::sqrt_ratio(self, &Self::ONE);
        CtOption::new(res, is_square)
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                let mut tmp = res;
                tmp *= self;
                res.conditional_assign(&tmp, (((*e >> i) & 1) as u8).into());
            }
        }
        res
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                if ((*e >> i) & 1) == 1 {
                    res.mul_assign(self);
                }
            }
        }
        res
    }
}

pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]> + fmt::Debug;

    fn from_str_vartime(s: &str) -> Option<Self> {
        let ten = Self::from(10);
        let mut res = Self::ZERO;
        if s.is_empty() {
            return None;
        }
        for c in s.chars() {
            res = res * ten + Self::from(u64::from(c.to_digit(10)?));
        }
        Some(res)
    }
    fn from_u128(v: u128) -> Self {
        let mut r = Self::from((v >> 64) as u64);
        for _ in 0..64 {
            r = r.double();
        }
        r + Self::from(v as u64)
    }
    fn from_repr(repr: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> {
        Self::from_repr(repr).into()
    }
    fn to_repr(&self) -> Self::Repr;
    fn is_odd(&self) -> Choice;
    fn is_even(&self) -> Choice {
        !self.is_odd()
    }
    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    const ZETA: Self;
}

pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}

/// Batched inversion (Montgomery's trick); zero elements are left as they are.
pub struct BatchInverter {}

impl BatchInverter {
    pub fn invert_with_external_scratch<F: Field>(elements: &mut [F], scratch: &mut [F]) -> F {
        assert_eq!(elements.len(), scratch.len());
        let mut acc = F::ONE;
        for (p, s) in elements.iter().zip(scratch.iter_mut()) {
            *s = acc;
            acc = F::conditional_select(&(acc * p), &acc, p.is_zero());
        }
        acc = acc.invert().unwrap();
        let allinv = acc;
        for (p, s) in elements.iter_mut().rev().zip(scratch.iter().rev()) {
            let tmp = *s * acc;
            let skip = p.is_zero();
            acc = F::conditional_select(&(acc * *p), &acc, skip);
            *p = F::conditional_select(&tmp, p, skip);
        }
        allinv
    }
    pub fn invert_with_internal_scratch<F: Field>(elements: &mut [F]) -> F {
        let mut scratch = alloc::vec![F::ZERO; elements.len()];
        Self::invert_with_external_scratch(elements, &mut scratch)
    }
}

pub trait BatchInvert<F: Field> {
    fn batch_invert(self) -> F;
}

impl<'a, F: Field, I: IntoIterator<Item = &'a mut F>> BatchInvert<F> for I {
    fn batch_invert(self) -> F {
        let mut all: alloc::vec::Vec<&'a mut F> = self.into_iter().collect();
        let mut vals: alloc::vec::Vec<F> = all.iter().map(|v| **v).collect();
        let r = BatchInverter::invert_with_internal_scratch(&mut vals);
        for (a, v) in all.iter_mut().zip(vals) {
            **a = v;
        }
        r
    }
}
