//! Stand-in for `group` 0.14: the trait signatures the analysed workspace is typed against.
#![no_std]
extern crate alloc;
pub use ff;

use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::PrimeField;
use rand_core::{Rng, TryRng};
use subtle::{Choice, CtOption};

pub mod prime;

pub trait GroupOps<Rhs = Self, Output = Self>:
    Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs>
{
}
impl<T, Rhs, Output> GroupOps<Rhs, Output> for T where
    T: Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs>
{
}
pub trait GroupOpsOwned<Rhs = Self, Output = Self>: for<'r> GroupOps<&'r Rhs, Output> {}
impl<T, Rhs, Output> GroupOpsOwned<Rhs, Output> for T where T: for<'r> GroupOps<&'r Rhs, Output> {}

pub trait ScalarMul<Rhs, Output = Self>: Mul<Rhs, Output = Output> + MulAssign<Rhs> {}
impl<T, Rhs, Output> ScalarMul<Rhs, Output> for T where T: Mul<Rhs, Output = Output> + MulAssign<Rhs> {}
pub trait ScalarMulOwned<Rhs, Output = Self>: for<'r> ScalarMul<&'r Rhs, Output> {}
impl<T, Rhs, Output> ScalarMulOwned<Rhs, Output> for T where T: for<'r> ScalarMul<&'r Rhs, Output> {}

pub trait Group:
    Clone
    + Copy
    + fmt::Debug
    + Eq
    + Sized
    + Send
    + Sync
    + 'static
    + Sum
    + for<'a> Sum<&'a Self>
    + Neg<Output = Self>
    + GroupOps
    + GroupOpsOwned
    + ScalarMul<<Self as Group>::Scalar>
    + ScalarMulOwned<<Self as Group>::Scalar>
{
    type Scalar: PrimeField;
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        match Self::try_random(rng) {
            Ok(v) => v,
            Err(e) => match e {},
        }
    }
    fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error>;
    fn identity() -> Self;
    fn generator() -> Self;
    fn is_identity(&self) -> Choice;
    #[must_use]
    fn double(&self) -> Self;
}

pub trait Curve: Group + GroupOps<<Self as Curve>::AffineRepr> + GroupOpsOwned<<Self as Curve>::AffineRepr> {
    type AffineRepr;
    fn batch_normalize(p: &[Self], q: &mut [Self::AffineRepr]) {
        assert_eq!(p.len(), q.len());
        for (p, q) in p.iter().zip(q.iter_mut()) {
            *q = p.to_affine();
        }
    }
    fn to_affine(&self) -> Self::AffineRepr;
}

pub trait GroupEncoding: Sized {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_bytes(bytes: &Self::Repr) -> CtOption<Self>;
    fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self>;
    fn to_bytes(&self) -> Self::Repr;
}

/// A scalar prepared for windowed multiplication (here: kept as its little-endian bits).
#[derive(Clone, Debug)]
pub struct WnafScalar<F: PrimeField, const WINDOW_SIZE: usize> {
    bits: alloc::vec::Vec<bool>,
    field: core::marker::PhantomData<F>,
}
impl<F: PrimeField, const WINDOW_SIZE: usize> WnafScalar<F, WINDOW_SIZE> {
    pub fn new(scalar: &F) -> Self {
        let repr = scalar.to_repr();
        let bits = repr
            .as_ref()
            .iter()
            .flat_map(|b| (0..8).map(move |i| (b >> i) & 1 == 1))
            .collect();
        WnafScalar { bits, field: core::marker::PhantomData }
    }
}
#[derive(Clone, Debug)]
pub struct WnafBase<G: Group, const WINDOW_SIZE: usize> {
    base: G,
}
impl<G: Group, const WINDOW_SIZE: usize> WnafBase<G, WINDOW_SIZE> {
    pub fn new(base: G) -> Self {
        WnafBase { base }
    }
}
impl<G: Group, const WINDOW_SIZE: usize> Mul<&WnafScalar<G::Scalar, WINDOW_SIZE>> for &WnafBase<G, WINDOW_SIZE> {
    type Output = G;
    fn mul(self, rhs: &WnafScalar<G::Scalar, WINDOW_SIZE>) -> G {
        let mut acc = G::identity();
        for b in rhs.bits.iter().rev() {
            acc = acc.double();
            if *b {
                acc += &self.base;
            }
        }
        acc
    }
}
