use crate::{Fp, Fq};
use alloc::boxed::Box;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait CurveExt:
    PrimeCurve<Affine = <Self as CurveExt>::AffineExt>
    + Group<Scalar = <Self as CurveExt>::ScalarExt>
    + Default
    + ConditionallySelectable
    + ConstantTimeEq
    + From<<Self as PrimeCurve>::Affine>
{
    type ScalarExt: WithSmallOrderMulGroup<3>;
    type Base: WithSmallOrderMulGroup<3>;
    type AffineExt: CurveAffine<CurveExt = Self, ScalarExt = <Self as CurveExt>::ScalarExt>
        + Mul<Self::ScalarExt, Output = Self>
        + for<'r> Mul<Self::ScalarExt, Output = Self>;
    const CURVE_ID: &'static str;
    fn endo(&self) -> Self;
    fn jacobian_coordinates(&self) -> (Self::Base, Self::Base, Self::Base);
    fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a>;
    fn is_on_curve(&self) -> Choice;
    fn a() -> Self::Base;
    fn b() -> Self::Base;
    fn new_jacobian(x: Self::Base, y: Self::Base, z: Self::Base) -> CtOption<Self>;
}

pub trait CurveAffine:
    PrimeCurveAffine<
        Scalar = <Self as CurveAffine>::ScalarExt,
        Curve = <Self as CurveAffine>::CurveExt,
    > + Default
    + Add<Output = <Self as PrimeCurveAffine>::Curve>
    + Sub<Output = <Self as PrimeCurveAffine>::Curve>
    + ConditionallySelectable
    + ConstantTimeEq
    + From<<Self as PrimeCurveAffine>::Curve>
{
    type ScalarExt: WithSmallOrderMulGroup<3> + Ord;
    type Base: WithSmallOrderMulGroup<3> + Ord;
    type CurveExt: CurveExt<AffineExt = Self, ScalarExt = <Self as CurveAffine>::ScalarExt>;
    fn coordinates(&self) -> CtOption<Coordinates<Self>>;
    fn from_xy(x: Self::Base, y: Self::Base) -> CtOption<Self>;
    fn is_on_curve(&self) -> Choice;
    fn a() -> Self::Base;
    fn b() -> Self::Base;
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Coordinates<C: CurveAffine> {
    pub(crate) x: C::Base,
    pub(crate) y: C::Base,
}
impl<C: CurveAffine> Coordinates<C> {
    pub fn from_xy(x: C::Base, y: C::Base) -> CtOption<Self> {
        CtOption::new(Coordinates { x, y }, C::from_xy(x, y).is_some())
    }
    pub fn x(&self) -> &C::Base {
        &self.x
    }
    pub fn y(&self) -> &C::Base {
        &self.y
    }
    pub fn u(&self) -> &C::Base {
        &self.x
    }
    pub fn v(&self) -> &C::Base {
        &self.y
    }
}
impl<C: CurveAffine> ConditionallySelectable for Coordinates<C> {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        Coordinates {
            x: C::Base::conditional_select(&a.x, &b.x, choice),
            y: C::Base::conditional_select(&a.y, &b.y, choice),
        }
    }
}

macro_rules! curve {
    ($pt:ident, $aff:ident, $base:ident, $scalar:ident, $id:expr) => {
        /// A point in Jacobian coordinates.
        #[derive(Clone, Copy, Debug)]
        pub struct $pt {
            x: $base,
            y: $base,
            z: $base,
        }
        /// A point in affine coordinates; the identity is (0, 0).
        #[derive(Clone, Copy, core::hash::Hash)]
        pub struct $aff {
            x: $base,
            y: $base,
        }
        impl fmt::Debug for $aff {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if bool::from(self.is_identity()) {
                    write!(f, "Infinity")
                } else {
                    write!(f, "({:?}, {:?})", self.x, self.y)
                }
            }
        }
        impl $pt {
            fn add_pt(&self, rhs: &Self) -> Self {
                if bool::from(self.z.is_zero()) {
                    return *rhs;
                }
                if bool::from(rhs.z.is_zero()) {
                    return *self;
                }
                let z1z1 = Field::square(&self.z);
                let z2z2 = Field::square(&rhs.z);
                let u1 = self.x * z2z2;
                let u2 = rhs.x * z1z1;
                let s1 = self.y * z2z2 * rhs.z;
                let s2 = rhs.y * z1z1 * self.z;
                if u1 == u2 {
                    return if s1 == s2 { Group::double(self) } else { Self::identity() };
                }
                let h = u2 - u1;
                let i = Field::square(&Field::double(&h));
                let j = h * i;
                let r = Field::double(&(s2 - s1));
                let v = u1 * i;
                let x3 = Field::square(&r) - j - v - v;
                let s1j = s1 * j;
                let y3 = r * (v - x3) - s1j - s1j;
                let z3 = (Field::square(&(self.z + rhs.z)) - z1z1 - z2z2) * h;
                $pt { x: x3, y: y3, z: z3 }
            }
            fn mul_scalar(&self, k: &$scalar) -> Self {
                let mut acc = Self::identity();
                for byte in k.to_repr().iter().rev() {
                    for i in (0..8).rev() {
                        acc = Group::double(&acc);
                        if (byte >> i) & 1 == 1 {
                            acc = acc.add_pt(self);
                        }
                    }
                }
                acc
            }
        }
        impl Default for $pt {
            fn default() -> Self {
                <Self as Group>::identity()
            }
        }
        impl Default for $aff {
            fn default() -> Self {
                <Self as PrimeCurveAffine>::identity()
            }
        }
        impl ConstantTimeEq for $pt {
            fn ct_eq(&self, other: &Self) -> Choice {
                let z = Field::square(&other.z);
                let x1 = self.x * z;
                let y1 = self.y * z * other.z;
                let z = Field::square(&self.z);
                let x2 = other.x * z;
                let y2 = other.y * z * self.z;
                let i = self.z.is_zero();
                let j = other.z.is_zero();
                (i & j) | (!i & !j & x1.ct_eq(&x2) & y1.ct_eq(&y2))
            }
        }
        impl PartialEq for $pt {
            fn eq(&self, other: &Self) -> bool {
                self.ct_eq(other).into()
            }
        }
        impl core::cmp::Eq for $pt {}
        impl ConstantTimeEq for $aff {
            fn ct_eq(&self, other: &Self) -> Choice {
                self.x.ct_eq(&other.x) & self.y.ct_eq(&other.y)
            }
        }
        impl PartialEq for $aff {
            fn eq(&self, other: &Self) -> bool {
                self.ct_eq(other).into()
            }
        }
        impl core::cmp::Eq for $aff {}
        impl ConditionallySelectable for $pt {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $pt {
                    x: $base::conditional_select(&a.x, &b.x, c),
                    y: $base::conditional_select(&a.y, &b.y, c),
                    z: $base::conditional_select(&a.z, &b.z, c),
                }
            }
        }
        impl ConditionallySelectable for $aff {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $aff {
                    x: $base::conditional_select(&a.x, &b.x, c),
                    y: $base::conditional_select(&a.y, &b.y, c),
                }
            }
        }
        impl From<$aff> for $pt {
            fn from(p: $aff) -> $pt {
                p.to_curve()
            }
        }
        impl<'a> From<&'a $aff> for $pt {
            fn from(p: &'a $aff) -> $pt {
                p.to_curve()
            }
        }
        impl From<$pt> for $aff {
            fn from(p: $pt) -> $aff {
                p.to_affine()
            }
        }
        impl<'a> From<&'a $pt> for $aff {
            fn from(p: &'a $pt) -> $aff {
                p.to_affine()
            }
        }
        impl Neg for $pt {
            type Output = $pt;
            fn neg(self) -> $pt {
                $pt { x: self.x, y: -self.y, z: self.z }
            }
        }
        impl<'a> Neg for &'a $pt {
            type Output = $pt;
            fn neg(self) -> $pt {
                -*self
            }
        }
        impl Neg for $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                $aff { x: self.x, y: -self.y }
            }
        }
        impl<'a> Neg for &'a $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                -*self
            }
        }
        curve!(@bin $pt, $pt, $pt);
        curve!(@bin $pt, $aff, $pt);
        curve!(@bin $aff, $aff, $pt);
        curve!(@bin $aff, $pt, $pt);
        curve!(@assign $pt, $pt);
        curve!(@assign $pt, $aff);
        curve!(@mul $pt, $scalar, $pt);
        curve!(@mul $aff, $scalar, $pt);
        impl MulAssign<$scalar> for $pt {
            fn mul_assign(&mut self, k: $scalar) {
                *self = self.mul_scalar(&k);
            }
        }
        impl<'b> MulAssign<&'b $scalar> for $pt {
            fn mul_assign(&mut self, k: &'b $scalar) {
                *self = self.mul_scalar(k);
            }
        }
        impl<T: core::borrow::Borrow<$pt>> Sum<T> for $pt {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::identity(), |a, b| a.add_pt(b.borrow()))
            }
        }
        impl Group for $pt {
            type Scalar = $scalar;
            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                Ok(Self::generator().mul_scalar(&$scalar::try_random(rng)?))
            }
            fn identity() -> Self {
                $pt { x: $base::ZERO, y: $base::ZERO, z: $base::ZERO }
            }
            fn generator() -> Self {
                // (-1, 2)
                $pt { x: -$base::ONE, y: $base::from(2u64), z: $base::ONE }
            }
            fn is_identity(&self) -> Choice {
                self.z.is_zero()
            }
            fn double(&self) -> Self {
                let a = Field::square(&self.x);
                let b = Field::square(&self.y);
                let c = Field::square(&b);
                let d = Field::double(&(Field::square(&(self.x + b)) - a - c));
                let e = a + a + a;
                let f = Field::square(&e);
                let z3 = Field::double(&(self.z * self.y));
                let x3 = f - Field::double(&d);
                let c8 = Field::double(&Field::double(&Field::double(&c)));
                let y3 = e * (d - x3) - c8;
                $pt { x: x3, y: y3, z: z3 }
            }
        }
        impl Curve for $pt {
            type AffineRepr = $aff;
            fn batch_normalize(p: &[Self], q: &mut [$aff]) {
                assert_eq!(p.len(), q.len());
                let mut zs: alloc::vec::Vec<$base> = p.iter().map(|p| p.z).collect();
                ff::BatchInverter::invert_with_internal_scratch(&mut zs);
                for ((p, zi), q) in p.iter().zip(zs).zip(q.iter_mut()) {
                    let z2 = Field::square(&zi);
                    *q = $aff { x: p.x * z2, y: p.y * z2 * zi };
                }
            }
            fn to_affine(&self) -> $aff {
                let zi = self.z.invert().unwrap_or($base::ZERO);
                let z2 = Field::square(&zi);
                $aff { x: self.x * z2, y: self.y * z2 * zi }
            }
        }
        impl PrimeGroup for $pt {}
        impl PrimeCurve for $pt {
            type Affine = $aff;
        }
        impl PrimeCurveAffine for $aff {
            type Scalar = $scalar;
            type Curve = $pt;
            fn identity() -> Self {
                $aff { x: $base::ZERO, y: $base::ZERO }
            }
            fn generator() -> Self {
                $aff { x: -$base::ONE, y: $base::from(2u64) }
            }
            fn is_identity(&self) -> Choice {
                self.x.is_zero() & self.y.is_zero()
            }
            fn to_curve(&self) -> $pt {
                if bool::from(self.is_identity()) {
                    $pt::identity()
                } else {
                    $pt { x: self.x, y: self.y, z: $base::ONE }
                }
            }
        }
        impl GroupEncoding for $aff {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                if bytes == &[0u8; 32] {
                    return CtOption::new(Self::identity(), Choice::from(1));
                }
                let mut b = *bytes;
                let sign = Choice::from(b[31] >> 7);
                b[31] &= 0x7f;
                $base::from_repr(b).and_then(|x| {
                    (Field::square(&x) * x + $base::from(5u64)).sqrt().and_then(|y| {
                        let y = $base::conditional_select(&y, &-y, y.is_odd() ^ sign);
                        CtOption::new($aff { x, y }, Choice::from(1))
                    })
                })
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                if bool::from(self.is_identity()) {
                    [0; 32]
                } else {
                    let mut b = self.x.to_repr();
                    b[31] |= self.y.is_odd().unwrap_u8() << 7;
                    b
                }
            }
        }
        impl GroupEncoding for $pt {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                $aff::from_bytes(bytes).map(|p| p.to_curve())
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                self.to_affine().to_bytes()
            }
        }
        impl CurveExt for $pt {
            type ScalarExt = $scalar;
            type Base = $base;
            type AffineExt = $aff;
            const CURVE_ID: &'static str = $id;
            fn endo(&self) -> Self {
                $pt { x: self.x * $base::ZETA, y: self.y, z: self.z }
            }
            fn jacobian_coordinates(&self) -> ($base, $base, $base) {
                (self.x, self.y, self.z)
            }
            fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                Box::new(move |message| {
                    let mut ctr = 0u32;
                    loop {
                        let mut h = blake2b_simd::Params::new().personal($id.as_bytes()).to_state();
                        h.update(&(domain_prefix.len() as u64).to_le_bytes());
                        h.update(domain_prefix.as_bytes());
                        h.update(message);
                        h.update(&ctr.to_le_bytes());
                        let h = h.finalize();
                        let x = $base::from_uniform_bytes(h.as_array());
                        let y: Option<$base> = (Field::square(&x) * x + $base::from(5u64)).sqrt().into();
                        if let Some(y) = y {
                            return $pt { x, y, z: $base::ONE };
                        }
                        ctr += 1;
                    }
                })
            }
            fn is_on_curve(&self) -> Choice {
                let z2 = Field::square(&self.z);
                let z6 = z2 * z2 * z2;
                self.is_identity()
                    | Field::square(&self.y)
                        .ct_eq(&(Field::square(&self.x) * self.x + $base::from(5u64) * z6))
            }
            fn a() -> $base {
                $base::ZERO
            }
            fn b() -> $base {
                $base::from(5u64)
            }
            fn new_jacobian(x: $base, y: $base, z: $base) -> CtOption<Self> {
                let p = $pt { x, y, z };
                CtOption::new(p, CurveExt::is_on_curve(&p))
            }
        }
        impl CurveAffine for $aff {
            type ScalarExt = $scalar;
            type Base = $base;
            type CurveExt = $pt;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                CtOption::new(Coordinates { x: self.x, y: self.y }, !self.is_identity())
            }
            fn from_xy(x: $base, y: $base) -> CtOption<Self> {
                let p = $aff { x, y };
                CtOption::new(p, CurveAffine::is_on_curve(&p))
            }
            fn is_on_curve(&self) -> Choice {
                Field::square(&self.y).ct_eq(&(Field::square(&self.x) * self.x + $base::from(5u64)))
                    | self.is_identity()
            }
            fn a() -> $base {
                $base::ZERO
            }
            fn b() -> $base {
                $base::from(5u64)
            }
        }
    };
    (@bin $l:ident, $r:ident, $o:ident) => {
        impl Add<$r> for $l {
            type Output = $o;
            fn add(self, rhs: $r) -> $o {
                $o::from(self).add_pt(&$o::from(rhs))
            }
        }
        impl<'b> Add<&'b $r> for $l {
            type Output = $o;
            fn add(self, rhs: &'b $r) -> $o {
                $o::from(self).add_pt(&$o::from(*rhs))
            }
        }
        impl<'a> Add<$r> for &'a $l {
            type Output = $o;
            fn add(self, rhs: $r) -> $o {
                $o::from(*self).add_pt(&$o::from(rhs))
            }
        }
        impl<'a, 'b> Add<&'b $r> for &'a $l {
            type Output = $o;
            fn add(self, rhs: &'b $r) -> $o {
                $o::from(*self).add_pt(&$o::from(*rhs))
            }
        }
        impl Sub<$r> for $l {
            type Output = $o;
            fn sub(self, rhs: $r) -> $o {
                $o::from(self).add_pt(&$o::from(-rhs))
            }
        }
        impl<'b> Sub<&'b $r> for $l {
            type Output = $o;
            fn sub(self, rhs: &'b $r) -> $o {
                $o::from(self).add_pt(&$o::from(-*rhs))
            }
        }
        impl<'a> Sub<$r> for &'a $l {
            type Output = $o;
            fn sub(self, rhs: $r) -> $o {
                $o::from(*self).add_pt(&$o::from(-rhs))
            }
        }
        impl<'a, 'b> Sub<&'b $r> for &'a $l {
            type Output = $o;
            fn sub(self, rhs: &'b $r) -> $o {
                $o::from(*self).add_pt(&$o::from(-*rhs))
            }
        }
    };
    (@assign $l:ident, $r:ident) => {
        impl AddAssign<$r> for $l {
            fn add_assign(&mut self, rhs: $r) {
                *self = *self + rhs;
            }
        }
        impl<'b> AddAssign<&'b $r> for $l {
            fn add_assign(&mut self, rhs: &'b $r) {
                *self = *self + rhs;
            }
        }
        impl SubAssign<$r> for $l {
            fn sub_assign(&mut self, rhs: $r) {
                *self = *self - rhs;
            }
        }
        impl<'b> SubAssign<&'b $r> for $l {
            fn sub_assign(&mut self, rhs: &'b $r) {
                *self = *self - rhs;
            }
        }
    };
    (@mul $l:ident, $s:ident, $o:ident) => {
        impl Mul<$s> for $l {
            type Output = $o;
            fn mul(self, k: $s) -> $o {
                $o::from(self).mul_scalar(&k)
            }
        }
        impl<'b> Mul<&'b $s> for $l {
            type Output = $o;
            fn mul(self, k: &'b $s) -> $o {
                $o::from(self).mul_scalar(k)
            }
        }
        impl<'a> Mul<$s> for &'a $l {
            type Output = $o;
            fn mul(self, k: $s) -> $o {
                $o::from(*self).mul_scalar(&k)
            }
        }
        impl<'a, 'b> Mul<&'b $s> for &'a $l {
            type Output = $o;
            fn mul(self, k: &'b $s) -> $o {
                $o::from(*self).mul_scalar(k)
            }
        }
    };
}

curve!(Ep, EpAffine, Fp, Fq, "pallas");
curve!(Eq, EqAffine, Fq, Fp, "vesta");
