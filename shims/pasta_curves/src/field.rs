use core::cmp::Ordering;
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub(crate) const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let r = a as u128 + b as u128 + c as u128;
    (r as u64, (r >> 64) as u64)
}
pub(crate) const fn sbb(a: u64, b: u64, borrow: u64) -> (u64, u64) {
    let r = (a as u128).wrapping_sub(b as u128 + (borrow >> 63) as u128);
    (r as u64, (r >> 64) as u64)
}
pub(crate) const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let r = a as u128 + (b as u128 * c as u128) + carry as u128;
    (r as u64, (r >> 64) as u64)
}
const fn sub_limbs(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], u64) {
    let (r0, w) = sbb(a[0], b[0], 0);
    let (r1, w) = sbb(a[1], b[1], w);
    let (r2, w) = sbb(a[2], b[2], w);
    let (r3, w) = sbb(a[3], b[3], w);
    ([r0, r1, r2, r3], w)
}
const fn add_limbs(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let (r0, c) = adc(a[0], b[0], 0);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, _) = adc(a[3], b[3], c);
    [r0, r1, r2, r3]
}
const fn add_mod(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let s = add_limbs(a, b);
    let (d, w) = sub_limbs(&s, m);
    if w == 0 { d } else { s }
}
const fn sub_mod(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let (d, w) = sub_limbs(a, b);
    if w == 0 { d } else { add_limbs(&d, m) }
}
/// The inverse of `-m` modulo 2^64.
const fn neg_inv(m: &[u64; 4]) -> u64 {
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(m[0]);
        i += 1;
    }
    inv.wrapping_neg()
}
const fn mont_mul(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4], inv: u64) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c = 0;
        let mut j = 0;
        while j < 4 {
            let (lo, hi) = mac(t[j], a[j], b[i], c);
            t[j] = lo;
            c = hi;
            j += 1;
        }
        let (lo, hi) = adc(t[4], c, 0);
        t[4] = lo;
        t[5] = hi;
        let k = t[0].wrapping_mul(inv);
        let (_, mut c) = mac(t[0], k, m[0], 0);
        let mut j = 1;
        while j < 4 {
            let (lo, hi) = mac(t[j], k, m[j], c);
            t[j - 1] = lo;
            c = hi;
            j += 1;
        }
        let (lo, hi) = adc(t[4], c, 0);
        t[3] = lo;
        t[4] = t[5] + hi;
        i += 1;
    }
    let r = [t[0], t[1], t[2], t[3]];
    let (d, w) = sub_limbs(&r, m);
    if t[4] != 0 || w == 0 { d } else { r }
}
const fn pow2_mod(bits: u32, m: &[u64; 4]) -> [u64; 4] {
    let mut r = [1, 0, 0, 0];
    let mut i = 0;
    while i < bits {
        r = add_mod(&r, &r, m);
        i += 1;
    }
    r
}

macro_rules! field {
    ($name:ident, $modulus:expr, $modstr:expr, $root:expr, $rootinv:expr, $delta:expr, $zeta:expr, $twoinv:expr, $t_minus1_over2:expr) => {
        #[derive(Clone, Copy, Eq)]
        pub struct $name(pub(crate) [u64; 4]);

        impl $name {
            const M: [u64; 4] = $modulus;
            const INV: u64 = neg_inv(&$modulus);
            const R1: [u64; 4] = pow2_mod(256, &$modulus);
            const R2: [u64; 4] = pow2_mod(512, &$modulus);

            pub const fn zero() -> Self {
                $name([0; 4])
            }
            pub const fn one() -> Self {
                $name(Self::R1)
            }
            pub const fn from_raw(val: [u64; 4]) -> Self {
                $name(mont_mul(&val, &Self::R2, &Self::M, Self::INV))
            }
            pub const fn add(&self, rhs: &Self) -> Self {
                $name(add_mod(&self.0, &rhs.0, &Self::M))
            }
            pub const fn sub(&self, rhs: &Self) -> Self {
                $name(sub_mod(&self.0, &rhs.0, &Self::M))
            }
            pub const fn mul(&self, rhs: &Self) -> Self {
                $name(mont_mul(&self.0, &rhs.0, &Self::M, Self::INV))
            }
            pub const fn neg(&self) -> Self {
                $name(sub_mod(&[0; 4], &self.0, &Self::M))
            }
            pub const fn double(&self) -> Self {
                self.add(self)
            }
            pub const fn square(&self) -> Self {
                self.mul(self)
            }
            const fn canonical(&self) -> [u64; 4] {
                mont_mul(&self.0, &[1, 0, 0, 0], &Self::M, Self::INV)
            }
            fn from_u512(limbs: [u64; 8]) -> Self {
                let lo = $name([limbs[0], limbs[1], limbs[2], limbs[3]]);
                let hi = $name([limbs[4], limbs[5], limbs[6], limbs[7]]);
                let r2 = $name(Self::R2);
                let r3 = $name(mont_mul(&Self::R2, &Self::R2, &Self::M, Self::INV));
                (&lo).mul(&r2).add(&(&hi).mul(&r3))
            }
        }

        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "0x")?;
                for b in self.to_repr().iter().rev() {
                    write!(f, "{:02x}", b)?;
                }
                Ok(())
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl core::hash::Hash for $name {
            fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
                self.0.hash(state)
            }
        }
        impl PartialEq for $name {
            fn eq(&self, other: &Self) -> bool {
                self.0 == other.0
            }
        }
        impl Ord for $name {
            fn cmp(&self, other: &Self) -> Ordering {
                self.canonical().iter().rev().cmp(other.canonical().iter().rev())
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
                Some(self.cmp(other))
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, other: &Self) -> Choice {
                self.0[0].ct_eq(&other.0[0])
                    & self.0[1].ct_eq(&other.0[1])
                    & self.0[2].ct_eq(&other.0[2])
                    & self.0[3].ct_eq(&other.0[3])
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
                $name([
                    u64::conditional_select(&a.0[0], &b.0[0], choice),
                    u64::conditional_select(&a.0[1], &b.0[1], choice),
                    u64::conditional_select(&a.0[2], &b.0[2], choice),
                    u64::conditional_select(&a.0[3], &b.0[3], choice),
                ])
            }
        }
        impl From<bool> for $name {
            fn from(bit: bool) -> Self {
                if bit { Self::one() } else { Self::zero() }
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                Self::from_raw([v, 0, 0, 0])
            }
        }
        impl From<$name> for [u8; 32] {
            fn from(v: $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl<'a> From<&'a $name> for [u8; 32] {
            fn from(v: &'a $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl Neg for $name {
            type Output = $name;
            fn neg(self) -> $name {
                $name::neg(&self)
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            fn neg(self) -> $name {
                $name::neg(self)
            }
        }
        field!(@op $name, Add, add, AddAssign, add_assign);
        field!(@op $name, Sub, sub, SubAssign, sub_assign);
        field!(@op $name, Mul, mul, MulAssign, mul_assign);
        impl<T: core::borrow::Borrow<$name>> Sum<T> for $name {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::zero(), |a, b| $name::add(&a, b.borrow()))
            }
        }
        impl<T: core::borrow::Borrow<$name>> Product<T> for $name {
            fn product<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::one(), |a, b| $name::mul(&a, b.borrow()))
            }
        }

        impl Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                let mut limbs = [0; 8];
                for l in limbs.iter_mut() {
                    *l = rng.try_next_u64()?;
                }
                Ok(Self::from_u512(limbs))
            }
            fn square(&self) -> Self {
                $name::square(self)
            }
            fn double(&self) -> Self {
                $name::double(self)
            }
            fn invert(&self) -> CtOption<Self> {
                let mut e = Self::M;
                e[0] -= 2;
                // the low limb is 1: borrow
                if Self::M[0] < 2 {
                    let (d, _) = sub_limbs(&Self::M, &[2, 0, 0, 0]);
                    e = d;
                }
                CtOption::new(self.pow_vartime(e), !self.ct_eq(&Self::ZERO))
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                if bool::from(num.is_zero()) {
                    return (Choice::from(1), Self::ZERO);
                }
                if bool::from(div.is_zero()) {
                    return (Choice::from(0), Self::ZERO);
                }
                let a = *num * div.invert().unwrap();
                match tonelli(a, $t_minus1_over2) {
                    Some(r) => (Choice::from(1), r),
                    None => {
                        let r = tonelli(a * Self::ROOT_OF_UNITY, $t_minus1_over2).unwrap();
                        (Choice::from(0), r)
                    }
                }
            }
        }

        impl PrimeField for $name {
            type Repr = [u8; 32];
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const TWO_INV: Self = Self::from_raw($twoinv);
            const MULTIPLICATIVE_GENERATOR: Self = Self::from_raw([5, 0, 0, 0]);
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = Self::from_raw($root);
            const ROOT_OF_UNITY_INV: Self = Self::from_raw($rootinv);
            const DELTA: Self = Self::from_raw($delta);
            fn from_repr(repr: [u8; 32]) -> CtOption<Self> {
                let mut l = [0u64; 4];
                for i in 0..4 {
                    let mut w = [0; 8];
                    w.copy_from_slice(&repr[8 * i..8 * i + 8]);
                    l[i] = u64::from_le_bytes(w);
                }
                let (_, w) = sub_limbs(&l, &Self::M);
                CtOption::new(Self::from_raw(l), Choice::from((w & 1) as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let c = self.canonical();
                let mut r = [0; 32];
                for i in 0..4 {
                    r[8 * i..8 * i + 8].copy_from_slice(&c[i].to_le_bytes());
                }
                r
            }
            fn is_odd(&self) -> Choice {
                Choice::from(self.to_repr()[0] & 1)
            }
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = Self::from_raw($zeta);
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(bytes: &[u8; 64]) -> Self {
                let mut l = [0u64; 8];
                for i in 0..8 {
                    let mut w = [0; 8];
                    w.copy_from_slice(&bytes[8 * i..8 * i + 8]);
                    l[i] = u64::from_le_bytes(w);
                }
                Self::from_u512(l)
            }
        }
    };
    (@op $name:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl $tr for $name {
            type Output = $name;
            fn $f(self, rhs: $name) -> $name {
                $name::$f(&self, &rhs)
            }
        }
        impl<'b> $tr<&'b $name> for $name {
            type Output = $name;
            fn $f(self, rhs: &'b $name) -> $name {
                $name::$f(&self, rhs)
            }
        }
        impl<'a> $tr<$name> for &'a $name {
            type Output = $name;
            fn $f(self, rhs: $name) -> $name {
                $name::$f(self, &rhs)
            }
        }
        impl<'a, 'b> $tr<&'b $name> for &'a $name {
            type Output = $name;
            fn $f(self, rhs: &'b $name) -> $name {
                $name::$f(self, rhs)
            }
        }
        impl $tra for $name {
            fn $fa(&mut self, rhs: $name) {
                *self = $name::$f(self, &rhs)
            }
        }
        impl<'b> $tra<&'b $name> for $name {
            fn $fa(&mut self, rhs: &'b $name) {
                *self = $name::$f(self, rhs)
            }
        }
    };
}

fn tonelli<F: PrimeField>(a: F, t_minus1_over2: [u64; 4]) -> Option<F> {
    // a = x^2?  p - 1 = 2^S * t
    let w = a.pow_vartime(t_minus1_over2);
    let mut v = F::S;
    let mut x = w * a;
    let mut b = x * w;
    let mut z = F::ROOT_OF_UNITY;
    while b != F::ONE {
        let mut k = 0;
        let mut t = b;
        while t != F::ONE {
            t = t.square();
            k += 1;
            if k == v {
                return None;
            }
        }
        let mut w = z;
        for _ in 0..(v - k - 1) {
            w = w.square();
        }
        z = w.square();
        b *= z;
        x *= w;
        v = k;
    }
    if x.square() == a { Some(x) } else { None }
}

field!(
    Fp,
    [0x992d30ed00000001, 0x224698fc094cf91b, 0x0000000000000000, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    [0xbdad6fabd87ea32f, 0xea322bf2b7bb7584, 0x362120830561f81a, 0x2bce74deac30ebda],
    [0xf0b87c7db2ce91f6, 0x84a0a1d8859f066f, 0xb4ed8e647196dad1, 0x2cd5282c53116b5c],
    [0x6a6ccd20dd7b9ba2, 0xf5e4f3f13eee5636, 0xbd455b7112a5049d, 0x0a757d0f0006ab6c],
    [0x1dad5ebdfdfe4ab9, 0x1d1f8bd237ad3149, 0x2caad5dc57aab1b0, 0x12ccca834acdba71],
    [0xcc96987680000001, 0x11234c7e04a67c8d, 0x0000000000000000, 0x2000000000000000],
    [0x04a67c8dcc969876, 0x0000000011234c7e, 0x0000000000000000, 0x0000000020000000]
);
field!(
    Fq,
    [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0000000000000000, 0x4000000000000000],
    "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    [0xa70e2c1102b6d05f, 0x9bb97ea3c106f049, 0x9e5c4dfd492ae26e, 0x2de6a9b8746d3f58],
    [0x57eecda0a84b6836, 0x4ad38b9084b8a80c, 0xf4c8f353124086c1, 0x2235e1a7415bf936],
    [0x8494392472d1683c, 0xe3ac3376541d1140, 0x06f0a88e7f7949f8, 0x2237d54423724166],
    [0x2aa9d2e050aa0e4f, 0x0fed467d47c033af, 0x511db4d81cf70f5a, 0x06819a58283e528e],
    [0xc623759080000001, 0x11234c7e04ca546e, 0x0000000000000000, 0x2000000000000000],
    [0x04ca546ec6237590, 0x0000000011234c7e, 0x0000000000000000, 0x0000000020000000]
);
