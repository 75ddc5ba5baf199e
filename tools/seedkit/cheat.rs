
/// A driver that lets one gate be assigned dishonestly and records whether every constraint still holds.
#[cfg(test)]
mod planted {
    #![allow(dead_code)]
    use super::*;
    use alloc::{boxed::Box, vec::Vec};
    use ff::Field as _;
    use ragu_core::drivers::{DirectSum, Driver, DriverTypes, DriverValue, LinearExpression as _};
    use ragu_core::maybe::{Always, Maybe as _, MaybeKind as _};

    pub type Fp = ragu_pasta::Fp;
    pub struct Cheat {
        pub n: usize,
        pub with: Box<dyn Fn(usize, [Fp; 3]) -> [Fp; 3]>,
        pub ok: bool,
    }
    impl Cheat {
        pub fn new(with: impl Fn(usize, [Fp; 3]) -> [Fp; 3] + 'static) -> Self {
            Cheat { n: 0, with: Box::new(with), ok: true }
        }
        pub fn honest() -> Self {
            Self::new(|_, x| x)
        }
    }
    impl DriverTypes for Cheat {
        type ImplField = Fp;
        type ImplWire = Fp;
        type MaybeKind = Always<()>;
        type LCadd = DirectSum<Fp>;
        type LCenforce = DirectSum<Fp>;
        fn gate(
            &mut self,
            values: impl Fn() -> ragu_core::Result<(ragu_arithmetic::Coeff<Fp>, ragu_arithmetic::Coeff<Fp>, ragu_arithmetic::Coeff<Fp>, ragu_arithmetic::Coeff<Fp>)>,
        ) -> ragu_core::Result<(Fp, Fp, Fp, Fp)> {
            let (a, b, c, d) = values()?;
            let (mut a, mut b, mut c, d) = (a.value(), b.value(), c.value(), d.value());
            [a, b, c] = (self.with)(self.n, [a, b, c]);
            self.n += 1;
            self.ok &= a * b == c && c * d == Fp::ZERO;
            Ok((a, b, c, d))
        }
    }
    impl<'dr> Driver<'dr> for Cheat {
        type F = Fp;
        type Wire = Fp;
        const ONE: Fp = Fp::ONE;
        fn add(&mut self, lc: impl Fn(Self::LCadd) -> Self::LCadd) -> Fp {
            lc(DirectSum::default()).value()
        }
        fn enforce_zero(&mut self, lc: impl Fn(Self::LCenforce) -> Self::LCenforce) -> ragu_core::Result<()> {
            self.ok &= lc(DirectSum::default()).value() == Fp::ZERO;
            Ok(())
        }
    }
    pub fn just<T: Send>(x: T) -> DriverValue<Cheat, T> {
        Always::<()>::maybe_just(|| x)
    }
