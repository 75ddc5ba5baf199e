//! Stand-in for `pasta_curves` 0.5.1: the Pallas/Vesta cycle behind the API the workspace uses.
//! Field and curve arithmetic are the real ones; `hash_to_curve` is try-and-increment, not SSWU.
#![allow(non_camel_case_types, non_snake_case)]
extern crate alloc;
pub use ff;
pub use group;

mod curve;
mod field;

pub mod arithmetic {
    //! Traits for the Pasta curves.
    pub use crate::curve::{Coordinates, CurveAffine, CurveExt};
    pub use group::{Curve, Group};
}
pub mod pallas {
    //! The Pallas curve.
    pub type Base = crate::Fp;
    pub type Scalar = crate::Fq;
    pub type Point = crate::Ep;
    pub type Affine = crate::EpAffine;
}
pub mod vesta {
    //! The Vesta curve.
    pub type Base = crate::Fq;
    pub type Scalar = crate::Fp;
    pub type Point = crate::Eq;
    pub type Affine = crate::EqAffine;
}
pub use curve::{Ep, EpAffine, Eq, EqAffine};
pub use field::{Fp, Fq};
