use core::marker::PhantomData;
use ragu_core::{
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Gadget, GadgetKind},
};
use ragu_primitives::{Boolean, Element, Point, consistent::Consistent, io::Write};

#[derive(Gadget, Write, Consistent)]
pub struct One<'dr, D: Driver<'dr>> {
    pub only: Element<'dr, D>,
}

#[derive(Gadget, Write, Consistent)]
pub struct Unmarked<'dr, D: Driver<'dr>> {
    pub zz: Element<'dr, D>,
    pub aa: Element<'dr, D>,
    #[ragu(gadget)]
    pub mm: Boolean<'dr, D>,
    pub bb: (Element<'dr, D>, Boolean<'dr, D>),
}

#[derive(Gadget)]
pub struct Wires<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    pub second: D::Wire,
    #[ragu(value)]
    pub value: DriverValue<D, D::F>,
    #[ragu(wire)]
    pub first: D::Wire,
    #[ragu(value)]
    pub other: DriverValue<D, (u64, bool)>,
    #[ragu(phantom)]
    pub marker: PhantomData<&'dr ()>,
    #[ragu(wire)]
    pub third: D::Wire,
}

#[derive(Gadget, Write)]
pub struct Named<'my, #[ragu(driver)] MyD: Driver<'my>, const N: usize> {
    #[ragu(gadget)]
    pub head: Element<'my, MyD>,
    #[ragu(gadget)]
    pub array: [Element<'my, MyD>; N],
    #[ragu(phantom)]
    pub marker: PhantomData<u8>,
    #[ragu(gadget)]
    pub tail: Element<'my, MyD>,
}

#[derive(Gadget, Write)]
pub struct Generic<'dr, D: Driver<'dr>, K: GadgetKind<D::F> + Write<D::F>, C: ragu_arithmetic::CurveAffine<Base = D::F>> {
    #[ragu(gadget)]
    pub inner: Bound<'dr, D, K>,
    #[ragu(gadget)]
    pub point: Point<'dr, D, C>,
    #[ragu(phantom)]
    pub marker: PhantomData<C>,
}

#[derive(Gadget, Write)]
pub struct Skips<'dr, D: Driver<'dr>> {
    #[ragu(gadget)]
    pub kept: Element<'dr, D>,
    #[ragu(gadget, skip)]
    pub skipped: Element<'dr, D>,
    #[ragu(gadget)]
    pub last: Element<'dr, D>,
}

#[derive(Gadget, Consistent)]
pub struct Mixed<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    pub wire: D::Wire,
    #[ragu(gadget)]
    pub a: Boolean<'dr, D>,
    #[ragu(value)]
    pub value: DriverValue<D, bool>,
    pub b: Boolean<'dr, D>,
    #[ragu(phantom)]
    pub marker: PhantomData<u16>,
    #[ragu(gadget)]
    pub c: Unmarked<'dr, D>,
}

#[derive(Gadget, Write, Consistent)]
pub struct Empty<'dr, D: Driver<'dr>> {
    #[ragu(phantom)]
    pub marker: PhantomData<(&'dr (), D)>,
}

#[derive(Gadget, Write, Consistent)]
pub struct Flags<'dr, D: Driver<'dr>> {
    pub z: Boolean<'dr, D>,
    pub y: Boolean<'dr, D>,
    pub x: Element<'dr, D>,
    pub w: Boolean<'dr, D>,
    #[ragu(gadget)]
    pub v: Boolean<'dr, D>,
    #[ragu(gadget)]
    pub u: Boolean<'dr, D>,
    pub t: [Boolean<'dr, D>; 2],
    pub s: Element<'dr, D>,
    #[ragu(gadget)]
    pub r: [Boolean<'dr, D>; 2],
}

#[derive(Gadget, Write, Consistent)]
pub struct Pairs<'dr, D: Driver<'dr>, const N: usize> {
    pub first: Flags<'dr, D>,
    #[ragu(gadget)]
    pub list: ragu_primitives::vec::FixedVec<Boolean<'dr, D>, ragu_primitives::vec::ConstLen<N>>,
    pub second: Flags<'dr, D>,
    pub third: (Boolean<'dr, D>, Boolean<'dr, D>),
    pub fourth: Boolean<'dr, D>,
}
