//! A kind names the type it was made from: each line is an equality of types.
use crate::gadgets::*;
use core::marker::PhantomData;
use ragu_core::gadgets::{Gadget, Kind};
use ragu_pasta::{EpAffine, Fp};
use ragu_primitives::{Boolean, Element, Point, vec::{ConstLen, FixedVec}};

type P = PhantomData<Fp>;
trait Same<T> {}
impl<T> Same<T> for T {}
const fn same<A: Same<B>, B>() {}
type KindOf<G> = <G as Gadget<'static, P>>::Kind;

const _: () = {
    same::<Kind![Fp; Element<'_, _>], KindOf<Element<'static, P>>>();
    same::<Kind![Fp; Named<'_, _, 5>], KindOf<Named<'static, P, 5>>>();
    same::<Kind![Fp; (Element<'_, _>, Boolean<'_, _>)], KindOf<(Element<'static, P>, Boolean<'static, P>)>>();
    same::<Kind![Fp; FixedVec<Element<'_, _>, ConstLen<3>>], KindOf<FixedVec<Element<'static, P>, ConstLen<3>>>>();
    same::<Kind![Fp; Generic<'_, _, KindOf<Boolean<'_, _>>, EpAffine>], KindOf<Generic<'static, P, KindOf<Boolean<'static, P>>, EpAffine>>>();
    same::<Kind![Fp; @One<'_, _>], One<'static, P>>();
    same::<Kind![Fp; Point<'_, _, EpAffine>], KindOf<Point<'static, P, EpAffine>>>();
};
