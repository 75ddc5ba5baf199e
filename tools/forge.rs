
#[cfg(test)]
#[allow(unused_imports, clippy::all)]
mod planted {
    use super::*;
    use crate::{
        ApplicationBuilder,
        internal::{fold_revdot, native, nested},
        step::internal::{rerandomize::Rerandomize, trivial::Trivial},
    };
    use alloc::{boxed::Box, vec::Vec};
    use ragu_core::drivers::{Driver, DriverValue};
    use ff::Field;
    use ragu_circuits::{
        polynomials::{ProductionRank, sparse},
        staging::{Stage as _, StageExt},
    };
    use ragu_primitives::{Element, vec::FixedVec};
    use ragu_pasta::{Fp, Fq, Pasta};
    use rand::{SeedableRng, rngs::StdRng};

    type App = Application<'static, Pasta, ProductionRank, 4>;
    type Outer = native::stages::outer_error::Witness<Pasta, native::RevdotParameters>;
    type Inner = native::stages::inner_error::Witness<Pasta, native::RevdotParameters>;
    type Query = native::stages::query::Witness<Pasta>;
    type Eval = native::stages::eval::Witness<Fp>;
    type Rng = StdRng;

    /// What a dishonest prover changes in the messages it sends.
    #[derive(Default)]
    struct Lies {
        inner: Option<Box<dyn Fn(&mut Inner)>>,
        outer: Option<Box<dyn Fn(&mut Outer)>>,
        query: Option<Box<dyn Fn(&mut Query)>>,
        eval: Option<Box<dyn Fn(&mut Eval)>>,
        /// Changes the folded polynomials.
        ab: Option<Box<dyn Fn(&App, &mut crate::proof::AB<Pasta, ProductionRank>)>>,
        /// Changes the folded values only, after all else.
        collapsed: Option<Box<dyn Fn(&mut Outer)>>,
        /// The challenge `w`, once it is known.
        w: alloc::rc::Rc<core::cell::Cell<Fp>>,
    }

    /// A header other than the unit header.
    struct Ham;
    impl crate::Header<Fp> for Ham {
        const SUFFIX: crate::header::Suffix = crate::header::Suffix::new(0);
        type Data = ();
        type Output = ();
        fn encode<'dr, D: Driver<'dr, F = Fp>>(_: &mut D, _: DriverValue<D, ()>) -> Result<ragu_core::gadgets::Bound<'dr, D, Self::Output>> {
            Ok(())
        }
    }

    macro_rules! joins {
        ($name:ident, $index:expr, $child:ty) => {
            struct $name;
            impl Step<Pasta> for $name {
                const INDEX: crate::step::Index = crate::step::Index::new($index);
                type Witness<'source> = ();
                type Aux<'source> = ();
                type Left = $child;
                type Right = $child;
                type Output = Ham;
                fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const HEADER_SIZE: usize>(
                    &self,
                    dr: &mut D,
                    _: DriverValue<D, ()>,
                    left: DriverValue<D, ()>,
                    right: DriverValue<D, ()>,
                ) -> Result<(
                    (
                        crate::step::Encoded<'dr, D, $child, HEADER_SIZE>,
                        crate::step::Encoded<'dr, D, $child, HEADER_SIZE>,
                        crate::step::Encoded<'dr, D, Ham, HEADER_SIZE>,
                    ),
                    DriverValue<D, ()>,
                    DriverValue<D, ()>,
                )> {
                    let left = crate::step::Encoded::new(dr, left)?;
                    let right = crate::step::Encoded::new(dr, right)?;
                    Ok(((left, right, crate::step::Encoded::from_gadget(())), D::unit(), D::unit()))
                }
            }
        };
    }
    joins!(Grow, 0, ());
    joins!(Join, 1, Ham);

    fn app() -> App {
        ApplicationBuilder::<Pasta, ProductionRank, 4>::new()
            .register(Grow)
            .unwrap()
            .register(Join)
            .unwrap()
            .finalize(Pasta::baked())
            .unwrap()
    }

    /// The folded values that agree with what the prover claims the public inputs to be.
    fn collapse(
        preamble: &native::stages::preamble::Witness<'_, Pasta, ProductionRank, 4>,
        inner: &Inner,
        outer: &Outer,
        mu: Fp,
        nu: Fp,
    ) -> Result<FixedVec<Fp, <native::RevdotParameters as fold_revdot::Parameters>::NumGroups>> {
        Emulator::emulate_wireless((preamble, inner, outer, mu, nu), |dr, witness| {
            let (preamble, inner, outer, mu, nu) = witness.cast();
            let preamble = native::stages::preamble::Stage::<Pasta, ProductionRank, 4>::default()
                .witness(dr, preamble.as_ref().map(|w| *w))?;
            let outer = native::stages::outer_error::Stage::<Pasta, ProductionRank, 4, native::RevdotParameters>::default()
                .witness(dr, outer.as_ref().map(|w| *w))?;
            let mu = Element::alloc(dr, mu)?;
            let nu = Element::alloc(dr, nu)?;
            let source = native::claims::TwoProofKySource::new(
                dr,
                preamble.left.unified.c.clone(),
                preamble.right.unified.c.clone(),
                &outer.left,
                &outer.right,
            );
            let mut ky = native::claims::ky_values(&source);
            let folder = fold_revdot::ClaimFolder::new(dr, &mu, &nu)?;
            FixedVec::try_from_fn(|i| {
                let errors = FixedVec::try_from_fn(|j| {
                    Element::alloc(dr, inner.as_ref().map(|w| w.error_terms[i][j]))
                })?;
                let ky = FixedVec::from_fn(|_| ky.next().unwrap());
                let v = folder.fold_inner::<native::RevdotParameters>(dr, &errors, &ky)?;
                Ok(*v.value().take())
            })
        })
    }

    /// `fuse`, by a prover that lies.
    fn forge<S: Step<Pasta, Witness<'static> = ()>>(
        app: &App,
        rng: &mut Rng,
        step: S,
        left: Pcd<Pasta, ProductionRank, S::Left>,
        right: Pcd<Pasta, ProductionRank, S::Right>,
        lies: Lies,
    ) -> Result<Pcd<Pasta, ProductionRank, S::Output>> {
        type C = Pasta;
        type R = ProductionRank;
        let (left, right, application, data, _) =
            app.compute_application_proof(rng, step, (), left, right)?;

        let mut dr = Emulator::execute();
        let mut transcript = Transcript::new(&mut dr, C::circuit_poseidon(app.params), RAGU_TAG)?;
        macro_rules! send {
            ($stage:expr) => {
                Point::constant(&mut dr, $stage.bridge.commitment)?.write(&mut dr, &mut transcript)?
            };
        }

        let (preamble, preamble_witness) = app.compute_preamble(rng, &left, &right, &application)?;
        send!(preamble);
        let w = transcript.challenge(&mut dr)?;
        lies.w.set(*w.value().take());
        let registry = app.native_registry.at(*w.value().take());
        let s_prime = app.compute_s_prime(rng, &registry, &left, &right)?;
        send!(s_prime);
        let y = transcript.challenge(&mut dr)?;
        let z = transcript.challenge(&mut dr)?;
        let source = FuseProofSource { left: &left, right: &right };

        let (mut inner_error, mut inner_error_witness, claims) =
            app.inner_error_terms(rng, &registry, &y, &z, &source)?;
        if let Some(lie) = &lies.inner {
            lie(&mut inner_error_witness);
            let rx = native::stages::inner_error::Stage::<C, R, 4, native::RevdotParameters>::rx(
                Fp::random(&mut *rng),
                &inner_error_witness,
            )?;
            let commitment = rx.commit_to_affine(C::host_generators(app.params));
            inner_error.native.rx_triple = proof::RxTriple { rx, commitment };
            inner_error.bridge = proof::Bridge::commit(
                app.params,
                nested::stages::inner_error::Stage::<<C as Cycle>::HostCurve, R>::rx(
                    Fq::random(&mut *rng),
                    &nested::stages::inner_error::Witness {
                        native_inner_error: commitment,
                        registry_wy: inner_error.native.registry_wy_commitment,
                    },
                )?,
            );
        }
        send!(inner_error);
        let saved = transcript
            .clone()
            .save_state(&mut dr)
            .expect("saves")
            .into_elements()
            .into_iter()
            .map(|e| *e.value().take())
            .collect_fixed()?;
        let mu = transcript.challenge(&mut dr)?;
        let nu = transcript.challenge(&mut dr)?;

        let (mut outer_error, mut outer_error_witness, a, b) = app.outer_error_terms(
            rng, &preamble_witness, &inner_error_witness, claims, &y, &mu, &nu, saved,
        )?;
        if lies.outer.is_some() || lies.collapsed.is_some() {
            if let Some(lie) = &lies.outer {
                lie(&mut outer_error_witness);
                outer_error_witness.collapsed =
                    collapse(&preamble_witness, &inner_error_witness, &outer_error_witness, *mu.value().take(), *nu.value().take())?;
            }
            if let Some(lie) = &lies.collapsed {
                lie(&mut outer_error_witness);
            }
            let rx = native::stages::outer_error::Stage::<C, R, 4, native::RevdotParameters>::rx(
                Fp::random(&mut *rng),
                &outer_error_witness,
            )?;
            let commitment = rx.commit_to_affine(C::host_generators(app.params));
            outer_error.native = proof::RxTriple { rx, commitment };
            outer_error.bridge = proof::Bridge::commit(
                app.params,
                nested::stages::outer_error::Stage::<<C as Cycle>::HostCurve, R>::rx(
                    Fq::random(&mut *rng),
                    &nested::stages::outer_error::Witness { native_outer_error: commitment },
                )?,
            );
        }
        send!(outer_error);
        let mu_prime = transcript.challenge(&mut dr)?;
        let nu_prime = transcript.challenge(&mut dr)?;
        let mut ab = app.compute_ab(rng, a, b, &source, &mu_prime, &nu_prime)?;
        if let Some(lie) = &lies.ab {
            lie(app, &mut ab);
        }
        send!(ab);
        let x = transcript.challenge(&mut dr)?;

        let (mut query, mut query_witness) =
            app.compute_query(rng, &w, &x, &y, &z, &inner_error, &left, &right)?;
        if let Some(lie) = &lies.query {
            lie(&mut query_witness);
            let rx = native::stages::query::Stage::<C, R, 4>::rx(Fp::random(&mut *rng), &query_witness)?;
            let commitment = rx.commit_to_affine(C::host_generators(app.params));
            query.native.rx_triple = proof::RxTriple { rx, commitment };
            query.bridge = proof::Bridge::commit(
                app.params,
                nested::stages::query::Stage::<<C as Cycle>::HostCurve, R>::rx(
                    Fq::random(&mut *rng),
                    &nested::stages::query::Witness {
                        native_query: commitment,
                        registry_xy: query.native.registry_xy_commitment,
                    },
                )?,
            );
        }
        send!(query);
        let alpha = transcript.challenge(&mut dr)?;
        let f = app.compute_f(
            rng, &w, &y, &z, &x, &alpha, &s_prime, &inner_error, &ab, &query, &left, &right,
        )?;
        send!(f);
        let u = transcript.challenge(&mut dr)?;
        let (mut eval, mut eval_witness) =
            app.compute_eval(rng, &u, &left, &right, &s_prime, &inner_error, &ab, &query)?;
        if let Some(lie) = &lies.eval {
            lie(&mut eval_witness);
            let rx = native::stages::eval::Stage::<C, R, 4>::rx(Fp::random(&mut *rng), &eval_witness)?;
            let commitment = rx.commit_to_affine(C::host_generators(app.params));
            eval.native = proof::RxTriple { rx, commitment };
            eval.bridge = proof::Bridge::commit(
                app.params,
                nested::stages::eval::Stage::<<C as Cycle>::HostCurve, R>::rx(
                    Fq::random(&mut *rng),
                    &nested::stages::eval::Witness { native_eval: commitment },
                )?,
            );
        }
        send!(eval);
        let pre_beta = transcript.challenge(&mut dr)?;
        let p = app.compute_p(
            rng, &pre_beta, &u, &left, &right, &s_prime, &inner_error, &ab, &query, &f,
        )?;
        let challenges = proof::Challenges::new(
            &w, &y, &z, &mu, &nu, &mu_prime, &nu_prime, &x, &alpha, &u, &pre_beta,
        );
        let circuits = app.compute_internal_circuits(
            rng, &preamble, &s_prime, &outer_error, &inner_error, &ab, &query, &f, &eval, &p,
            &preamble_witness, &outer_error_witness, &inner_error_witness, &query_witness,
            &eval_witness, &challenges,
        )?;
        let proof = Proof {
            application, preamble, s_prime, inner_error, outer_error, ab, query, f, eval, p,
            challenges, circuits,
        };
        Ok(proof.carry(data))
    }

    /// Whether a step from nothing, proved by a prover that lies, is accepted.
    fn accepted(lies: Lies) -> bool {
        let (app, mut rng) = (app(), StdRng::seed_from_u64(1));
        let pcd = forge(&app, &mut rng, Trivial::new(), app.trivial_pcd(), app.trivial_pcd(), lies);
        match pcd {
            Ok(pcd) => matches!(app.verify(&pcd, &mut rng), Ok(true)),
            Err(_) => false,
        }
    }

    /// Whether a rerandomization, proved by a prover that lies, is accepted.
    fn accepted_later(lies: Lies) -> bool {
        let (app, mut rng) = (app(), StdRng::seed_from_u64(1));
        let left = app.seeded_trivial_pcd(&mut rng);
        let right = app.seeded_trivial_pcd(&mut rng);
        let pcd = forge(&app, &mut rng, Rerandomize::new(), left, right, lies);
        match pcd {
            Ok(pcd) => matches!(app.verify(&pcd, &mut rng), Ok(true)),
            Err(_) => false,
        }
    }

    type Child = Proof<Pasta, ProductionRank>;

    /// Whether joining two steps' results, proved by a prover that lies, is accepted.
    fn accepted_join(lies: Lies, touch: impl Fn(&App, &mut Child, &mut Child)) -> bool {
        let (app, mut rng) = (app(), StdRng::seed_from_u64(1));
        let mut left = app.seed(&mut rng, Grow, ()).unwrap().0.into_parts().0;
        let mut right = app.seed(&mut rng, Grow, ()).unwrap().0.into_parts().0;
        touch(&app, &mut left, &mut right);
        match forge(&app, &mut rng, Join, left.carry::<Ham>(()), right.carry::<Ham>(()), lies) {
            Ok(pcd) => matches!(app.verify(&pcd, &mut rng), Ok(true)),
            Err(_) => false,
        }
    }

    /// Whether rerandomizing a step's result, proved by a prover that lies, is accepted.
    fn accepted_mixed(lies: Lies) -> bool {
        let (app, mut rng) = (app(), StdRng::seed_from_u64(1));
        let left = app.seed(&mut rng, Grow, ()).unwrap().0;
        let right = app.seeded_trivial_pcd(&mut rng);
        match forge(&app, &mut rng, Rerandomize::<Ham>::new(), left, right, lies) {
            Ok(pcd) => matches!(app.verify(&pcd, &mut rng), Ok(true)),
            Err(_) => false,
        }
    }
