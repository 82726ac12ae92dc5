//! The proving systems behind one interface. Ranks of the multi-process ones are threads.
use crate::hist::Sf;
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::ComputationGraph;
use expander_compiler::zkcuda::proving_system::expander::config::ZKCudaConfigImpl;
use expander_compiler::zkcuda::proving_system::expander::setup_impl::local_setup_impl;
use expander_compiler::zkcuda::proving_system::expander::structs::{ExpanderProverSetup, ExpanderVerifierSetup};
use expander_compiler::zkcuda::proving_system::expander_parallelized::server_fns::ServerFns;
use expander_compiler::zkcuda::proving_system::expander_pcs_defered::setup_impl::pcs_setup_max_length_only;
use expander_compiler::zkcuda::proving_system::*;
use gkr_engine::{GKREngine, MPIConfig};
use crate::z06::session;
use pbt::{guarded, Ctx, Gen};

pub type Fc<C> = <C as GKREngine>::FieldConfig;
pub type Pcs<C> = <C as GKREngine>::PCSConfig;
pub type Pk<C> = ExpanderProverSetup<Fc<C>, Pcs<C>>;
pub type Vk<C> = ExpanderVerifierSetup<Fc<C>, Pcs<C>>;
pub type Pr<C> = CombinedProof<C, Expander<C>>;
type M = MPIConfig<'static>;

pub trait Sys: Config {
    const FIELD_NAME: &'static str;
    fn served(g: &mut Gen, ctx: &mut Ctx, kind: Kind) -> Result<(), String>;
    const NO_OVER: bool = false;
    fn no_over(_batch: bool, _m: &M, _ps: &Pk<Self>, _cg: &ComputationGraph<Self>, _v: &[Vec<Sf<Self>>]) -> Option<Pr<Self>> {
        unreachable!()
    }
    fn no_over_verify(_batch: bool, _vs: &Vk<Self>, _cg: &ComputationGraph<Self>, _p: &Pr<Self>) -> bool {
        unreachable!()
    }
    fn deferred_verify(vs: &Vk<Self>, cg: &ComputationGraph<Self>, p: &Pr<Self>) -> bool;
}
macro_rules! sys {
    ($t:ty, $name:literal, $no:expr, { $($x:tt)* }) => {
        impl Sys for $t {
            const FIELD_NAME: &'static str = $name;
            fn served(g: &mut Gen, ctx: &mut Ctx, kind: Kind) -> Result<(), String> {
                match kind {
                    Kind::Parallel => session::<Self, ParallelizedExpander<Self>>(g, ctx, kind),
                    Kind::Deferred => session::<Self, ExpanderPCSDefered<Self>>(g, ctx, kind),
                    _ => {
                        let f: fn(&mut Gen, &mut Ctx, Kind) -> Result<(), String> = $no;
                        f(g, ctx, kind)
                    }
                }
            }
            fn deferred_verify(vs: &Vk<Self>, cg: &ComputationGraph<Self>, p: &Pr<Self>) -> bool {
                <ExpanderPCSDefered<Self> as ProvingSystem<Self>>::verify(vs, cg, p)
            }
            $($x)*
        }
    };
}
sys!(M31Config, "M31", |_, _, _| unreachable!(), {});
sys!(GF2Config, "GF2", |_, _, _| unreachable!(), {});
sys!(GoldilocksConfig, "Goldilocks", |_, _, _| unreachable!(), {});
sys!(BabyBearConfig, "BabyBear", |_, _, _| unreachable!(), {});
type No<const B: bool> = ExpanderNoOverSubscribe<ZKCudaConfigImpl<BN254Config, BN254Config, B>>;
fn no_over_session(g: &mut Gen, ctx: &mut Ctx, kind: Kind) -> Result<(), String> {
    match kind {
        Kind::NoOver(true) => session::<BN254Config, No<true>>(g, ctx, kind),
        _ => session::<BN254Config, No<false>>(g, ctx, kind),
    }
}
sys!(BN254Config, "BN254", no_over_session, {
    const NO_OVER: bool = true;
    fn no_over(batch: bool, m: &M, ps: &Pk<Self>, cg: &ComputationGraph<Self>, v: &[Vec<Sf<Self>>]) -> Option<Pr<Self>> {
        if batch {
            <No<true> as ServerFns<Self, Self>>::prove_request_handler(m, ps, cg, v)
        } else {
            <No<false> as ServerFns<Self, Self>>::prove_request_handler(m, ps, cg, v)
        }
    }
    fn no_over_verify(batch: bool, vs: &Vk<Self>, cg: &ComputationGraph<Self>, p: &Pr<Self>) -> bool {
        if batch {
            <No<true> as ProvingSystem<Self>>::verify(vs, cg, p)
        } else {
            <No<false> as ProvingSystem<Self>>::verify(vs, cg, p)
        }
    }
});

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Dummy,
    Expander,
    Local,
    Parallel,
    Deferred,
    NoOver(bool),
}
#[derive(Clone, Copy, Debug)]
pub struct Which {
    pub kind: Kind,
    pub world: usize,
}
impl Which {
    pub fn name(&self) -> String {
        match self.kind {
            Kind::Dummy | Kind::Expander | Kind::Local => format!("{:?}", self.kind),
            k => format!("{k:?} on {} ranks", self.world),
        }
    }
    pub fn pick<C: Sys>(g: &mut Gen, most: usize) -> Which {
        let small = (most <= 8) as usize;
        let no = C::NO_OVER as usize * 3;
        let kind = match g.weighted(&[2, 4, 4, 3 * small, 3 * small, no, no]) {
            0 => Kind::Dummy,
            1 => Kind::Expander,
            2 => Kind::Local,
            3 => Kind::Parallel,
            4 => Kind::Deferred,
            5 => Kind::NoOver(false),
            _ => Kind::NoOver(true),
        };
        let world = match kind {
            Kind::Parallel | Kind::Deferred => {
                if g.chance(1, 4) {
                    most * 2
                } else {
                    most
                }
            }
            Kind::NoOver(_) => 1 << g.below(4),
            _ => 1,
        };
        Which { kind, world }
    }
    pub fn setup<C: Sys>(&self, cg: &ComputationGraph<C>) -> (Pk<C>, Vk<C>) {
        match self.kind {
            Kind::Expander => <Expander<C> as ProvingSystem<C>>::setup(cg),
            Kind::Local => <ExpanderLocalDeferred<C> as ProvingSystem<C>>::setup(cg),
            Kind::Deferred | Kind::NoOver(true) => pcs_setup_max_length_only::<C, C>(cg),
            _ => local_setup_impl::<C, C>(cg),
        }
    }
    pub fn prove<C: Sys>(&self, ps: &Pk<C>, cg: &ComputationGraph<C>, mem: &[Vec<Sf<C>>]) -> Result<Pr<C>, String> {
        match self.kind {
            Kind::Expander => return guarded(|| <Expander<C> as ProvingSystem<C>>::prove(ps, cg, mem.to_vec())),
            Kind::Local => return guarded(|| <ExpanderLocalDeferred<C> as ProvingSystem<C>>::prove(ps, cg, mem.to_vec())),
            _ => {}
        }
        let rs = gkr_engine::mpi::run_world(self.world, |_, comm| {
            let m = MPIConfig::prover_new(None, Some(comm));
            match self.kind {
                Kind::Parallel => <ParallelizedExpander<C> as ServerFns<C, C>>::prove_request_handler(&m, ps, cg, mem),
                Kind::Deferred => <ExpanderPCSDefered<C> as ServerFns<C, C>>::prove_request_handler(&m, ps, cg, mem),
                Kind::NoOver(b) => C::no_over(b, &m, ps, cg, mem),
                _ => unreachable!(),
            }
        });
        let mut out = None;
        let mut errs = vec![];
        for (i, r) in rs.into_iter().enumerate() {
            match r {
                Err(e) => errs.push(format!("rank {i}: {e}")),
                Ok(p) if i == 0 => out = p,
                Ok(Some(_)) => errs.push(format!("rank {i} has a proof too")),
                Ok(None) => {}
            }
        }
        if !errs.is_empty() {
            // the one that panicked of itself first
            errs.sort_by_key(|e| e.contains("MPI stand-in"));
            return Err(errs.join("; "));
        }
        out.ok_or("no proof".into())
    }
    pub fn verify<C: Sys>(&self, vs: &Vk<C>, cg: &ComputationGraph<C>, p: &Pr<C>) -> Result<bool, String> {
        guarded(|| match self.kind {
            Kind::Expander => <Expander<C> as ProvingSystem<C>>::verify(vs, cg, p),
            Kind::Local => <ExpanderLocalDeferred<C> as ProvingSystem<C>>::verify(vs, cg, p),
            Kind::Parallel => <ParallelizedExpander<C> as ProvingSystem<C>>::verify(vs, cg, p),
            Kind::Deferred => C::deferred_verify(vs, cg, p),
            Kind::NoOver(b) => C::no_over_verify(b, vs, cg, p),
            Kind::Dummy => unreachable!(),
        })
    }
}
