//! Stand-ins for `gkr_engine`, `transcript`, `gkr_hashers`, `poly_commit`, `polynomials`, `sumcheck`.
use crate::arith::{ExtensionField, Field, Fr, Simd, SimdField};
use crate::fields::*;
use crate::mpi::{self, environment::Universe, ffi::ompi_win_t, topology::SimpleCommunicator};
use crate::serdes_impl::{ExpSerde, SerdeResult};
use std::fmt::Debug;
use std::hash::Hash;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::str::FromStr;

// ------------------------------------------------------------------ enums

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum FieldType {
    GF2,
    GF2Ext128,
    M31x1,
    M31x16,
    BN254,
    BabyBearx16,
    Goldilocksx1,
    Goldilocksx8,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum FiatShamirHashType {
    SHA256,
    Keccak256,
    Poseidon,
    Animoe,
    MIMC5,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PolynomialCommitmentType {
    Raw,
    Hyrax,
    KZG,
    Orion,
    FRI,
}
impl FromStr for PolynomialCommitmentType {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s {
            "Raw" => Ok(Self::Raw),
            "Hyrax" => Ok(Self::Hyrax),
            "KZG" => Ok(Self::KZG),
            "Orion" => Ok(Self::Orion),
            "FRI" => Ok(Self::FRI),
            _ => Err(format!("unknown pcs {s}")),
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum GKRScheme {
    Vanilla,
    GkrSquare,
}

// ------------------------------------------------------------------ challenges

#[derive(Clone, Debug, PartialEq)]
pub struct ExpanderSingleVarChallenge<F: FieldEngine> {
    pub rz: Vec<F::ChallengeField>,
    pub r_simd: Vec<F::ChallengeField>,
    pub r_mpi: Vec<F::ChallengeField>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ExpanderDualVarChallenge<F: FieldEngine> {
    pub rz_0: Vec<F::ChallengeField>,
    pub rz_1: Option<Vec<F::ChallengeField>>,
    pub r_simd: Vec<F::ChallengeField>,
    pub r_mpi: Vec<F::ChallengeField>,
}
impl<F: FieldEngine> ExpanderDualVarChallenge<F> {
    pub fn challenge_x(&self) -> ExpanderSingleVarChallenge<F> {
        ExpanderSingleVarChallenge { rz: self.rz_0.clone(), r_simd: self.r_simd.clone(), r_mpi: self.r_mpi.clone() }
    }
    pub fn challenge_y(&self) -> Option<ExpanderSingleVarChallenge<F>> {
        self.rz_1.as_ref().map(|rz| ExpanderSingleVarChallenge {
            rz: rz.clone(),
            r_simd: self.r_simd.clone(),
            r_mpi: self.r_mpi.clone(),
        })
    }
}

// ------------------------------------------------------------------ polynomials

pub struct EqPolynomial<F>(PhantomData<F>);
impl<F: Field> EqPolynomial<F> {
    /// eq(r, bits of i), little endian
    pub fn ith_eq_vec_elem(r: &[F], i: usize) -> F {
        r.iter().enumerate().fold(F::ONE, |a, (k, x)| if (i >> k) & 1 == 1 { a * *x } else { a * (F::ONE - *x) })
    }
    pub fn build(r: &[F]) -> Vec<F> {
        let mut v = vec![F::ONE];
        for x in r {
            let hi: Vec<F> = v.iter().map(|e| *e * *x).collect();
            for (a, h) in v.iter_mut().zip(&hi) {
                *a -= *h;
            }
            v.extend(hi);
        }
        v
    }
}
pub trait MultilinearExtension<F: Field> {
    fn evals(&self) -> &[F];
}
pub struct RefMultiLinearPoly<'a, F: Field> {
    pub coeffs: &'a [F],
}
impl<'a, F: Field> RefMultiLinearPoly<'a, F> {
    pub fn from_ref(v: &'a [F]) -> Self {
        RefMultiLinearPoly { coeffs: v }
    }
}
impl<F: Field> MultilinearExtension<F> for RefMultiLinearPoly<'_, F> {
    fn evals(&self) -> &[F] {
        self.coeffs
    }
}

// ------------------------------------------------------------------ field engines

pub trait FieldEngine: Default + Debug + Clone + Copy + PartialEq + Eq + PartialOrd + Ord + Hash + Send + Sync + 'static {
    const FIELD_TYPE: FieldType;
    const SENTINEL: [u8; 32] = [0; 32];
    type CircuitField: Field + SimdField<Scalar = Self::CircuitField>;
    type ChallengeField: ExtensionField<BaseField = Self::CircuitField>;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField>;

    fn get_field_pack_size() -> usize {
        Self::SimdCircuitField::PACK_SIZE
    }

    /// sum over mpi index, vector index and lane of value * eq(r_mpi) * eq(rz) * eq(r_simd)
    fn single_core_eval_circuit_vals_at_expander_challenge(
        vals: &[Self::SimdCircuitField],
        ch: &ExpanderSingleVarChallenge<Self>,
    ) -> Self::ChallengeField {
        assert_eq!(
            vals.len(),
            1usize << (ch.rz.len() + ch.r_mpi.len()),
            "evaluation point and vector length do not match"
        );
        let mut r = ch.rz.clone();
        r.extend_from_slice(&ch.r_mpi);
        mle_eval::<Self>(vals, &r, &ch.r_simd)
    }
}
pub fn mle_eval<F: FieldEngine>(
    vals: &[F::SimdCircuitField],
    rz: &[F::ChallengeField],
    r_simd: &[F::ChallengeField],
) -> F::ChallengeField {
    let ez = EqPolynomial::build(rz);
    let es = EqPolynomial::build(r_simd);
    assert_eq!(ez.len(), vals.len());
    assert_eq!(es.len(), F::SimdCircuitField::PACK_SIZE);
    let mut s = F::ChallengeField::ZERO;
    for (v, e) in vals.iter().zip(&ez) {
        let mut t = F::ChallengeField::ZERO;
        for (x, es) in v.unpack().iter().zip(&es) {
            if !x.is_zero() {
                t += F::ChallengeField::embed(x) * *es;
            }
        }
        s += t * *e;
    }
    s
}

macro_rules! field_engine {
    ($n:ident, $t:ident, $c:ty, $ch:ty, $s:ty) => {
        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n {}
        impl FieldEngine for $n {
            const FIELD_TYPE: FieldType = FieldType::$t;
            type CircuitField = $c;
            type ChallengeField = $ch;
            type SimdCircuitField = $s;
        }
    };
}
field_engine!(M31x16Config, M31x16, M31, M31Ext3, M31x16);
field_engine!(BabyBearx16Config, BabyBearx16, BabyBear, BabyBearExt4, BabyBearx16);
field_engine!(Goldilocksx8Config, Goldilocksx8, Goldilocks, GoldilocksExt2, Goldilocksx8);
field_engine!(GF2ExtConfig, GF2Ext128, GF2, GF2_128, GF2x8);
field_engine!(BN254Config, BN254, Fr, Fr, Fr);

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BN254ConfigXN<const N: usize>;
impl<const N: usize> FieldEngine for BN254ConfigXN<N> {
    const FIELD_TYPE: FieldType = FieldType::BN254;
    type CircuitField = Fr;
    type ChallengeField = Fr;
    type SimdCircuitField = Simd<Fr, N>;
}

// ------------------------------------------------------------------ transcript

#[derive(Debug, Clone, Default, PartialEq, Eq, Hash, ExpSerde)]
pub struct Proof {
    pub bytes: Vec<u8>,
}
pub trait Transcript: Clone + Debug + Send + Sync {
    const HASH_TYPE: FiatShamirHashType;
    fn new() -> Self;
    fn append_u8_slice(&mut self, b: &[u8]);
    fn append_field_element<F: Field>(&mut self, f: &F) {
        let mut b = vec![];
        f.serialize_into(&mut b).unwrap();
        self.append_u8_slice(&b);
    }
    fn generate_u8_slice(&mut self, n: usize) -> Vec<u8>;
    fn generate_field_element<F: Field>(&mut self) -> F {
        F::from_uniform_bytes(&self.generate_u8_slice(64))
    }
    fn generate_field_elements<F: Field>(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.generate_field_element()).collect()
    }
    fn lock_proof(&mut self);
    fn unlock_proof(&mut self);
    fn finalize_and_get_proof(&mut self) -> Proof;
}
pub trait FiatShamirHasher: Clone + Debug + Send + Sync + 'static {
    const HASH_TYPE: FiatShamirHashType;
}
#[derive(Clone, Debug, Default)]
pub struct SHA256hasher;
impl FiatShamirHasher for SHA256hasher {
    const HASH_TYPE: FiatShamirHashType = FiatShamirHashType::SHA256;
}
#[derive(Clone, Debug, Default)]
pub struct MiMC5FiatShamirHasher<F>(PhantomData<F>);
impl<F: Field> FiatShamirHasher for MiMC5FiatShamirHasher<F> {
    const HASH_TYPE: FiatShamirHashType = FiatShamirHashType::MIMC5;
}
#[derive(Clone, Debug)]
pub struct BytesHashTranscript<H> {
    state: [u8; 32],
    proof: Vec<u8>,
    locked: bool,
    _h: PhantomData<H>,
}
impl<H: FiatShamirHasher> Transcript for BytesHashTranscript<H> {
    const HASH_TYPE: FiatShamirHashType = H::HASH_TYPE;
    fn new() -> Self {
        BytesHashTranscript { state: [0; 32], proof: vec![], locked: false, _h: PhantomData }
    }
    fn append_u8_slice(&mut self, b: &[u8]) {
        use tiny_keccak::Hasher;
        let mut k = tiny_keccak::Keccak::v256();
        k.update(&self.state);
        k.update(&(b.len() as u64).to_le_bytes());
        k.update(b);
        k.finalize(&mut self.state);
        if !self.locked {
            self.proof.extend_from_slice(b);
        }
    }
    fn generate_u8_slice(&mut self, n: usize) -> Vec<u8> {
        use tiny_keccak::Hasher;
        let mut out = vec![];
        while out.len() < n {
            let mut k = tiny_keccak::Keccak::v256();
            k.update(&self.state);
            k.update(b"next");
            k.finalize(&mut self.state);
            out.extend_from_slice(&self.state);
        }
        out.truncate(n);
        out
    }
    fn lock_proof(&mut self) {
        assert!(!self.locked);
        self.locked = true;
    }
    fn unlock_proof(&mut self) {
        assert!(self.locked);
        self.locked = false;
    }
    fn finalize_and_get_proof(&mut self) -> Proof {
        Proof { bytes: self.proof.clone() }
    }
}

// ------------------------------------------------------------------ MPI

#[derive(Clone)]
pub struct MPIConfig<'a> {
    pub universe: Option<&'a Universe>,
    pub world: Option<&'a SimpleCommunicator>,
    id: Option<usize>,
    verifier_size: usize,
}
unsafe impl Send for MPIConfig<'_> {}
unsafe impl Sync for MPIConfig<'_> {}
impl<'a> MPIConfig<'a> {
    pub fn init() -> Option<Universe> {
        mpi::init()
    }
    pub fn prover_new(universe: Option<&'a Universe>, world: Option<&'a SimpleCommunicator>) -> Self {
        let id = match world {
            None => None,
            Some(w) => Some(mpi::take_last_split().unwrap_or(w.id)),
        };
        MPIConfig { universe, world, id, verifier_size: 1 }
    }
    pub fn verifier_new(world_size: i32) -> Self {
        MPIConfig { universe: None, world: None, id: None, verifier_size: world_size as usize }
    }
    fn allgather(&self, b: Vec<u8>) -> Vec<Vec<u8>> {
        match self.id {
            None => vec![b],
            Some(id) => mpi::allgather(id, b).to_vec(),
        }
    }
}
pub trait MPIEngine {
    fn world_size(&self) -> usize;
    fn world_rank(&self) -> usize;
    fn is_root(&self) -> bool {
        self.world_rank() == 0
    }
    fn is_single_process(&self) -> bool {
        self.world_size() == 1
    }
    fn allgather_bytes(&self, b: Vec<u8>) -> Vec<Vec<u8>>;
    fn root_broadcast_bytes(&self, b: &mut Vec<u8>);
    fn root_broadcast_f<T: Copy>(&self, v: &mut T);
    fn barrier(&self);
    fn create_shared_mem(&self, n: usize) -> (*mut u8, *mut ompi_win_t);
    fn free_shared_mem(&self, w: &mut *mut ompi_win_t);
    fn consume_obj_and_create_shared<T: MPISharedMemory>(&self, obj: Option<T>) -> (T, *mut ompi_win_t);
}
impl MPIEngine for MPIConfig<'_> {
    fn world_size(&self) -> usize {
        self.id.map_or(self.verifier_size, mpi::group_size)
    }
    fn world_rank(&self) -> usize {
        self.id.map_or(0, mpi::group_rank)
    }
    fn allgather_bytes(&self, b: Vec<u8>) -> Vec<Vec<u8>> {
        self.allgather(b)
    }
    fn root_broadcast_bytes(&self, b: &mut Vec<u8>) {
        let all = self.allgather(b.clone());
        assert_eq!(all[0].len(), b.len(), "broadcast of different lengths");
        *b = all[0].clone();
    }
    fn root_broadcast_f<T: Copy>(&self, v: &mut T) {
        let n = std::mem::size_of::<T>();
        let b = unsafe { std::slice::from_raw_parts(v as *const T as *const u8, n) }.to_vec();
        let all = self.allgather(b);
        *v = unsafe { std::ptr::read_unaligned(all[0].as_ptr() as *const T) };
    }
    fn barrier(&self) {
        self.allgather(vec![]);
    }
    fn create_shared_mem(&self, n: usize) -> (*mut u8, *mut ompi_win_t) {
        let p = if self.is_root() { window::open(n) } else { 0 };
        let all = self.allgather(p.to_le_bytes().to_vec());
        let p = usize::from_le_bytes(all[0][..8].try_into().unwrap());
        (p as *mut u8, p as *mut ompi_win_t)
    }
    fn free_shared_mem(&self, w: &mut *mut ompi_win_t) {
        self.barrier();
        if self.is_root() {
            window::close(*w as usize);
        }
        *w = std::ptr::null_mut();
    }
    fn consume_obj_and_create_shared<T: MPISharedMemory>(&self, obj: Option<T>) -> (T, *mut ompi_win_t) {
        let size = if self.is_root() { obj.as_ref().unwrap().bytes_size() } else { 0 };
        let (p, w) = self.create_shared_mem(size);
        if self.is_root() {
            let mut q = p;
            obj.as_ref().unwrap().to_memory(&mut q);
            assert_eq!(q as usize - p as usize, size, "bytes_size does not match what to_memory wrote");
        }
        self.barrier();
        let mut q = p;
        (T::new_from_memory(&mut q), w)
    }
}
/// The windows shared between ranks; reads and writes are checked against their bounds.
pub mod window {
    use std::alloc::{alloc_zeroed, dealloc, Layout};
    use std::collections::{BTreeMap, HashMap, VecDeque};
    use std::sync::{Mutex, MutexGuard};
    /// (offset, bytes, alignment) -> block
    type Blocks = HashMap<(usize, usize, usize), (usize, Layout)>;
    pub struct Win {
        len: usize,
        blocks: Blocks,
    }
    static OPEN: Mutex<BTreeMap<usize, Win>> = Mutex::new(BTreeMap::new());
    /// blocks of windows already freed, still readable (as garbage) for a while
    static GONE: Mutex<VecDeque<(usize, Layout)>> = Mutex::new(VecDeque::new());
    fn open_windows() -> MutexGuard<'static, BTreeMap<usize, Win>> {
        OPEN.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn count() -> usize {
        open_windows().len()
    }
    pub(super) fn open(n: usize) -> usize {
        let l = Layout::from_size_align(n + 1, 64).unwrap();
        let p = unsafe { alloc_zeroed(l) } as usize;
        open_windows().insert(p, Win { len: n, blocks: HashMap::new() });
        p
    }
    pub(super) fn close(p: usize) {
        let w = open_windows().remove(&p).expect("MPI stand-in: no such window");
        let mut gone = GONE.lock().unwrap_or_else(|e| e.into_inner());
        for (q, l) in w.blocks.into_values() {
            unsafe { std::ptr::write_bytes((q + HEAD) as *mut u8, 0xa5, l.size() - HEAD) };
            gone.push_back((q, l));
        }
        while gone.len() > 1000 {
            let (q, l) = gone.pop_front().unwrap();
            unsafe { dealloc(q as *mut u8, l) };
        }
        unsafe { dealloc(p as *mut u8, Layout::from_size_align(w.len + 1, 64).unwrap()) };
    }
    fn find(m: &mut BTreeMap<usize, Win>, p: usize, n: usize) -> Option<(usize, &mut Win)> {
        m.range_mut(..=p).next_back().filter(|(s, w)| n <= w.len && p - **s <= w.len - n).map(|(s, w)| (*s, w))
    }
    pub(super) fn check(p: *mut u8, n: usize) {
        let ok = find(&mut open_windows(), p as usize, n).is_some();
        assert!(ok, "MPI stand-in: {n} bytes outside of the shared window");
    }
    const HEAD: usize = 64;
    /// Where these bytes of the window are, suitably aligned: the same place for every rank. Nobody
    /// may free it but `close`, allocators refuse it.
    pub(super) fn place(p: *mut u8, n: usize, align: usize) -> *mut u8 {
        let mut m = open_windows();
        let Some((s, w)) = find(&mut m, p as usize, n) else {
            drop(m);
            panic!("MPI stand-in: {n} bytes outside of the shared window");
        };
        let (q, _) = *w.blocks.entry((p as usize - s, n, align)).or_insert_with(|| unsafe {
            let l = Layout::from_size_align(HEAD + n, 64.max(align)).unwrap();
            let q = alloc_zeroed(l);
            std::ptr::copy_nonoverlapping(p, q.add(HEAD), n);
            (q as usize, l)
        });
        (q + HEAD) as *mut u8
    }
}
/// Layout: plain bytes; vectors as length then raw elements (plain-data elements only). A vector
/// read back lies in the window: it has to be discarded, not dropped.
pub trait MPISharedMemory: Sized {
    fn bytes_size(&self) -> usize;
    fn to_memory(&self, ptr: &mut *mut u8);
    fn new_from_memory(ptr: &mut *mut u8) -> Self;
    fn discard_control_of_shared_mem(self);
}
impl MPISharedMemory for usize {
    fn bytes_size(&self) -> usize {
        8
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        window::check(*ptr, 8);
        unsafe {
            std::ptr::write_unaligned(*ptr as *mut usize, *self);
            *ptr = ptr.add(8);
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        window::check(*ptr, 8);
        unsafe {
            let v = std::ptr::read_unaligned(*ptr as *const usize);
            *ptr = ptr.add(8);
            v
        }
    }
    fn discard_control_of_shared_mem(self) {}
}
impl<T> MPISharedMemory for Vec<T> {
    fn bytes_size(&self) -> usize {
        8 + std::mem::size_of::<T>() * self.len()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        assert!(!std::mem::needs_drop::<T>(), "only plain data can go through shared memory");
        self.len().to_memory(ptr);
        let n = std::mem::size_of::<T>() * self.len();
        window::check(*ptr, n);
        unsafe {
            std::ptr::copy_nonoverlapping(self.as_ptr() as *const u8, *ptr, n);
            *ptr = ptr.add(n);
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let len = usize::new_from_memory(ptr);
        let n = std::mem::size_of::<T>().saturating_mul(len);
        window::check(*ptr, n);
        if n == 0 {
            // nothing there to share
            let mut v = Vec::with_capacity(len);
            unsafe { v.set_len(len) };
            return v;
        }
        unsafe {
            let v = Vec::from_raw_parts(window::place(*ptr, n, std::mem::align_of::<T>()) as *mut T, len, len);
            *ptr = ptr.add(n);
            v
        }
    }
    fn discard_control_of_shared_mem(self) {
        std::mem::forget(self)
    }
}
impl<A: MPISharedMemory, B: MPISharedMemory> MPISharedMemory for (A, B) {
    fn bytes_size(&self) -> usize {
        self.0.bytes_size() + self.1.bytes_size()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.0.to_memory(ptr);
        self.1.to_memory(ptr);
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let a = A::new_from_memory(ptr);
        let b = B::new_from_memory(ptr);
        (a, b)
    }
    fn discard_control_of_shared_mem(self) {
        self.0.discard_control_of_shared_mem();
        self.1.discard_control_of_shared_mem();
    }
}

// ------------------------------------------------------------------ PCS

pub trait StructuredReferenceString: Clone + Debug + Default + ExpSerde {
    type PKey: Clone + Debug + ExpSerde + Send + Sync;
    type VKey: Clone + Debug + ExpSerde + Send + Sync;
}
pub trait ExpanderPCS<F: FieldEngine>: 'static {
    const NAME: &'static str;
    const PCS_TYPE: PolynomialCommitmentType;
    type Params: Clone + Debug + Default + Send + Sync;
    type ScratchPad: Clone + Debug + Default + ExpSerde + Send + Sync;
    type SRS: StructuredReferenceString;
    type Commitment: Clone + Debug + ExpSerde + Send + Sync;
    type Opening: Clone + Debug + ExpSerde + Send + Sync;
    type BatchOpening: Clone + Debug + ExpSerde + Send + Sync;
    fn gen_params(n_input_vars: usize, world_size: usize) -> Self::Params;
    fn init_scratch_pad(params: &Self::Params, mpi: &MPIConfig) -> Self::ScratchPad;
    #[allow(clippy::type_complexity)]
    fn gen_keys(
        params: &Self::Params,
    ) -> (
        <Self::SRS as StructuredReferenceString>::PKey,
        <Self::SRS as StructuredReferenceString>::VKey,
    );
    fn commit(
        params: &Self::Params,
        mpi: &MPIConfig,
        pkey: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        scratch: &mut Self::ScratchPad,
    ) -> Option<Self::Commitment>;
    #[allow(clippy::too_many_arguments)]
    fn open(
        params: &Self::Params,
        mpi: &MPIConfig,
        pkey: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        x: &ExpanderSingleVarChallenge<F>,
        transcript: &mut impl Transcript,
        scratch: &Self::ScratchPad,
    ) -> Option<Self::Opening>;
    #[allow(clippy::too_many_arguments)]
    fn verify(
        params: &Self::Params,
        vkey: &<Self::SRS as StructuredReferenceString>::VKey,
        commitment: &Self::Commitment,
        x: &ExpanderSingleVarChallenge<F>,
        v: F::ChallengeField,
        transcript: &mut impl Transcript,
        opening: &Self::Opening,
    ) -> bool;
    #[allow(clippy::too_many_arguments)]
    fn multi_points_batch_open(
        params: &Self::Params,
        mpi: &MPIConfig,
        pkey: &<Self::SRS as StructuredReferenceString>::PKey,
        polys: &[impl MultilinearExtension<F::SimdCircuitField>],
        x: &[ExpanderSingleVarChallenge<F>],
        scratch: &Self::ScratchPad,
        transcript: &mut impl Transcript,
    ) -> (Vec<F::ChallengeField>, Self::BatchOpening);
    #[allow(clippy::too_many_arguments)]
    fn multi_points_batch_verify(
        params: &Self::Params,
        vkey: &<Self::SRS as StructuredReferenceString>::VKey,
        commitments: &[impl AsRef<Self::Commitment>],
        x: &[ExpanderSingleVarChallenge<F>],
        values: &[F::ChallengeField],
        opening: &Self::BatchOpening,
        transcript: &mut impl Transcript,
    ) -> bool;
}

/// The committed vector itself (binding, not succinct).
#[derive(Clone, Debug, PartialEq)]
pub struct VecCommitment<S>(pub Vec<S>);
impl<S: Field> ExpSerde for VecCommitment<S> {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.0.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(VecCommitment(Vec::deserialize_from(r)?))
    }
}
impl<S> AsRef<VecCommitment<S>> for VecCommitment<S> {
    fn as_ref(&self) -> &VecCommitment<S> {
        self
    }
}
/// key: number of variables it was generated for
#[derive(Clone, Debug, Default, PartialEq, ExpSerde)]
pub struct VecKey {
    pub n_vars: usize,
}
#[derive(Clone, Debug, Default, ExpSerde)]
pub struct VecSRS;
impl StructuredReferenceString for VecSRS {
    type PKey = VecKey;
    type VKey = VecKey;
}
/// state kept between commit and open, tied to the committed vector
#[derive(Clone, Debug, Default, PartialEq, ExpSerde)]
pub struct VecScratch {
    pub digest: Vec<u8>,
}
fn digest<S: Field>(v: &[S]) -> Vec<u8> {
    use tiny_keccak::Hasher;
    let mut k = tiny_keccak::Keccak::v256();
    for x in v {
        let mut b = vec![];
        x.serialize_into(&mut b).unwrap();
        k.update(&b);
    }
    let mut o = [0u8; 32];
    k.finalize(&mut o);
    o.to_vec()
}

macro_rules! vec_pcs {
    ([$($g:tt)*] $t:ty, $name:expr, $ty:ident) => {
        impl<$($g)* FE: FieldEngine> ExpanderPCS<FE> for $t {
            const NAME: &'static str = $name;
            const PCS_TYPE: PolynomialCommitmentType = PolynomialCommitmentType::$ty;
            type Params = usize;
            type ScratchPad = VecScratch;
            type SRS = VecSRS;
            type Commitment = VecCommitment<FE::SimdCircuitField>;
            type Opening = Vec<u8>;
            type BatchOpening = Vec<u8>;
            fn gen_params(n: usize, _w: usize) -> usize { n }
            fn init_scratch_pad(_p: &usize, _m: &MPIConfig) -> VecScratch { VecScratch::default() }
            fn gen_keys(p: &usize) -> (VecKey, VecKey) { (VecKey { n_vars: *p }, VecKey { n_vars: *p }) }
            fn commit(_p: &usize, _m: &MPIConfig, k: &VecKey, poly: &impl MultilinearExtension<FE::SimdCircuitField>, s: &mut VecScratch) -> Option<Self::Commitment> {
                let v = poly.evals();
                assert!(v.len().is_power_of_two(), "committed vector length is not a power of two");
                assert!(v.len() <= 1 << k.n_vars, "committed vector longer than the key");
                s.digest = digest(v);
                Some(VecCommitment(v.to_vec()))
            }
            fn open(_p: &usize, _m: &MPIConfig, k: &VecKey, poly: &impl MultilinearExtension<FE::SimdCircuitField>, x: &ExpanderSingleVarChallenge<FE>, t: &mut impl Transcript, s: &VecScratch) -> Option<Vec<u8>> {
                let v = poly.evals();
                assert!(v.len() <= 1 << k.n_vars, "opened vector longer than the key");
                assert!(x.r_mpi.is_empty());
                assert_eq!(1usize << x.rz.len(), v.len(), "opening point does not fit the vector");
                assert!(s.digest.is_empty() || s.digest == digest(v), "opening with the state of another commitment");
                Some(t.generate_u8_slice(16))
            }
            fn verify(_p: &usize, k: &VecKey, c: &Self::Commitment, x: &ExpanderSingleVarChallenge<FE>, v: FE::ChallengeField, t: &mut impl Transcript, o: &Vec<u8>) -> bool {
                let tag = t.generate_u8_slice(16);
                if !x.r_mpi.is_empty() || c.0.len() > 1 << k.n_vars || c.0.len() != 1 << x.rz.len() {
                    return false;
                }
                *o == tag && mle_eval::<FE>(&c.0, &x.rz, &x.r_simd) == v
            }
            fn multi_points_batch_open(_p: &usize, _m: &MPIConfig, k: &VecKey, polys: &[impl MultilinearExtension<FE::SimdCircuitField>], x: &[ExpanderSingleVarChallenge<FE>], _s: &VecScratch, t: &mut impl Transcript) -> (Vec<FE::ChallengeField>, Vec<u8>) {
                assert_eq!(polys.len(), x.len());
                let vals: Vec<_> = polys.iter().zip(x).map(|(p, x)| {
                    let v = p.evals();
                    assert!(v.len() <= 1 << k.n_vars);
                    assert!(x.r_mpi.is_empty());
                    assert_eq!(1usize << x.rz.len(), v.len(), "opening point does not fit the vector");
                    mle_eval::<FE>(v, &x.rz, &x.r_simd)
                }).collect();
                (vals, t.generate_u8_slice(16))
            }
            fn multi_points_batch_verify(_p: &usize, k: &VecKey, c: &[impl AsRef<Self::Commitment>], x: &[ExpanderSingleVarChallenge<FE>], vals: &[FE::ChallengeField], o: &Vec<u8>, t: &mut impl Transcript) -> bool {
                let tag = t.generate_u8_slice(16);
                c.len() == x.len() && c.len() == vals.len() && *o == tag
                    && c.iter().zip(x).zip(vals).all(|((c, x), v)| {
                        let c = &c.as_ref().0;
                        x.r_mpi.is_empty() && c.len() <= 1 << k.n_vars && c.len() == 1 << x.rz.len()
                            && mle_eval::<FE>(c, &x.rz, &x.r_simd) == *v
                    })
            }
        }
    };
}
pub struct RawPCS;
pub struct HyraxPCS;
pub struct OrionPCS;
pub struct HyperUniKZGPCS<E>(PhantomData<E>);
vec_pcs!([] RawPCS, "Raw", Raw);
vec_pcs!([] HyraxPCS, "Hyrax", Hyrax);
vec_pcs!([] OrionPCS, "Orion", Orion);
vec_pcs!([E: 'static,] HyperUniKZGPCS<E>, "HyperUniKZG", KZG);

#[allow(clippy::type_complexity)]
pub fn expander_pcs_init_testing_only<F: FieldEngine, PCS: ExpanderPCS<F>>(
    n_input_vars: usize,
    mpi: &MPIConfig,
) -> (
    PCS::Params,
    <PCS::SRS as StructuredReferenceString>::PKey,
    <PCS::SRS as StructuredReferenceString>::VKey,
    PCS::ScratchPad,
) {
    let p = PCS::gen_params(n_input_vars, mpi.world_size());
    let s = PCS::init_scratch_pad(&p, mpi);
    let (pk, vk) = PCS::gen_keys(&p);
    (p, pk, vk, s)
}

// ------------------------------------------------------------------ GKR engines

pub trait GKREngine: Send + Sync {
    type FieldConfig: FieldEngine;
    type MPIConfig: MPIEngine;
    type TranscriptConfig: Transcript;
    type PCSConfig: ExpanderPCS<Self::FieldConfig>;
    const SCHEME: GKRScheme;
}
macro_rules! gkr_config {
    ($n:ident, $f:ty, $h:ty, $p:ty) => {
        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n<'a> {
            _p: PhantomData<&'a ()>,
        }
        impl<'a> GKREngine for $n<'a> {
            type FieldConfig = $f;
            type MPIConfig = MPIConfig<'a>;
            type TranscriptConfig = BytesHashTranscript<$h>;
            type PCSConfig = $p;
            const SCHEME: GKRScheme = GKRScheme::Vanilla;
        }
    };
}
gkr_config!(M31x16ConfigSha2RawVanilla, M31x16Config, SHA256hasher, RawPCS);
gkr_config!(M31x16ConfigSha2OrionVanilla, M31x16Config, SHA256hasher, OrionPCS);
gkr_config!(BN254ConfigMIMC5Raw, BN254Config, MiMC5FiatShamirHasher<Fr>, RawPCS);
gkr_config!(BN254ConfigSha2Raw, BN254Config, SHA256hasher, RawPCS);
gkr_config!(BN254ConfigSha2Hyrax, BN254Config, SHA256hasher, HyraxPCS);
gkr_config!(GF2ExtConfigSha2Raw, GF2ExtConfig, SHA256hasher, RawPCS);
gkr_config!(GF2ExtConfigSha2Orion, GF2ExtConfig, SHA256hasher, OrionPCS);
gkr_config!(Goldilocksx8ConfigSha2Raw, Goldilocksx8Config, SHA256hasher, RawPCS);
gkr_config!(BabyBearx16ConfigSha2Raw, BabyBearx16Config, SHA256hasher, RawPCS);

// ------------------------------------------------------------------ sumcheck scratch

pub struct ProverScratchPad<F: FieldEngine> {
    pub max_in: usize,
    pub max_out: usize,
    _f: PhantomData<F>,
}
impl<F: FieldEngine> ProverScratchPad<F> {
    pub fn new(max_num_input_var: usize, max_num_output_var: usize, _mpi_world_size: usize) -> Self {
        ProverScratchPad { max_in: max_num_input_var, max_out: max_num_output_var, _f: PhantomData }
    }
}
pub struct ScratchPadBatch<F: FieldEngine>(Vec<ProverScratchPad<F>>);
impl<F: FieldEngine> ScratchPadBatch<F> {
    pub fn new(n: usize, a: usize, b: usize, w: usize) -> Self {
        ScratchPadBatch((0..n).map(|_| ProverScratchPad::new(a, b, w)).collect())
    }
    pub fn as_mut_slice(&mut self) -> &mut [ProverScratchPad<F>] {
        &mut self.0
    }
}
