//! Symbolic shadow of `decaf377` 0.10.1.
//!
//! `Fq` keeps the public API of the real field element, but an element is a pair
//! (concrete value, symbolic node).  `id == 0` means "a constant, fully described by its
//! concrete value"; otherwise `id` names a node of the expression DAG in [`sym`].  All ring
//! operations build nodes; every operation whose *control* result depends on a symbolic value
//! (equality, ordering, zero test of `inverse`, byte extraction) records a `Decision`.

use ark_ed_on_bls12_377::Fq as ArkFq;
use ark_ff::{biginteger::BigInt, Field as _, PrimeField as _};
use ark_serialize::CanonicalSerialize as _;
use core::cmp::Ordering;
use rand_core::CryptoRngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

mod arkworks;
mod error;
mod ops;
pub mod sym;

pub use error::EncodingError;

pub mod fields {
    pub mod fq {
        pub use crate::Fq;
    }
}

#[cfg(feature = "r1cs")]
pub mod r1cs {
    use crate::Fq;
    pub type FqVar = ark_r1cs_std::fields::fp::FpVar<Fq>;
    pub use ark_r1cs_std;
    use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, OptimizationGoal, SynthesisMode};
    pub trait CountConstraints: ConstraintSynthesizer<Fq> + Sized {
        fn num_constraints_and_instance_variables(self) -> (usize, usize) {
            let cs = ConstraintSystem::new_ref();
            cs.set_optimization_goal(OptimizationGoal::Constraints);
            cs.set_mode(SynthesisMode::Setup);
            self.generate_constraints(cs.clone()).expect("can generate constraints");
            cs.finalize();
            (cs.num_constraints(), cs.num_instance_variables())
        }
    }
    impl<T> CountConstraints for T where T: ConstraintSynthesizer<Fq> + Sized {}
}

const B: usize = 253;
const N_8: usize = (B + 7) / 8;
const N_64: usize = (B + 63) / 64;

#[derive(Copy, Clone)]
pub struct Fq {
    v: ArkFq,
    id: u32,
}

impl Fq {
    pub const MODULUS_LIMBS: [u64; N_64] = [
        725501752471715841,
        6461107452199829505,
        6968279316240510977,
        1345280370688173398,
    ];
    pub const MODULUS_MINUS_ONE_DIV_TWO_LIMBS: [u64; N_64] = [
        9586122913090633728,
        12453925762954690560,
        3484139658120255488,
        672640185344086699,
    ];
    pub const MODULUS_BIT_SIZE: u32 = 0xfd;
    pub const TRACE_LIMBS: [u64; N_64] = [
        17149038877957297187,
        11113960768935211860,
        14608890324369326440,
        9558,
    ];
    pub const TRACE_MINUS_ONE_DIV_TWO_LIMBS: [u64; N_64] = [
        8574519438978648593,
        5556980384467605930,
        7304445162184663220,
        4779,
    ];
    pub const TWO_ADICITY: u32 = 0x2f;
    pub const QUADRATIC_NON_RESIDUE_TO_TRACE: Self = Self::from_montgomery_limbs([
        4340692304772210610,
        11102725085307959083,
        15540458298643990566,
        944526744080888988,
    ]);
    pub const MULTIPLICATIVE_GENERATOR: Self = Self::from_montgomery_limbs([
        2984901390528151251,
        10561528701063790279,
        5476750214495080041,
        898978044469942640,
    ]);
    pub const TWO_ADIC_ROOT_OF_UNITY: Self = Self::from_montgomery_limbs([
        12646347781564978760,
        6783048705277173164,
        268534165941069093,
        1121515446318641358,
    ]);
    pub const FIELD_SIZE_POWER_OF_TWO: Self = Self::from_montgomery_limbs([
        2726216793283724667,
        14712177743343147295,
        12091039717619697043,
        81024008013859129,
    ]);

    pub const ZERO: Self = Self::from_montgomery_limbs([0; N_64]);
    pub const ONE: Self = Fq { v: ArkFq::new(BigInt::one()), id: 0 };
    pub const SENTINEL: Self = Self::from_montgomery_limbs([u64::MAX; N_64]);

    /// Same contract as the real crate: no reduction, no conversion.
    pub const fn from_montgomery_limbs(limbs: [u64; N_64]) -> Fq {
        Fq { v: ArkFq::new_unchecked(BigInt::new(limbs)), id: 0 }
    }

    fn is_sentinel(&self) -> bool {
        self.id == 0 && self.v.0 == BigInt::new([u64::MAX; N_64])
    }

    // ---- harness-only accessors -------------------------------------------------------
    pub fn sym_id(&self) -> u32 {
        self.id
    }
    pub fn sym_raw_limbs(&self) -> [u64; N_64] {
        self.v.0 .0
    }
    pub fn sym_concrete(&self) -> ArkFq {
        self.v
    }
    pub fn sym_var(name: &str, value: ArkFq) -> Fq {
        sym::var(name, value)
    }
    pub(crate) fn raw(v: ArkFq, id: u32) -> Fq {
        Fq { v, id }
    }

    pub(crate) fn from_le_limbs(limbs: [u64; N_64]) -> Fq {
        let mut bytes = [0u8; N_8];
        for i in 0..N_64 {
            bytes[8 * i..8 * i + 8].copy_from_slice(&limbs[i].to_le_bytes());
        }
        Self::from_raw_bytes(&bytes)
    }
    pub(crate) fn from_raw_bytes(bytes: &[u8; N_8]) -> Fq {
        Fq { v: ArkFq::from_le_bytes_mod_order(bytes), id: 0 }
    }
    #[track_caller]
    pub(crate) fn to_le_limbs(&self) -> [u64; N_64] {
        let b = self.to_bytes_le();
        let mut out = [0u64; N_64];
        for i in 0..N_64 {
            out[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        out
    }

    /// Byte extraction of a symbolic value is a concretisation: it is recorded.
    #[track_caller]
    pub fn to_bytes_le(&self) -> [u8; N_8] {
        debug_assert!(!self.is_sentinel());
        if self.id != 0 {
            sym::concretised(self);
        }
        self.concrete_bytes()
    }
    pub(crate) fn concrete_bytes(&self) -> [u8; N_8] {
        let mut bytes = [0u8; N_8];
        self.v
            .serialize_compressed(&mut bytes[..])
            .expect("serialization into array should be infallible");
        bytes
    }
    #[track_caller]
    pub fn to_bytes(&self) -> [u8; N_8] {
        self.to_bytes_le()
    }

    pub fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        bytes
            .chunks(N_8)
            .map(|x| {
                let mut padded = [0u8; N_8];
                padded[..x.len()].copy_from_slice(x);
                Self::from_raw_bytes(&padded)
            })
            .rev()
            .fold(Self::ZERO, |acc, x| acc * (Self::FIELD_SIZE_POWER_OF_TWO) + x)
    }
    pub fn from_bytes_checked(bytes: &[u8; N_8]) -> Result<Self, EncodingError> {
        let reduced = Self::from_raw_bytes(bytes);
        if reduced.to_bytes_le() == *bytes {
            Ok(reduced)
        } else {
            Err(EncodingError::InvalidEncoding)
        }
    }
    pub fn rand<R: CryptoRngCore>(rng: &mut R) -> Self {
        let mut out = [0u8; N_8 + 16];
        rng.fill_bytes(&mut out);
        Self::from_le_bytes_mod_order(&out)
    }

    /// Exactly the real implementation: repeated multiplication by the lowest exponent limb.
    pub fn power<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Fq::from(1u64);
        let exp_u64 = exp.as_ref()[0];
        if exp_u64 > 64 {
            // the same power in fewer terms
            for i in (0..64 - exp_u64.leading_zeros()).rev() {
                res = res.square();
                if (exp_u64 >> i) & 1 == 1 {
                    res *= self;
                }
            }
            return res;
        }
        for _ in 0..exp_u64 {
            res *= self;
        }
        res
    }

    pub fn square(&self) -> Fq {
        debug_assert!(!self.is_sentinel());
        sym::mul(self, self)
    }
    #[track_caller]
    pub fn inverse(&self) -> Option<Fq> {
        debug_assert!(!self.is_sentinel());
        if sym::decide_eq(self, &Fq::ZERO) {
            return None;
        }
        Some(sym::inv(self))
    }
    pub fn add(self, other: &Fq) -> Fq {
        debug_assert!(!self.is_sentinel() && !other.is_sentinel());
        sym::add(&self, other)
    }
    pub fn sub(self, other: &Fq) -> Fq {
        debug_assert!(!self.is_sentinel() && !other.is_sentinel());
        sym::sub(&self, other)
    }
    pub fn mul(self, other: &Fq) -> Fq {
        debug_assert!(!self.is_sentinel() && !other.is_sentinel());
        sym::mul(&self, other)
    }
    pub fn neg(self) -> Fq {
        debug_assert!(!self.is_sentinel());
        sym::neg(&self)
    }
}

impl PartialEq for Fq {
    #[track_caller]
    fn eq(&self, other: &Self) -> bool {
        match (self.is_sentinel(), other.is_sentinel()) {
            (true, true) => true,
            (false, false) => sym::decide_eq(self, other),
            _ => false,
        }
    }
    #[allow(clippy::partialeq_ne_impl)]
    #[track_caller]
    fn ne(&self, other: &Self) -> bool {
        !self.eq(other) // so that a decision is located at its caller
    }
}
impl Eq for Fq {}

impl Ord for Fq {
    #[track_caller]
    fn cmp(&self, other: &Self) -> Ordering {
        if sym::decide_eq(self, other) {
            Ordering::Equal
        } else if sym::decide_lt(self, other) {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
}
impl PartialOrd for Fq {
    #[track_caller]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl core::hash::Hash for Fq {
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        state.write(&self.to_bytes_le())
    }
}
impl core::fmt::Debug for Fq {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        // Formatting is not the subject of any check; print without recording.
        let mut b = self.concrete_bytes();
        b.reverse();
        write!(f, "Fq(0x")?;
        for x in b {
            write!(f, "{:02x}", x)?;
        }
        write!(f, ")")
    }
}
impl zeroize::Zeroize for Fq {
    fn zeroize(&mut self) {
        *self = Fq::ZERO;
    }
}
impl ConditionallySelectable for Fq {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        if choice.unwrap_u8() == 1 {
            *b
        } else {
            *a
        }
    }
}
impl ConstantTimeEq for Fq {
    #[track_caller]
    fn ct_eq(&self, other: &Fq) -> Choice {
        Choice::from(sym::decide_eq(self, other) as u8)
    }
}

pub(crate) fn ark_inverse(v: &ArkFq) -> Option<ArkFq> {
    v.inverse()
}
pub use ark_ed_on_bls12_377::Fq as ConcreteFq;

/// Parse a decimal or 0x-hex canonical value.
pub fn parse_concrete(s: &str) -> ArkFq {
    if let Some(h) = s.strip_prefix("0x") {
        let mut acc = ArkFq::from(0u64);
        for c in h.chars() {
            acc = acc * ArkFq::from(16u64) + ArkFq::from(c.to_digit(16).expect("hex digit") as u64);
        }
        acc
    } else {
        let mut acc = ArkFq::from(0u64);
        for c in s.chars() {
            acc = acc * ArkFq::from(10u64) + ArkFq::from(c.to_digit(10).expect("digit") as u64);
        }
        acc
    }
}
pub fn concrete_hex(v: &ArkFq) -> String {
    let b = v.into_bigint();
    format!("0x{:016x}{:016x}{:016x}{:016x}", b.0[3], b.0[2], b.0[1], b.0[0])
}
