//! Properties of the parts of poseidon-paramgen that compile against the current crates, as functions of arbitrary
//! inputs.  Kani calls them with symbolic values, `main` with concrete ones (replay).
#![allow(non_snake_case, dead_code, unused_imports)]
mod input {
    include!("/repo/poseidon-paramgen/src/input.rs");
}
mod transcript {
    include!("/repo/poseidon-paramgen/src/transcript.rs");
}
mod utils {
    include!("/repo/poseidon-paramgen/src/utils.rs");
}
#[cfg(feature = "rounds")]
mod rounds {
    include!("/repo/poseidon-paramgen/src/rounds.rs");

    /// The cost of a candidate is its number of S-boxes.
    pub fn boxes(f: usize, p: usize, t: usize) -> bool {
        RoundNumbersBuilder(RoundNumbers { r_F: f, r_P: p }).sbox_count(t) == t * f + p
    }

    /// Two more full rounds, 7.5% more partial rounds, rounded up.
    pub fn margin(f: usize, p: usize) -> bool {
        let mut b = RoundNumbersBuilder(RoundNumbers { r_F: f, r_P: p });
        b.apply_security_margin();
        b.0.full() == f + 2 && b.0.partial() == (43 * p + 39) / 40
    }

    /// The bounds of the three attacks, arbitrary values in place of the published formulas, and whether the improved
    /// Groebner basis attack is possible.
    pub static mut BOUNDS: (usize, usize, usize, bool) = (0, 0, 0, false);

    pub fn stat<T: BigInteger>(_: &InputParameters<T>, _: &Alpha) -> usize {
        unsafe { BOUNDS.0 }
    }

    pub fn interpolation<T: BigInteger>(_: &InputParameters<T>, _: &Alpha) -> usize {
        unsafe { BOUNDS.1 }
    }

    pub fn grobner<T: BigInteger>(_: &InputParameters<T>, _: &Alpha) -> usize {
        unsafe { BOUNDS.2 }
    }

    pub fn possible<T: BigInteger>(_: &InputParameters<T>, _: &Alpha, _: &RoundNumbers) -> bool {
        unsafe { BOUNDS.3 }
    }

    /// The same with the real bounds, on a grid of instances and candidates.
    pub fn accepts_here() -> bool {
        let mut ok = true;
        for (m, l, e) in [(80, 64.0, 3), (128, 252.5, 17), (128, 64.0, 5), (256, 254.8, 5), (256, 250.0, 3)] {
            for t in 2..9 {
                let i = InputParameters { allow_inverse: true, M: m, t, p: ark_ff::BigInt::<4>([1, 0, 0, 0]), log_2_p: l };
                let a = Alpha::Exponent(e);
                let b = (statistical_attack_full_rounds(&i, &a), algebraic_attack_interpolation(&i, &a), algebraic_attack_grobner_basis_v1(&i, &a));
                let total = b.1.max(b.2);
                for f in 4usize..24 {
                    for p in (1usize..400).filter(|p| *p < 5 || (f + p).abs_diff(b.1) < 4 || (f + p).abs_diff(b.2) < 4 || f + p == 2 * total) {
                        let r = RoundNumbers { r_F: f, r_P: p };
                        let v1 = f >= b.0 && f + p > b.1 && f + p > b.2;
                        let v2 = v1 && !algebraic_attack_grobner_basis_v2_possible(&i, &a, &r);
                        let c = RoundNumbersBuilder(r);
                        if c.is_secure_v1(&i, &a) != v1 || c.is_secure_v2(&i, &a) != v2 {
                            println!("M={} t={} log2(p)={} alpha={} r_F={} r_P={} bounds={:?}", m, t, l, e, f, p, b);
                            ok = false;
                        }
                    }
                }
            }
        }
        ok
    }

    /// A candidate is accepted exactly when it withstands every attack.
    pub fn accepts<T: BigInteger>(f: usize, p: usize, e: u32, input: &InputParameters<T>, b: (usize, usize, usize, bool)) -> bool {
        unsafe { BOUNDS = b };
        let c = RoundNumbersBuilder(RoundNumbers { r_F: f, r_P: p });
        let v1 = f >= b.0 && f + p > b.1 && f + p > b.2;
        c.is_secure_v1(input, &Alpha::Exponent(e)) == v1 && c.is_secure_v2(input, &Alpha::Exponent(e)) == (v1 && !b.3)
    }
}
#[cfg(feature = "alpha")]
mod alpha {
    include!("/repo/poseidon-paramgen/src/alpha.rs");

    /// The odd numbers with an addition chain of at most seven steps, shortest chains first, larger numbers first.
    const ORDER: [u32; 25] = [3, 5, 9, 7, 17, 15, 13, 11, 33, 27, 25, 23, 21, 19, 65, 51, 49, 45, 43, 41, 39, 37, 35, 31, 29];

    /// The odd primes that divide one of them.
    const PRIMES: [u32; 13] = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43];

    /// Which of them divide n.
    const FACTORS: [u16; 129] = {
        let mut f = [0; 129];
        let mut n = 1;
        while n < 129 {
            let mut k = 0;
            while k < 13 {
                if n as u32 % PRIMES[k] == 0 {
                    f[n] |= 1 << k;
                }
                k += 1;
            }
            n += 1;
        }
        f
    };

    /// Whether `n` has no prime factor in the chosen set, nor 2, which always divides p - 1.
    fn coprime(n: u32, mask: u16) -> bool {
        n % 2 == 1 && n < 129 && FACTORS[n as usize] & mask == 0
    }

    /// The odd primes that divide p - 1.
    pub static mut MASK: u16 = 0;

    pub fn chosen<F: PrimeField>(alpha: u32, _: F::BigInt) -> bool {
        coprime(alpha, unsafe { MASK })
    }

    fn expected(mask: u16) -> Option<u32> {
        let mut best = None;
        let mut k = 25;
        while k > 0 {
            k -= 1;
            if coprime(ORDER[k], mask) {
                best = Some(ORDER[k]);
            }
        }
        best
    }

    /// The choice is the first admissible number, whatever p - 1 is divisible by.
    pub fn first(p: u64, mask: u16, allow_inverse: bool) -> bool {
        let best = expected(mask);
        if best == None && !allow_inverse {
            return true; // see `refuses`
        }
        let chosen = generate::<crate::F>(ark_ff::BigInt::<4>([p, 0, 0, 0]), allow_inverse);
        chosen == best.map_or(Alpha::Inverse, Alpha::Exponent)
    }

    /// The same for real numbers p - 1, one for every set of primes.
    pub fn first_here() -> bool {
        let mut ok = true;
        for mask in 0..8192u16 {
            let m: u64 = 2 * (0..13).filter(|k| mask >> k & 1 == 1).map(|k| PRIMES[k] as u64).product::<u64>();
            for inverse in [false, true] {
                if let Err(_) | Ok(false) = std::panic::catch_unwind(|| first(m + 1, mask, inverse)) {
                    println!("p = {} allow_inverse = {}", m + 1, inverse);
                    ok = false;
                }
            }
        }
        ok
    }
}
use ark_ff::{BigInt, PrimeField};
use input::InputParameters;
use merlin::Transcript;
use poseidon_parameters::v1::{Alpha, RoundNumbers};
use transcript::TranscriptProtocol;
use utils::log2;

type F = ark_ed_on_bls12_381::Fq;

#[derive(Clone, Copy, PartialEq)]
struct Instance {
    t: usize,
    m: usize,
    p: [u64; 4],
    f: u8,
    r: u8,
    alpha: u64, // above u32::MAX: the inverse S-box
    allow_inverse: bool,
}

fn record(i: Instance) -> Transcript {
    let input = InputParameters::<<F as PrimeField>::BigInt> { allow_inverse: i.allow_inverse, M: i.m, t: i.t, p: BigInt(i.p), log_2_p: 0.0 };
    let alpha = if i.alpha > u32::MAX as u64 { Alpha::Inverse } else { Alpha::Exponent(i.alpha as u32) };
    let mut t = Transcript::new(b"round-constants");
    t.domain_sep::<F>(&input, RoundNumbers { r_F: i.f as usize, r_P: i.r as usize }, alpha);
    t
}

/// Instances that differ in width, security level, modulus, round numbers or S-box are recorded differently, those that
/// do not differ in any of them alike.
fn binds(a: Instance, b: Instance) -> bool {
    let (x, y) = (record(a), record(b));
    let key = |i: Instance| (i.t, i.m, i.p, i.f, i.r, i.alpha.min(1 << 32));
    // the encodings of the inverse S-box and of the exponent 2^32 - 1 coincide
    let top = |i: Instance| i.alpha >= u32::MAX as u64;
    let same = x.len == y.len && x.rec == y.rec;
    if key(a) == key(b) { same } else { !same || (top(a) && top(b)) }
}

/// The record is the published sequence of messages.
fn published(i: Instance) -> bool {
    let mut t = Transcript::new(b"round-constants");
    t.append_message(b"dom-sep", b"poseidon-paramgen");
    t.append_u64(b"t", i.t as u64);
    t.append_u64(b"M", i.m as u64);
    let mut p = [0; 32];
    for (k, l) in i.p.iter().enumerate() {
        p[8 * k..8 * k + 8].copy_from_slice(&l.to_le_bytes());
    }
    t.append_message(b"p", &p);
    t.append_message(b"r_F", &[i.f]);
    t.append_message(b"r_P", &[i.r]);
    t.append_message(b"alpha", &(i.alpha.min(u32::MAX as u64) as u32).to_le_bytes());
    let x = record(i);
    x.len == t.len && x.rec == t.rec
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let inst = |i: usize| Instance { t: n(i) as usize, m: n(i + 1) as usize, p: [n(i + 2), n(i + 3), n(i + 4), n(i + 5)], f: n(i + 6) as u8, r: n(i + 7) as u8, alpha: n(i + 8), allow_inverse: n(i + 9) & 1 == 1 };
    let ok = match a[1].as_str() {
        "binds" => binds(inst(2), inst(12)),
        "published" => published(inst(2)),
        #[cfg(feature = "rounds")]
        "boxes" => rounds::boxes(n(2) as usize, n(3) as usize, n(4) as usize),
        #[cfg(feature = "rounds")]
        "accepts" => rounds::accepts_here(),
        #[cfg(feature = "rounds")]
        "margin" => rounds::margin(n(2) as usize, n(3) as usize),
        #[cfg(feature = "alpha")]
        "first" => alpha::first_here(),
        _ => panic!("unknown"),
    };
    println!("{}", if ok { "holds" } else { "fails" });
}

#[cfg(kani)]
mod proofs {
    use super::*;
    use kani::any;

    fn inst() -> Instance {
        Instance { t: any(), m: any(), p: [any(), any(), any(), any()], f: any(), r: any(), alpha: any(), allow_inverse: any() }
    }

    #[kani::proof]
    #[kani::unwind(200)]
    fn published() {
        assert!(super::published(inst()));
    }

    #[kani::proof]
    #[kani::unwind(200)]
    fn binds() {
        assert!(super::binds(inst(), inst()));
    }

    /// Vacuity guard: this must fail.
    #[kani::proof]
    #[kani::unwind(200)]
    fn twin() {
        let i = inst();
        assert!(i.t != 4242 || !super::published(i));
    }

    /// Vacuity guard: this must fail.
    #[cfg(feature = "rounds")]
    #[kani::proof]
    fn twin_rounds() {
        let f: u16 = any();
        assert!(f != 4242 || !rounds::boxes(f as usize, 3, 5));
    }

    #[cfg(feature = "rounds")]
    #[kani::proof]
    #[kani::solver(cvc5)]
    fn boxes() {
        let (f, p, t): (u16, u16, u8) = (any(), any(), any());
        assert!(rounds::boxes(f as usize, p as usize, t as usize));
    }

    #[cfg(feature = "rounds")]
    #[kani::proof]
    #[kani::stub(rounds::statistical_attack_full_rounds, rounds::stat)]
    #[kani::stub(rounds::algebraic_attack_interpolation, rounds::interpolation)]
    #[kani::stub(rounds::algebraic_attack_grobner_basis_v1, rounds::grobner)]
    #[kani::stub(rounds::algebraic_attack_grobner_basis_v2_possible, rounds::possible)]
    fn accepts() {
        let (f, p, e, t, m): (u16, u16, u32, usize, usize) = (any(), any(), any(), any(), any());
        let input = InputParameters { allow_inverse: any(), M: m, t, p: BigInt::<4>([any(), any(), any(), any()]), log_2_p: any() };
        assert!(rounds::accepts(f as usize, p as usize, e, &input, (any(), any(), any(), any())));
    }

    /// Vacuity guard: this must fail.
    #[cfg(feature = "alpha")]
    #[kani::proof]
    #[kani::unwind(70)]
    #[kani::stub(alpha::alpha_coprime_to_p_minus_one, alpha::chosen)]
    fn twin_alpha() {
        let mask: u16 = any();
        kani::assume(mask < 8192);
        unsafe { alpha::MASK = mask };
        assert!(mask != 4242 || !alpha::first(any(), mask, true));
    }

    #[cfg(feature = "alpha")]
    #[kani::proof]
    #[kani::unwind(70)]
    #[kani::stub(alpha::alpha_coprime_to_p_minus_one, alpha::chosen)]
    fn first() {
        let mask: u16 = any();
        kani::assume(mask < 8192);
        unsafe { alpha::MASK = mask };
        assert!(alpha::first(any(), mask, any()));
    }

    #[cfg(feature = "rounds")]
    #[kani::proof]
    fn margin() {
        let (f, p): (u16, u16) = (any(), any());
        kani::assume(p < 400);
        assert!(rounds::margin(f as usize, p as usize));
    }
}
