// R1CS entry points.  Input allocation modes, one letter per state word:
//   c constant, w witness, i public input, l linear combination of two witnesses (a + 3 b),
//   k a sum of a witness and a constant (a + 5), r the very same variable as word 0,
//   n minus word 0, h the result of an earlier hash_1 gadget in the same system, d a variable-typed zero (word 0 minus itself).
// Constraint-system modes: prove, setup, weight (prove + outlining), setupw (setup + outlining), none (ConstraintSystemRef::None,
// constants only), foreign (hash called with cs = None while its inputs are allocated).
use crate::env;
use crate::jobs::*;
use ark_r1cs_std::{fields::fp::FpVar, prelude::*};
use ark_relations::r1cs::{
    ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError, SynthesisMode,
};
use decaf377::Fq;
use poseidon377::r1cs as g;
use poseidon_parameters::v1::*;
use poseidon_permutation::r1cs::InstanceVar;

type V = FpVar<Fq>;
type Cs = ConstraintSystemRef<Fq>;

fn new_cs(mode: &str) -> Cs {
    if mode == "none" {
        return ConstraintSystemRef::None;
    }
    let cs = ConstraintSystem::<Fq>::new_ref();
    match mode {
        "setup" => cs.set_mode(SynthesisMode::Setup),
        "setupw" => {
            cs.set_optimization_goal(OptimizationGoal::Weight);
            cs.set_mode(SynthesisMode::Setup)
        }
        "weight" => cs.set_optimization_goal(OptimizationGoal::Weight),
        "prove" | "foreign" => cs.set_optimization_goal(OptimizationGoal::Constraints),
        m => panic!("mode {}", m),
    }
    cs
}

fn alloc_all(cs: &Cs, mode: &str, kinds: &str) -> Vec<V> {
    alloc_named(cs, mode, kinds, "x", &[], None)
}

/// `prev`: the words of the call before (letter p: the same word again), `out`: its result (letter o).
fn alloc_named(cs: &Cs, mode: &str, kinds: &str, name: &str, prev: &[V], out: Option<&V>) -> Vec<V> {
    let mut x: Vec<V> = Vec::new();
    for (i, k) in kinds.chars().enumerate() {
        let v = match k {
            'p' => prev[i].clone(),
            'o' => out.expect("previous result").clone(),
            'r' => x[0].clone(),
            'n' => x[0].negate().expect("negate"),
            'd' => &x[0] - &x[0],
            k => alloc(cs, mode, k, &format!("{}.{}", name, i)),
        };
        x.push(v);
    }
    x
}

fn alloc(cs: &Cs, mode: &str, kind: char, name: &str) -> V {
    let val = |s: &str| -> Result<Fq, SynthesisError> {
        if mode.starts_with("setup") {
            Err(SynthesisError::AssignmentMissing)
        } else {
            Ok(env::var(s))
        }
    };
    let witness = |s: &str| -> V {
        env::note(&format!("in.{}", s), &format!("witness {}", cs.num_witness_variables()));
        V::new_witness(cs.clone(), || val(s)).expect("alloc")
    };
    match kind {
        'c' => V::new_constant(cs.clone(), env::var(name)).expect("alloc"),
        'w' => witness(name),
        'i' => {
            env::note(&format!("in.{}", name), &format!("instance {}", cs.num_instance_variables()));
            V::new_input(cs.clone(), || val(name)).expect("alloc")
        }
        'l' => {
            let a = witness(&format!("{}.a", name));
            let b = witness(&format!("{}.b", name));
            a + b * Fq::from(3u64)
        }
        'k' => witness(&format!("{}.a", name)) + Fq::from(5u64),
        'h' => {
            let a = witness(&format!("{}.a", name));
            g::hash_1(cs.clone(), &V::constant(Fq::from(3u64)), a).expect("hash")
        }
        x => panic!("alloc kind {}", x),
    }
}

/// Bind each result to a fresh witness (so that it can be read off the assignment), finalize and
/// report the constraint system.
fn finish(cs: &Cs, mode: &str, results: &[V]) {
    let m = if mode == "foreign" { "prove" } else { mode };
    for (i, r) in results.iter().enumerate() {
        match r {
            FpVar::Constant(c) => {
                env::note(&format!("result.{}", i), "constant");
                env::out(&format!("value.{}", i), *c);
            }
            FpVar::Var(_) => {
                if !m.starts_with("setup") {
                    env::out(&format!("value.{}", i), r.value().expect("value"));
                }
                let idx = cs.num_witness_variables();
                let w = V::new_witness(cs.clone(), || r.value()).expect("bind");
                w.enforce_equal(r).expect("bind");
                env::note(&format!("result.{}", i), &format!("witness {}", idx));
            }
        }
    }
    if let ConstraintSystemRef::None = cs {
        return;
    }
    cs.finalize();
    env::r1cs(cs, m.starts_with("setup"));
}

/// poseidon377::r1cs::hash_n
pub fn gadget(n: usize, kinds: &str, mode: &str) {
    let cs = new_cs(mode);
    let x = alloc_all(&cs, mode, kinds);
    assert_eq!(x.len(), n + 1);
    before(&cs);
    let c = if mode == "foreign" { ConstraintSystemRef::None } else { cs.clone() };
    let h = call(n, c, &x);
    after(&cs);
    match h {
        Ok(h) => finish(&cs, mode, &[h]),
        Err(_) => env::note("error", "synthesis error"),
    }
}

/// Several hashes in one constraint system: "1,2" "ww/pow" is hash_1 of two witnesses, then hash_2 of the same first word, the
/// first result and another witness.
pub fn chain(rates: &str, kinds: &str, mode: &str) {
    let cs = new_cs(mode);
    let (mut prev, mut results): (Vec<V>, Vec<V>) = (vec![], vec![]);
    for (k, (n, ks)) in rates.split(',').zip(kinds.split('/')).enumerate() {
        let x = alloc_named(&cs, mode, ks, &format!("x{}", k), &prev, results.last());
        if k == 0 {
            before(&cs);
        }
        match call(n.parse().expect("rate"), cs.clone(), &x) {
            Ok(h) => results.push(h),
            Err(_) => return env::note("error", "synthesis error"),
        }
        prev = x;
    }
    after(&cs);
    finish(&cs, mode, &results);
}

fn call(n: usize, c: Cs, x: &[V]) -> Result<V, SynthesisError> {
    let v = |i: usize| x[i].clone();
    match n {
        1 => g::hash_1(c, &x[0], v(1)),
        2 => g::hash_2(c, &x[0], (v(1), v(2))),
        3 => g::hash_3(c, &x[0], (v(1), v(2), v(3))),
        4 => g::hash_4(c, &x[0], (v(1), v(2), v(3), v(4))),
        5 => g::hash_5(c, &x[0], (v(1), v(2), v(3), v(4), v(5))),
        6 => g::hash_6(c, &x[0], (v(1), v(2), v(3), v(4), v(5), v(6))),
        7 => g::hash_7(c, &x[0], (v(1), v(2), v(3), v(4), v(5), v(6), v(7))),
        _ => panic!("unknown rate"),
    }
}

fn before(cs: &Cs) {
    env::note("before", &format!("{} {} {}", cs.num_constraints(), cs.num_instance_variables(), cs.num_witness_variables()));
}
fn after(cs: &Cs) {
    env::note("after", &format!("{} {} {}", cs.num_constraints(), cs.num_instance_variables(), cs.num_witness_variables()));
}

/// poseidon_permutation::r1cs::InstanceVar with arbitrary parameters (full output state).
pub fn instvar(shape: &str, alpha: &str, kinds: &str, mode: &str) {
    let cs = new_cs(mode);
    macro_rules! go {
        ($t:tt, $tm:tt, $rf:tt, $rp:tt) => {{
            let alpha = if alpha == "inv" { Alpha::Inverse } else { Alpha::Exponent(alpha.parse().expect("alpha")) };
            let parameters = generic_params!($t, $tm, $rf, $rp, alpha);
            let x = alloc_all(&cs, mode, kinds);
            assert_eq!(x.len(), $t);
            let c = if mode == "foreign" { ConstraintSystemRef::None } else { cs.clone() };
            before(&cs);
            let words: [V; $t] = core::array::from_fn(|i| x[i].clone());
            let ret = InstanceVar::n_to_1_fixed_hash(parameters.clone(), c.clone(), words);
            let mut inst = InstanceVar { parameters, cs: c, state_words: x };
            inst.permute();
            after(&cs);
            let mut r = vec![ret];
            r.extend(inst.state_words.iter().cloned());
            finish(&cs, mode, &r);
        }};
    }
    fn vars<const N: usize>(p: &str) -> [Fq; N] {
        core::array::from_fn(|i| env::var(&format!("{}.{}", p, i)))
    }
    for_shape!(shape, go)
}
