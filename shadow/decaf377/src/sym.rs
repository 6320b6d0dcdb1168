//! The expression DAG, the decision log and forced branch outcomes.
use crate::{ark_inverse, concrete_hex, ConcreteFq, Fq};
use ark_ff::Zero as _;
use std::collections::HashMap;
use std::panic::Location;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Ref {
    K([u64; 4]),
    N(u32),
}
#[derive(Clone, PartialEq, Eq, Hash)]
enum Node {
    Var(String),
    Add(Ref, Ref),
    Sub(Ref, Ref),
    Mul(Ref, Ref),
    Neg(Ref),
    Inv(Ref),
}
struct Decision {
    kind: &'static str,
    a: Ref,
    b: Ref,
    outcome: bool,
    loc: String,
    dep: bool,
    at: usize,
}
#[derive(Default)]
struct State {
    nodes: Vec<Node>,
    cons: HashMap<Node, u32>,
    vals: Vec<ConcreteFq>,
    decisions: Vec<Decision>,
    forced: HashMap<usize, bool>,
    muted: bool,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(State::default))
}

fn rf(x: &Fq) -> Ref {
    if x.id == 0 {
        Ref::K(x.v.0 .0)
    } else {
        Ref::N(x.id)
    }
}
fn mk(n: Node, v: ConcreteFq) -> Fq {
    with(|s| {
        if let Some(&id) = s.cons.get(&n) {
            return Fq::raw(s.vals[id as usize - 1], id);
        }
        s.nodes.push(n.clone());
        s.vals.push(v);
        let id = s.nodes.len() as u32;
        s.cons.insert(n, id);
        Fq::raw(v, id)
    })
}
fn k(v: ConcreteFq) -> Fq {
    Fq::raw(v, 0)
}
fn is_k(x: &Fq) -> bool {
    x.id == 0
}
fn kz(x: &Fq) -> bool {
    x.id == 0 && x.v.is_zero()
}
fn k1(x: &Fq) -> bool {
    x.id == 0 && x.v == Fq::ONE.v
}

pub fn var(name: &str, value: ConcreteFq) -> Fq {
    mk(Node::Var(name.to_string()), value)
}
pub fn add(a: &Fq, b: &Fq) -> Fq {
    let v = a.v + b.v;
    if is_k(a) && is_k(b) {
        return k(v);
    }
    if kz(a) {
        return *b;
    }
    if kz(b) {
        return *a;
    }
    mk(Node::Add(rf(a), rf(b)), v)
}
pub fn sub(a: &Fq, b: &Fq) -> Fq {
    let v = a.v - b.v;
    if is_k(a) && is_k(b) {
        return k(v);
    }
    if kz(b) {
        return *a;
    }
    if !is_k(a) && a.id == b.id {
        return Fq::ZERO;
    }
    if kz(a) {
        return neg(b);
    }
    mk(Node::Sub(rf(a), rf(b)), v)
}
pub fn mul(a: &Fq, b: &Fq) -> Fq {
    let v = a.v * b.v;
    if is_k(a) && is_k(b) {
        return k(v);
    }
    if kz(a) || kz(b) {
        return Fq::ZERO;
    }
    if k1(a) {
        return *b;
    }
    if k1(b) {
        return *a;
    }
    mk(Node::Mul(rf(a), rf(b)), v)
}
pub fn neg(a: &Fq) -> Fq {
    if is_k(a) {
        return k(-a.v);
    }
    mk(Node::Neg(rf(a)), -a.v)
}
/// Only called on the branch where `a != 0` was decided.
pub fn inv(a: &Fq) -> Fq {
    let v = ark_inverse(&a.v).unwrap_or(ConcreteFq::from(0u64));
    if is_k(a) {
        return k(v);
    }
    mk(Node::Inv(rf(a)), v)
}

#[track_caller]
fn decide(kind: &'static str, a: &Fq, b: &Fq, concrete: bool) -> bool {
    let l = Location::caller();
    with(|s| {
        if s.muted {
            return concrete;
        }
        let idx = s.decisions.len();
        let outcome = s.forced.get(&idx).copied().unwrap_or(concrete);
        let at = s.nodes.len();
        s.decisions.push(Decision {
            kind,
            a: rf(a),
            b: rf(b),
            outcome,
            loc: format!("{}:{}", l.file(), l.line()),
            dep: l.file().contains("/registry/src/") || l.file().contains("/shadow/decaf377/"),
            at,
        });
        outcome
    })
}
#[track_caller]
pub fn decide_eq(a: &Fq, b: &Fq) -> bool {
    if is_k(a) && is_k(b) {
        return a.v == b.v;
    }
    if !is_k(a) && a.id == b.id {
        return true;
    }
    decide("eq", a, b, a.v == b.v)
}
#[track_caller]
pub fn decide_lt(a: &Fq, b: &Fq) -> bool {
    if is_k(a) && is_k(b) || (!is_k(a) && a.id == b.id) {
        return a.v < b.v;
    }
    decide("lt", a, b, a.v < b.v)
}
#[track_caller]
pub fn concretised(a: &Fq) {
    decide("concretise", a, a, true);
}

// ---- harness interface ------------------------------------------------------------------

/// Run `f` without recording decisions (harness-internal comparisons only).
pub fn muted<R>(f: impl FnOnce() -> R) -> R {
    with(|s| s.muted = true);
    let r = f();
    with(|s| s.muted = false);
    r
}
pub fn force(idx: usize, outcome: bool) {
    with(|s| {
        s.forced.insert(idx, outcome);
    });
}
fn mont_hex(l: &[u64; 4]) -> String {
    format!("m{:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0])
}
fn show(r: &Ref) -> String {
    match r {
        Ref::K(l) => mont_hex(l),
        Ref::N(i) => format!("n{}", i),
    }
}
/// Reference syntax: `m<64 hex>` = constant given by raw Montgomery limbs, `n<id>` = node.
pub fn show_ref(x: &Fq) -> String {
    show(&rf(x))
}
pub fn dump(out: &mut impl std::io::Write) -> std::io::Result<()> {
    with(|s| {
        for (i, n) in s.nodes.iter().enumerate() {
            let i = i + 1;
            match n {
                Node::Var(v) => writeln!(out, "N {} var {} {}", i, v, concrete_hex(&s.vals[i - 1]))?,
                Node::Add(a, b) => writeln!(out, "N {} add {} {}", i, show(a), show(b))?,
                Node::Sub(a, b) => writeln!(out, "N {} sub {} {}", i, show(a), show(b))?,
                Node::Mul(a, b) => writeln!(out, "N {} mul {} {}", i, show(a), show(b))?,
                Node::Neg(a) => writeln!(out, "N {} neg {}", i, show(a))?,
                Node::Inv(a) => writeln!(out, "N {} inv {}", i, show(a))?,
            }
        }
        for (i, d) in s.decisions.iter().enumerate() {
            writeln!(
                out,
                "D {} {} {} {} {} {} {} {}",
                i,
                d.kind,
                show(&d.a),
                show(&d.b),
                d.outcome as u8,
                if d.dep { "dep" } else { "repo" },
                d.at,
                d.loc
            )?;
        }
        Ok(())
    })
}
