// Harness entry points, shared by the symbolic build (`sym`) and the real build (`real`).
// `env::var(name)` is an input (symbolic variable / concrete value), `env::out` an observation.
use crate::env;
use decaf377::Fq;
use poseidon_parameters::v1::*;
use poseidon_permutation::Instance;

fn vars<const N: usize>(p: &str) -> [Fq; N] {
    core::array::from_fn(|i| env::var(&format!("{}.{}", p, i)))
}
fn outs(p: &str, v: &[Fq]) {
    for (i, x) in v.iter().enumerate() {
        env::out(&format!("{}.{}", p, i), *x);
    }
}

macro_rules! for_rate {
    ($n:expr, $m:ident) => {
        match $n {
            1 => $m!(1, 2, 1, 4, 1, 78, RATE_1_PARAMS, hash_1),
            2 => $m!(2, 3, 2, 9, 4, 117, RATE_2_PARAMS, hash_2),
            3 => $m!(3, 4, 3, 16, 9, 156, RATE_3_PARAMS, hash_3),
            4 => $m!(4, 5, 4, 25, 16, 195, RATE_4_PARAMS, hash_4),
            5 => $m!(5, 6, 5, 36, 25, 234, RATE_5_PARAMS, hash_5),
            6 => $m!(6, 7, 6, 49, 36, 273, RATE_6_PARAMS, hash_6),
            7 => $m!(7, 8, 7, 64, 49, 312, RATE_7_PARAMS, hash_7),
            _ => panic!("unknown rate"),
        }
    };
}
pub(crate) use for_rate;

fn call_hash(n: usize, d: &Fq, x: &[Fq]) -> Fq {
    match n {
        1 => poseidon377::hash_1(d, x[0]),
        2 => poseidon377::hash_2(d, (x[0], x[1])),
        3 => poseidon377::hash_3(d, (x[0], x[1], x[2])),
        4 => poseidon377::hash_4(d, (x[0], x[1], x[2], x[3])),
        5 => poseidon377::hash_5(d, (x[0], x[1], x[2], x[3], x[4])),
        6 => poseidon377::hash_6(d, (x[0], x[1], x[2], x[3], x[4], x[5])),
        7 => poseidon377::hash_7(d, (x[0], x[1], x[2], x[3], x[4], x[5], x[6])),
        _ => panic!("unknown rate"),
    }
}

/// hash_n(x.0; x.1..x.n)
fn hash(n: usize) {
    let x: [Fq; 8] = vars("x");
    env::out("h", call_hash(n, &x[0], &x[1..]));
}

/// The shipped parameters through `Instance`: full output state of both permutation paths.
fn shipped(n: usize) {
    macro_rules! go {
        ($n:tt, $t:tt, $tm:tt, $t2:tt, $tm2:tt, $e:tt, $p:ident, $h:ident) => {{
            let params = poseidon377::$p;
            let x: [Fq; $t] = vars("x");
            let mut i = Instance::new(&params);
            env::out("opt.ret", i.n_to_1_fixed_hash(&x));
            outs("opt", &i.output_words());
            let mut i = Instance::new(&params);
            env::out("unopt.ret", i.unoptimized_n_to_1_fixed_hash(x));
            outs("unopt", &i.output_words());
        }};
    }
    for_rate!(n, go)
}

/// The same instance, used for a sequence of calls given by `ops`: 'o' optimized, 'u'
/// unoptimized, 'r' only read output words.  Call k takes the inputs x{k}.*.
fn history(n: usize, ops: &str) {
    macro_rules! go {
        ($n:tt, $t:tt, $tm:tt, $t2:tt, $tm2:tt, $e:tt, $p:ident, $h:ident) => {{
            let params = poseidon377::$p;
            let mut i = Instance::new(&params);
            for (k, op) in ops.chars().enumerate() {
                let x: [Fq; $t] = vars(&format!("x{}", k));
                match op {
                    'o' => {
                        let y = x;
                        env::out(&format!("ret{}", k), i.n_to_1_fixed_hash(&x));
                        outs(&format!("arg{}", k), &y);
                    }
                    'u' => env::out(&format!("ret{}", k), i.unoptimized_n_to_1_fixed_hash(x)),
                    'r' => {}
                    'n' => i = Instance::new(&params),
                    _ => panic!("op"),
                }
                outs(&format!("st{}", k), &i.output_words());
            }
        }};
    }
    for_rate!(n, go)
}

/// A sequence of hash calls in one process, e.g. "1,7,1,2": call k takes x{k}.*.
fn seq(rates: &str) {
    for (k, n) in rates.split(',').enumerate() {
        let x: [Fq; 8] = vars(&format!("x{}", k));
        env::out(&format!("h{}", k), call_hash(n.parse().expect("rate"), &x[0], &x[1..]));
    }
}

fn alpha_of(s: &str) -> Alpha {
    if s == "inv" {
        Alpha::Inverse
    } else {
        Alpha::Exponent(s.parse().expect("alpha"))
    }
}

/// All shipped constants.
fn params(n: usize) {
    macro_rules! go {
        ($n:tt, $t:tt, $tm:tt, $t2:tt, $tm2:tt, $e:tt, $p:ident, $h:ident) => {{
            let p = poseidon377::$p;
            env::note("M", &p.M.to_string());
            env::note("alpha", &match p.alpha { Alpha::Exponent(e) => e.to_string(), Alpha::Inverse => "inv".to_string() });
            env::note("r_F", &p.rounds.full().to_string());
            env::note("r_P", &p.rounds.partial().to_string());
            env::note("total", &p.rounds.total().to_string());
            outs("mds", p.mds.elements());
            outs("arc", p.arc.elements());
            outs("oarc", p.optimized_arc.elements());
            let o = &p.optimized_mds;
            outs("M_hat", o.M_hat.elements());
            outs("v", o.v.elements());
            outs("w", o.w.elements());
            outs("M_prime", o.M_prime.elements());
            outs("M_doubleprime", o.M_doubleprime.elements());
            outs("M_inverse", o.M_inverse.elements());
            outs("M_hat_inverse", o.M_hat_inverse.elements());
            env::out("M_00", o.M_00);
            outs("M_i", o.M_i.elements());
            for (k, m) in o.v_collection.iter().enumerate() {
                outs(&format!("vc.{}", k), m.elements());
            }
            for (k, m) in o.w_hat_collection.iter().enumerate() {
                outs(&format!("wc.{}", k), m.elements());
            }
            // the same quantities recomputed by the library itself
            outs("lib.hat", p.mds.hat().elements());
            outs("lib.v", p.mds.v().elements());
            outs("lib.w", p.mds.w().elements());
            outs("lib.inv", p.mds.inverse().elements());
        }};
    }
    for_rate!(n, go)
}

macro_rules! generic_params {
    ($t:tt, $tm:tt, $rf:tt, $rp:tt, $alpha:expr) => {{
        const ROWS: usize = $rf + $rp;
        const E: usize = ROWS * $t;
        PoseidonParameters::<$t, $tm, { $t * $t }, { $tm * $tm }, ROWS, $t, E, $rp> {
            M: 128,
            alpha: $alpha,
            rounds: RoundNumbers { r_F: $rf, r_P: $rp },
            mds: MdsMatrix::new(&vars::<{ $t * $t }>("mds")),
            arc: ArcMatrix::new(&vars::<E>("arc")),
            optimized_arc: OptimizedArcMatrix::new(&vars::<E>("oarc")),
            optimized_mds: OptimizedMdsMatrices {
                M_hat: SquareMatrix::new(&vars::<{ $tm * $tm }>("M_hat")),
                v: Matrix::new(&vars::<$tm>("v")),
                w: Matrix::new(&vars::<$tm>("w")),
                M_prime: SquareMatrix::new(&vars::<{ $t * $t }>("M_prime")),
                M_doubleprime: SquareMatrix::new(&vars::<{ $t * $t }>("M_doubleprime")),
                M_inverse: SquareMatrix::new(&vars::<{ $t * $t }>("M_inverse")),
                M_hat_inverse: SquareMatrix::new(&vars::<{ $tm * $tm }>("M_hat_inverse")),
                M_00: env::var("M_00"),
                M_i: Matrix::new(&vars::<{ $t * $t }>("M_i")),
                v_collection: core::array::from_fn(|k| Matrix::new(&vars::<$tm>(&format!("vc.{}", k)))),
                w_hat_collection: core::array::from_fn(|k| Matrix::new(&vars::<$tm>(&format!("wc.{}", k)))),
            },
        }
    }};
}
pub(crate) use generic_params;

macro_rules! for_shape {
    ($s:expr, $m:ident) => {
        match $s {
            "2,2,0" => $m!(2, 1, 2, 0),
            "3,4,0" => $m!(3, 2, 4, 0),
            "2,2,260" => $m!(2, 1, 2, 260),
            "2,260,1" => $m!(2, 1, 260, 1),
            "2,2,1" => $m!(2, 1, 2, 1),
            "2,0,3" => $m!(2, 1, 0, 3),
            "3,12,7" => $m!(3, 2, 12, 7),
            "4,2,70" => $m!(4, 3, 2, 70),
            "16,2,2" => $m!(16, 15, 2, 2),
            "2,4,3" => $m!(2, 1, 4, 3),
            "2,8,31" => $m!(2, 1, 8, 31),
            "3,2,2" => $m!(3, 2, 2, 2),
            "3,4,5" => $m!(3, 2, 4, 5),
            "3,6,4" => $m!(3, 2, 6, 4),
            "3,8,31" => $m!(3, 2, 8, 31),
            "4,2,3" => $m!(4, 3, 2, 3),
            "4,8,9" => $m!(4, 3, 8, 9),
            "5,2,4" => $m!(5, 4, 2, 4),
            "5,4,2" => $m!(5, 4, 4, 2),
            "6,2,2" => $m!(6, 5, 2, 2),
            "6,4,7" => $m!(6, 5, 4, 7),
            "7,2,3" => $m!(7, 6, 2, 3),
            "7,6,1" => $m!(7, 6, 6, 1),
            "8,2,2" => $m!(8, 7, 2, 2),
            "8,8,31" => $m!(8, 7, 8, 31),
            "9,2,2" => $m!(9, 8, 2, 2),
            "12,4,3" => $m!(12, 11, 4, 3),
            x => panic!("unknown shape {}", x),
        }
    };
}
pub(crate) use for_shape;

/// Arbitrary parameters: both permutation paths.
fn generic(shape: &str, alpha: &str, which: &str) {
    macro_rules! go {
        ($t:tt, $tm:tt, $rf:tt, $rp:tt) => {{
            let params = generic_params!($t, $tm, $rf, $rp, alpha_of(alpha));
            let x: [Fq; $t] = vars("x");
            if which.contains('o') {
                let mut i = Instance::new(&params);
                env::out("opt.ret", i.n_to_1_fixed_hash(&x));
                outs("opt", &i.output_words());
            }
            if which.contains('u') {
                let mut i = Instance::new(&params);
                env::out("unopt.ret", i.unoptimized_n_to_1_fixed_hash(x));
                outs("unopt", &i.output_words());
            }
        }};
    }
    for_shape!(shape, go)
}

/// Sequences of calls on two instances sharing their parameters.  `ops` is a list of letters, each with an optional repeat
/// count: lower case for the first instance, upper case for the second; letters as in `history`.
fn ghist(shape: &str, alpha: &str, ops: &str) {
    let mut seq: Vec<char> = Vec::new();
    let mut it = ops.chars().peekable();
    while let Some(c) = it.next() {
        let mut n = String::new();
        while let Some(d) = it.peek().filter(|d| d.is_ascii_digit()) {
            n.push(*d);
            it.next();
        }
        seq.extend(std::iter::repeat(c).take(if n.is_empty() { 1 } else { n.parse().expect("count") }));
    }
    macro_rules! go {
        ($t:tt, $tm:tt, $rf:tt, $rp:tt) => {{
            let params = generic_params!($t, $tm, $rf, $rp, alpha_of(alpha));
            let mut inst = [Instance::new(&params), Instance::new(&params)];
            for (k, op) in seq.iter().enumerate() {
                let x: [Fq; $t] = vars(&format!("x{}", k));
                let i = &mut inst[op.is_ascii_uppercase() as usize];
                match op.to_ascii_lowercase() {
                    'o' => env::out(&format!("ret{}", k), i.n_to_1_fixed_hash(&x)),
                    'u' => env::out(&format!("ret{}", k), i.unoptimized_n_to_1_fixed_hash(x)),
                    'r' => {}
                    'n' => *i = Instance::new(&params),
                    _ => panic!("op"),
                }
                outs(&format!("st{}", k), &i.output_words());
            }
            outs("end.mds", params.mds.elements());
            outs("end.arc", params.arc.elements());
            outs("end.oarc", params.optimized_arc.elements());
        }};
    }
    for_shape!(shape, go)
}

// ---- matrices ---------------------------------------------------------------------------

macro_rules! for_dim {
    ($n:expr, $m:ident) => {
        match $n {
            1 => $m!(1, 1),
            2 => $m!(2, 4),
            3 => $m!(3, 9),
            4 => $m!(4, 16),
            5 => $m!(5, 25),
            6 => $m!(6, 36),
            7 => $m!(7, 49),
            8 => $m!(8, 64),
            _ => panic!("dim"),
        }
    };
}

fn square(n: usize, op: &str) {
    macro_rules! go {
        ($n:tt, $e:tt) => {{
            let a = SquareMatrix::<$n, $e>::new(&vars::<$e>("a"));
            match op {
                "det" => env::out("det", a.determinant()),
                "minors" => outs("minors", a.minors().elements()),
                "cofactors" => outs("cofactors", a.cofactors().elements()),
                "identity" => outs("identity", SquareMatrix::<$n, $e>::identity().elements()),
                "inverse" => match a.inverse() {
                    Ok(i) => {
                        env::note("inverse", "ok");
                        outs("inverse", i.elements());
                    }
                    Err(_) => env::note("inverse", "err"),
                },
                "transpose" => outs("transpose", a.transpose().elements()),
                "mul" => {
                    let b = SquareMatrix::<$n, $e>::new(&vars::<$e>("b"));
                    let c: SquareMatrix<$n, $e> = square_mat_mul(&a, &b);
                    outs("mul", c.elements());
                }
                "hadamard" => {
                    let b = SquareMatrix::<$n, $e>::new(&vars::<$e>("b"));
                    outs("hadamard", a.hadamard_product(&b).expect("same shape").elements());
                }
                "scale" => outs("scale", (a * env::var("s")).elements()),
                "rows" => {
                    env::note("n_rows", &a.n_rows().to_string());
                    env::note("n_cols", &a.n_cols().to_string());
                    for (i, r) in a.iter_rows().enumerate() {
                        outs(&format!("row.{}", i), r);
                    }
                    for i in 0..$n {
                        outs(&format!("row_vector.{}", i), a.row_vector(i).elements());
                        for j in 0..$n {
                            env::out(&format!("get.{}.{}", i, j), a.get_element(i, j));
                        }
                    }
                }
                "eq" => {
                    let b = SquareMatrix::<$n, $e>::new(&vars::<$e>("b"));
                    env::note("eq", &(a == b).to_string());
                }
                "set" => {
                    let new = env::var("new");
                    for i in 0..$n {
                        for j in 0..$n {
                            let mut c = a.clone();
                            c.set_element(i, j, new);
                            outs(&format!("set.{}.{}", i, j), c.elements());
                        }
                    }
                    outs("known", SquareMatrix::<$n, $e>::new_from_known(vars::<$e>("a")).elements());
                    outs("elements", a.elements());
                    let x: [Fq; 4] = vars("q");
                    outs("new_2x2", SquareMatrix::<$n, $e>::new_2x2(x[0], x[1], x[2], x[3]).elements());
                }
                _ => panic!("op"),
            }
        }};
    }
    for_dim!(n, go)
}

macro_rules! for_rect {
    ($s:expr, $m:ident) => {
        match $s {
            "1x1x1" => $m!(1, 1, 1),
            "1x2x3" => $m!(1, 2, 3),
            "2x1x3" => $m!(2, 1, 3),
            "2x3x1" => $m!(2, 3, 1),
            "2x3x4" => $m!(2, 3, 4),
            "3x2x3" => $m!(3, 2, 3),
            "3x4x2" => $m!(3, 4, 2),
            "1x5x1" => $m!(1, 5, 1),
            "5x1x5" => $m!(5, 1, 5),
            "4x7x3" => $m!(4, 7, 3),
            "8x5x6" => $m!(8, 5, 6),
            "39x8x2" => $m!(39, 8, 2),
            x => panic!("unknown shape {}", x),
        }
    };
}
/// Rectangular matrices R x K times K x C, on `Matrix`, `ArcMatrix` and `OptimizedArcMatrix`.
fn rect(shape: &str) {
    macro_rules! go {
        ($r:tt, $k:tt, $c:tt) => {{
            let a = Matrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("a"));
            let b = Matrix::<$k, $c, { $k * $c }>::new(&vars::<{ $k * $c }>("b"));
            let a2 = Matrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("e"));
            let m: Matrix<$r, $c, { $r * $c }> = mat_mul(&a, &b);
            outs("mul", m.elements());
            let at = a.transpose();
            outs("transpose", at.elements());
            outs("hadamard", a.hadamard_product(&a2).expect("same shape").elements());
            outs("scale", (a.clone() * env::var("s")).elements());
            env::note("dims", &format!("{} {} {} {}", a.n_rows(), a.n_cols(), at.n_rows(), at.n_cols()));
            for (i, r) in a.iter_rows().enumerate() {
                outs(&format!("row.{}", i), r);
            }
            for i in 0..$r {
                outs(&format!("row_vector.{}", i), a.row_vector(i).elements());
                for j in 0..$k {
                    env::out(&format!("get.{}.{}", i, j), a.get_element(i, j));
                }
            }
            let arc = ArcMatrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("a"));
            let arc2 = ArcMatrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("e"));
            outs("arc.transpose", arc.transpose().elements());
            outs("arc.inner", &arc.inner_elements());
            outs("arc.hadamard", arc.hadamard_product(&arc2).expect("same shape").elements());
            env::note("arc.dims", &format!("{} {}", arc.n_rows(), arc.n_cols()));
            let o = OptimizedArcMatrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("a"));
            let o2 = OptimizedArcMatrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("e"));
            outs("oarc.transpose", o.transpose().elements());
            outs("oarc.hadamard", o.hadamard_product(&o2).expect("same shape").elements());
            env::note("oarc.dims", &format!("{} {}", o.n_rows(), o.n_cols()));
            for (i, (r, q)) in arc.iter_rows().zip(o.iter_rows()).enumerate() {
                outs(&format!("arc.row.{}", i), r);
                outs(&format!("oarc.row.{}", i), q);
            }
            for i in 0..$r {
                for j in 0..$k {
                    env::out(&format!("arc.get.{}.{}", i, j), arc.get_element(i, j));
                    env::out(&format!("oarc.get.{}.{}", i, j), o.get_element(i, j));
                }
            }
        }};
    }
    for_rect!(shape, go)
}
/// set_element: every position of an R x K matrix, on every matrix type.
fn rect_set(shape: &str) {
    macro_rules! go {
        ($r:tt, $k:tt, $c:tt) => {{
            let new = env::var("new");
            for i in 0..$r {
                for j in 0..$k {
                    let mut a = Matrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("a"));
                    a.set_element(i, j, new);
                    outs(&format!("m.{}.{}", i, j), a.elements());
                    let mut a = ArcMatrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("a"));
                    a.set_element(i, j, new);
                    outs(&format!("arc.{}.{}", i, j), a.elements());
                    let mut a = OptimizedArcMatrix::<$r, $k, { $r * $k }>::new(&vars::<{ $r * $k }>("a"));
                    a.set_element(i, j, new);
                    outs(&format!("oarc.{}.{}", i, j), a.elements());
                }
            }
        }};
    }
    for_rect!(shape, go)
}

/// Equality of R x K matrices of one type.
fn rect_eq(shape: &str, kind: &str) {
    macro_rules! go {
        ($r:tt, $k:tt, $c:tt) => {{
            let (a, b) = (vars::<{ $r * $k }>("a"), vars::<{ $r * $k }>("b"));
            env::note("eq", &match kind {
                "m" => Matrix::<$r, $k, { $r * $k }>::new(&a) == Matrix::new(&b),
                "arc" => ArcMatrix::<$r, $k, { $r * $k }>::new(&a) == ArcMatrix::new(&b),
                "oarc" => OptimizedArcMatrix::<$r, $k, { $r * $k }>::new(&a) == OptimizedArcMatrix::new(&b),
                _ => panic!("kind"),
            }.to_string());
        }};
    }
    for_rect!(shape, go)
}

/// Constructors that take the elements by value or give them back.
fn rect_known(shape: &str) {
    macro_rules! go {
        ($r:tt, $k:tt, $c:tt) => {{
            let a = vars::<{ $r * $k }>("a");
            outs("m.new", Matrix::<$r, $k, { $r * $k }>::new(&a).elements());
            outs("m.known", Matrix::<$r, $k, { $r * $k }>::new_from_known(a).elements());
            outs("arc.new", ArcMatrix::<$r, $k, { $r * $k }>::new(&a).elements());
            outs("arc.known", ArcMatrix::<$r, $k, { $r * $k }>::new_from_known(a).elements());
            outs("arc.inner", &ArcMatrix::<$r, $k, { $r * $k }>::new(&a).inner_elements());
            outs("oarc.new", OptimizedArcMatrix::<$r, $k, { $r * $k }>::new(&a).elements());
            outs("oarc.known", OptimizedArcMatrix::<$r, $k, { $r * $k }>::new_from_known(a).elements());
        }};
    }
    for_rect!(shape, go)
}

/// Calls that must be refused: wrong element counts and shapes.
fn refuse(case: &str) {
    let v: [Fq; 16] = vars("a");
    let (kind, len) = case.split_once('/').expect("case");
    let n: usize = len.parse().expect("length");
    let e = &v[..n];
    match kind {
        "matrix" => outs("m", Matrix::<2, 3, 6>::new(e).elements()),
        "column" => outs("m", Matrix::<3, 1, 3>::new(e).elements()),
        "row" => outs("m", Matrix::<1, 3, 3>::new(e).elements()),
        "square" => outs("m", SquareMatrix::<3, 9>::new(e).elements()),
        "arc" => outs("m", ArcMatrix::<3, 2, 6>::new(e).elements()),
        "oarc" => outs("m", OptimizedArcMatrix::<3, 2, 6>::new(e).elements()),
        "mds" => outs("m", MdsMatrix::<3, 2, 9, 4>::new(e).elements()),
        "mds_from" => outs("m", MdsMatrix::<3, 2, 9, 4>::from_elements(e).elements()),
        // the declared number of elements is not rows * columns, although the slice has that many
        "shape_matrix" => outs("m", Matrix::<2, 3, 5>::new(e).elements()),
        "shape_matrix_more" => outs("m", Matrix::<2, 3, 8>::new(e).elements()),
        "shape_square" => outs("m", SquareMatrix::<3, 8>::new(e).elements()),
        "shape_arc" => outs("m", ArcMatrix::<2, 2, 6>::new(e).elements()),
        "shape_oarc" => outs("m", OptimizedArcMatrix::<2, 2, 6>::new(e).elements()),
        "shape_mds" => outs("m", MdsMatrix::<3, 2, 8, 4>::new(e).elements()),
        "shape_mds_from" => outs("m", MdsMatrix::<3, 2, 8, 4>::from_elements(e).elements()),
        "known_matrix" => outs("m", Matrix::<2, 3, 5>::new_from_known([v[0], v[1], v[2], v[3], v[4]]).elements()),
        "known_square" => outs("m", SquareMatrix::<2, 5>::new_from_known([v[0], v[1], v[2], v[3], v[4]]).elements()),
        "known_arc" => outs("m", ArcMatrix::<2, 3, 5>::new_from_known([v[0], v[1], v[2], v[3], v[4]]).elements()),
        "known_oarc" => outs("m", OptimizedArcMatrix::<2, 3, 5>::new_from_known([v[0], v[1], v[2], v[3], v[4]]).elements()),
        "known_mds" => outs("m", MdsMatrix::<2, 1, 5, 1>::new_from_known([v[0], v[1], v[2], v[3], v[4]]).elements()),
        "mat_mul" => {
            // inner dimensions differ
            let m: Matrix<2, 2, 4> = mat_mul(&Matrix::<2, 3, 6>::new(&v[..6]), &Matrix::<4, 2, 8>::new(&v[..8]));
            outs("m", m.elements());
        }
        "square_mat_mul" => {
            let m: SquareMatrix<2, 4> = square_mat_mul(&SquareMatrix::<2, 4>::new(&v[..4]), &SquareMatrix::<3, 9>::new(&v[..9]));
            outs("m", m.elements());
        }
        _ => panic!("case"),
    }
    env::note("accepted", "yes");
}

/// MdsMatrix decomposition.
fn mds(t: usize, op: &str) {
    macro_rules! go {
        ($t:tt, $tm:tt) => {{
            let e = vars::<{ $t * $t }>("a");
            let m = MdsMatrix::<$t, $tm, { $t * $t }, { $tm * $tm }>::new(&e);
            match op {
                "parts" => {
                    outs("elements", m.elements());
                    outs("from_elements", MdsMatrix::<$t, $tm, { $t * $t }, { $tm * $tm }>::from_elements(&e).elements());
                    outs("new_from_known", MdsMatrix::<$t, $tm, { $t * $t }, { $tm * $tm }>::new_from_known(e).elements());
                    outs("transpose", m.transpose().elements());
                    outs("v", m.v().elements());
                    outs("w", m.w().elements());
                    outs("hat", m.hat().elements());
                    env::note("dims", &format!("{} {}", m.n_rows(), m.n_cols()));
                    let f = MdsMatrix::<$t, $tm, { $t * $t }, { $tm * $tm }>::new(&vars::<{ $t * $t }>("b"));
                    outs("hadamard", m.hadamard_product(&f).expect("same shape").elements());
                    for (i, r) in m.iter_rows().enumerate() {
                        outs(&format!("row.{}", i), r);
                    }
                    let new = env::var("new");
                    for i in 0..$t {
                        for j in 0..$t {
                            env::out(&format!("get.{}.{}", i, j), m.get_element(i, j));
                            let mut c = m.clone();
                            c.set_element(i, j, new);
                            outs(&format!("set.{}.{}", i, j), c.elements());
                        }
                    }
                }
                "inverse" => outs("inverse", m.inverse().elements()),
                "eq" => {
                    let b = MdsMatrix::<$t, $tm, { $t * $t }, { $tm * $tm }>::new(&vars::<{ $t * $t }>("b"));
                    env::note("eq", &(m == b).to_string());
                }
                _ => panic!("op"),
            }
        }};
    }
    match t {
        2 => go!(2, 1),
        3 => go!(3, 2),
        4 => go!(4, 3),
        5 => go!(5, 4),
        6 => go!(6, 5),
        7 => go!(7, 6),
        8 => go!(8, 7),
        _ => panic!("dim"),
    }
}

pub fn run(args: &[String]) {
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| a(i).parse::<usize>().expect("number");
    match a(0) {
        "hash" => hash(n(1)),
        "shipped" => shipped(n(1)),
        "history" => history(n(1), a(2)),
        "seq" => seq(a(1)),
        "ghist" => ghist(a(1), a(2), a(3)),
        "params" => params(n(1)),
        "generic" => generic(a(1), a(2), a(3)),
        "square" => square(n(1), a(2)),
        "rect" => rect(a(1)),
        "rect_set" => rect_set(a(1)),
        "rect_eq" => rect_eq(a(1), a(2)),
        "rect_known" => rect_known(a(1)),
        "refuse" => refuse(a(1)),
        "mds" => mds(n(1), a(2)),
        #[cfg(feature = "r1cs")]
        "chain" => crate::gadget::chain(a(1), a(2), a(3)),
        #[cfg(feature = "r1cs")]
        "gadget" => crate::gadget::gadget(n(1), a(2), a(3)),
        #[cfg(feature = "r1cs")]
        "instvar" => crate::gadget::instvar(a(1), a(2), a(3), a(4)),
        x => panic!("unknown job {}", x),
    }
}
