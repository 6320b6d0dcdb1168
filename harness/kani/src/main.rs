//! Properties of `Alpha` and `RoundNumbers`, as functions of arbitrary inputs.  Kani calls them with symbolic
//! values, `main` with concrete ones (replay).
use poseidon_parameters::v1::{Alpha, RoundNumbers};

/// The 4-byte little-endian exponent.
fn bytes(e: u32) -> bool {
    let b = Alpha::Exponent(e).to_bytes_le();
    b[0] as u32 + ((b[1] as u32) << 8) + ((b[2] as u32) << 16) + ((b[3] as u32) << 24) == e
}

/// Distinct exponents have distinct encodings.
fn distinct(a: u32, b: u32) -> bool {
    a == b || Alpha::Exponent(a).to_bytes_le() != Alpha::Exponent(b).to_bytes_le()
}

/// The floating-point value is the exponent exactly.
fn float(e: u32) -> bool {
    let f = f64::from(Alpha::Exponent(e));
    f >= 0.0 && f < 4294967296.0 && f as u64 == e as u64 && (f as u64) as f64 == f
}

/// The inverse S-box is minus one, as bytes and as a float, and is not an exponent.
fn inverse(e: u32) -> bool {
    Alpha::Inverse.to_bytes_le() == [255; 4] && f64::from(Alpha::Inverse) == -1.0 && Alpha::Inverse != Alpha::Exponent(e) && Alpha::Inverse == Alpha::Inverse
}

/// Equality of descriptors is equality of exponents; copies are equal.
fn equality(a: u32, b: u32) -> bool {
    let x = Alpha::Exponent(a);
    let y = x;
    (x == Alpha::Exponent(b)) == (a == b) && y == x
}

/// Accessors report the stored counts, the total is their sum.
fn counts(f: usize, p: usize) -> bool {
    let r = RoundNumbers { r_F: f, r_P: p };
    r.full() == f && r.partial() == p && (f.checked_add(p).is_none() || r.total() == f + p)
}

/// Each mutable accessor changes exactly the count it names.
fn mutate(f: usize, p: usize, v: usize) -> bool {
    let mut a = RoundNumbers { r_F: f, r_P: p };
    *a.full_mut() = v;
    let mut b = RoundNumbers { r_F: f, r_P: p };
    *b.partial_mut() = v;
    let ok = *a.full_mut() == v && *b.partial_mut() == v;
    ok && a.full() == v && a.partial() == p && b.full() == f && b.partial() == v && a.r_F == v && a.r_P == p && b.r_F == f && b.r_P == v
}

/// Round numbers are equal exactly when both counts are.
fn same(f: usize, p: usize, g: usize, q: usize) -> bool {
    (RoundNumbers { r_F: f, r_P: p } == RoundNumbers { r_F: g, r_P: q }) == (f == g && p == q)
}

#[cfg(kani)]
mod proofs {
    use kani::any;
    macro_rules! proof {
        ($name:ident, $($t:ty),*) => {
            #[kani::proof]
            fn $name() {
                assert!(super::$name($(any::<$t>()),*));
            }
        };
    }
    proof!(bytes, u32);
    proof!(distinct, u32, u32);
    proof!(float, u32);
    proof!(inverse, u32);
    proof!(equality, u32, u32);
    proof!(counts, usize, usize);
    proof!(mutate, usize, usize, usize);
    proof!(same, usize, usize, usize, usize);

    /// Vacuity guard: this must fail.
    #[kani::proof]
    fn twin() {
        let e: u32 = any();
        assert!(e != 4242 || !super::bytes(e));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (u, z) = (|i| n(i) as u32, |i| n(i) as usize);
    let ok = match a[1].as_str() {
        "bytes" => bytes(u(2)),
        "distinct" => distinct(u(2), u(3)),
        "float" => float(u(2)),
        "inverse" => inverse(u(2)),
        "equality" => equality(u(2), u(3)),
        "counts" => counts(z(2), z(3)),
        "mutate" => mutate(z(2), z(3), z(4)),
        "same" => same(z(2), z(3), z(4), z(5)),
        _ => panic!("unknown"),
    };
    println!("{}", if ok { "holds" } else { "fails" });
}
