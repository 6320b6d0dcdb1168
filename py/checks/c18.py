"""C18: S-box and round-number descriptors, decided by Kani (CBMC on the compiled code's MIR), all inputs."""
from checks import kanirun

CONFIGS = []
HARNESSES = {
    "bytes": "4-byte little-endian exponent, all 2^32",
    "distinct": "distinct exponents encode distinctly, all pairs",
    "float": "floating-point value is the exponent exactly, all 2^32",
    "inverse": "inverse S-box is minus one in both encodings and differs from every exponent",
    "equality": "descriptor equality is exponent equality, all pairs",
    "counts": "accessors and total, all pairs of counts whose sum does not overflow",
    "mutate": "mutable accessors change exactly their count, all counts",
    "same": "round-number equality, all counts",
}


def run(t):
    def samples(name):
        k = {"mutate": 3, "same": 4, "bytes": 1, "float": 1, "inverse": 1}.get(name, 2)
        return [[0] * k, [17] * k, [2 ** 32 - 1] * k, [t.rng.randrange(2 ** 32) for _ in range(k)]]
    kanirun.run(t, "kani", HARNESSES, ("twin", 4242), samples)


def tasks(tier, seed):
    return [("kani", run, ())], dict(
        rule="states = CBMC checks discharged (assertions, arithmetic, memory safety); transitions = solver runs, one per harness; "
             "traces = native runs of a harness on concrete values",
        functions=["Alpha::{to_bytes_le,clone,eq}", "From<Alpha> for f64", "RoundNumbers::{full,full_mut,partial,partial_mut,total,eq}"],
        bounds="none needed: no loops; every harness covers all values of its machine-word inputs (" + "; ".join(f"{k}: {v}" for k, v in HARNESSES.items()) + ")",
        outside="totals that overflow usize; Alpha::Exponent(u32::MAX) encodes like the inverse S-box (the encodings of one kind are distinct); 32-bit targets",
        assumptions=["Kani and CBMC translate MIR faithfully; counterexamples are replayed natively"])
