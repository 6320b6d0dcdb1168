"""C21: how a candidate for the round numbers is judged, costed and margined; decided by Kani on the real code."""
from checks import kanirun

CONFIGS = []
HARNESSES = {
    "accepts": "a candidate is accepted exactly when it meets every attack bound (the bounds are arbitrary numbers), all candidates below 2^16",
    "boxes": "the cost is t r_F + r_P, all candidates below 2^16, widths below 256",
    "margin": "margin of 2 full rounds and 7.5% partial rounds, rounded up, all r_F below 2^16 and r_P below 400",
}


def run(t):
    def samples(name):
        r = t.rng
        if name == "accepts":
            return [[]]
        return [[r.randrange(4, 100), r.randrange(1, 400), r.randrange(2, 9)] for _ in range(20)]
    kanirun.run(t, "paramgen", HARNESSES, ("twin_rounds", 4242), samples, args=["--features", "rounds", "-Z", "stubbing"], features="rounds", search=("accepts",))


def tasks(tier, seed):
    return [("kani", run, ())], dict(
        rule="states = CBMC checks discharged; transitions = solver runs, one per harness; traces = native runs of a harness on concrete values (for `accepts`, a grid of instances and candidates)",
        functions=["poseidon_paramgen::rounds::RoundNumbersBuilder::{is_secure_v1,is_secure_v2,sbox_count,apply_security_margin}"],
        bounds="; ".join(f"{k}: {v}" for k, v in HARNESSES.items()),
        outside="the formulas of the attack bounds themselves (logarithms in floating point, which CBMC does not model); candidates for the inverse S-box (same reason); "
                "the search over candidates (400 x 96 iterations: the encoding was tried and did not finish)",
        assumptions=["Kani and CBMC translate MIR and floating-point multiplication faithfully; counterexamples are replayed natively"])
