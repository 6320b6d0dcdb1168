"""C22: the exponent the generator selects; decided by Kani on the real selection code, natively confirmed with real
greatest common divisors."""
from checks import kanirun

CONFIGS = []
HARNESSES = {"first": "the exponent chosen is the first admissible one, for every set of small primes dividing p - 1"}


def run(t):
    kanirun.run(t, "paramgen", HARNESSES, ("twin_alpha", 4242), lambda name: [[]], args=["--features", "alpha", "-Z", "stubbing"], features="alpha", search=("first",), playback=False)


def tasks(tier, seed):
    return [("kani", run, ())], dict(
        rule="states = CBMC checks discharged; transitions = solver runs, one per harness; traces = a native run over real moduli, one per set of primes",
        functions=["poseidon_paramgen::alpha::generate", "ShortestAdditionChains::depths_in_order"],
        bounds="every set of the 13 odd primes that divide a candidate exponent (all loops unrolled completely), inverse allowed or not; the modulus is arbitrary, its divisibility given by the set",
        outside="the arithmetic of alpha_coprime_to_p_minus_one (big-integer greatest common divisor: CBMC ran out of memory on the conversions), replaced by an arbitrary set and run natively only, "
                "on one p per set; the panic when nothing is admissible and the inverse is not allowed",
        assumptions=["Kani and CBMC translate MIR faithfully; counterexamples are replayed natively"])
