"""C20: the transcript of the round constants is the published one and binds the instance; decided by Kani on the
real transcript module of poseidon-paramgen, with a recording stand-in for merlin."""
from checks import kanirun

CONFIGS = []
HARNESSES = {
    "published": "messages are exactly the published ones, in order, all inputs",
    "binds": "two instances give the same messages exactly when they agree, all pairs",
}


def run(t):
    def inst():
        r = t.rng
        return [r.randrange(2 ** 64), r.randrange(2 ** 64)] + [r.randrange(2 ** 64) for _ in range(4)] + [r.randrange(256), r.randrange(256), r.choice([17, 5, 2 ** 32 - 1, 2 ** 32]), r.randrange(2)]

    def samples(name):
        if name == "published":
            return [inst() for _ in range(3)] + [[0] * 10]
        out = []
        for k in range(10):
            a = inst()
            b = list(a)
            b[k] ^= 1
            out += [a + b, a + a]
        return out
    kanirun.run(t, "paramgen", HARNESSES, ("twin", 4242), samples)


def tasks(tier, seed):
    return [("kani", run, ())], dict(
        rule="states = CBMC checks discharged; transitions = solver runs, one per harness; traces = native runs of a harness on concrete values",
        functions=["poseidon_paramgen::transcript::TranscriptProtocol::domain_sep", "Alpha::to_bytes_le", "RoundNumbers::{full,partial}"],
        bounds="every width and security level (64 bits), every modulus of up to 256 bits (four limbs), every exponent and the inverse S-box, round numbers below 256 (all loops unrolled completely)",
        outside="round numbers of 256 and more (recorded modulo 256; no supported security level needs them with the exponents the generator picks); the exponent 2^32 - 1 is recorded "
                "like the inverse S-box; other limb counts; STROBE itself (merlin is a dependency; its stand-in records messages framed by length); 32-bit targets",
        assumptions=["merlin's challenges depend on every recorded message", "Kani and CBMC translate MIR faithfully; counterexamples are replayed natively"])
