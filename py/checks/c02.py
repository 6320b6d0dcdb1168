"""C02: optimised and plain evaluation agree on the shipped instances, full state."""
import engine

CONFIGS = ["min-dev", "all-dev", "all-rel"]


def rate(t, n, configs):
    seen = set()
    for c in configs:
        text = engine._exec(engine.build.build("sym", c), ["shipped", n], [])
        if text in seen:
            t.r["info"].setdefault("same_terms", []).append(c)
            continue
        seen.add(text)

        def goals(run):
            o = run.out.get
            return [(f"opt.{i}", o(f"opt.{i}"), o(f"unopt.{i}")) for i in range(n + 1)] + [
                ("opt.ret", o("opt.ret"), o("unopt.ret")), ("unopt.ret", o("unopt.ret"), o("unopt.1"))]
        t.explore(c, ["shipped", n], goals)
        if t.r["violations"]:
            return


def tasks(tier, seed):
    return [(f"rate{n}", rate, (n, CONFIGS)) for n in range(7, 0, -1)], dict(
        functions=["poseidon_permutation::Instance::{n_to_1_fixed_hash,unoptimized_n_to_1_fixed_hash,output_words} and everything they call",
                   "poseidon377::RATE_1..7_PARAMS"],
        bounds="rates 1-7, all t input words symbolic; configurations " + ", ".join(CONFIGS),
        outside="field arithmetic inside decaf377",
        assumptions=["decaf377::Fq implements F_p exactly"])
