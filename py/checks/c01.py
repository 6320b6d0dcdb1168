"""C01: hash_n equals the published Poseidon377 hash, in every configuration."""
import engine, spec
from build import CONFIGS as _ALL

CONFIGS = list(_ALL)


def rate(t, n, configs):
    t0 = None
    for c in configs:
        def goals(run, n=n):
            d = run.dag
            ref = spec.plain(d, spec.consts(d, spec.shipped(n)), [d.var(f"x.{i}") for i in range(n + 1)])
            return [("h", run.out.get("h"), ref[1])]
        text = engine._exec(engine.build.build("sym", c), ["hash", n], [])
        if t0 is None:
            t0 = text
            t.explore(c, ["hash", n], goals)
        elif text == t0:
            # the very same terms and decisions: proven already; only the real build differs
            t.r["runs"] += 1
            t.r["info"].setdefault("same_terms_as_" + configs[0], []).append(c)
            run = engine.parse(text)
            d, ref = run.dag, goals(run)[0][2]
            for k in range(2):
                e = {v: (0 if k else t.rng.randrange(engine.P)) for v in run.inputs}
                x = d.eval([ref], e)[ref]
                rr = t.real(c, ["hash", n], e)
                if rr.out.get("h") != x:
                    t.violation(f"h: {rr.panic or rr.out.get('h')} instead of {x:#x}", c, ["hash", n], e)
                    return
                t.r["validated"] += 1
        else:
            t.explore(c, ["hash", n], goals)
        if t.r["violations"]:
            return


def tasks(tier, seed):
    return [(f"rate{n}", rate, (n, CONFIGS)) for n in range(7, 0, -1)], dict(
        functions=["poseidon377::hash_1..hash_7", "poseidon377::RATE_1..7_PARAMS", "poseidon_permutation::Instance::{new,n_to_1_fixed_hash,permute}",
                   "poseidon_permutation::Instance::{full_rounds,partial rounds,sub_words,mix_layer_*,sparse_mat_mul}", "poseidon_parameters matrix accessors"],
        bounds="rates 1-7, all inputs symbolic; configurations " + ", ".join(CONFIGS) + "; every data-dependent branch flipped up to the path limit",
        outside="field arithmetic inside decaf377 (shadowed by exact arithmetic in Fq); 32-bit targets",
        assumptions=["decaf377::Fq implements F_p exactly (its arithmetic is shadowed; real runs are compared on sampled inputs)",
                     "reference parameters are regenerated from the published procedure (merlin transcript, Cauchy matrix)"])
