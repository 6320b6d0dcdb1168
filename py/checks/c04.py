"""C04: the optimised permutation follows the published schedule, and equals the plain one for derived parameters."""
import random, engine, spec
from field import P, inv
from checks.c03 import SHAPES as ALL, ALPHAS, WIDE, params

SHAPES = [s for s in ALL if not s.endswith(",0")]

CONFIGS = ["min-dev", "all-dev", "all-rel"]


def schedule(t, shape, alpha, config):
    def goals(run):
        d = run.dag
        p = params(d, shape, alpha)
        ref = spec.optimised(d, p, [d.var(f"x.{i}") for i in range(p.t)])
        return [("opt.ret", run.out.get("opt.ret"), ref[1])] + [(f"opt.{i}", run.out.get(f"opt.{i}"), ref[i]) for i in range(p.t)]
    t.explore(config, ["generic", shape, alpha, "o"], goals)


def input_lines(p, extra=True):
    """Constant input lines for every parameter of p."""
    ls = []
    for n, m in (("mds", p.mds), ("arc", p.arc), ("oarc", p.oarc), ("M_i", p.M_i)):
        ls += [f"c {n}.{i} {x}" for i, x in enumerate(v for r in m for v in r)]
    for n, m in (("vc", p.vc), ("wc", p.wc)):
        ls += [f"c {n}.{k}.{i} {x}" for k, r in enumerate(m) for i, x in enumerate(r)]
    for n in ("M_hat", "M_prime", "M_doubleprime", "M_inverse", "M_hat_inverse"):
        ls += [f"c {n}.{i} {x}" for i, x in enumerate(v for r in getattr(p, n) for v in r)]
    ls += [f"c {n}.{i} {x}" for n in ("v", "w") for i, x in enumerate(getattr(p, n))]
    return ls + [f"c M_00 {p.M_00}"]


def draw(rng, shape, alpha, kind):
    """Parameters with their optimised counterparts; matrices not symmetric."""
    w, rF, rP = map(int, shape.split(","))
    while True:
        if kind == "cauchy":   # published construction with random, distinct, non-symmetric points
            xs = rng.sample(range(1, 10 ** 6), 2 * w)
            mds = [[inv(a + b) for b in xs[w:]] for a in xs[:w]]
        elif kind == "sparse":  # small and partly zero entries
            mds = [[rng.choice([0, 1, 2, 3, P - 1]) for _ in range(w)] for _ in range(w)]
        else:
            mds = [[rng.randrange(P) for _ in range(w)] for _ in range(w)]
        arc = [[rng.randrange(P) if kind != "sparse" else rng.choice([0, 1, rng.randrange(P)]) for _ in range(w)] for _ in range(rF + rP)]
        p = spec.Params(w, rF, rP, "inv" if alpha == "inv" else int(alpha), mds, arc).derive()
        if p is not None:
            return p


def derived(t, shape, alpha, kind, config):
    w = int(shape.split(",")[0])
    p = draw(t.rng, shape, alpha, kind)

    def goals(run):
        d = run.dag
        ref = spec.plain(d, spec.consts(d, p), [d.var(f"x.{i}") for i in range(w)])
        return [("opt.ret", run.out.get("opt.ret"), ref[1])] + [(f"opt.{i}", run.out.get(f"opt.{i}"), ref[i]) for i in range(w)]
    t.explore(config, ["generic", shape, alpha, "o"], goals, inputs=input_lines(p))


def tasks(tier, seed):
    ts = []
    kinds = ["random", "cauchy", "sparse"]
    for i, s in enumerate(SHAPES):
        for j, a in enumerate(ALPHAS):
            big = s.endswith(("31", "70", "260")) or "260" in s or s.startswith(("12", "16"))
            cfg = "all-rel" if (i + j) % 5 == 4 else "all-dev" if (i + j) % 2 else "min-dev"
            if tier == "thorough" or a == ALPHAS[i % 3] or (a == "inv" and not big and i % 3 == 0) or s in ("2,4,3", "3,2,2"):
                ts.append((f"schedule/{s}/{a}", schedule, (s, a, cfg)))
            for k in range(3):
                if tier == "thorough" and not (a == "inv" and big) or (k == i % 3 and a == ALPHAS[(i + 1) % 3]) or (s == "3,4,5" and a in ("17", "inv")):
                    ts.append((f"derived/{s}/{a}/{kinds[k]}", derived, (s, a, kinds[k], cfg)))
    for i, a in enumerate(WIDE):
        for j, s in enumerate(["2,2,1", "2,4,3", "3,2,2"]):
            if tier == "thorough" or j == i % 3:
                ts.append((f"schedule/{s}/{a}", schedule, (s, a, CONFIGS[(i + j) % 3])))
            if tier == "thorough" or j == (i + 1) % 3:
                ts.append((f"derived/{s}/{a}/random", derived, (s, a, "random", CONFIGS[(i + j) % 3])))
    ts.sort(key=lambda x: ("31" not in x[0], x[0]))
    return ts, dict(
        functions=["poseidon_permutation::Instance::{new,n_to_1_fixed_hash,permute,output_words}",
                   "poseidon_permutation::Instance::{full_sub_words,partial_sub_words,mix_layer_mds,mix_layer_mi,sparse_mat_mul}"],
        bounds="shapes (t, r_F, r_P): " + "; ".join(SHAPES) + "; S-boxes " + ", ".join(ALPHAS) + " and, for the smallest shapes, " + ", ".join(WIDE) + " (quick: a covering subset). Schedule: every optimised "
               "parameter and the state symbolic. Equivalence: state symbolic, parameters drawn (random, Cauchy, sparse; not symmetric) and derived by the published equivalence",
        outside="other widths, round counts and exponents; odd r_F; r_P = 0 (the optimised schedule is only defined from one partial round on); t = 1; the equivalence for parameters other than those drawn (it is implied there by the schedule)",
        assumptions=["decaf377::Fq implements F_p exactly", "the published derivation is the one of the Poseidon paper's appendix, as in poseidon-paramgen"])
