"""C03: the unoptimised permutation is textbook Poseidon for arbitrary parameters."""
import copy, engine, spec

CONFIGS = ["min-dev", "all-dev", "all-rel"]
SHAPES = ["2,2,1", "2,4,3", "2,8,31", "3,2,2", "3,4,5", "3,6,4", "3,8,31", "4,2,3", "4,8,9", "5,2,4", "5,4,2", "6,2,2", "6,4,7", "7,2,3", "7,6,1", "8,2,2", "8,8,31", "9,2,2", "12,4,3",
          "2,2,0", "3,4,0", "2,0,3", "3,12,7", "4,2,70", "16,2,2", "2,2,260", "2,260,1"]
ALPHAS = ["17", "3", "5", "inv", "2", "7", "11"]
WIDE = ["0", "1", "4", "16", "31", "33", "257", "65537"]  # small shapes only


def params(d, shape, alpha):
    """Every parameter an input variable."""
    t, rF, rP = map(int, shape.split(","))
    p = spec.Params(t, rF, rP, "inv" if alpha == "inv" else int(alpha), None, None)
    row = lambda n, k, w: [d.var(f"{n}.{k * w + j}") for j in range(w)]
    p.mds = [row("mds", i, t) for i in range(t)]
    p.arc = [row("arc", i, t) for i in range(rF + rP)]
    p.oarc = [row("oarc", i, t) for i in range(rF + rP)]
    p.M_i = [row("M_i", i, t) for i in range(t)]
    p.vc = [[d.var(f"vc.{k}.{j}") for j in range(t - 1)] for k in range(rP)]
    p.wc = [[d.var(f"wc.{k}.{j}") for j in range(t - 1)] for k in range(rP)]
    p.M_00 = d.var("M_00")
    return p


def one(t, shape, alpha, config):
    def goals(run):
        d = run.dag
        p = params(d, shape, alpha)
        ref = spec.plain(d, p, [d.var(f"x.{i}") for i in range(p.t)])
        return [("unopt.ret", run.out.get("unopt.ret"), ref[1])] + [(f"unopt.{i}", run.out.get(f"unopt.{i}"), ref[i]) for i in range(p.t)]
    t.explore(config, ["generic", shape, alpha, "u"], goals)


def tasks(tier, seed):
    ts = []
    for i, s in enumerate(SHAPES):
        for j, a in enumerate(ALPHAS):
            big = s.endswith(("31", "70", "260")) or "260" in s or s.startswith(("12", "16"))
            if tier == "quick" and not (a == ALPHAS[i % 3] or (a == "inv" and not big) or (a in ("17", "5") and s in ("3,4,5", "4,2,3"))
                                        or (s in ("2,4,3", "3,2,2"))):
                continue
            ts.append((f"{s}/{a}", one, (s, a, "all-rel" if (i + j) % 5 == 4 else "all-dev" if (i + j) % 2 else "min-dev")))
    for i, a in enumerate(WIDE):
        for j, s in enumerate(["2,2,1", "2,4,3", "3,2,2"]):
            if tier != "quick" or j == i % 3:
                ts.append((f"{s}/{a}", one, (s, a, CONFIGS[(i + j) % 3])))
    ts.append(("2,2,1/16777219", one, ("2,2,1", "16777219", "all-rel")))  # beyond single precision and 24 bits; real powers are linear in the exponent
    ts.sort(key=lambda x: -len(x[0]))
    return ts, dict(
        functions=["poseidon_permutation::Instance::{new,unoptimized_n_to_1_fixed_hash,unoptimized_permute,output_words}",
                   "poseidon_permutation::Instance::{full_sub_words,partial_sub_words,mix_layer_mds}", "ArcMatrix/MdsMatrix accessors"],
        bounds="shapes (t, r_F, r_P): " + "; ".join(SHAPES) + "; S-boxes " + ", ".join(ALPHAS) + " and, for the smallest shapes, " + ", ".join(WIDE) + " (quick: a covering subset); round constants, matrix (not assumed "
               "symmetric) and state all symbolic; zero branches of the inverse S-box explored up to the path limit",
        outside="other widths, round counts and exponents; odd r_F; t = 1 (there is no word 1)",
        assumptions=["decaf377::Fq implements F_p exactly", "parameters are independent variables, so every relation between them is covered"])
