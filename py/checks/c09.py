"""C09: the permutation gadget equals the plain permutation for arbitrary parameters, and is sound."""
import spec
from checks.c03 import params, WIDE
from checks.c04 import draw, input_lines
from checks.c07 import judge_all
from checks.gadgets import *

SHAPES = ["2,2,1", "2,4,3", "3,2,2", "3,4,5", "4,2,3", "5,2,4", "5,4,2", "6,2,2", "7,2,3", "7,6,1", "8,2,2", "9,2,2", "3,6,4", "6,4,7", "4,8,9", "3,4,0", "2,0,3", "3,12,7"]
ALPHAS = ["17", "5", "3", "2", "7", "11"]


def refs(d, p, kinds, lines):
    s = spec.plain(d, p, words(d, kinds, lines))
    return [s[1]] + s


def goals_for(p_of, kinds, lines):
    def goals(run):
        d = run.dag
        ref = refs(d, p_of(d), kinds, lines)
        gs = []
        for i, r in enumerate(ref):
            gs.append((f"value.{i}", run.out.get(f"value.{i}"), r))
            if run.sizes and run.notes.get(f"result.{i}", "").startswith("witness"):
                gs.append((f"assigned.{i}", run.z[index_of(run, run.notes[f"result.{i}"])], r))
        return gs + (satisfaction_goals(run) if run.sizes else [])
    return goals


def one(t, shape_, alpha, pk, kinds, mode, which, config):
    p = draw(t.rng, shape_, alpha, pk)
    lines = input_lines(p) + const_lines(t, kinds, which)
    args = ["instvar", shape_, alpha, kinds, mode]
    t.actual = actual_gadget
    run = t.explore(config, args, goals_for(lambda d: spec.consts(d, p), kinds, lines), inputs=lines, notes=lambda run: {"error": None})
    if t.r["violations"] or t.r["errors"] or not run or not run.sizes or run.notes.get("result.0") == "constant":
        return
    refs_of = lambda d: list(enumerate(refs(d, spec.consts(d, p), kinds, lines)))
    judge_all(t, config, args, lines, kinds, refs_of)


def symbolic(t, shape_, alpha, kinds, config):
    """Every parameter symbolic: the path on which no coefficient vanishes."""
    t.actual = actual_gadget
    un = t.r["unexplored"]
    t.explore(config, ["instvar", shape_, alpha, kinds, "prove"], goals_for(lambda d: params(d, shape_, alpha), kinds, []), max_paths=1, notes=lambda run: {"error": None})
    t.r["unexplored"] = un


def tasks(tier, seed):
    ts, th = [], tier == "thorough"
    pks = ["random", "sparse", "cauchy"]
    for i, s in enumerate(SHAPES):
        w = int(s.split(",")[0])
        ks = ["w" * w, "c" + "w" * (w - 1), ("iwlk" * w)[:w], ("wnd" * w)[:w], ("wch" * w)[:w], "w" + "c" * (w - 1), "i" * w, ("krl" * w)[:w]]
        for j, k in enumerate(ks):
            if not th and j != i % 8 and j not in ((i + 3) % 8, (i + 5) % 8) and s not in ("3,2,2",):
                continue
            for q in range(3 if th else 1):
                a = ALPHAS[(i + j + q) % 6]
                m = ["prove", "weight"][(i + j + q) % 2]
                ts.append((f"{s}/{a}/{pks[(i + j + q) % 3]}/{k}/{m}", one, (s, a, pks[(i + j + q) % 3], k, m, (j % 5) if j % 2 else -1, CONFIGS[(i + j) % 3])))
        ts.append((f"{s}/constants", one, (s, ALPHAS[i % 6], pks[i % 3], "c" * w, "none" if i % 2 else "prove", -1, CONFIGS[i % 3])))
    for i, a in enumerate(WIDE):
        for j, s in enumerate(["2,2,1", "3,2,2"]):
            if th or j == i % 2:
                w = int(s[0])
                ts.append((f"{s}/{a}/random/{('wc' * w)[:w]}", one, (s, a, "random", ("wc" * w)[:w], ["prove", "weight"][i % 2], -1, CONFIGS[i % 3])))
                ts.append((f"{s}/{a}/random/{('iwl' * w)[:w]}", one, (s, a, "random", ("iwl" * w)[:w], ["weight", "prove"][i % 2], -1, CONFIGS[(i + 1) % 3])))
    for i, (s, a) in enumerate([("2,2,1", "3"), ("2,2,1", "5")] + ([("2,2,1", "17"), ("3,2,2", "5")] if th else [])):
        w = int(s.split(",")[0])
        ts.append((f"{s}/{a}/symbolic", symbolic, (s, a, "w" * w, CONFIGS[i % 3])))
    ts.sort(key=lambda x: -int(x[0].split(",")[0]) * sum(map(int, x[0].split("/")[0].split(",")[1:])))
    return ts, dict(
        functions=["poseidon_permutation::r1cs::InstanceVar::{n_to_1_fixed_hash,permute,partial_sub_words,full_sub_words,mix_layer_mds}",
                   "ark-r1cs-std FpVar and ark-relations ConstraintSystem (real code, generic over the symbolic field)"],
        bounds="shapes (t, r_F, r_P): " + "; ".join(SHAPES) + "; exponents " + ", ".join(ALPHAS + WIDE) + "; parameters drawn (random, sparse with zero entries, Cauchy; not symmetric) and, for "
               "width 2, symbolic; state words allocated as constant, witness, input, linear combinations, repeated, earlier result; all allocated values symbolic; "
               "soundness over all assignments of all other columns",
        outside="the inverse S-box (the gadget does not implement it and panics); other shapes and exponents; parameters other than those drawn for which a circuit coefficient vanishes",
        assumptions=["decaf377::Fq implements F_p exactly", "optimised parameters are derived from the plain ones"])
