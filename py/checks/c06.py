"""C06: the hash gadgets are complete and agree with the native hash."""
import spec
from checks.gadgets import *

FN = ["poseidon377::r1cs::hash_1..7", "poseidon_permutation::r1cs::InstanceVar::{n_to_1_fixed_hash,permute,partial_sub_words,full_sub_words,mix_layer_mds}",
      "ark-r1cs-std FpVar and ark-relations ConstraintSystem (real code, generic over the symbolic field)", "poseidon377::RATE_1..7_PARAMS"]


def goals_for(n, kinds, lines):
    def goals(run):
        d = run.dag
        ref = spec.plain(d, spec.consts(d, spec.shipped(n)), words(d, kinds, lines))[1]
        gs = [("value.0", run.out.get("value.0"), ref)]
        if run.sizes:
            if run.notes.get("result.0", "").startswith("witness"):
                gs.append(("assigned.0", run.z[index_of(run, run.notes["result.0"])], ref))
            gs += satisfaction_goals(run)
        return gs
    return goals


def chained(t, rates, kinds, mode, which, config):
    """Several gadgets in one constraint system, sharing words and using each other's results."""
    t.actual = actual_gadget
    lines = const_lines(t, kinds, which)

    def goals(run):
        gs = []
        for k, (_, _, h) in enumerate(chain_words(run.dag, rates, kinds, lines)):
            gs.append((f"value.{k}", run.out.get(f"value.{k}"), h))
            if run.sizes and run.notes.get(f"result.{k}", "").startswith("witness"):
                gs.append((f"assigned.{k}", run.z[index_of(run, run.notes[f"result.{k}"])], h))
        return gs + (satisfaction_goals(run) if run.sizes else [])
    t.explore(config, ["chain", rates, kinds, mode], goals, inputs=lines, notes=lambda run: {"error": None})


def one(t, n, kinds, mode, which, config):
    """which: None = constants symbolic, otherwise see const_lines."""
    t.actual = actual_gadget
    args, notes = ["gadget", n, kinds, mode], lambda run: {"error": None}
    if which is not None or "c" not in kinds:
        lines = const_lines(t, kinds, which)
        t.explore(config, args, goals_for(n, kinds, lines), inputs=lines, notes=notes)
        return
    # symbolic constants: branches that only look at constants (vanishing coefficients) are followed by
    # fixing the constants to values that take them; other branches are explored as they are
    run = t.sym(config, args)
    only = len(own_branches(run, kinds)[1]) == len(run.decisions)
    un = t.r["unexplored"]
    t.explore(config, args, goals_for(n, kinds, []), notes=notes, max_paths=1 if only else None)
    if only:
        t.r["unexplored"] = un
    if t.r["violations"] or t.r["errors"]:
        return
    for lines in vanishing(t, run, kinds, None if t.tier == "thorough" else 2):
        t.explore(config, args, goals_for(n, kinds, lines), inputs=lines, notes=notes)


def tasks(tier, seed):
    ts = []
    for n in range(7, 0, -1):
        for j, k in enumerate(kinds_for(n, tier)):
            thorough = tier == "thorough"
            if not thorough and n > 2 and (j + n) % 3 and j > 1:
                continue
            for m in ["prove", "weight"] if thorough else [["prove", "weight"][(n + j) % 2]]:
                cfg = CONFIGS[(n + j) % 3]
                if "c" not in k:
                    ts.append((f"rate{n}/{k}/{m}", one, (n, k, m, -1, cfg)))
                    continue
                # constants at boundary values (which change the code's linear combinations), and symbolic
                ts.append((f"rate{n}/{k}/{m}/const", one, (n, k, m, j % 5, cfg)))
                if thorough or n == 1 or j % 7 == n % 7:
                    ts.append((f"rate{n}/{k}/{m}/sym", one, (n, k, m, None, cfg)))
        for j, m in enumerate(["none", "prove"]):
            ts.append((f"rate{n}/constants/{m}", one, (n, "c" * (n + 1), m, None, CONFIGS[(n + j) % 3])))
            ts.append((f"rate{n}/constants/{m}/const", one, (n, "c" * (n + 1), m, n % 5, CONFIGS[(n + j) % 3])))
    for j, (r, k) in enumerate(CHAINS):
        for m in ["prove", "weight"] if tier == "thorough" else [["prove", "weight"][j % 2]]:
            ts.append((f"chain/{r}/{k}/{m}", chained, (r, k, m, j % 5 if j % 2 else -1, CONFIGS[(j + 2) % 3])))
    return ts, dict(
        functions=FN,
        bounds="rates 1-7; allocations of each word (domain separator included) as constant, witness, public input, linear combinations, repeated word, output of an "
               "earlier gadget; chains of up to 6 gadgets in one system; modes prove, weight (outlined), none; all allocated values symbolic, constants symbolic and at boundary values",
        outside="field arithmetic inside decaf377; other allocation combinations and chains of gadgets; foreign constraints already in the system",
        assumptions=["decaf377::Fq implements F_p exactly", "ark-r1cs-std treats every prime field alike (it runs on the shadow field)"])
