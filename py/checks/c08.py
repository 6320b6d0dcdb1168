"""C08: the circuits' shape depends neither on values nor on the synthesis mode."""
from checks.gadgets import *
from checks.c06 import FN


def cols(m):
    return {i: sorted(j for j, _ in r) for i, r in m.items()}


def diff(a, b, only_columns=None):
    """'same' or where two shapes differ (the coefficients are compared by the solver when only_columns)."""
    for k in ("sizes", "before", "after", "results", "A", "B", "C"):
        if a[k] != b[k] and not (only_columns and isinstance(a[k], dict) and cols(a[k]) == cols(b[k])):
            if isinstance(a[k], dict):
                i = next(i for i in sorted(set(a[k]) | set(b[k])) if a[k].get(i) != b[k].get(i))
                return f"differs in row {i} of {k}"
            return f"differs in {k}"
    return "same"


def counts(notes):
    b, a = notes.get("before", "").split(), notes.get("after", "").split()
    return "unchanged" if b and a and b[1] == a[1] else f"{b} to {a}"


def one(t, n, kinds, mode, which, config):
    job = ["chain" if "/" in kinds else "gadget", n, kinds]
    if which is not None:
        compare(t, job, kinds, mode, const_lines(t, kinds, which), config)
        return
    # symbolic constants, then values of them that make coefficients vanish
    run = t.sym(config, job + [mode])
    compare(t, job, kinds, mode, None, config, single=len(own_branches(run, kinds)[1]) == len(run.decisions))
    for lines in vanishing(t, run, kinds, None if t.tier == "thorough" else 3):
        if not t.r["violations"] and not t.r["errors"]:
            compare(t, job, kinds, mode, lines, config)


def compare(t, job, kinds, mode, lines, config, single=False):
    fixed = const_lines(t, kinds, -1) if lines is None else lines
    lines = lines or []
    setup = {"prove": "setup", "weight": "setupw"}[mode]
    s = t.sym(config, job + [setup], fixed)
    rs = t.real(config, job + [setup], {}, fixed)
    if s.panic or s.notes.get("error") or rs.panic or rs.notes.get("error"):
        if rs.panic or rs.notes.get("error"):
            t.violation(f"setup: synthesis without values fails: {rs.panic or rs.notes.get('error')}", config, job + [setup], {}, lines)
        else:
            t.error(f"symbolic setup fails, real one does not: {s.panic}")
        return
    want = shape(s)
    if diff(real_shape(rs), want) != "same":
        t.error("the real build's setup circuit differs from the symbolic one")
        return
    for c in CONFIGS:
        if c != config:
            o = t.real(c, job + [setup], {}, fixed)
            if o.panic or diff(real_shape(o), want) != "same":
                t.violation(f"shape: circuit of build {c} {'panics' if o.panic else diff(real_shape(o), want)} from build {config}", c, job + [setup], {}, lines)
                return

    cells = {}

    def actual(rr, label):
        if not label.startswith("cell."):
            return None
        name, i, j = label.split(".")[1:]
        return next((c for col, c in rr.mats[name].get(int(i), []) if col == int(j)), 0)

    def annotate(rr):
        rr.notes["shape"] = "no circuit" if rr.sizes is None else diff(real_shape(rr), cells["want"], rr)
        rr.notes["instances"] = counts(rr.notes)
    t.annotate, t.actual = annotate, actual

    def goals(run):
        # the circuit made without values, on the same constants
        d = run.dag
        s = t.sym(config, job + [setup], lines + [f"v {k} {v}" for k, v in run.inputs.items()], dag=d)
        cells["want"] = shape(s)
        run.notes["shape"] = "no circuit" if run.sizes is None else diff(shape(run), cells["want"], run)
        run.notes["instances"] = counts(run.notes)
        gs = {}
        for name in "ABC":
            for i, row in run.mats[name].items():
                other = dict(s.mats[name].get(i, []))
                for j, c in row:
                    if j in other:
                        gs.setdefault((c, other[j]), f"cell.{name}.{i}.{j}")
        return [(l, a, b) for (a, b), l in gs.items()]
    un = t.r["unexplored"]
    t.explore(config, job + [mode], goals, inputs=lines, max_paths=1 if single else None if t.tier == "thorough" else 6,
              notes=lambda run: {"error": None, "shape": "same", "instances": "unchanged"})
    if single:
        t.r["unexplored"] = un


def constants(t, n, which, config):
    lines = const_lines(t, "c" * (n + 1), which) if which is not None else []
    for mode in ("none", "prove", "setup", "weight"):
        def annotate(rr):
            rr.notes["added"] = "none" if rr.notes.get("before") == rr.notes.get("after") is not None else f"{rr.notes.get('before')} to {rr.notes.get('after')}"
        t.annotate = annotate

        def goals(run):
            annotate(run)
            return []
        t.explore(config, ["gadget", n, "c" * (n + 1), mode], goals, inputs=lines,
                  notes=lambda run: {"error": None, "result.0": "constant", "added": "none"})
        if t.r["violations"] or t.r["errors"]:
            return


def tasks(tier, seed):
    ts = []
    for n in range(7, 0, -1):
        for j, k in enumerate(kinds_for(n, tier)):
            if set(k) == {"c"}:
                continue
            if tier != "thorough" and n > 2 and (j + n) % 3 and j > 1:
                continue
            for m in ["prove", "weight"] if tier == "thorough" else [["prove", "weight"][(n + j) % 2]]:
                ts.append((f"rate{n}/{k}/{m}", one, (n, k, m, j % 5, CONFIGS[(n + j) % 3])))
                if "c" in k and n < 3 and (tier == "thorough" or n + j % 4 == 1):
                    ts.append((f"rate{n}/{k}/{m}/sym", one, (n, k, m, None, CONFIGS[(n + j) % 3])))
                if "c" in k:
                    ts.append((f"rate{n}/{k}/{m}/drawn", one, (n, k, m, -1, CONFIGS[(n + j) % 3])))
        for w in (None, 0, 1, -1):
            ts.append((f"rate{n}/constants/{w}", constants, (n, w, CONFIGS[n % 3])))
    for j, (r, k) in enumerate(CHAINS):
        for m in ["prove", "weight"] if tier == "thorough" else [["prove", "weight"][j % 2]]:
            ts.append((f"chain/{r}/{k}/{m}", one, (r, k, m, j % 5 if j % 2 else -1, CONFIGS[j % 3])))
    return ts, dict(
        functions=FN,
        bounds="rates 1-7; allocations of each word as constant, witness, public input, linear combinations, repeated word, output of an earlier gadget; chains of up to 6 gadgets in one system; optimisation goals "
               "constraints and weight; every branch on an allocated value explored up to the path limit; builds " + ", ".join(CONFIGS),
        outside="other allocation combinations; constants other than those listed; the key generation itself",
        assumptions=["decaf377::Fq implements F_p exactly", "a proving key depends on the circuit only through the matrices and counts compared here"])
