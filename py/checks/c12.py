"""C12: inversion succeeds exactly for nonsingular matrices, and is right."""
import field, model, spec
from checks.matrices import *


def nonzero_on(t, run, term):
    """The path's disequalities force the term to be nonzero: True, or a witness for the contrary, or None."""
    d = run.dag
    import itertools
    neq = [(x["a"], x["b"]) for x in run.decisions if x["kind"] == "eq" and not x["outcome"]]
    names = d.variables([term])
    for a, b in neq:
        e = d.sub(a, b)
        if set(d.variables([e])) - set(names):
            continue
        v = d.eval([e, term], {n: t.rng.randrange(P) for n in names})
        if v[e] == 0:
            continue
        q = t.prover(d).prove([("nz", term, d.mul(d.k(v[term] * pow(v[e], P - 2, P)), e))])
        t.r["queries"] += q.queries
        t.r["obligations"] += q.obligations
        if q.proven:
            t.r["proven"] += 1
            return True
    # a product of several of them, as after an elimination
    es = list(dict.fromkeys(d.sub(a, b) for a, b in neq))
    es = [e for e in es if d.const_of(e) is None and not set(d.variables([e])) - set(names)]
    envs = [{n: t.rng.randrange(P) for n in names} for _ in range(2)]
    vals = [d.eval(es + [term], e) for e in envs]
    for k in range(2, min(len(es), 8) + 1):
        for sub in (itertools.combinations(es, k) if len(es) <= 14 else [es] if k == len(es) else []):
            cs = []
            for v in vals:
                x = v[term]
                for e in sub:
                    x = x * pow(v[e], P - 2, P) % P
                cs.append(x)
            if cs[0] == cs[1] != 0:
                prod = d.k(cs[0])
                for e in sub:
                    prod = d.mul(prod, e)
                q = t.prover(d, es).prove([("nz", term, prod)])
                t.r["queries"] += q.queries
                t.r["obligations"] += q.obligations
                if q.proven:
                    t.r["proven"] += 1
                    return True
    return model.find(d, [term], t.rng, neq, names=sorted(run.inputs))


def one(t, n, rows, config, job=None, prefix="inverse"):
    """job "square n inverse" reports an error by a note; "mds t inverse" has no error to report (it panics)."""
    lines = [] if rows is None else semi(t, n, rows)
    args = job or ["square", n, "inverse"]

    def det_of(rr):
        return field.det([[rr.inputs[f"a.{i * n + j}"] for j in range(n)] for i in range(n)])

    def outcome(run):
        return run.notes.get("inverse") or ("panic" if run.panic else "ok")

    def goals(run):
        d = run.dag
        a = var_matrix(d, "a", n, n, fixed_of(d, lines))
        det = spec.leibniz(d, a)
        if outcome(run) != "ok":
            return [("det", det, d.k(0))]
        w = nonzero_on(t, run, det) if d.const_of(det) is None else (True if d.const_of(det) else {})
        if w is None:
            t.error("a path that returns a matrix is not shown to have a nonzero determinant")
        elif w is not True:
            t.replay(config, args, {k: w.get(k, run.inputs[k]) for k in run.inputs}, "singular", 0, lines)
            return []
        inv = [[run.out.get(f"{prefix}.{i * n + j}") for j in range(n)] for i in range(n)]
        if any(x is None for x in flat(inv)):
            return [("inverse.0", None, None)]
        prod = mat_mul(d, a, inv)
        return [(f"product.{i}.{j}", prod[i][j], d.k(int(i == j))) for i in range(n) for j in range(n)]

    def actual(rr, label):
        out = outcome(rr)
        if label == "det":
            return det_of(rr) if out != "ok" else None
        if label == "singular":  # 0: a singular matrix was refused
            return 1 if out == "ok" else 0
        if label.startswith("product.") and out == "ok":
            i, j = map(int, label.split(".")[1:])
            return sum(rr.inputs[f"a.{i * n + k}"] * rr.out[f"{prefix}.{k * n + j}"] for k in range(n)) % P
        return rr.out.get(label)
    t.actual = actual
    t.explore(config, args, goals, inputs=lines, panic_ok=lambda run: job is not None)


def tasks(tier, seed):
    ts, th = [], tier == "thorough"
    for n in range(8, 0, -1):
        for j, c in enumerate(CONFIGS):
            if n <= (5 if th else 4) and (th or n < 3 or j != n % 3):
                ts.append((f"{n}/{c}", one, (n, None, c)))
            if n > 3 and (th or j != (n + 1) % 3):
                for k in range(n if th else 2):
                    rows = [(k + 2 * j) % n] + ([(k + 2 * j + 3) % n] if k % 2 and n < 7 else [])
                    ts.append((f"{n}/rows{''.join(map(str, rows))}/{c}", one, (n, rows, c)))
    return ts, dict(
        functions=FN + ["SquareMatrix::{inverse,identity,determinant,minors,cofactors,transpose}, square_mat_mul"],
        bounds="sizes 1-8, debug and release builds: every entry symbolic to size 4 (thorough 5); one or two rows symbolic, the others drawn (with some zeros), for larger sizes; both "
               "outcomes of every branch, so singular and nonsingular matrices alike",
        outside="sizes above 8 (unsupported by the code); for the larger sizes, values of the drawn rows other than those drawn",
        assumptions=["decaf377::Fq implements F_p exactly"])
