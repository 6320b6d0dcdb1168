"""C13: storage is row-major, access is consistent, equality is element-wise, wrong sizes are refused."""
import model
from checks.matrices import *

REFUSE = ["matrix/5", "matrix/7", "matrix/0", "matrix/12", "column/2", "column/4", "row/2", "row/4", "square/8", "square/10", "square/3",
          "square/0", "arc/5", "arc/7", "arc/0", "oarc/5", "oarc/7", "oarc/0", "mds/8", "mds/10", "mds/4", "mds_from/8", "mds_from/10",
          "shape_matrix/5", "shape_matrix_more/8", "shape_square/8", "shape_arc/6", "shape_oarc/6", "shape_mds/8", "shape_mds_from/8",
          "known_matrix/5", "known_square/5", "known_arc/5", "known_oarc/5", "known_mds/5"]


def access(run, prefix, r, c, el):
    gs = [(f"{prefix}get.{i}.{j}", run.out.get(f"{prefix}get.{i}.{j}"), el[i * c + j]) for i in range(r) for j in range(c)]
    for i in range(r):
        gs += gl(run, f"{prefix}row.{i}", el[i * c:i * c + c])
    return gs


def extra(run, r, c):
    """1 when a row iterator or inner_elements yields more than it should."""
    ok = {f"{p}.{i}.{j}" for p in ("row", "arc.row", "oarc.row", "row_vector") for i in range(r) for j in range(c)} | {f"arc.inner.{k}" for k in range(r * c)}
    return int(any(("row" in x or "inner" in x) and x not in ok for x in run.out))


def rect(t, shape, config):
    r, c, _ = map(int, shape.split("x"))

    def goals(run):
        d = run.dag
        el = flat(var_matrix(d, "a", r, c))
        gs = []
        for p in ("", "arc.", "oarc."):
            gs += access(run, p, r, c, el)
        for i in range(r):
            gs += gl(run, f"row_vector.{i}", el[i * c:i * c + c])
        gs += gl(run, "arc.inner", el)
        return gs + [("extra", d.k(extra(run, r, c)), d.k(0))]
    t.actual = lambda rr, l: rr.out.get(l) if l != "extra" else extra(rr, r, c)
    t.explore(config, ["rect", shape], goals, notes=lambda run: {"dims": f"{r} {c} {c} {r}", "arc.dims": f"{r} {c}", "oarc.dims": f"{r} {c}"})


def write(t, shape, config):
    r, c, _ = map(int, shape.split("x"))

    def goals(run):
        d = run.dag
        el, new, gs = flat(var_matrix(d, "a", r, c)), d.var("new"), []
        for p in ("m", "arc", "oarc"):
            for i in range(r):
                for j in range(c):
                    gs += gl(run, f"{p}.{i}.{j}", [new if k == i * c + j else x for k, x in enumerate(el)])
        return gs
    t.explore(config, ["rect_set", shape], goals)


def known(t, shape, config):
    r, c, _ = map(int, shape.split("x"))

    def goals(run):
        el = flat(var_matrix(run.dag, "a", r, c))
        return [g for p in ("m.new", "m.known", "arc.new", "arc.known", "arc.inner", "oarc.new", "oarc.known") for g in gl(run, p, el)]
    t.explore(config, ["rect_known", shape], goals)


def square(t, n, config):
    def goals(run):
        d = run.dag
        el, gs = flat(var_matrix(d, "a", n, n)), []
        gs += access(run, "", n, n, el)
        for i in range(n):
            gs += gl(run, f"row_vector.{i}", el[i * n:i * n + n])
        return gs
    t.explore(config, ["square", n, "rows"], goals, notes=lambda run: {"n_rows": str(n), "n_cols": str(n)})

    def sets(run):
        d = run.dag
        el, gs = flat(var_matrix(d, "a", n, n)), []
        for i in range(n):
            for j in range(n):
                gs += gl(run, f"set.{i}.{j}", [d.var("new") if k == i * n + j else x for k, x in enumerate(el)])
        return gs + gl(run, "known", el) + gl(run, "elements", el) + gl(run, "new_2x2", [d.var(f"q.{k}") for k in range(4)])
    t.explore(config, ["square", n, "set"], sets)


def mds(t, n, config):
    def goals(run):
        d = run.dag
        el, gs = flat(var_matrix(d, "a", n, n)), []
        gs += access(run, "", n, n, el)
        for p in ("elements", "from_elements", "new_from_known"):
            gs += gl(run, p, el)
        for i in range(n):
            for j in range(n):
                gs += gl(run, f"set.{i}.{j}", [d.var("new") if k == i * n + j else x for k, x in enumerate(el)])
        return gs
    t.explore(config, ["mds", n, "parts"], goals, notes=lambda run: {"dims": f"{n} {n}"})


def equality(t, args, n, config):
    """Every path that answers 'equal' forces all n pairs of elements to be equal, every path that answers
    'different' forces some pair apart."""
    def pairs(d):
        return [(d.var(f"a.{k}"), d.var(f"b.{k}")) for k in range(n)]

    def goals(run):
        d = run.dag
        if run.notes.get("eq") == "true":
            return [(f"same.{k}", a, b) for k, (a, b) in enumerate(pairs(d))]
        zs = [d.sub(a, b) for a, b in pairs(d)]
        for x in run.decisions:
            if x["outcome"]:
                continue
            q = t.prover(d).prove([("apart", x["a"], x["b"])], zs)
            t.r["queries"] += q.queries
            t.r["obligations"] += q.obligations
            if q.proven:
                t.r["proven"] += 1
                return []
        e = model.find(d, zs, t.rng, [(x["a"], x["b"]) for x in run.decisions if not x["outcome"]], names=sorted(run.inputs))
        if e is None:
            t.error("a path that answers 'different' is not shown to have different elements")
        else:
            t.replay(config, args, {k: e.get(k, run.inputs[k]) for k in run.inputs}, "different", 0)
        return []

    def actual(rr, label):
        if label == "different":  # 0: equal matrices compared equal
            return int(rr.notes.get("eq") != "true")
        k = int(label.split(".")[1])
        return rr.inputs[f"a.{k}"] if rr.notes.get("eq") == "true" else rr.inputs[f"b.{k}"]
    t.actual = actual
    t.explore(config, args, goals)
    # the equal matrix itself
    e = {f"{m}.{k}": t.rng.randrange(P) if m == "a" else 0 for m in "ab" for k in range(n)}
    e.update({f"b.{k}": e[f"a.{k}"] for k in range(n)})
    if t.real(config, args, e).notes.get("eq") != "true":
        t.violation("equal: equal matrices compare different", config, args, e)


def refuse(t, cases, config):
    t.actual = lambda rr, l: int(bool(rr.panic))
    for c in cases:
        if t.r["violations"]:
            break
        t.explore(config, ["refuse", c], lambda run: [("refused", run.dag.k(int(bool(run.panic))), run.dag.k(1))], panic_ok=lambda run: True, twin=False)


def tasks(tier, seed):
    ts, th = [], tier == "thorough"
    for i, s in enumerate(RECT):
        r, c, _ = map(int, s.split("x"))
        for j, cf in enumerate(CONFIGS):
            if th or j == i % 3:
                ts.append((f"rect/{s}/{cf}", rect, (s, cf)))
                ts.append((f"known/{s}/{cf}", known, (s, cf)))
                if r * c <= 40:
                    ts.append((f"write/{s}/{cf}", write, (s, cf)))
                if r * c <= 40:
                    for k in ("m", "arc", "oarc"):
                        ts.append((f"eq/{k}/{s}/{cf}", equality, (["rect_eq", s, k], r * c, cf)))
    for n in range(1, 9):
        for j, cf in enumerate(CONFIGS):
            if th or j == n % 3:
                ts.append((f"square/{n}/{cf}", square, (n, cf)))
                if n <= 6:
                    ts.append((f"eq/square/{n}/{cf}", equality, (["square", n, "eq"], n * n, cf)))
                    if n > 1:
                        ts.append((f"eq/mds/{n}/{cf}", equality, (["mds", n, "eq"], n * n, cf)))
                if n > 1:
                    ts.append((f"mds/{n}/{cf}", mds, (n, cf)))
    for cf in CONFIGS:
        ts.append((f"refuse/{cf}", refuse, (REFUSE, cf)))
    return ts, dict(
        functions=FN + ["MatrixOperations::{new,elements,get_element,set_element,iter_rows,n_rows,n_cols} of all five types, row_vector, new_from_known, from_elements, "
                        "inner_elements, new_2x2, PartialEq"],
        bounds="rectangular shapes (rows x columns from) " + ", ".join(RECT) + "; square sizes 1-8; MDS widths 2-8; every index; every element symbolic; equality: shapes up to 40 "
               "elements, all branches; refusal: " + ", ".join(REFUSE) + "; configurations " + ", ".join(CONFIGS),
        outside="other shapes and lengths; out-of-range indices",
        assumptions=["decaf377::Fq implements F_p exactly"])
