"""C10: matrix arithmetic is exact, entry by entry."""
from checks.matrices import *


def rect(t, shape, config):
    r, k, c = map(int, shape.split("x"))

    def goals(run):
        d = run.dag
        a, b, e = var_matrix(d, "a", r, k), var_matrix(d, "b", k, c), var_matrix(d, "e", r, k)
        had = [d.mul(x, y) for x, y in zip(flat(a), flat(e))]
        gs = gl(run, "mul", flat(mat_mul(d, a, b))) + gl(run, "transpose", flat(tr(a))) + gl(run, "hadamard", had)
        gs += gl(run, "scale", [d.mul(x, d.var("s")) for x in flat(a)])
        for p in ("arc", "oarc"):
            gs += gl(run, p + ".transpose", flat(tr(a))) + gl(run, p + ".hadamard", had)
        return gs
    t.explore(config, ["rect", shape], goals)


def square(t, n, op, config):
    def goals(run):
        d = run.dag
        a, b = var_matrix(d, "a", n, n), var_matrix(d, "b", n, n)
        return gl(run, op, {
            "mul": lambda: flat(mat_mul(d, a, b)),
            "transpose": lambda: flat(tr(a)),
            "hadamard": lambda: [d.mul(x, y) for x, y in zip(flat(a), flat(b))],
            "scale": lambda: [d.mul(x, d.var("s")) for x in flat(a)],
            "identity": lambda: [d.k(int(i == j)) for i in range(n) for j in range(n)],
        }[op]())
    t.explore(config, ["square", n, op], goals)


def mds(t, n, config):
    def goals(run):
        d = run.dag
        a, b = var_matrix(d, "a", n, n), var_matrix(d, "b", n, n)
        return gl(run, "hadamard", [d.mul(x, y) for x, y in zip(flat(a), flat(b))]) + gl(run, "transpose", flat(tr(a)))
    t.explore(config, ["mds", n, "parts"], goals)


def tasks(tier, seed):
    ts, th = [], tier == "thorough"
    for i, s in enumerate(RECT):
        for j, c in enumerate(CONFIGS):
            if th or j == i % 3:
                ts.append((f"rect/{s}/{c}", rect, (s, c)))
    for n in range(1, 9):
        for i, op in enumerate(("mul", "transpose", "hadamard", "scale", "identity")):
            for j, c in enumerate(CONFIGS):
                if th or j == (n + i) % 3:
                    ts.append((f"square/{n}/{op}/{c}", square, (n, op, c)))
        if n > 1:
            ts.append((f"mds/{n}", mds, (n, CONFIGS[n % 3])))
    return ts, dict(
        functions=FN + ["mat_mul, square_mat_mul, dot_product, transpose, hadamard_product, Mul<Fq>, identity"],
        bounds="rectangular shapes (rows x inner x columns) " + ", ".join(RECT) + " for Matrix, ArcMatrix and OptimizedArcMatrix; square sizes 1-8; MDS widths 2-8; every entry symbolic; "
               "configurations " + ", ".join(CONFIGS),
        outside="other shapes; field arithmetic inside decaf377",
        assumptions=["decaf377::Fq implements F_p exactly"])
