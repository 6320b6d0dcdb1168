"""C15: the shipped mixing matrices are MDS.

For every k and every choice of k rows and k columns the solver shows: a vector x supported on those columns whose
image vanishes on those rows is zero.  (If a nonzero x and its image had at most t nonzero words together, x would be
supported on some k columns and its image would vanish on at least k rows.)  The query is the identity
x = N (S x) for a certificate N, one batch per (t, k, rows)."""
import itertools
import build, engine, field
from checks.matrices import *
from checks import shipped

CONFIGS = ["min-dev", "all-dev", "all-rel"]


def kernel(S):
    """A nonzero vector with S x = 0."""
    n = len(S)
    for f in range(n):
        # x_f = 1, solve for the rest
        rest = [j for j in range(n) if j != f]
        y = field.mat_solve([[r[j] for j in rest] for r in S], [-r[f] % P for r in S])
        if y is not None:
            x = [0] * n
            x[f] = 1
            for j, v in zip(rest, y):
                x[j] = v
            return x


def block(t, n, size, part, parts):
    seen = []
    for c in CONFIGS:
        run = t.sym(c, ["params", n])
        if run.panic:
            t.replay(c, ["params", n], {}, "panic", None)
            return
        M = shipped.mat(run, "mds", n + 1, n + 1)
        if M not in seen:
            seen.append(M)
            matrix(t, run, M, n, size, part, parts, c)


def matrix(t, run, M, n, size, part, parts, config):
    w, d = n + 1, run.dag
    rr = t.real(config, ["params", n])
    if any(rr.out.get(f"mds.{k}") != x for k, x in enumerate(flat(M))):
        t.error("the real build holds another matrix than the symbolic one")
        return
    t.r["validated"] += 1
    t.r["paths"] += 1
    x = [d.var(f"x.{i}") for i in range(size)]
    for rows in list(itertools.combinations(range(w), size))[part::parts]:
        gs = []
        for cols in itertools.combinations(range(w), size):
            S = [[M[i][j] for j in cols] for i in rows]
            N = field.mat_inv(S)
            if N is None:
                z = kernel(S)
                y = [z[cols.index(j)] if j in cols else 0 for j in range(w)]
                img = field.mat_vec(M, y)
                wt = sum(1 for v in y + img if v)
                assert any(y) and wt <= w
                t.violation(f"rows {rows} columns {cols}: a vector and its image have only {wt} nonzero words", config, ["params", n], {}, detail=dict(vector=[hex(v) for v in y]))
                return
            Sx = [d.dot([d.k(c) for c in r], x) for r in S]
            gs += [(f"{rows}{cols}.{i}", d.dot([d.k(c) for c in N[i]], Sx), x[i]) for i in range(size)]
        q = t.goals(d, gs, on_refuted=lambda l, e: t.error(f"certificate {l} refuted"))
        if q.unknown:
            return
    t.twin(d, gs[0])


def tasks(tier, seed):
    ts = []
    for n in range(7, 0, -1):
        for size in range(n + 1, 0, -1):
            parts = 8 if n == 7 and 2 < size < 7 else 3 if n > 4 and 2 < size < n else 1
            for k in range(parts):
                ts.append((f"rate{n}/size{size}/{k}", block, (n, size, k, parts)))
    ts.sort(key=lambda x: -x[2][0] * 10 + abs(x[2][1] - 5))
    return ts, dict(
        functions=["poseidon377::RATE_1..7_PARAMS.mds", "MdsMatrix::{new_from_known,elements}"],
        bounds="all seven matrices (t = 2..8), every square submatrix of every size, all vectors; configurations " + ", ".join(CONFIGS),
        outside="nothing of the property; the matrix is the `mds` field (that hashing multiplies by it is C01 and C03)",
        assumptions=["decaf377::Fq implements F_p exactly", "p is prime"])
