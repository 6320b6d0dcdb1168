"""C11: determinants, minors and cofactor signs."""
from checks.matrices import *


def one(t, n, op, rows, config):
    """rows: symbolic rows (None: all)."""
    lines = [] if rows is None else semi(t, n, rows)

    def goals(run):
        d = run.dag
        a = var_matrix(d, "a", n, n, fixed_of(d, lines))
        if op == "det":
            return [("det", run.out.get("det"), spec.leibniz(d, a))]
        if op == "minors":
            return gl(run, "minors", [spec.leibniz(d, spec.minor(a, i, j)) for i in range(n) for j in range(n)])
        return gl(run, "cofactors", [d.k(1 if (i + j) % 2 == 0 else -1) for i in range(n) for j in range(n)])
    t.explore(config, ["square", n, op], goals, inputs=lines)


def tasks(tier, seed):
    ts, th = [], tier == "thorough"
    for n in range(8, 0, -1):
        for i, op in enumerate(("det", "minors", "cofactors")):
            for j, c in enumerate(CONFIGS):
                if not th and j != (n + i) % 3:
                    continue
                full = op == "cofactors" or n <= (8 if op == "det" else 8 if th else 6)
                if full:
                    ts.append((f"{op}/{n}/{c}", one, (n, op, None, c)))
                if op != "cofactors" and n > 4 and (th or not full):
                    for k in range(n if th else 2):
                        rows = [(k + x) % n for x in range(0, 3)] if k % 2 else [k, (k + 3) % n, (k + 5) % n]
                        ts.append((f"{op}/{n}/rows{''.join(map(str, rows))}/{c}", one, (n, op, rows, c)))
    return ts, dict(
        functions=FN + ["SquareMatrix::{determinant,minors,cofactors}, matrix::{determinant,minor_matrix}"],
        bounds="sizes 1-8. Every entry symbolic: determinants and cofactor signs to size 8, minors to size 6 (thorough 8); larger sizes with three rows symbolic and the others drawn",
        outside="sizes above 8 (unsupported by the code); for the largest sizes, values of the drawn rows other than those drawn",
        assumptions=["decaf377::Fq implements F_p exactly"])
