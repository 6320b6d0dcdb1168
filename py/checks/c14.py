"""C14: the MDS decomposition returns the right blocks."""
from checks.matrices import *
from checks import c12


def parts(t, n, config):
    def goals(run):
        d = run.dag
        a = var_matrix(d, "a", n, n)
        return (gl(run, "v", a[0][1:]) + gl(run, "w", [r[0] for r in a[1:]]) + gl(run, "hat", flat([r[1:] for r in a[1:]])) +
                gl(run, "transpose", flat(tr(a))))
    t.explore(config, ["mds", n, "parts"], goals)


def inverse(t, n, rows, config):
    c12.one(t, n, rows, config, job=["mds", n, "inverse"])


def tasks(tier, seed):
    ts, th = [], tier == "thorough"
    for n in range(8, 1, -1):
        for j, c in enumerate(CONFIGS):
            if n <= 4 and (th or j == n % 3):
                ts.append((f"inverse/{n}/{c}", inverse, (n, None, c)))
            if n > 3 and (th or j == (n + 1) % 3):
                for k in range(n if th else 1):
                    ts.append((f"inverse/{n}/row{k}/{c}", inverse, (n, [(k + n) % n], c)))
            ts.append((f"parts/{n}/{c}", parts, (n, c)))
    return ts, dict(
        functions=FN + ["MdsMatrix::{v,w,hat,transpose,inverse,get_element,elements}", "SquareMatrix::inverse"],
        bounds="widths 2-8, all entries symbolic for v, w, hat and transpose; inverse: all entries symbolic to width 4, one row symbolic (others drawn) to width 8, singular and nonsingular; "
               "configurations " + ", ".join(CONFIGS),
        outside="for the inverse at widths above 4, values of the drawn rows other than those drawn",
        assumptions=["decaf377::Fq implements F_p exactly"])
