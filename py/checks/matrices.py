"""Shared pieces of the matrix checks."""
import spec
from field import P

CONFIGS = ["min-dev", "all-dev", "all-rel"]
FN = ["poseidon_parameters::matrix::{Matrix,SquareMatrix}", "poseidon_parameters::matrix_ops", "poseidon_parameters::mds_matrix::MdsMatrix",
      "poseidon_parameters::arc_matrix::{ArcMatrix,OptimizedArcMatrix}"]
RECT = ["1x1x1", "1x2x3", "2x1x3", "2x3x1", "2x3x4", "3x2x3", "3x4x2", "1x5x1", "5x1x5", "4x7x3", "8x5x6", "39x8x2"]


def var_matrix(d, name, r, c, fixed=None):
    return [[fixed[f"{name}.{i * c + j}"] if fixed and f"{name}.{i * c + j}" in fixed else d.var(f"{name}.{i * c + j}") for j in range(c)] for i in range(r)]


def flat(m):
    return [x for r in m for x in r]


def gl(run, label, terms):
    """Goals: outputs label.k = terms[k]."""
    return [(f"{label}.{k}", run.out.get(f"{label}.{k}"), x) for k, x in enumerate(terms)]


def mat_mul(d, A, B):
    return [[d.dot(r, [b[j] for b in B]) for j in range(len(B[0]))] for r in A]


def tr(m):
    return [list(c) for c in zip(*m)]


def semi(t, n, rows, extra=()):
    """Input lines fixing the rows of an n x n matrix `a` outside `rows` to drawn values (some zero)."""
    return [f"c a.{i * n + j} {t.rng.choice([0, 1, P - 1]) if t.rng.randrange(6) == 0 else t.rng.randrange(P)}" for i in range(n) if i not in rows for j in range(n)]


def fixed_of(d, lines):
    return {l.split()[1]: d.k(int(l.split()[2])) for l in lines if l[0] == "c"}
