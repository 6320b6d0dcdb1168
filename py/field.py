"""The field Fq (BLS12-377 scalar field) and Montgomery helpers."""
import math

P = 8444461749428370424248824938781546531375899335154063827935233455917409239041
R = pow(2, 256, P)
RINV = pow(R, -1, P)


def inv(x):
    return pow(x, P - 2, P)


def sym(c):
    """Symmetric representative, shorter in SMT text."""
    c %= P
    return c if c <= P // 2 else c - P


def smt_int(c):
    return str(c) if c >= 0 else f"(- {-c})"


def sqrt(a):
    """A square root, or None (Tonelli-Shanks)."""
    a %= P
    if a == 0:
        return 0
    if pow(a, (P - 1) // 2, P) != 1:
        return None
    q, s = P - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    n = next(n for n in range(2, 200) if pow(n, (P - 1) // 2, P) == P - 1)
    m, c, t, r = s, pow(n, q, P), pow(a, q, P), pow(a, (q + 1) // 2, P)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c, t, r = i, b * b % P, t * b * b % P, r * b % P
    return r


def root(y, e, rng):
    """A random e-th root of y (e may be even or negative), or None."""
    if e < 0:
        if y == 0:
            return None
        return root(pow(y, P - 2, P), -e, rng)
    while e % 2 == 0:
        y = sqrt(y)
        if y is None:
            return None
        if rng.randrange(2):
            y = -y % P
        e //= 2
    if math.gcd(e, P - 1) != 1:
        return None
    return pow(y, pow(e, -1, P - 1), P)


# affine (non-modular) linear algebra used by the reference ------------------------------------
def mat_mul(A, B):
    return [[sum(a * b for a, b in zip(r, c)) % P for c in zip(*B)] for r in A]


def mat_vec(A, x):
    return [sum(a * b for a, b in zip(r, x)) % P for r in A]


def transpose(A):
    return [list(r) for r in zip(*A)]


def identity(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def det(A):
    A = [r[:] for r in A]
    n, d = len(A), 1
    for k in range(n):
        p = next((i for i in range(k, n) if A[i][k] % P), None)
        if p is None:
            return 0
        if p != k:
            A[k], A[p] = A[p], A[k]
            d = -d
        d = d * A[k][k] % P
        f = inv(A[k][k])
        for i in range(k + 1, n):
            q = A[i][k] * f % P
            if q:
                A[i] = [(x - q * y) % P for x, y in zip(A[i], A[k])]
    return d % P


def mat_inv(A):
    """Gauss-Jordan inverse, None if singular."""
    n = len(A)
    M = [[x % P for x in r] + [int(i == j) for j in range(n)] for i, r in enumerate(A)]
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k]), None)
        if p is None:
            return None
        M[k], M[p] = M[p], M[k]
        f = inv(M[k][k])
        M[k] = [x * f % P for x in M[k]]
        for i in range(n):
            if i != k and M[i][k]:
                q = M[i][k]
                M[i] = [(x - q * y) % P for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]


def mat_solve(A, b):
    """One solution of A x = b, or None (A need not be square)."""
    n, m = len(A), len(A[0])
    M = [[x % P for x in r] + [v % P] for r, v in zip(A, b)]
    piv, row = [], 0
    for c in range(m):
        p = next((i for i in range(row, n) if M[i][c]), None)
        if p is None:
            continue
        M[row], M[p] = M[p], M[row]
        f = inv(M[row][c])
        M[row] = [x * f % P for x in M[row]]
        for i in range(n):
            if i != row and M[i][c]:
                q = M[i][c]
                M[i] = [(x - q * y) % P for x, y in zip(M[i], M[row])]
        piv.append(c)
        row += 1
    if any(M[i][m] for i in range(row, n)):
        return None
    x = [0] * m
    for i, c in enumerate(piv):
        x[c] = M[i][m]
    return x
