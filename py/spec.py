"""Reference definitions, written from the Poseidon and Poseidon377 specifications (not from the
repository's code).  Every function takes an algebra: `ConcAlg` (integers mod p) or a `DAG`."""
import functools
from field import *
from merlin import Transcript

SHIPPED = dict(M=128, alpha=17, rF=8, rP=31)


class ConcAlg:
    def k(self, c): return c % P
    def add(self, a, b): return (a + b) % P
    def sub(self, a, b): return (a - b) % P
    def mul(self, a, b): return a * b % P
    def neg(self, a): return -a % P
    def inv(self, a): return pow(a, P - 2, P)
    def pow(self, a, e): return pow(a, e, P)
    def sum(self, ts): return sum(ts) % P
    def dot(self, a, b): return sum(x * y for x, y in zip(a, b)) % P


CONC = ConcAlg()


def round_constants(t, rF=8, rP=31, M=128, alpha=17):
    T = Transcript(b"round-constants")
    T.append(b"dom-sep", b"poseidon-paramgen")
    T.append(b"t", t.to_bytes(8, "little"))
    T.append(b"M", M.to_bytes(8, "little"))
    T.append(b"p", P.to_bytes(32, "little"))
    T.append(b"r_F", bytes([rF]))
    T.append(b"r_P", bytes([rP]))
    T.append(b"alpha", alpha.to_bytes(4, "little"))
    c = [int.from_bytes(T.challenge(b"round-constant", 48), "little") % P for _ in range((rF + rP) * t)]
    return [c[i * t:(i + 1) * t] for i in range(rF + rP)]


def cauchy(t):
    return [[inv(i + t + j) for j in range(t)] for i in range(t)]


def hat(A):
    return [r[1:] for r in A[1:]]


def embed(H):
    n = len(H)
    return [[1] + [0] * n] + [[0] + list(r) for r in H]


class Params:
    """Concrete parameters; matrices are lists of rows."""

    def __init__(self, t, rF, rP, alpha, mds, arc):
        self.t, self.rF, self.rP, self.alpha, self.mds, self.arc = t, rF, rP, alpha, mds, arc

    def derive(self):
        """Optimised parameters by the published equivalence; None where a block is singular."""
        t, rF, rP = self.t, self.rF, self.rP
        self.M_00 = self.mds[0][0]
        self.M_hat = hat(self.mds)
        self.v = self.mds[0][1:]
        self.w = [r[0] for r in self.mds[1:]]
        self.M_hat_inverse = mat_inv(self.M_hat)
        self.M_inverse = mat_inv(self.mds)
        if self.M_hat_inverse is None or self.M_inverse is None:
            return None
        self.M_prime = embed(self.M_hat)
        wh = mat_vec(self.M_hat_inverse, self.w)
        self.M_doubleprime = [[self.M_00] + self.v] + [[wh[i]] + [int(i == j) for j in range(t - 1)] for i in range(t - 1)]
        MT = transpose(self.mds)
        mul, self.vc, self.wc = MT, [], []
        Mi = identity(t)
        for _ in range(rP):
            H = hat(mul)
            w = [r[0] for r in mul[1:]]
            v = mul[0][1:]
            Hi = mat_inv(H)
            if Hi is None:
                return None
            self.vc.append(v)
            self.wc.append(mat_vec(Hi, w))
            Mi = embed(H)
            mul = mat_mul(MT, Mi)
        self.M_i = transpose(Mi)
        C = [r[:] for r in self.arc]
        h, top = rF // 2, rF + rP
        MTi = mat_inv(MT)
        for r in range(top - 1 - h - 1, h - 1, -1):
            iv = mat_vec(transpose(MTi), C[r + 1])  # row vector times (mds^T)^-1
            C[r] = [C[r][0]] + [(a + b) % P for a, b in zip(C[r][1:], iv[1:])]
            C[r + 1] = [iv[0]] + [0] * (t - 1)
        self.oarc = C
        return self


@functools.lru_cache(None)
def shipped(n):
    """The instance poseidon377 rate n must be, computed from its definition."""
    t = n + 1
    return Params(t, 8, 31, 17, cauchy(t), round_constants(t)).derive()


def consts(alg, p):
    """The parameter object with every entry lifted into the algebra."""
    q = Params(p.t, p.rF, p.rP, p.alpha, None, None)
    for f in ("mds", "arc", "oarc", "M_i", "vc", "wc"):
        if hasattr(p, f):
            setattr(q, f, [[alg.k(x) for x in r] for r in getattr(p, f)])
    if hasattr(p, "M_00"):
        q.M_00 = alg.k(p.M_00)
    return q


def sbox(alg, x, alpha):
    return alg.inv(x) if alpha == "inv" else alg.pow(x, alpha)


def plain(alg, p, x):
    """Textbook Poseidon permutation; p lifted into alg."""
    s, h = list(x), p.rF // 2
    for r in range(p.rF + p.rP):
        s = [alg.add(a, c) for a, c in zip(s, p.arc[r])]
        if h <= r < h + p.rP:
            s[0] = sbox(alg, s[0], p.alpha)
        else:
            s = [sbox(alg, a, p.alpha) for a in s]
        s = [alg.dot(row, s) for row in p.mds]
    return s


def optimised(alg, p, x):
    """The published optimised schedule; p.oarc, p.M_i, p.vc, p.wc, p.M_00, p.mds lifted."""
    s, h = list(x), p.rF // 2

    def full(s, r):
        s = [sbox(alg, alg.add(a, c), p.alpha) for a, c in zip(s, p.oarc[r])]
        return [alg.dot(row, s) for row in p.mds]

    for r in range(h):
        s = full(s, r)
    s = [alg.add(a, c) for a, c in zip(s, p.oarc[h])]
    s = [alg.dot(row, s) for row in p.M_i]
    for k in range(p.rP):
        s[0] = sbox(alg, s[0], p.alpha)
        if k < p.rP - 1:
            s[0] = alg.add(s[0], p.oarc[h + 1 + k][0])
        j = p.rP - 1 - k
        n0 = alg.dot([p.M_00] + list(p.wc[j]), s)
        s = [n0] + [alg.add(alg.mul(p.vc[j][i], s[0]), s[i + 1]) for i in range(p.t - 1)]
    for r in range(h):
        s = full(s, h + p.rP + r)
    return s


# -- matrices ------------------------------------------------------------------------------
def leibniz(alg, A, memo=None):
    """Determinant by Laplace expansion along the first row over column subsets (memoised)."""
    n = len(A)
    memo = {}

    def d(row, cols):
        if row == n:
            return alg.k(1)
        key = cols
        if key in memo:
            return memo[key]
        acc = alg.k(0)
        for s, c in enumerate(cols):
            term = alg.mul(A[row][c], d(row + 1, cols[:s] + cols[s + 1:]))
            acc = alg.add(acc, term) if s % 2 == 0 else alg.sub(acc, term)
        memo[key] = acc
        return acc

    return d(0, tuple(range(n)))


def minor(A, i, j):
    return [[x for b, x in enumerate(r) if b != j] for a, r in enumerate(A) if a != i]
