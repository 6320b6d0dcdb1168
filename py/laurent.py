"""Terms as Laurent polynomials, for code that divides (elimination, batch inversion).

Every inverted term that is known to be nonzero and is affine in some variable x with an invertible coefficient u,
`u x + rest`, becomes a variable of its own: the substitution x := (y - rest) / u is a bijection, and 1/y is a monomial.
An assumption `u x + rest = 0` is used up the same way, x := -rest / u.  What remains is a comparison of polynomials,
which the solver decides.  Monomials are packed into integers, W bits per exponent."""
from field import P

W = 36  # bits per exponent
HALF, MASK = 1 << (W - 1), (1 << W) - 1


class TooBig(Exception):
    pass


class Contradiction(Exception):
    """The assumptions contradict each other: there is nothing on this path."""


class _Restart(Exception):
    pass


def decode(m):
    out, i = {}, 0
    while m:
        e = m & MASK
        if e >= HALF:
            e -= MASK + 1
        if e:
            out[i] = e
        m = (m - e) >> W
        i += 1
    return out


class Laurent:
    def __init__(self, dag, nonzero=(), zero=(), limit=40000, work=6000000):
        self.dag, self.nonzero, self.zero = dag, set(nonzero), list(zero)
        self.limit, self.work = limit, work
        self.index, self.unit = {}, set()   # variable -> number; numbers of invertible variables
        self.subst = {}                     # variable number -> polynomial
        self.named, self.rel = {}, []       # named polynomials in invertible variables
        self.dense, self.extra = False, 0   # whether invertible terms may be added

    def number(self, key):
        return self.index.setdefault(key, len(self.index))

    def mul(self, a, b):
        self.work -= len(a) * len(b)
        if self.work < 0:
            raise TooBig
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = r.get(m, 0) + c1 * c2
        r = {m: c % P for m, c in r.items() if c % P}
        if len(r) > self.limit:
            raise TooBig
        return r

    @staticmethod
    def add(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + s * c) % P
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def invert_monomial(self, q):
        """1/q for a single invertible term, else None."""
        if len(q) != 1:
            return None
        (m, c), = q.items()
        if all(i in self.unit for i in decode(m)):
            return {-m: pow(c, P - 2, P)}
        return None

    def canon(self, q):
        """q = c X^m k with X^m invertible: (key of k, c, m)."""
        plain = {m: sum(e << (W * i) for i, e in decode(m).items() if i not in self.unit) for m in q}
        m = min(q, key=lambda x: (plain[x], x))
        c, m = q[m], m - plain[m]
        f = pow(c, P - 2, P)
        return frozenset((x - m, y * f % P) for x, y in q.items()), c, m

    def inverse(self, q):
        """1/q for an invertible term or a named polynomial, else None."""
        if len(q) == 1:
            return self.invert_monomial(q)
        if self.named and q:
            k, c, m = self.canon(q)
            if k in self.named:
                return {-m - (1 << (W * self.named[k])): pow(c, P - 2, P)}
        return None

    def solve(self, q):
        """q = u x + rest, u invertible, x a plain variable that occurs nowhere else: (x, 1/u, rest)."""
        dec = {m: decode(m) for m in q}
        seen = {}
        for m, d in dec.items():
            for i, e in d.items():
                seen.setdefault(i, []).append((m, e))
        for i in sorted(seen):
            if i in self.unit or any(e != 1 for _, e in seen[i]) or (len(seen[i]) > 1 and not self.named):
                continue
            u = self.inverse({m - (1 << (W * i)): q[m] for m, _ in seen[i]})
            if u is not None:
                return i, u, {k: c for k, c in q.items() if i not in dec[k]}
        return None

    def reduce(self, q):
        """q without the coefficients that vanish once the names are replaced."""
        if not self.rel:
            return q
        groups = {}
        for m in q:
            groups.setdefault(sum(e << (W * i) for i, e in decode(m).items() if i not in self.unit), []).append(m)
        out = {}
        for ms in groups.values():
            g = {m: q[m] for m in ms}
            if len(g) == 1 or self.clear(g)[0]:
                out.update(g)
        return out

    def name(self, q, key, depth=0):
        """Make q an invertible variable; q is nonzero on the path (or on the dense part of it looked at)."""
        s = self.solve(q)
        if s:
            i, u, rest = s
            y = self.number(("y", key))
            self.unit.add(y)
            self.subst[i] = self.mul(self.add({1 << (W * y): 1}, rest, P - 1), u)
            raise _Restart
        # q = u x + rest, u not invertible: u becomes so first
        if not self.dense or depth > 6:
            raise TooBig
        best = None
        dec = {m: decode(m) for m in q}
        for i in sorted({i for d in dec.values() for i in d} - self.unit):
            if all(d.get(i, 0) in (0, 1) for d in dec.values()):
                u = {m - (1 << (W * i)): c for m, c in q.items() if dec[m].get(i)}
                if u != q and (best is None or len(u) < len(best)):
                    best = u
        if best is None:
            if any(i not in self.unit for d in dec.values() for i in d):
                raise TooBig
            # a sum of invertible terms: a variable of its own, eliminated at the end
            k, _, _ = self.canon(q)
            if not self.clear(dict(k))[0]:
                raise TooBig  # zero
            y = self.number(("z", key))
            self.unit.add(y)
            self.named[k] = y
            self.rel.append((y, dict(k)))
            raise _Restart
        self.extra += 1
        self.name(best, f"u{self.extra}", depth + 1)

    def polys(self, roots):
        dag, op = self.dag, self.dag.op
        deg = {}
        for n in dag.cone(list(roots)):
            o = op[n]
            deg[n] = 0 if o[0] == "k" else 1 if o[0] == "v" else deg[o[1]] if o[0] in "in" else deg[o[1]] + deg[o[2]] if o[0] == "*" else max(deg[o[1]], deg[o[2]])
            if deg[n] > HALF // 8:
                raise TooBig
        while True:
            try:
                return self._polys(roots)
            except _Restart:
                pass

    def _polys(self, roots):
        dag, op = self.dag, self.dag.op
        memo, zeros = {}, list(self.zero)

        def value(n):
            for x in dag.cone([n]):
                if x in memo:
                    continue
                o = op[x]
                t = o[0]
                if t == "k":
                    memo[x] = {0: o[1]} if o[1] else {}
                elif t == "v":
                    memo[x] = self.var(self.number(o[1]))
                elif t == "+":
                    memo[x] = self.add(memo[o[1]], memo[o[2]])
                elif t == "-":
                    memo[x] = self.add(memo[o[1]], memo[o[2]], P - 1)
                elif t == "n":
                    memo[x] = self.add({}, memo[o[1]], P - 1)
                elif t == "*":
                    memo[x] = self.mul(memo[o[1]], memo[o[2]])
                else:
                    q = memo[o[1]] = self.reduce(memo[o[1]])
                    r = {} if not q else self.inverse(q)
                    if r is None:
                        if o[1] not in self.nonzero:
                            raise TooBig
                        self.name(q, o[1])
                    memo[x] = r
            return memo[n]

        for z in zeros if not self.dense else ():
            try:
                q = value(z)
            except TooBig:
                if self.work < 0:
                    raise
                continue  # not used
            if not q:
                continue
            if self.invert_monomial(q) is not None:
                raise Contradiction
            # common invertible factors do not matter; a factor that is a plain variable does
            s = self.solve(q)
            if s is None and len(q) == 1:
                (m, c), = q.items()
                plain = [i for i in decode(m) if i not in self.unit]
                if len(plain) == 1:
                    self.subst[plain[0]] = {}
                    raise _Restart
            if s is None:
                continue  # not used
            i, u, rest = s
            self.subst[i] = self.mul(self.add({}, rest, P - 1), u)
            raise _Restart
        # The assumptions are used up: what remains is an identity in a Laurent polynomial ring, a domain, so it may be
        # shown after inverting further terms.
        self.dense = True
        return [value(r) for r in roots]

    def clear(self, *ps):
        """The polynomials times a common invertible factor, with the names replaced by what they stand for."""
        for y, k in reversed(self.rel):
            es = [{m: decode(m).get(y, 0) for m in p} for p in ps]
            lo = min([e for d in es for e in d.values()] + [0])
            hi = max([e for d in es for e in d.values()] + [0])
            if lo == hi == 0:
                continue
            power = [{0: 1}]
            while len(power) <= hi - lo:
                power.append(self.mul(power[-1], k))
            out = []
            for p, d in zip(ps, es):
                parts = {}
                for m, e in d.items():
                    parts.setdefault(e, {})[m - (e << (W * y))] = p[m]
                r = {}
                for e, q in parts.items():
                    r = self.add(r, self.mul(q, power[e - lo]))
                out.append(r)
            ps = out
        return ps

    def sample(self, names, rng):
        """A point that satisfies the assumptions used: random values of what is left free."""
        val = {i: rng.randrange(1, P) for i in range(len(self.index))}
        env = {}
        for n in names:
            if n not in self.index:
                env[n] = rng.randrange(P)
                continue
            x = 0
            for m, c in self.var(self.index[n]).items():
                for i, e in decode(m).items():
                    c = c * pow(val[i], e % (P - 1), P) % P
                x += c
            env[n] = x % P
        return env

    def var(self, i):
        """The polynomial of a variable, after all substitutions."""
        if i not in self.subst:
            return {1 << (W * i): 1}
        q = self.subst[i]
        todo = {j for m in q for j in decode(m) if j in self.subst}
        for j in todo:
            pj, out = self.var(j), {}
            for m, c in q.items():
                e = decode(m).get(j, 0)
                t = {m - (e << (W * j)): c}
                if e < 0:
                    raise TooBig
                for _ in range(e):
                    t = self.mul(t, pj)
                out = self.add(out, t)
            q = out
        self.subst[i] = q
        return q
