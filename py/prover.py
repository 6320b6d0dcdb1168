"""Equality of DAG terms over Fq, decided by an SMT solver.

Encoding.  Terms become integers, field equality becomes `(l - r) mod p = 0`.  Sums and
multiplications by constants are emitted as they stand (define-fun per node); a product of two
non-constant terms becomes an uninterpreted integer `m_j` identified by its multiset of factor
classes.  Two factors fall in the same class (up to a constant) when they agree on random
samples; each such identification is itself an obligation `factor = c * representative` that the
solver has to discharge together with the goals.  The identifications are well-founded (an
obligation only relies on identifications strictly below it), so if the disjunction of all
negated obligations and goals is unsatisfiable, all of them hold for every value of the
variables.  Samples are used only to guess; they never establish an equality.
"""
import laurent
import random
import time
from math import gcd
from field import P, sym, smt_int
import solver


class Result:
    def __init__(self):
        self.proven = []      # labels
        self.refuted = []     # (label, env)
        self.unknown = []     # labels
        self.terms = 0
        self.obligations = 0
        self.queries = 0


def solve_affine(dag, e, env, order=None, avoid=(), rng=None):
    """Modify env so that e = 0, by changing one variable in which e is affine.  True if done."""
    order = order or dag.cone([e])
    if dag.eval([e], env, order)[e] == 0:
        return True
    names = [dag.op[n][1] for n in order if dag.op[n][0] == "v"]
    if rng:
        rng.shuffle(names)
    for v in sorted(names, key=lambda n: n in avoid):
        save = env[v]
        ys = []
        for x in (0, 1, 2):
            env[v] = x
            ys.append(dag.eval([e], env, order)[e])
        slope = (ys[1] - ys[0]) % P
        if slope and (ys[2] - ys[1] - slope) % P == 0:
            env[v] = -ys[0] * pow(slope, P - 2, P) % P
            if dag.eval([e], env, order)[e] == 0:
                return True
        env[v] = save
    return False


class Prover:
    def __init__(self, dag, rng, samples=3, timeout=60, crosscheck=False, nonzero=()):
        """nonzero: terms known to be nonzero (on the path under consideration)."""
        self.dag, self.rng, self.k = dag, rng, samples
        self.nonzero = set(nonzero)
        self.timeout, self.crosscheck = timeout, crosscheck

    # -- sampling -------------------------------------------------------------------------
    def sample_env(self, names, zero=()):
        if not zero:
            return {n: self.rng.randrange(P) for n in names}
        import model
        return model.find(self.dag, zero, self.rng, names=names)

    # -- normal forms ---------------------------------------------------------------------
    def classify(self, roots, envs, generic=(), path_consts=True):
        """envs: samples of the path; generic: samples of the whole space, when the path is a proper part of it.
        Terms that agree everywhere are identified first, then those that agree on the path."""
        dag, op = self.dag, self.dag.op
        order = dag.cone(roots)
        vals = [dag.eval(roots, e, order) for e in envs]
        gvals = [dag.eval(roots, e, order) for e in generic]
        mono = {}         # node -> (coef, ((base, exp), ...)); sums are absent
        obligations = []  # (node, coef, other node or None, node that relies on it)
        table = {}
        base_node = {}
        nonzero_bases = set()  # bases whose product is known to be nonzero: their powers may be negative

        def const_class(n):
            """Value if the node is the same constant on every sample."""
            for vs in [gvals, vals] if gvals and path_consts else [gvals or vals]:
                x = {v[n] for v in vs}
                if len(x) == 1 and len(vs) > 1:
                    return x.pop()
            return None

        def keys(n):
            out = []
            for tag, vs in (("g", gvals), ("p", vals)) if gvals else (("p", vals),):
                x = [v[n] for v in vs]
                i = next((j for j, y in enumerate(x) if y), None)
                if i is None or (gvals and tag == "p" and len(set(x)) == 1):
                    continue  # zero, or constant on the path: proportional to anything constant
                f = pow(x[i], P - 2, P)
                out.append(((tag, i) + tuple(y * f % P for y in x), x[i]))
            return out

        def as_mono(n, user):
            """Coefficient and monomial of a factor, possibly via an identification."""
            if op[n][0] == "k":
                return op[n][1], ()
            c = const_class(n)
            if c is not None:
                obligations.append((n, c, None, user))
                return c, ()
            if n in mono and op[n][0] != "v":
                return mono[n]
            for kk, scale in keys(n):
                if kk in table:
                    rep, rscale = table[kk]
                    if rep == n:
                        return 1, ((n, 1),)
                    co = scale * pow(rscale, P - 2, P) % P
                    obligations.append((n, co, rep, user))
                    return (co, ((rep, 1),)) if rep not in mono or op[rep][0] == "v" else (co * mono[rep][0] % P, mono[rep][1])
            for kk, scale in keys(n):
                table[kk] = (n, scale)
            return 1, ((n, 1),)

        def times(a, b):
            (ca, ma), (cb, mb) = a, b
            c = ca * cb % P
            if c == 0:
                return 0, ()
            d = dict(ma)
            for x, e in mb:
                d[x] = d.get(x, 0) + e
            return c, tuple(sorted((x, e) for x, e in d.items() if e))

        for n in order:
            o = op[n]
            t = o[0]
            if t == "k":
                mono[n] = (o[1], ())
            elif t == "v":
                mono[n] = (1, ((n, 1),))
            elif t == "*":
                a, b = o[1], o[2]
                if op[a][0] == "k":
                    if b in mono:
                        mono[n] = times((op[a][1], ()), mono[b])
                else:
                    mono[n] = times(as_mono(a, n), as_mono(b, n))
            elif t == "n":
                if o[1] in mono:
                    c, m = mono[o[1]]
                    mono[n] = (-c % P, m)
            elif t == "i":
                c, m = as_mono(o[1], n)
                if o[1] in self.nonzero:
                    nonzero_bases.update(b for b, _ in m)
                if c and m and all(b in nonzero_bases for b, _ in m):
                    mono[n] = (pow(c, P - 2, P), tuple((b, -e) for b, e in m))
                elif c == 0 or m == ():
                    mono[n] = (pow(c, P - 2, P), ())
                else:
                    b = ("i", m)
                    base_node.setdefault(b, n)
                    kk = ("inv", m)
                    rep = table.setdefault(kk, (n, 0))[0]
                    mono[n] = (pow(c, P - 2, P), ((rep, 1),))
            if n in mono and t in "*i" and mono[n][0] and mono[n][1]:
                for kk, scale in keys(n):
                    table.setdefault(kk, (n, scale))
        return order, vals, mono, obligations

    # -- SMT emission ---------------------------------------------------------------------
    def emit(self, mono, roots):
        dag, op = self.dag, self.dag.op
        atoms, lines, done = {}, [], {}

        def atom(m):
            a = atoms.get(m)
            if a is None:
                if len(m) == 1 and m[0][1] == 1 and op[m[0][0]][0] == "v":
                    a = "|v_" + op[m[0][0]][1] + "|"
                else:
                    a = f"m{len(atoms)}"
                atoms[m] = a
                lines.append(f"(declare-const {a} Int)")
            return a

        # collect needed nodes: stop at monomials
        need, stack = set(), list(roots)
        while stack:
            n = stack.pop()
            if n in need:
                continue
            need.add(n)
            if n not in mono and op[n][0] not in "kv":
                stack.extend(op[n][1:])
        for n in sorted(need):
            if n in mono:
                c, m = mono[n]
                if c == 0 or m == ():
                    done[n] = smt_int(sym(c if m == () else 0))
                else:
                    a = atom(m)
                    done[n] = a if c == 1 else f"(* {smt_int(sym(c))} {a})"
                continue
            o = op[n]
            if o[0] in "+-":
                body = f"({o[0]} {done[o[1]]} {done[o[2]]})"
            elif o[0] == "n":
                body = f"(- {done[o[1]]})"
            elif o[0] == "*":
                body = f"(* {smt_int(sym(op[o[1]][1]))} {done[o[2]]})"
            else:
                raise RuntimeError("unexpected " + o[0])
            lines.append(f"(define-fun t{n} () Int {body})")
            done[n] = f"t{n}"
        return lines, done, atoms

    # -- main entry -----------------------------------------------------------------------
    def prove(self, goals, zero=(), extra_envs=(), depth=0):
        """goals: [(label, a, b)].  zero: terms assumed to be 0 on this path."""
        pre = Result()
        given, zero = list(zero), self.lift(zero, pre)
        res = self._prove(goals, zero, extra_envs, given=given)
        res.queries += pre.queries
        res.obligations += pre.obligations
        if res.unknown and zero:
            q = self._prove([g for g in goals if g[0] in res.unknown], zero, extra_envs, False, given)
            res.obligations += q.obligations
            res.queries += q.queries
            res.proven += q.proven
            res.refuted += q.refuted
            res.unknown = q.unknown
        if not res.unknown or not zero or depth > 3:
            return res
        # a vanishing product: one of its factors vanishes (F_p has no zero divisors)
        fs = self.factors(zero)
        if fs:
            z, bases = fs
            left = [g for g in goals if g[0] in res.unknown]
            parts = []
            for b in bases:
                q = self.prove(left, [b if x == z else x for x in zero], extra_envs, depth + 1)
                parts.append(q)
                res.terms += q.terms
                res.obligations += q.obligations
                res.queries += q.queries
                if q.refuted:
                    res.refuted += q.refuted
                    break
            bad = {l for l, _ in res.refuted}
            done = {l for l in res.unknown if all(l in q.proven for q in parts)} if len(parts) == len(bases) else set()
            res.proven += [l for l in res.unknown if l in done]
            res.unknown = [l for l in res.unknown if l not in done and l not in bad]
        return res

    def factors(self, zero):
        """(z, its factors) for a product among the assumptions, reading off the term itself."""
        op = self.dag.op
        for z in zero:
            out, stack = [], [z]
            while stack:
                n = stack.pop()
                if op[n][0] == "*":
                    stack += [x for x in op[n][1:] if op[x][0] != "k"]
                elif op[n][0] == "n":
                    stack.append(op[n][1])
                elif op[n][0] == "i":
                    stack.append(op[n][1])  # the total inverse vanishes where its argument does
                elif n not in out:
                    out.append(n)
            if len(out) > 1 or (out and out[0] != z):
                return z, out
        return None

    def lift(self, zero, res):
        """Equivalent assumptions, simpler where they pin a power: c b^e + c0 = 0 with e invertible modulo p - 1 holds
        exactly when b is the e-th root of -c0/c.  The solver confirms that (a combination of) the assumptions has that form."""
        import model
        from field import root
        zero = list(dict.fromkeys(zero))
        for _ in range(8):
            live = [z for z in zero if self.dag.const_of(z) is None]
            if not live:
                break
            names = self.dag.variables(live)
            _, _, mono, _ = self.classify(live, [{n: self.rng.randrange(P) for n in names} for _ in range(3)])
            memo, rows = {}, []
            for z in live:  # [affine form, combination of assumptions]
                row, comb = dict(model._affine(self.dag, mono, z, memo)), {z: 1}
                for piv, pr, pc in rows:
                    q = row.get(piv, 0)
                    if q:
                        row = {m: (row.get(m, 0) - q * pr.get(m, 0)) % P for m in {**row, **pr}}
                        comb = {y: (comb.get(y, 0) - q * pc.get(y, 0)) % P for y in {**comb, **pc}}
                row = {m: c for m, c in row.items() if c}
                piv = next((m for m in row if m), None)
                if piv is None:
                    continue
                f = pow(row[piv], P - 2, P)
                row = {m: c * f % P for m, c in row.items()}
                comb = {y: c * f % P for y, c in comb.items()}
                new = []
                for pv, pr, pc in rows:
                    q = pr.get(piv, 0)
                    if q:
                        pr = {m: (pr.get(m, 0) - q * row.get(m, 0)) % P for m in {**row, **pr}}
                        pc = {y: (pc.get(y, 0) - q * comb.get(y, 0)) % P for y in {**comb, **pc}}
                        pr = {m: c for m, c in pr.items() if c}
                    new.append((pv, pr, pc))
                rows = new + [(piv, row, comb)]
            done = None
            for piv, row, comb in rows:
                if set(row) - {piv, ()} or len(piv) != 1:
                    continue
                (b, e), y = piv[0], -row.get((), 0) % P
                if e < 2 or self.dag.op[b][0] == "i" or (y and gcd(e, P - 1) != 1):
                    continue
                r = 0 if not y else pow(y, pow(e, -1, P - 1), P)
                d = self.dag
                lhs = d.sum([d.mul(d.k(c), z) for z, c in comb.items() if c])
                res.queries += 1
                q = self._prove([("lift", lhs, d.sub(d.pow(b, e), d.k(y)))])
                res.obligations += q.obligations
                if not q.proven:
                    continue
                # one assumption of the combination is replaced
                out = next(z for z in reversed(live) if comb.get(z))
                done = (out, d.sub(b, d.k(r)))
                break
            if not done:
                break
            zero = [done[1] if z == done[0] else z for z in zero]
        return zero

    def _prove(self, goals, zero=(), extra_envs=(), path_consts=True, given=()):
        res = Result()
        dag = self.dag
        goals = list(goals)
        roots = [x for _, a, b in goals for x in (a, b)] + list(zero)
        if not goals:
            return res
        names = dag.variables(roots)
        envs = []
        for e in extra_envs:
            envs.append(e)
        feasible_sampling = True
        for _ in range(self.k):
            e = self.sample_env(names, given or zero)
            if e is None and given and given != zero:
                e = self.sample_env(names, zero)
            if e is None:
                feasible_sampling = False
                e = {n: self.rng.randrange(P) for n in names}
            envs.append(e)
        generic = [{n: self.rng.randrange(P) for n in names} for _ in range(self.k)] if zero else ()
        order, vals, mono, obl = self.classify(roots, envs, generic, path_consts)
        res.terms = len(order)
        live = []
        for label, a, b in goals:
            bad = next((i for i, v in enumerate(vals) if v[a] != v[b]), None)
            if bad is not None and (feasible_sampling or not zero):
                res.refuted.append((label, envs[bad]))
            elif a == b:
                live.append((label, a, b))
            else:
                live.append((label, a, b))
        if not live:
            return res
        # only obligations below live goals matter
        okset = set(dag.cone([x for _, a, b in live for x in (a, b)] + list(zero)))
        zero = sorted(set(zero))
        pairs = {(n, c, r) for n, c, r, u in obl if u in okset}
        res.obligations = len(pairs) + len(live)
        # the encoding of an assumption may only rely on identifications proven without it
        srt = lambda ps: sorted(ps, key=lambda x: (x[0], x[1], x[2] or 0))
        have, rest = [], zero
        while rest:
            late = []
            for z in rest:
                cone = set(dag.cone([z]))
                need = {(n, c, r) for n, c, r, u in obl if u in cone}
                if need:
                    res.queries += 1
                if need and self._query([], srt(need), have, mono) != "unsat":
                    late.append(z)
                else:
                    have.append(z)
            if len(late) == len(rest):
                res.unknown = [l for l, _, _ in live]
                return res
            rest = late
        verdict = self._query(live, sorted(pairs, key=lambda x: (x[0], x[1], x[2] or 0)), zero, mono)
        res.queries += 1
        if verdict == "unsat":
            res.proven = [l for l, _, _ in live]
            return res
        live = self._laurent(live, zero, res)
        if not live:
            return res
        # individually, then by full polynomial expansion
        bad_pairs = []
        for pr in sorted(pairs, key=lambda x: (x[0], x[1], x[2] or 0)):
            v = self._query([], [pr], zero, mono)
            res.queries += 1
            if v != "unsat" and not self._poly_equal(pr[0], pr[1], pr[2], zero):
                bad_pairs.append(pr)
        tainted = bool(bad_pairs)
        for label, a, b in live:
            v = "unknown" if tainted else self._query([(label, a, b)], [], zero, mono)
            res.queries += 1
            if v == "unsat":
                res.proven.append(label)
            elif self._poly_equal(a, 1, b, zero):
                res.proven.append(label)
            else:
                res.unknown.append(label)
        return res

    def _laurent(self, goals, zero, res):
        """Goals over Laurent polynomials (laurent.py); returns those left."""
        if not zero and not any(self.dag.op[x][0] == "i" for x in self.dag.cone([x for _, a, b in goals for x in (a, b)])):
            return goals
        L = laurent.Laurent(self.dag, self.nonzero, zero)
        try:
            ps = L.polys([x for _, a, b in goals for x in (a, b)])
        except laurent.TooBig:
            return goals
        except laurent.Contradiction:
            # the assumptions exclude each other
            res.proven += [l for l, _, _ in goals]
            return []
        left, text, names = [], [], {}

        def txt(p):
            return "(+ 0 " + " ".join(f"(* {smt_int(sym(c))} {names.setdefault(m, f'q{len(names)}')})" if m else smt_int(sym(c)) for m, c in p.items()) + ")"
        held = []
        for k, g in enumerate(goals):
            a, b = ps[2 * k], ps[2 * k + 1]
            if a != b and L.rel:
                try:
                    a, b = L.clear(a, b)
                except laurent.TooBig:
                    pass
            if a != b:
                left.append(g)
                continue
            held.append(g[0])
            text.append(f"(not (= (mod (- {txt(a)} {txt(b)}) {P}) 0))")
        if held:
            q = "(set-logic ALL)\n" + "".join(f"(declare-const {n} Int)\n" for n in names.values()) + "(assert (or false " + "\n".join(text) + "))\n(check-sat)\n"
            res.queries += 1
            if solver.check(q, self.timeout, self.crosscheck)[0] != "unsat":
                return goals
            res.proven += held
        return left

    def twin(self, goal, zero=()):
        """Vacuity guard: the same goal with one side shifted by 1 must be satisfiable."""
        label, a, b = goal
        names = self.dag.variables([a, b] + list(zero))
        envs = [self.sample_env(names, zero) or {n: self.rng.randrange(P) for n in names} for _ in range(self.k)]
        b1 = self.dag.add(b, self.dag.k(1))
        _, _, mono, obl = self.classify([a, b1] + list(zero), envs)
        return self._query([(label, a, b1)], [], zero, mono, twin=True) == "sat"

    def _query(self, goals, pairs, zero, mono, twin=False):
        roots = [x for _, a, b in goals for x in (a, b)] + [x for n, _, r in pairs for x in (n, r) if x] + list(zero)
        lines, done, atoms = self.emit(mono, roots)
        neg = []
        for _, a, b in goals:
            neg.append(f"(not (= (mod (- {done[a]} {done[b]}) {P}) 0))")
        for n, c, r in pairs:
            rhs = smt_int(sym(c)) if r is None else (done[r] if c == 1 else f"(* {smt_int(sym(c))} {done[r]})")
            neg.append(f"(not (= (mod (- {done[n]} {rhs}) {P}) 0))")
        if zero:
            lines = self._assume(zero, mono, lines, atoms)
        text = "(set-logic ALL)\n" + "\n".join(lines) + "\n(assert (or false " + "\n".join(neg) + "))\n(check-sat)\n"
        r, _ = solver.check(text, self.timeout, self.crosscheck)
        return r

    def _assume(self, zero, mono, lines, atoms):
        """Path equalities.  Atoms stand for residue classes, so `sum c_i a_i = 0 (mod p)` with c_k != 0 is
        imposed by choosing the representative a_k := -sum (c_i / c_k) a_i; the rest stays free."""
        import model
        memo, rows = {}, []
        for z in zero:
            row = dict(model._affine(self.dag, mono, z, memo))
            for piv, pr in rows:
                q = row.pop(piv, 0)
                if q:
                    for m, c in pr.items():
                        row[m] = (row.get(m, 0) + q * c) % P
            row = {m: c for m, c in row.items() if c}
            ks = [m for m in row if m != ()]
            if not ks:
                if row:
                    lines = lines + ["(assert false)"]
                continue
            piv = max(ks, key=lambda m: (m not in atoms, m))
            f = -pow(row.pop(piv), P - 2, P)
            new = {m: c * f % P for m, c in row.items()}
            out = []
            for pv, pr in rows:
                q = pr.pop(piv, 0)
                if q:
                    for m, c in new.items():
                        pr[m] = (pr.get(m, 0) + q * c) % P
                out.append((pv, {m: c for m, c in pr.items() if c}))
            rows = out + [(piv, new)]
        pivs = {p for p, _ in rows}
        decl = {f"(declare-const {a} Int)": m for m, a in atoms.items()}
        extra = 0
        head, tail = [], []
        names = dict(atoms)
        for _, pr in rows:
            for m in pr:
                if m != () and m not in names:
                    names[m] = f"h{extra}"
                    extra += 1
                    head.append(f"(declare-const {names[m]} Int)")
        for l in lines:
            if l in decl:
                if decl[l] not in pivs:
                    head.append(l)
            else:
                tail.append(l)
        for pv, pr in rows:
            if pv in atoms:
                ts = [smt_int(sym(c)) if m == () else f"(* {smt_int(sym(c))} {names[m]})" for m, c in pr.items()]
                head.append(f"(define-fun {atoms[pv]} () Int (+ 0 0 {' '.join(ts)}))")
        return head + tail

    # -- full polynomial expansion --------------------------------------------------------
    def _poly_equal(self, a, c, b, zero, limit=120000):
        """a == c*b as rational functions, terms expanded into monomials over the variables, the
        cancellation decided by the solver.  Only without path assumptions."""
        if zero:
            return self._combination(a, c, b, zero)
        _UNTIL[0] = time.time() + self.timeout
        try:
            na, da = self._expand(a, limit)
            nb, db = self._expand(b, limit) if b is not None else ({(): 1}, {(): 1})
            l = _pmul(na, db, limit)
            r = _pmul({m: x * c % P for m, x in nb.items()}, da, limit)
        except OverflowError:
            return False
        names = {}

        def txt(p):
            if not p:
                return "0"
            ts = []
            for m, x in p.items():
                if m == ():
                    ts.append(smt_int(sym(x)))
                else:
                    nm = names.setdefault(m, f"q{len(names)}")
                    ts.append(f"(* {smt_int(sym(x))} {nm})")
            return "(+ 0 " + " ".join(ts) + ")"

        L, R_ = txt(l), txt(r)
        text = "(set-logic ALL)\n" + "".join(f"(declare-const {q} Int)\n" for q in names.values())
        text += f"(assert (not (= (mod (- {L} {R_}) {P}) 0)))\n(check-sat)\n"
        v, _ = solver.check(text, self.timeout, self.crosscheck)
        return v == "unsat"

    def _combination(self, a, c, b, zero):
        """Under assumptions: a - c b is a constant multiple of a single assumed-zero term, identically."""
        d = self.dag
        e = d.sub(a, d.mul(d.k(c), b) if b is not None else d.k(c))
        for z in zero:
            names = d.variables([e, z])
            q = set()
            for _ in range(2):
                v = d.eval([e, z], {n: self.rng.randrange(P) for n in names})
                q.add(v[e] * pow(v[z], P - 2, P) % P)
            if len(q) == 1 and self._poly_equal(e, q.pop(), z, ()):
                return True
        return False

    def _expand(self, n, limit):
        """(numerator, denominator) polynomials; denominators are inverted terms, nonzero on the path."""
        memo = {}
        op = self.dag.op
        one = {(): 1}
        for x in self.dag.cone([n]):
            o = op[x]
            t = o[0]
            if t == "k":
                memo[x] = ({(): o[1]} if o[1] else {}, one)
            elif t == "v":
                memo[x] = ({((o[1], 1),): 1}, one)
            elif t in "+-":
                (n1, d1), (n2, d2) = memo[o[1]], memo[o[2]]
                s = 1 if t == "+" else P - 1
                if d1 == d2:
                    memo[x] = (_padd(n1, n2, s), d1)
                elif d1 == one:
                    memo[x] = (_padd(_pmul(n1, d2, limit), n2, s), d2)
                elif d2 == one:
                    memo[x] = (_padd(n1, _pmul(n2, d1, limit), s), d1)
                else:
                    memo[x] = (_padd(_pmul(n1, d2, limit), _pmul(n2, d1, limit), s), _pmul(d1, d2, limit))
            elif t == "*":
                (n1, d1), (n2, d2) = memo[o[1]], memo[o[2]]
                if d1 == n2 and d1 != one:
                    memo[x] = (n1, d2)
                elif d2 == n1 and d2 != one:
                    memo[x] = (n2, d1)
                else:
                    memo[x] = (_pmul(n1, n2, limit), _pmul(d1, d2, limit))
            elif t == "n":
                n1, d1 = memo[o[1]]
                memo[x] = ({m: -c % P for m, c in n1.items()}, d1)
            else:
                if o[1] not in self.nonzero:
                    raise OverflowError("inverse of a term not known to be nonzero")
                n1, d1 = memo[o[1]]
                memo[x] = (d1, n1)
        return memo[n]


_UNTIL = [0]  # an expansion stops here


def _padd(a, b, s):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + s * c) % P
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def _pmul(a, b, limit):
    if len(a) * len(b) > 40 * limit or solver.late() or time.time() > _UNTIL[0]:
        raise OverflowError
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = (r.get(m, 0) + c1 * c2) % P
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > limit:
        raise OverflowError
    return r
