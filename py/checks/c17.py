"""C17: the shipped permutations are bijective.

The output terms of the compiled code are affine combinations of inputs and of powers of such combinations.  Going
backwards, L_k is the space of combinations of the inputs and the first k powers that the rest of the computation reads
(L_m: the outputs).  The solver shows, step by step, that the values on L_k determine the k-th power, hence its root, hence
the values on L_(k-1), and that L_0 determines the inputs: so different inputs never give equal outputs.  Where that
fails (a dimension is lost, an exponent has no root), the same linear algebra yields two colliding states, which are run
through the real code.  Data-dependent branches of the code must agree with the bijection of the main path; where one
does not (it maps z to o), the state the bijection maps to o is z's partner."""
import math
import engine, field, solver
from checks.matrices import *

CONFIGS = ["min-dev", "all-dev", "all-rel"]


class Unrecognised(Exception):
    pass


def combine(a, b, s):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + s * c) % P
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


class Space:
    """Span of linear forms over atoms, kept reduced; every vector also as a combination of the generators."""

    def __init__(self):
        self.rows = []  # (pivot, form, combination {generator: coef})

    def reduce(self, f):
        f, c = dict(f), {}
        for piv, g, gc in self.rows:
            q = f.get(piv, 0)
            if q:
                f = combine(f, g, -q)
                c = combine(c, gc, -q)
        return f, c

    def add(self, f, name):
        """Add generator; True if it enlarges the space."""
        f, c = self.reduce(f)
        if not f:
            return False
        piv = next(iter(f))
        i = pow(f[piv], P - 2, P)
        f = {m: x * i % P for m, x in f.items()}
        c = {m: x * i % P for m, x in combine(c, {name: 1}, 1).items()}
        self.rows = [(p, combine(g, f, -g.get(piv, 0)), combine(gc, c, -g.get(piv, 0))) for p, g, gc in self.rows] + [(piv, f, c)]
        return True

    def express(self, f):
        """Coefficients over the generators, or None."""
        r, c = self.reduce(f)
        return None if r else {m: -x % P for m, x in c.items()}


class Structure:
    """Inputs, powers and the spaces between them, for one set of output terms."""

    def __init__(self, dag, outs, w):
        self.dag, self.w = dag, w
        op = dag.op
        self.forms, power, self.atoms, index = {}, {}, [], {}

        def form(n):
            if n in self.forms:
                return self.forms[n]
            return self.forms.setdefault(n, atom(n))

        def atom(n):  # a power, used linearly
            b, e = power[n]
            key = (b, e)
            if key not in index:
                f, c = form(b)
                index[key] = len(self.atoms)
                self.atoms.append(dict(base=b, exp=e, form=f, const=c, node=n))
            return {("s", index[key]): 1}, 0

        def factor(n):
            if n in power:
                return power[n]
            f, c = form(n)
            if not f:
                raise Unrecognised("constant factor")
            return n, 1
        for n in dag.cone(outs):
            o = op[n]
            if o[0] == "k":
                self.forms[n] = ({}, o[1])
            elif o[0] == "v":
                self.forms[n] = ({("x", int(o[1].split(".")[1])): 1}, 0)
            elif o[0] in "+-":
                (f, c), (g, e) = form(o[1]), form(o[2])
                s = 1 if o[0] == "+" else -1
                self.forms[n] = (combine(f, g, s), (c + s * e) % P)
            elif o[0] == "n":
                f, c = form(o[1])
                self.forms[n] = (combine({}, f, -1), -c % P)
            elif o[0] == "*" and (op[o[1]][0] == "k" or op[o[2]][0] == "k"):
                k, y = (o[1], o[2]) if op[o[1]][0] == "k" else (o[2], o[1])
                f, c = form(y)
                self.forms[n] = ({m: x * op[k][1] % P for m, x in f.items()}, c * op[k][1] % P)
            elif o[0] == "*":
                (a, i), (b, j) = factor(o[1]), factor(o[2])
                if a != b:
                    raise Unrecognised("product of two different terms")
                power[n] = (a, i + j)
            else:
                a, i = factor(o[1])
                power[n] = (a, -i)
        self.outs = [form(n) for n in outs]
        # backwards
        m = len(self.atoms)
        self.bases = [None] * (m + 1)   # generators (forms) of L_k
        self.bases[m] = self._independent([f for f, _ in self.outs])
        self.steps = [None] * (m + 1)
        for k in range(m, 0, -1):
            s = ("s", k - 1)
            B = self.bases[k]
            piv = next((f for f in B if f.get(s)), None)
            if piv is None:
                self.bases[k - 1] = B
                self.steps[k] = ("dead",)
                continue
            i = pow(piv[s], P - 2, P)
            piv = {x: c * i % P for x, c in piv.items()}
            us = [u for u in (combine(f, piv, -f.get(s, 0)) for f in B) if u]
            us = self._independent(us)
            u0 = combine(piv, {s: 1}, -1)
            f = self.atoms[k - 1]["form"]
            self.steps[k] = ("live", piv, us, u0, f)
            self.bases[k - 1] = self._independent(us + [u0, f])

    @staticmethod
    def _independent(fs):
        sp, out = Space(), []
        for f in fs:
            if sp.add(f, len(out)):
                out.append(f)
        return out

    def space(self, k):
        sp = Space()
        for i, f in enumerate(self.bases[k]):
            sp.add(f, i)
        return sp

    def lost(self):
        """Smallest k whose space has fewer dimensions than the state, or None."""
        return next((k for k, b in enumerate(self.bases) if len(b) < self.w), None)

    def kind(self, k):
        """How step k is undone: 'power' (u0 follows from the others), 'feistel' (the base does), or None."""
        st = self.steps[k]
        if st[0] == "dead":
            return "dead"
        sp = Space()
        for i, u in enumerate(st[2]):
            sp.add(u, i)
        if sp.express(st[3]) is not None:
            return "power"
        return "feistel" if sp.express(st[4]) is not None else None

    def base_value(self, k, val):
        """Value of the base of atom k-1 given the linear part."""
        return (val + self.atoms[k - 1]["const"]) % P

    def pull(self, k, vals):
        """Values (linear parts) on the basis of L_k -> values on the basis of L_(k-1)."""
        st = self.steps[k]
        if st[0] == "dead":
            return vals
        sp = self.space(k)
        ev = lambda f: sum(c * vals[i] for i, c in sp.express(f).items()) % P
        _, piv, us, u0, f = st
        a = self.atoms[k - 1]
        names = [(u, ev(u)) for u in us]
        su = Space()
        for i, u in enumerate(us):
            su.add(u, i)
        low = lambda g: sum(c * names[i][1] for i, c in su.express(g).items()) % P
        kind = self.kind(k)
        if kind == "power":
            v0 = low(u0)
            b = pow((ev(piv) - v0) % P, pow(a["exp"], -1, P - 1), P)
            vf = (b - a["const"]) % P
        elif kind == "feistel":
            vf = low(f)
            v0 = (ev(piv) - pow((vf + a["const"]) % P, a["exp"] % (P - 1), P)) % P
        else:
            raise Unrecognised("step cannot be undone")
        su.add(u0, "u0")
        su.add(f, "f")
        full = {**{i: v for i, (_, v) in enumerate(names)}, "u0": v0, "f": vf}
        return [sum(c * full[i] for i, c in su.express(g).items()) % P for g in self.bases[k - 1]]

    def down(self, k, vals):
        """From values on L_k to the inputs (spaces below have full dimension)."""
        for j in range(k, 0, -1):
            vals = self.pull(j, vals)
        return self.inputs(vals)

    def inputs(self, vals):
        rows = [[f.get(("x", i), 0) for i in range(self.w)] for f in self.bases[0]]
        return field.mat_solve(rows, vals)

    def invert(self, out):
        """The input state with these outputs."""
        sp = Space()
        for i, (f, _) in enumerate(self.outs):
            sp.add(f, i)
        m = len(self.atoms)
        vals = [sum(c * (out[i] - self.outs[i][1]) for i, c in sp.express(f).items()) % P for f in self.bases[m]]
        return self.down(m, vals)

    def collide(self, rng):
        """Two input states the terms map to one output, using a lost dimension."""
        k = self.lost()
        if k == 0:
            rows = [[f.get(("x", i), 0) for i in range(self.w)] for f in self.bases[0]]
            for i in range(self.w):  # fix x_i = 1, solve for the rest
                rest = [j for j in range(self.w) if j != i]
                y = field.mat_solve([[r[j] for j in rest] for r in rows], [-r[i] % P for r in rows])
                if y is not None:
                    x = [0] * self.w
                    x[i] = 1
                    for j, v in zip(rest, y):
                        x[j] = v
                    return [0] * self.w, x
        st = self.steps[k]
        _, piv, us, u0, f = st
        a = self.atoms[k - 1]
        su = Space()
        for i, g in enumerate(us):
            su.add(g, i)
        if not (su.add(u0, "u0") and su.add(f, "f")):
            raise Unrecognised("no free direction")
        low, b0, res = [rng.randrange(P) for _ in us], rng.randrange(P), []
        for _ in range(2):
            vf = rng.randrange(P)
            full = {**dict(enumerate(low)), "f": vf, "u0": (b0 - pow((vf + a["const"]) % P, a["exp"] % (P - 1), P)) % P}
            vals = [sum(c * full[i] for i, c in su.express(g).items()) % P for g in self.bases[k - 1]]
            res.append(self.down(k - 1, vals))
        return tuple(res)

    def roots(self, k, rng):
        """Two input states differing at power k by a root of unity (its exponent is not invertible)."""
        st, a = self.steps[k], self.atoms[k - 1]
        g = math.gcd(abs(a["exp"]), P - 1)
        q = next(f for f in range(2, g + 1) if g % f == 0)
        om = next(r for r in (pow(b, (P - 1) // q, P) for b in range(2, 99)) if r != 1)
        _, piv, us, u0, f = st
        su = Space()
        for i, u in enumerate(us):
            su.add(u, i)
        if not su.add(f, "f"):
            raise Unrecognised("base of the power is not free")
        su.add(u0, "u0")
        low, b, res = [rng.randrange(P) for _ in us], rng.randrange(1, P), []
        free0 = rng.randrange(P)
        for v in (b, b * om % P):
            full = {**dict(enumerate(low)), "f": (v - a["const"]) % P, "u0": free0}
            vals = [sum(c * full[i] for i, c in su.express(g2).items()) % P for g2 in self.bases[k - 1]]
            res.append(self.down(k - 1, vals))
        return tuple(res)


    def mixed(self, k, rng):
        """Two input states that agree on L_k where the power meets its own base: b^e + c b is not injective."""
        _, piv, us, u0, f = self.steps[k]
        a, e = self.atoms[k - 1], self.atoms[k - 1]["exp"]
        su = Space()
        for i, u in enumerate(us):
            su.add(u, i)
        su.add(f, "f")
        c = su.express(u0)["f"]
        low = [rng.randrange(P) for _ in us]
        for _ in range(2000):
            r = rng.randrange(2, P)
            q = (1 - pow(r, e, P)) % P
            if e < 2 or not q:
                continue
            b = field.root(-c * (1 - r) * pow(q, P - 2, P) % P, e - 1, rng)
            if b:
                res = []
                for v in (b, b * r % P):
                    full = {**dict(enumerate(low)), "f": (v - a["const"]) % P}
                    vals = [sum(x * full[i] for i, x in su.express(g).items()) % P for g in self.bases[k - 1]]
                    res.append(self.down(k - 1, vals))
                return tuple(res)
        raise Unrecognised("no colliding pair found")


def exponent_ok(t, e):
    """x^e is injective on F_p iff e d = 1 (mod p - 1) for some d (Fermat): the solver finds d or refutes it."""
    e = abs(e)
    text = (f"(set-logic ALL)\n(declare-const d Int)\n(declare-const k Int)\n(assert (and (<= 0 d) (< d {P - 1}) (<= 0 k) (<= k {e})))\n"
            f"(assert (= (- (* {e} d) 1) (* k {P - 1})))\n(check-sat)\n")
    v, _ = solver.check(text, 30)
    t.r["queries"] += 1
    t.r["obligations"] += 1
    if v == "sat":
        t.r["proven"] += 1
    elif v != "unsat":
        t.error("S-box exponent: inconclusive")
    return v != "unsat"


def collision(t, config, n, which, z, y, why):
    """Do two different states lead to one output state in the real code?"""
    if z is None or y is None or z == y:
        return False
    outs = []
    for s in (z, y):
        rr = t.real(config, ["shipped", n], {f"x.{i}": x for i, x in enumerate(s)})
        outs.append([rr.out.get(f"{which}.{i}") for i in range(n + 1)])
    if None in outs[0] or outs[0] != outs[1]:
        return False
    t.violation(f"{which}: two states lead to one output state ({why})", config, ["shipped", n], {f"x.{i}": x for i, x in enumerate(z)},
                detail=dict(other_state=[hex(x) for x in y], common_output=[hex(x) for x in outs[0]]))
    return True


def injective(t, st, which, config, n):
    """Show the terms injective step by step, or report a collision."""
    d, w, m = engine.DAG(), n + 1, len(st.atoms)
    for k in range(1, m + 1):  # a power added to its own base
        if any(len(b) != w for b in st.bases[:k + 1]):
            break
        if st.kind(k) is None:
            try:
                z, y = st.mixed(k, t.rng)
            except (Unrecognised, ValueError, KeyError):
                break
            if not collision(t, config, n, which, z, y, "a power is added to its own base"):
                t.error(f"{which}: step {k} adds a power to its own base, but no collision was found")
            return
    for e in sorted({a["exp"] for a in st.atoms}):
        if not exponent_ok(t, e):
            for k in range(1, m + 1):
                if st.atoms[k - 1]["exp"] == e and st.steps[k][0] == "live" and all(len(b) == w for b in st.bases[:k]):
                    try:
                        z, y = st.roots(k, t.rng)
                    except (Unrecognised, ValueError):
                        continue
                    if collision(t, config, n, which, z, y, f"x^{e}"):
                        return
            t.error(f"{which}: exponent {e} is not injective, but no collision was found")
            return
    k = st.lost()
    if k is not None:
        z, y = st.collide(t.rng)
        if not collision(t, config, n, which, z, y, "a dimension of the state is lost"):
            t.error(f"{which}: a dimension is lost at step {k}, but no collision was found")
        return
    # obligations: every value needed below is an identical combination of what is known above
    term = lambda f: d.sum([d.mul(d.k(c), d.var("%s.%d" % x)) for x, c in sorted(f.items())])
    lin = lambda cs, ts: d.sum([d.mul(d.k(c), ts[i]) for i, c in cs.items()])
    gs = []
    sp = Space()
    for i, (f, _) in enumerate(st.outs):
        sp.add(f, i)
    ots = [term(f) for f, _ in st.outs]
    gs += [(f"outputs.{i}", term(f), lin(sp.express(f), ots)) for i, f in enumerate(st.bases[m])]
    for k in range(m, 0, -1):
        s = st.steps[k]
        if s[0] == "dead":
            continue
        kind = st.kind(k)
        if kind is None:
            t.error(f"{which}: step {k} mixes a power with its own base; not shown injective")
            return
        _, piv, us, u0, f = s
        above, ts = st.space(k), [term(g) for g in st.bases[k]]
        su = Space()
        for i, u in enumerate(us):
            gs.append((f"{k}.u{i}", term(u), lin(above.express(u), ts)))
            su.add(u, i)
        uts = dict(enumerate(term(u) for u in us))
        sk = d.var(f"s.{k - 1}")
        if kind == "power":  # the power itself, then its base
            gs.append((f"{k}.power", sk, d.sub(lin(above.express(piv), ts), lin(su.express(u0), uts))))
        else:                # the base, then what the power was added to
            gs.append((f"{k}.base", term(f), lin(su.express(f), uts)))
            gs.append((f"{k}.rest", term(u0), d.sub(lin(above.express(piv), ts), sk)))
        su.add(u0, "u0")
        su.add(f, "f")
        uts.update(u0=term(u0), f=term(f))
        gs += [(f"{k}.below{i}", term(g), lin(su.express(g), uts)) for i, g in enumerate(st.bases[k - 1])]
    below = st.space(0)
    ts = [term(g) for g in st.bases[0]]
    gs += [(f"input.{i}", d.var(f"x.{i}"), lin(below.express({("x", i): 1}), ts)) for i in range(w)]
    for i in range(0, len(gs), 250):
        t.goals(d, gs[i:i + 250], on_refuted=lambda l, e: t.error(f"certificate {l} refuted"))
    t.twin(d, gs[-1])


def rate(t, n, configs):
    w, seen = n + 1, set()
    for c in configs:
        text = engine._exec(engine.build.build("sym", c), ["shipped", n], [])
        if text in seen:
            t.r["info"].setdefault("same_terms", []).append(c)
            continue
        seen.add(text)
        probe = engine.parse(text)
        refs = {}
        for which in ("opt", "unopt"):
            outs = [probe.out.get(f"{which}.{i}") for i in range(w)]
            if None in outs:
                t.r["info"]["panics"] = probe.panic
                continue
            try:
                refs[which] = (Structure(probe.dag, outs, w), outs)
            except Unrecognised as e:
                t.error(f"{which}: {e}; the terms are not compositions of affine maps and powers")
                return
            injective(t, refs[which][0], which, c, n)
            if t.r["violations"] or t.r["errors"]:
                return

        def copy(d, order, memo):
            """The main path's terms inside another path's DAG."""
            for x in order:
                o = probe.dag.op[x]
                memo[x] = d.k(o[1]) if o[0] == "k" else d.var(o[1]) if o[0] == "v" else {
                    "+": d.add, "-": d.sub, "*": d.mul}[o[0]](memo[o[1]], memo[o[2]]) if o[0] in "+-*" else (d.neg if o[0] == "n" else d.inv)(memo[o[1]])
            return memo

        def goals(run):
            gs = []
            for which, (_, outs) in refs.items():
                memo = copy(run.dag, probe.dag.cone(outs), {})
                if not run.panic:
                    gs += [(f"{which}.{i}", run.out.get(f"{which}.{i}"), memo[x]) for i, x in enumerate(outs)]
            return gs

        def replay(config, args, env, label, expected, lines=()):
            which = label.split(".")[0]
            st = refs[which][0]
            z = [env[f"x.{i}"] for i in range(w)]
            out = [t.real(config, args, env).out.get(f"{which}.{i}") for i in range(w)]
            if None not in out:
                if collision(t, config, n, which, z, st.invert(out), "a special case leaves the bijection"):
                    return True
                for i in range(w):  # inputs that a special case does not read
                    y = list(z)
                    y[i] = t.rng.randrange(P)
                    if collision(t, config, n, which, z, y, "an input word is not read"):
                        return True
            t.error(f"{label}: a special case departs from the bijection, but no collision was found")
            return False
        t.replay = replay
        t.explore(c, ["shipped", n], goals, panic_ok=lambda run: True)
        if t.r["violations"]:
            return


def tasks(tier, seed):
    return [(f"rate{n}", rate, (n, CONFIGS)) for n in range(7, 0, -1)], dict(
        functions=["poseidon_permutation::Instance::{n_to_1_fixed_hash,unoptimized_n_to_1_fixed_hash,output_words} and everything they call",
                   "poseidon377::RATE_1..7_PARAMS"],
        bounds="rates 1-7, both evaluations, all t input words symbolic, all rounds; configurations " + ", ".join(CONFIGS),
        outside="states on which the code panics (C01)",
        assumptions=["decaf377::Fq implements F_p exactly", "p is prime, so x^(p-1) = 1 for x != 0 (Fermat)", "a composition of injective maps is injective"])
