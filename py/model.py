"""Constructive model finder: an assignment of the variables that makes given terms zero.

Used on the satisfiable side only (witnesses for path conditions, counterexamples); whatever it
returns is confirmed by evaluation and, before anything is reported, by running the real code.
Terms are affine over atoms (variables and powers of a base term).  The topologically highest atom is
isolated by elimination and its value pushed through the power map to an equation on its base, until only
variables remain."""
from field import P, mat_solve, root as nth_root, sqrt
from laurent import Contradiction, Laurent, TooBig
from prover import Prover, solve_affine
import solver
from math import gcd
from dag import DAG


def _affine(dag, mono, n, memo):
    """{atom: coef}, atom = monomial tuple; () is the constant."""
    if n in memo:
        return memo[n]
    op = dag.op
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in mono:
            c, m = mono[x]
            memo[x] = {m: c} if c else {}
            stack.pop()
            continue
        o = op[x]
        kids = [y for y in o[1:] if y not in memo]
        if kids:
            stack.extend(kids)
            continue
        if o[0] == "+":
            r = dict(memo[o[1]])
            for m, c in memo[o[2]].items():
                r[m] = (r.get(m, 0) + c) % P
        elif o[0] == "-":
            r = dict(memo[o[1]])
            for m, c in memo[o[2]].items():
                r[m] = (r.get(m, 0) - c) % P
        elif o[0] == "n":
            r = {m: -c % P for m, c in memo[o[1]].items()}
        else:  # constant * sum
            k = op[o[1]][1]
            r = {m: c * k % P for m, c in memo[o[2]].items()}
        memo[x] = {m: c for m, c in r.items() if c}
        stack.pop()
    return memo[n]


def _simplify(dag, zero, rng):
    """A vanishing product becomes a vanishing factor; repeated conditions are dropped.  Guesses only."""
    pr = Prover(dag, rng)
    names = dag.variables(zero)
    order, vals, mono, _ = pr.classify(list(zero), [{n: rng.randrange(P) for n in names} for _ in range(2)])
    out = []
    for z in zero:
        if z in mono and mono[z][0] and mono[z][1] and all(dag.op[b][0] != "i" for b, _ in mono[z][1]):
            z = rng.choice([b for b, _ in mono[z][1]])
        if z not in out:
            out.append(z)
    return out


def find(dag, zero, rng, neq=(), names=None, tries=6, extra_roots=()):
    """env with every term of zero = 0 and no pair of neq equal, or None."""
    env = _chart(dag, zero, rng, neq, names, extra_roots) or _find(dag, zero, rng, neq, names, tries, extra_roots)
    if env is None and zero:
        simple = _simplify(dag, zero, rng)
        if simple != list(zero):
            env = _find(dag, simple, rng, neq, names, tries, list(extra_roots) + list(zero))
            if env is not None and any(dag.eval(zero, env).get(z) for z in zero):
                env = None
    return env


def _chart(dag, zero, rng, neq, names, extra_roots):
    """Where terms are inverted: a point of the Laurent chart, or None."""
    cone = dag.cone(zero)
    if not any(dag.op[x][0] == "i" for x in cone):
        return None
    roots = list(zero) + [x for ab in neq for x in ab]
    names = sorted(set(names or []) | set(dag.variables(roots + list(extra_roots))))
    L = Laurent(dag, [dag.op[x][1] for x in cone if dag.op[x][0] == "i"], zero, work=300000)
    try:
        L.polys([])
        for _ in range(4):
            env = L.sample(names, rng)
            v = dag.eval(roots, env)
            if all(v[z] == 0 for z in zero) and all(v[a] != v[b] for a, b in neq):
                return env
    except (TooBig, Contradiction):
        pass
    return None


def _find(dag, zero, rng, neq=(), names=None, tries=6, extra_roots=()):
    roots = list(zero) + [x for ab in neq for x in ab]
    names = sorted(set(names or []) | set(dag.variables(roots + list(extra_roots))))

    def ok(env):
        v = dag.eval(roots, env)
        return all(v[z] == 0 for z in zero) and all(v[a] != v[b] for a, b in neq)

    if solver.late():
        return None
    for attempt in range(tries):
        env = {n: rng.randrange(P) for n in names}
        done = set()
        for z in zero:
            if not solve_affine(dag, z, env, avoid=done, rng=rng):
                break
            done |= set(dag.variables([z]))
        if ok(env):
            return env
    if any(n.startswith("free.") for n in names):
        for attempt in range(3 * tries):
            env = _forward(dag, zero, names, rng)
            if env is not None and ok(env):
                return env
    xs = [n for n in names if n.startswith("x")]
    for attempt in range(tries):
        env = {n: rng.randrange(P) for n in names}
        if xs and len(xs) < len(names):
            # everything but the inputs fixed: atoms become powers of single terms
            d2, m = _specialise(dag, list(zero), {n: env[n] for n in names if n not in xs})
            z2 = [m[z] for z in zero]
            if any(d2.const_of(z) for z in z2):
                continue
            z2 = [z for z in z2 if d2.const_of(z) is None]
            env2 = _peel(d2, Prover(d2, rng), z2, {n: env[n] for n in xs}, rng, xs)
            if env2 is not None:
                env2 = {**env, **env2}
        else:
            env2 = _peel(dag, Prover(dag, rng), list(zero), env, rng, names)
        if env2 is not None and ok(env2):
            return env2
    return None


def _forward(dag, zero, names, rng):
    """Inputs at random, then the free columns one equation at a time (of degree at most two in the column)."""
    env = {n: rng.randrange(P) for n in names if not n.startswith("free.")}
    for z in sorted(zero):
        order = dag.cone([z])
        vs = sorted((dag.op[n][1] for n in order if dag.op[n][0] == "v" and dag.op[n][1] not in env), key=lambda v: int(v[5:]))
        for v in vs[:-1]:
            env[v] = rng.randrange(P)
        if not vs:
            if dag.eval([z], env, order)[z]:
                return None
            continue
        f = []
        for x in range(4):
            env[vs[-1]] = x
            f.append(dag.eval([z], env, order)[z])
        a = (f[2] - 2 * f[1] + f[0]) * pow(2, -1, P) % P
        b = (f[1] - f[0] - a) % P
        if (a * 9 + b * 3 + f[0] - f[3]) % P:
            return None
        if a:
            r = sqrt(b * b - 4 * a * f[0])
            if r is None:
                return None
            x = (-b + (r if rng.randrange(2) else -r)) * pow(2 * a, -1, P) % P
        elif b:
            x = -f[0] * pow(b, -1, P) % P
        elif f[0] == 0:
            x = rng.randrange(P)
        else:
            return None
        env[vs[-1]] = x
    for n in names:
        env.setdefault(n, rng.randrange(P))
    return env


def _specialise(dag, roots, fixed):
    """Partial evaluation into a fresh DAG."""
    d, m = DAG(), {}
    for n in dag.cone(roots):
        o = dag.op[n]
        t = o[0]
        if t == "k":
            m[n] = d.k(o[1])
        elif t == "v":
            m[n] = d.k(fixed[o[1]]) if o[1] in fixed else d.var(o[1])
        else:
            f = {"+": d.add, "-": d.sub, "*": d.mul, "n": d.neg, "i": d.inv}[t]
            m[n] = f(*[m[x] for x in o[1:]])
    return d, m


def _peel(dag, pr, zero, env, rng, names):
    op = dag.op
    envs = [{n: rng.randrange(P) for n in names} for _ in range(2)]
    if not zero:
        return env
    order, vals, mono, _ = pr.classify(zero, envs)
    memo = {}
    cur = dag.eval(zero, env)
    E = [dict(_affine(dag, mono, z, memo)) for z in zero]
    varatom = {((dag.cons[("v", n)], 1),) for n in names if ("v", n) in dag.cons}
    dof = len(names)

    def height(m):
        return max(b for b, _ in m)

    def base_of(m):
        """(base node, exponent) if the atom is a power of one term."""
        if len(m) != 1:
            return None
        b, e = m[0]
        odd = e
        while odd % 2 == 0:
            odd //= 2
        if gcd(odd, P - 1) != 1:
            return None
        return (op[b][1], -e) if op[b][0] == "i" else (b, e)

    for _ in range(4000):
        E = [{m: c for m, c in r.items() if c} for r in E]
        for r in E:
            if len(r) == 1 and () in r:
                return None
        E = [r for r in E if r]
        atoms = sorted({m for r in E for m in r if m and m not in varatom}, key=height)
        if not atoms:
            break
        a = atoms[-1]
        # eliminate everything except a: pivot on the lower atoms first
        lower = [m for r in E for m in r if m and m != a]
        rows = [dict(r) for r in E]
        used = []
        for m in dict.fromkeys(lower):
            pi = next((i for i, r in enumerate(rows) if i not in used and r.get(m)), None)
            if pi is None:
                continue
            used.append(pi)
            f = pow(rows[pi][m], P - 2, P)
            for i, r in enumerate(rows):
                if i != pi and i not in used and r.get(m):
                    q = r[m] * f % P
                    for k, c in rows[pi].items():
                        v = (r.get(k, 0) - q * c) % P
                        if v:
                            r[k] = v
                        else:
                            r.pop(k, None)
        iso = next((r for i, r in enumerate(rows) if i not in used and set(r) <= {a, ()} and r.get(a)), None)
        bad = any(i not in used and set(r) == {()} for i, r in enumerate(rows))
        if bad:
            return None
        be = base_of(a)
        if iso is not None:
            y = -iso.get((), 0) * pow(iso[a], P - 2, P) % P
        else:
            if len(E) >= dof:
                return None
            y = rng.randrange(1, P)
        if be is None:
            # a product of several bases, or a power without roots
            return None
        b, e = be
        root = nth_root(y, e, rng)
        if root is None:
            if iso is not None:
                return None
            root = rng.randrange(1, P)  # even power of a free atom: choose the base
            y = pow(root, e if e > 0 else P - 1 + e, P)
        # substitute the value, add the equation on the base
        nE = []
        for r in E:
            r = dict(r)
            c = r.pop(a, 0)
            if c:
                r[()] = (r.get((), 0) + c * y) % P
            nE.append(r)
        be_r = dict(_affine(dag, mono, b, memo)) if b in mono or op[b][0] not in "kv" else {((b, 1),): 1}
        if b in mono and mono[b][1] == ((b, 1),) and op[b][0] != "v":
            be_r = dict(_sum_form(dag, mono, b, memo))
        be_r[()] = (be_r.get((), 0) - root) % P
        nE.append(be_r)
        E = nE
    else:
        return None
    vs = sorted({m for r in E for m in r if m})
    if not vs:
        return env
    # linear in the variables; keep env for the free ones
    env = dict(env)
    A = [[r.get(m, 0) for m in vs] for r in E]
    rhs = []
    for r in E:
        acc = -r.get((), 0)
        for m in vs:
            acc -= r.get(m, 0) * env[op[m[0][0]][1]]
        rhs.append(acc % P)
    d = mat_solve(A, rhs)
    if d is None:
        return None
    for m, x in zip(vs, d):
        n = op[m[0][0]][1]
        env[n] = (env[n] + x) % P
    return env


def _sum_form(dag, mono, n, memo):
    return _affine(dag, mono, n, memo)
