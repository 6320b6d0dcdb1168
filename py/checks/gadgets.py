"""Shared pieces of the circuit checks: symbolic input words, constraint systems, the induction over rows."""
import model, spec
from field import P

CONFIGS = ["r1cs-dev", "all-dev", "all-rel"]
CVALS = [0, 1, P - 1, 2, 17]


def const_lines(t, kinds, which):
    """Values of the words allocated as constants: boundary values or drawn."""
    return [f"c x{'' if '/' not in kinds else c}.{i} {CVALS[(which + i + c) % 5] if which >= 0 else t.rng.randrange(P)}"
            for c, ks in enumerate(kinds.split("/")) for i, k in enumerate(ks) if k == "c"]


CHAINS = [("1,1", "cw/cp"), ("1,1", "ww/pp"), ("1,2,1", "iw/cow/wo"), ("2,2", "wiw/ppo"), ("2,2", "cww/cpw"), ("3,1,3", "cwiw/co/cpow"), ("4,4", "cwwww/cpppp"),
          ("7,6", "cwwwwwww/copwpwp"), ("5,5", "wiwiwi/pppppp"), ("6,7", "wccwwlk/coooowww"), ("1,1,1,1,1,1", "cw/co/co/co/co/co"), ("2,1", "wcc/cw"), ("1,2,3,4,5", "cw/cow/cwow/cwwow/cwwwow"),
          ("1,1", "cc/ww"), ("2,2", "cwc/wcp")]


def chain_words(d, rates, kinds, lines=()):
    """[(rate, input words, result)] of a chain of calls."""
    out = []
    for k, (n, ks) in enumerate(zip(rates.split(","), kinds.split("/"))):
        x = words(d, ks, lines, f"x{k}", out[-1][1:] if out else ())
        out.append((int(n), x, spec.plain(d, spec.consts(d, spec.shipped(int(n))), x)[1]))
    return out


def words(d, kinds, lines=(), name="x", prev=()):
    """The input words as terms over the allocated variables (and constants, unless they are symbolic)."""
    fixed = {l.split()[1]: int(l.split()[2]) for l in lines if l[0] == "c"}
    xs = []
    for i, k in enumerate(kinds):
        n = f"{name}.{i}"
        if k == "p":
            x = prev[0][i]
        elif k == "o":
            x = prev[1]
        elif k == "c":
            x = d.k(fixed[n]) if n in fixed else d.var(n)
        elif k in "wi":
            x = d.var(n)
        elif k == "l":
            x = d.add(d.var(n + ".a"), d.mul(d.k(3), d.var(n + ".b")))
        elif k == "k":
            x = d.add(d.var(n + ".a"), d.k(5))
        elif k == "h":
            x = spec.plain(d, spec.consts(d, spec.shipped(1)), [d.k(3), d.var(n + ".a")])[1]
        elif k == "r":
            x = xs[0]
        elif k == "n":
            x = d.neg(xs[0])
        elif k == "d":
            x = d.k(0)
        xs.append(x)
    return xs


def index_of(run, note):
    kind, i = note.split()
    return int(i) if kind == "instance" else run.sizes[0] + int(i)


def inputs_of(run):
    """{column of the assignment: name} of the allocated input variables."""
    return {index_of(run, v): k[3:] for k, v in run.notes.items() if k.startswith("in.")}


def lc(d, row, z):
    return d.sum(d.mul(c, z[j]) for j, c in row)


def satisfaction_goals(run):
    """(A z)(B z) = C z for every row, under the assignment the code computed."""
    d, m = run.dag, run.mats
    return [(f"row.{i}", d.sub(d.mul(lc(d, m["A"][i], run.z), lc(d, m["B"][i], run.z)), lc(d, m["C"][i], run.z)), d.k(0)) for i in range(run.sizes[2])]


def actual_gadget(rr, label):
    """How the real build shows a circuit goal."""
    if label.startswith("row."):
        return {"true": 0, "false": 1}.get(rr.notes.get("satisfied"))
    if label.startswith("assigned."):
        n = rr.notes.get("result." + label[9:], "")
        return rr.z.get(rr.sizes[0] + int(n.split()[1])) if n.startswith("witness") and rr.sizes else None
    return rr.out.get(label)


def bake(run):
    """A circuit whose coefficients depend on the assigned values is judged as it comes out for the values of this run."""
    d = run.dag
    run.baked = None
    cells = {c for m in run.mats.values() for r in m.values() for _, c in r if d.const_of(c) is None}
    outs = {run.out[k] for k in run.out if k.startswith("value.") and run.notes.get("result." + k[6:]) == "constant"}
    if cells or any(d.const_of(x) is None for x in outs):
        run.baked = dict(run.inputs)
        v = d.eval(list(cells), run.baked)
        run.mats = {n: {i: [(j, d.k(v[c]) if c in cells else c) for j, c in r] for i, r in m.items()} for n, m in run.mats.items()}
    return run


class Forced:
    """Induction over the rows of a constraint system: the value every column is forced to have.

    A row with one unknown column that occurs linearly with a constant nonzero coefficient determines it.
    A row whose multiplier of the unknown is a term is split on: the `zero_at`-th such row takes the multiplier to
    be zero (the column is then free), the others take it to be nonzero.  When no row determines a column, a column
    becomes a free variable; rows not used to determine anything are hypotheses."""

    def __init__(self, run, zero_at=None):
        d, m = run.dag, run.mats
        self.d, self.run = d, run
        ni, nw, nc = run.sizes
        cols = inputs_of(run)
        z = {0: d.k(1)}
        for j, n in cols.items():
            z[j] = d.var(n)
        self.free, self.hyp, self.order, self.splits, self.nonzero = {}, [], [], 0, []
        rows = {i: (m["A"].get(i, []), m["B"].get(i, []), m["C"].get(i, [])) for i in range(nc)}
        pend = {i: {j for r in rows[i] for j, c in r if d.const_of(c) != 0} - set(z) for i in rows}
        uses = {}
        for i, s in pend.items():
            for j in s:
                uses.setdefault(j, []).append(i)
        work = [i for i in sorted(pend) if len(pend[i]) <= 1]
        left = set(rows)
        deferred = {}

        def define(j, term):
            z[j] = term
            for i in uses.get(j, ()):
                pend[i].discard(j)
                if i in left and len(pend[i]) <= 1:
                    work.append(i)

        def coef(row, u):
            return d.sum(c for j, c in row if j == u)

        def rest(row, u):
            return d.sum(d.mul(c, z[j]) for j, c in row if j != u)

        while True:
            while work:
                i = work.pop(0)
                if i not in left:
                    continue
                A, B, C = rows[i]
                if not pend[i]:
                    left.discard(i)
                    self.hyp.append(d.sub(d.mul(lc(d, A, z), lc(d, B, z)), lc(d, C, z)))
                    continue
                if len(pend[i]) > 1:
                    continue
                u = next(iter(pend[i]))
                a, b, c = coef(A, u), coef(B, u), coef(C, u)
                ra, rb, rc = rest(A, u), rest(B, u), rest(C, u)
                # (ra + a u)(rb + b u) = rc + c u
                if d.const_of(d.mul(a, b)) != 0:
                    continue
                lin = d.sub(d.add(d.mul(a, rb), d.mul(b, ra)), c)
                l = d.const_of(lin)
                if l is None:
                    deferred[i] = (u, lin, d.sub(d.mul(ra, rb), rc))
                if not l:
                    continue
                left.discard(i)
                self.order.append(i)
                define(u, d.mul(d.k(pow(-l, P - 2, P)), d.sub(d.mul(ra, rb), rc)))
            unk = [j for j in range(ni + nw) if j not in z]
            if not unk:
                break
            now = [i for i in sorted(deferred) if i in left and pend[i] == {deferred[i][0]}]
            if now:
                u, lin, rest_ = deferred.pop(now[0])
                left.discard(now[0])
                self.splits += 1
                if self.splits - 1 == zero_at:
                    self.hyp += [lin, rest_]
                    self.free[u] = f"free.{u}"
                    define(u, d.var(f"free.{u}"))
                else:
                    self.nonzero.append(lin)
                    self.order.append(now[0])
                    define(u, d.neg(d.mul(rest_, d.inv(lin))))
                continue
            j = unk[0]
            self.free[j] = f"free.{j}"
            define(j, d.var(f"free.{j}"))
        for i in sorted(left):
            A, B, C = rows[i]
            self.hyp.append(d.sub(d.mul(lc(d, A, z), lc(d, B, z)), lc(d, C, z)))
        self.hyp = [h for h in dict.fromkeys(self.hyp) if d.const_of(h) != 0]
        self.z = z

    def result(self, i=0):
        n = self.run.notes.get(f"result.{i}", "")
        if n == "constant" and self.run.baked is not None:
            return self.d.k(self.d.eval([self.run.out[f"value.{i}"]], self.run.baked)[self.run.out[f"value.{i}"]])
        return self.z[self.run.sizes[0] + int(n.split()[1])] if n.startswith("witness") else None


def shape(run):
    """Matrices and counts with constant coefficients as numbers, symbolic ones as term ids."""
    d = run.dag
    def co(c):
        v = d.const_of(c)
        return v if v is not None else ("t", c)
    return dict(sizes=run.sizes, before=run.notes.get("before"), after=run.notes.get("after"),
                results=[run.notes.get(f"result.{i}") for i in range(20)],
                **{n: {i: sorted((j, co(c)) for j, c in r) for i, r in run.mats[n].items()} for n in "ABC"})


def real_shape(rr):
    return dict(sizes=rr.sizes, before=rr.notes.get("before"), after=rr.notes.get("after"),
                results=[rr.notes.get(f"result.{i}") for i in range(20)],
                **{n: {i: sorted(r) for i, r in rr.mats[n].items()} for n in "ABC"})


def own_branches(run, kinds):
    """Decisions that only look at constants, and the constants' names."""
    cs = {f"x.{i}" for i, k in enumerate(kinds) if k == "c"}
    return cs, [x for x in run.decisions if set(run.dag.variables([x["a"], x["b"]])) <= cs]


def vanishing(t, run, kinds, limit):
    """Values of the constants for which a coefficient of the circuit vanishes (the other side of each such branch)."""
    cs, own = own_branches(run, kinds)
    for x in own[:limit]:
        e = model.find(run.dag, [run.dag.sub(x["a"], x["b"])], t.rng, names=sorted(cs))
        if e is None:
            t.r["unrealised"] += 1
            continue
        yield [f"c {k} {v}" for k, v in e.items() if k in cs]


def kinds_for(n, tier):
    """Allocations of the n+1 words (domain separator first)."""
    w = n + 1
    ks = ["w" * w, "c" + "w" * n, "i" * w, "w" + "c" * n, "c" + "i" * n, ("wic" * w)[:w], ("lkw" * w)[:w], ("clk" * w)[:w],
          ("kic" * w)[:w], ("w" + "rnd" * w)[:w], ("l" + "rcn" * w)[:w], ("ih" + "w" * w)[:w], ("hc" + "w" * w)[:w], ("cwh" * w)[:w]]
    ks += ["w" * i + "c" + "w" * (w - 1 - i) for i in range(1, w)] + ["c" * i + "w" + "c" * (w - 1 - i) for i in range(1, w)]
    return list(dict.fromkeys(ks))
