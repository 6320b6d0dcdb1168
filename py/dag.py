"""Expression DAG over Fq.  A term is ('k', c) or a node index wrapped in Term."""
from field import P, RINV


class DAG:
    """Hash-consed nodes; node 0 is unused.  A reference to a term is an int:
    >= 1 a node, and constants are nodes ('k', value)."""

    def __init__(self):
        self.op = [None]
        self.cons = {}
        self.var_value = {}

    def _mk(self, key):
        i = self.cons.get(key)
        if i is None:
            i = len(self.op)
            self.op.append(key)
            self.cons[key] = i
        return i

    def k(self, c):
        return self._mk(("k", c % P))

    def var(self, name):
        return self._mk(("v", name))

    def const_of(self, a):
        o = self.op[a]
        return o[1] if o[0] == "k" else None

    def add(self, a, b):
        x, y = self.const_of(a), self.const_of(b)
        if x is not None and y is not None:
            return self.k(x + y)
        if x == 0:
            return b
        if y == 0:
            return a
        return self._mk(("+", a, b))

    def sub(self, a, b):
        x, y = self.const_of(a), self.const_of(b)
        if x is not None and y is not None:
            return self.k(x - y)
        if y == 0:
            return a
        if a == b:
            return self.k(0)
        if x == 0:
            return self.neg(b)
        return self._mk(("-", a, b))

    def mul(self, a, b):
        x, y = self.const_of(a), self.const_of(b)
        if x is not None and y is not None:
            return self.k(x * y)
        if x == 0 or y == 0:
            return self.k(0)
        if x == 1:
            return b
        if y == 1:
            return a
        if y is not None:
            return self._mk(("*", b, a))
        return self._mk(("*", a, b))

    def neg(self, a):
        x = self.const_of(a)
        if x is not None:
            return self.k(-x)
        return self._mk(("n", a))

    def inv(self, a):
        """Total inverse: inv(0) = 0."""
        x = self.const_of(a)
        if x is not None:
            return self.k(pow(x, P - 2, P))
        return self._mk(("i", a))

    # derived
    def sum(self, ts):
        acc = self.k(0)
        for t in ts:
            acc = self.add(acc, t)
        return acc

    def dot(self, cs, ts):
        """Inner product of two lists of terms."""
        return self.sum(self.mul(c, t) for c, t in zip(cs, ts))

    def pow(self, a, e):
        """a^e by repeated squaring (a deliberately different chain from the code's)."""
        if e == 0:
            return self.k(1)
        acc = None
        while e:
            if e & 1:
                acc = a if acc is None else self.mul(acc, a)
            e >>= 1
            if e:
                a = self.mul(a, a)
        return acc

    def cone(self, roots):
        """Nodes below roots; children always have smaller indices, so sorted = topological."""
        seen, stack, op = set(), list(roots), self.op
        while stack:
            n = stack.pop()
            if n in seen:
                continue
            seen.add(n)
            o = op[n]
            if o[0] not in "kv":
                stack.extend(o[1:])
        return sorted(seen)

    def variables(self, roots):
        return sorted({self.op[n][1] for n in self.cone(roots) if self.op[n][0] == "v"})

    def eval(self, roots, env, order=None):
        """Concrete values {node: value} of the cone, under env (var name -> int)."""
        val = {}
        for n in order if order is not None else self.cone(roots):
            o = self.op[n]
            t = o[0]
            if t == "k":
                val[n] = o[1]
            elif t == "v":
                val[n] = env[o[1]] % P
            elif t == "+":
                val[n] = (val[o[1]] + val[o[2]]) % P
            elif t == "-":
                val[n] = (val[o[1]] - val[o[2]]) % P
            elif t == "*":
                val[n] = val[o[1]] * val[o[2]] % P
            elif t == "n":
                val[n] = -val[o[1]] % P
            else:
                val[n] = pow(val[o[1]], P - 2, P)
        return val


class Run:
    """Parsed output of one symbolic run, loaded into a DAG."""

    def __init__(self, dag):
        self.dag = dag
        self.out = {}
        self.raw = {}
        self.notes = {}
        self.panic = None
        self.decisions = []
        self.mats = {"A": {}, "B": {}, "C": {}}
        self.z = {}
        self.sizes = None
        self.inputs = {}
        self.n_nodes = 0


def parse(text, dag=None):
    dag = dag or DAG()
    run = Run(dag)
    ids = {}
    consts = {}

    def ref(s):
        if s[0] == "n":
            return ids[int(s[1:])]
        c = consts.get(s)
        if c is None:
            c = consts[s] = dag.k(int(s[1:], 16) * RINV)
        return c

    ended = False
    for line in text.splitlines():
        f = line.split(" ")
        t = f[0]
        if t == "N":
            i, op = int(f[1]), f[2]
            run.n_nodes += 1
            if op == "var":
                ids[i] = dag.var(f[3])
                run.inputs[f[3]] = int(f[4], 16)
            elif op == "add":
                ids[i] = dag.add(ref(f[3]), ref(f[4]))
            elif op == "sub":
                ids[i] = dag.sub(ref(f[3]), ref(f[4]))
            elif op == "mul":
                ids[i] = dag.mul(ref(f[3]), ref(f[4]))
            elif op == "neg":
                ids[i] = dag.neg(ref(f[3]))
            elif op == "inv":
                ids[i] = dag.inv(ref(f[3]))
            else:
                raise ValueError(line)
        elif t == "O":
            run.out[f[1]] = ref(f[2])
            if f[2][0] == "m":
                run.raw[f[1]] = int(f[2][1:], 16)
        elif t == "T":
            run.notes[f[1]] = " ".join(f[2:])
        elif t == "P":
            if run.panic is None:
                run.panic = " ".join(f[1:])
        elif t == "D":
            run.decisions.append(
                dict(i=int(f[1]), kind=f[2], a=ref(f[3]), b=ref(f[4]), outcome=f[5] == "1", dep=f[6] == "dep", loc=" ".join(f[8:]))
            )
        elif t == "R":
            if f[1] == "sizes":
                run.sizes = tuple(int(x) for x in f[2:5])
            elif f[1] == "z":
                run.z[int(f[2])] = ref(f[3])
            else:
                row = []
                for e in f[3:]:
                    if e:
                        j, c = e.split("@")
                        row.append((int(j), ref(c)))
                run.mats[f[1]][int(f[2])] = row
        elif t == "END":
            ended = True
    if not ended:
        raise RuntimeError("symbolic run did not finish:\n" + text[-2000:])
    return run


class RealRun:
    def __init__(self, text):
        self.out, self.notes, self.panic, self.z = {}, {}, None, {}
        self.noncanonical = set()
        self.mats = {"A": {}, "B": {}, "C": {}}
        self.sizes = None
        ended = False
        for line in text.splitlines():
            f = line.split(" ")
            if f[0] == "O":
                self.out[f[1]] = int(f[2], 16)
                if len(f) > 3:
                    self.noncanonical.add(f[1])
            elif f[0] == "T":
                self.notes[f[1]] = " ".join(f[2:])
            elif f[0] == "P" and self.panic is None:
                self.panic = " ".join(f[1:])
            elif f[0] == "R":
                if f[1] == "sizes":
                    self.sizes = tuple(int(x) for x in f[2:5])
                elif f[1] == "z":
                    self.z[int(f[2])] = int(f[3], 16)
                else:
                    self.mats[f[1]][int(f[2])] = [(int(e.split("@")[0]), int(e.split("@")[1], 16)) for e in f[3:] if e]
            elif f[0] == "END":
                ended = True
        if not ended:
            raise RuntimeError("real run did not finish:\n" + text[-2000:])
