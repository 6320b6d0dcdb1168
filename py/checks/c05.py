"""C05: instances (and the process) carry no state from one hash to the next."""
import re
import engine, spec

CONFIGS = ["min-dev", "all-dev", "all-rel"]


def history(t, n, ops, alias, config):
    w = n + 1

    def goals(run):
        d = run.dag
        p = spec.consts(d, spec.shipped(n))
        gs, state = [], [d.k(0)] * w
        al = dict(l.split()[1:] for l in alias)
        for k, op in enumerate(ops):
            x = [d.var(al.get(f"x{k}.{i}", f"x{k}.{i}")) for i in range(w)]
            if op in "ou":
                state = spec.plain(d, p, x)
                gs.append((f"ret{k}", run.out.get(f"ret{k}"), state[1]))
                if op == "o":
                    gs += [(f"arg{k}.{i}", run.out.get(f"arg{k}.{i}"), x[i]) for i in range(w)]
            elif op == "n":
                state = [d.k(0)] * w
            gs += [(f"st{k}.{i}", run.out.get(f"st{k}.{i}"), state[i]) for i in range(w)]
        return gs
    t.explore(config, ["history", n, ops], goals, inputs=alias)


def ghist(t, shape, alpha, ops, alias, config):
    """Two instances (upper and lower case) of arbitrary parameters."""
    from checks.c03 import params
    flat = "".join(c * int(n or 1) for c, n in re.findall(r"([a-zA-Z])(\d*)", ops))

    def goals(run):
        d = run.dag
        p = params(d, shape, alpha)
        al = dict(l.split()[1:] for l in alias)
        gs, st = [], [[d.k(0)] * p.t for _ in range(2)]
        for k, op in enumerate(flat):
            i = op.isupper()
            x = [d.var(al.get(f"x{k}.{j}", f"x{k}.{j}")) for j in range(p.t)]
            if op.lower() in "ou":
                st[i] = (spec.plain if op.lower() == "u" else spec.optimised)(d, p, x)
                gs.append((f"ret{k}", run.out.get(f"ret{k}"), st[i][1]))
            elif op.lower() == "n":
                st[i] = [d.k(0)] * p.t
            gs += [(f"st{k}.{j}", run.out.get(f"st{k}.{j}"), st[i][j]) for j in range(p.t)]
        for n, m in (("mds", p.mds), ("arc", p.arc), ("oarc", p.oarc)):
            gs += [(f"end.{n}.{j}", run.out.get(f"end.{n}.{j}"), x) for j, x in enumerate(v for r in m for v in r)]
        return gs
    t.explore(config, ["ghist", shape, alpha, ops], goals, inputs=alias)


def seq(t, rates, alias, config):
    al = dict(l.split()[1:] for l in alias)

    def goals(run):
        d, gs = run.dag, []
        for k, n in enumerate(rates):
            x = [d.var(al.get(f"x{k}.{i}", f"x{k}.{i}")) for i in range(n + 1)]
            gs.append((f"h{k}", run.out.get(f"h{k}"), spec.plain(d, spec.consts(d, spec.shipped(n)), x)[1]))
        return gs
    t.explore(config, ["seq", ",".join(map(str, rates))], goals, inputs=alias)


def al(k, j, idx):
    return [f"l x{k}.{i} x{j}.{i}" for i in idx]


OPS = ["oo", "ou", "uo", "uu", "ouo", "uou", "roro", "oruru", "onou", "unuo", "oouu", "uuoo"]


def tasks(tier, seed):
    ts = []
    for n in range(7, 0, -1):
        for j, ops in enumerate(OPS):
            cfg = CONFIGS[(n + j) % 3]
            if tier == "thorough" or (n + j) % 3 == 0 or (n == 1):
                ts.append((f"rate{n}/{ops}", history, (n, ops, [], cfg)))
        # repeated and partly repeated inputs
        for j, ops in enumerate(["ooo", "uou", "ouou"]):
            if tier == "thorough" or (n + j) % 3 == 1:
                ts.append((f"rate{n}/{ops}/same", history, (n, ops, al(1, 0, range(n + 1)), CONFIGS[(n + j) % 3])))
                ts.append((f"rate{n}/{ops}/samefirst", history, (n, ops, al(1, 0, range(n)), CONFIGS[(n + j + 1) % 3])))
                ts.append((f"rate{n}/{ops}/samelast", history, (n, ops, al(1, 0, range(1, n + 1)), CONFIGS[(n + j + 2) % 3])))
    for i, r in enumerate([(1, 2, 1), (7, 1, 7), (2, 3, 4, 5, 6), (6, 6), (3, 4, 3, 4), (5, 2, 7, 2)]):
        c = CONFIGS[i % 3]
        ts.append((f"seq/{'-'.join(map(str, r))}", seq, (r, [], c)))
        m = min(r[0], r[1])
        ts.append((f"seq/{'-'.join(map(str, r))}/same", seq, (r, al(1, 0, range(m + 1)), c)))
    if tier == "thorough":
        ts.append(("long/2", history, (2, "ouroonuuoruuoon" * 2, [], "min-dev")))
        ts.append(("long/4", history, (4, "oooooooooouuuuu", [], "all-dev")))
    for i, (s, a, ops) in enumerate([("2,2,1", "3", "o1100"), ("2,2,1", "2", "u1100"), ("3,2,2", "3", "oUuOrRoonUo"), ("2,4,3", "5", "uOoUnouRrOUuN" * 3), ("4,2,3", "2", "ou" * 20)]):
        ts.insert(i, (f"two/{s}/{a}/{ops}", ghist, (s, a, ops, [], CONFIGS[i % 3])))
    ts.append(("two/3,2,2/5/same", ghist, ("3,2,2", "5", "oOuUoO", [f"l x{k}.{j} x0.{j}" for k in (1, 3, 5) for j in range(3)], "all-dev")))
    ts.append(("long/1", history, (1, "ouroonuuoru", [], "all-dev")))
    ts.append(("long/3", history, (3, "oooooooo", [], "min-dev")))
    return ts, dict(
        functions=["poseidon_permutation::Instance::{new,n_to_1_fixed_hash,unoptimized_n_to_1_fixed_hash,output_words} and what they call", "poseidon377::hash_1..7"],
        bounds="call sequences (o optimised, u plain, r read, n new instance): " + ", ".join(OPS) + " and longer ones, inputs of every call symbolic, also with "
               "repeated and partly repeated inputs; sequences of hash calls of different rates in one process",
        outside="longer histories; concurrent use from several threads (instances hold no shared state, and `&Params` is immutable by type)",
        assumptions=["decaf377::Fq implements F_p exactly"])
