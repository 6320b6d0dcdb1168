"""C07: the hash gadgets' constraints force the result."""
import model, spec
from checks.gadgets import *
from checks.c06 import FN
from field import P


def attack(t, config, args, lines, run, forced, env, n, kinds, ref, k=0):
    """Replay a satisfying assignment whose result differs from the native hash; True if confirmed."""
    d = run.dag
    ni, nw, nc = run.sizes
    names = set(inputs_of(run).values())
    e = {v: env.get(v, 0) for v in list(names) + list(forced.free.values())}
    vals = d.eval(list(forced.z.values()) + [ref, forced.result(k)], e)
    over = [f"z {j} {vals[forced.z[j]]}" for j in range(1, ni + nw)]
    honest = run.baked or {v: e[v] for v in names}  # the circuit synthesised for these values ...
    rr = t.real(config, args, honest, lines + over)  # ... is satisfied by another assignment
    got, want = vals[forced.result(k)], vals[ref]
    if run.notes.get(f"result.{k}") == "constant" and rr.out.get(f"value.{k}") != got:
        rr.notes["satisfied_override"] = "other constant"
    if rr.sizes == run.sizes and rr.notes.get("satisfied_override") == "true" and got != want:
        t.violation(f"soundness: a satisfying assignment gives the result {got:#x} instead of {want:#x}", config, args, honest, lines + over,
                    dict(free=str(list(forced.free)[:5])))
        return True
    t.error(f"soundness counterexample not confirmed on the real build (satisfied_override={rr.notes.get('satisfied_override')}, differs={got != want})")
    return False


def sound(t, config, args, lines, run, refs, n, kinds):
    """refs: [(result number, reference term)]"""
    f = Forced(run)
    t.r["info"].update(rows=run.sizes[2], columns=run.sizes[0] + run.sizes[1], determined=len(f.order), free=len(f.free), hypotheses=len(f.hyp), splits=f.splits)
    _sound(t, config, args, lines, run, refs, n, kinds, f)
    lim = 60 if t.tier == "thorough" else 8
    t.r["unexplored"] += max(0, f.splits - lim)
    for s in range(min(f.splits, lim)):
        if t.r["violations"] or t.r["errors"]:
            return
        _sound(t, config, args, lines, run, refs, n, kinds, Forced(run, s))


def _sound(t, config, args, lines, run, refs, n, kinds, f):
    d = run.dag
    goals = [(f"result.{k}", f.result(k), ref) for k, ref in refs]
    if any(g is None for _, g, _ in goals):
        t.error("the result is not a variable")
        return
    if any(d.const_of(h) for h in f.hyp):
        return  # no assignment on this branch
    pr = t.prover(d, f.nonzero)
    q = pr.prove(goals)
    t.r["terms"] += q.terms
    t.r["obligations"] += q.obligations
    t.r["proven"] += len(q.proven)
    t.r["queries"] += q.queries
    byname = {f"result.{k}": (k, ref) for k, ref in refs}
    names = sorted(set(inputs_of(run).values()) | set(f.free.values()))
    nz = [(x, d.k(0)) for x in f.nonzero]
    for l, e in [(l, e) for l, e in q.refuted] + [(l, None) for l in q.unknown]:
        k, ref = byname[l]
        if not f.hyp and not nz:
            if e is None:
                t.error(f"{l}: inconclusive")
            else:
                attack(t, config, args, lines, run, f, {**{m: t.rng.randrange(P) for m in names}, **e}, n, kinds, ref, k)
            return
        # rows that determine nothing restrict the assignments
        env = model.find(d, f.hyp, t.rng, [(f.result(k), ref)] + nz, names=names)
        if env is not None:
            attack(t, config, args, lines, run, f, env, n, kinds, ref, k)
            return
        q2 = pr.prove([(l, f.result(k), ref)], f.hyp) if f.hyp else q
        t.r["queries"] += q2.queries
        if l in q2.proven:
            t.r["proven"] += 1
        elif not t._infeasible(d, f.hyp, nz):
            t.error(f"{l}: {len(f.free)} columns not determined row by row and {len(f.hyp)} further rows: inconclusive")
            return
    # vacuity: the false variant must be refuted
    if not t.r["violations"] and not f.hyp:
        t.twin(d, goals[0])


def one(t, n, kinds, mode, which, config):
    lines = const_lines(t, kinds, which)
    judge_all(t, config, ["gadget", n, kinds, mode], lines, kinds,
              lambda d: [(0, spec.plain(d, spec.consts(d, spec.shipped(n)), words(d, kinds, lines))[1])])


def chained(t, rates, kinds, mode, which, config):
    """Several gadgets in one system: every result is forced."""
    lines = const_lines(t, kinds, which)
    judge_all(t, config, ["chain", rates, kinds, mode], lines, kinds, lambda d: [(k, h) for k, (_, _, h) in enumerate(chain_words(d, rates, kinds, lines))])


def judge_all(t, config, args, lines, kinds, refs_of):
    """Soundness of the circuit of every path of the synthesis (there is one, unless it branches on assigned values)."""
    seen = []

    def goals(run):
        if not t.r["violations"] and not t.r["errors"]:
            judge(t, config, args, lines, run, kinds, refs_of(run.dag), not seen)
            seen.append(1)
        return []
    t.explore(config, args, goals, inputs=lines, validate=False, twin=False, panic_ok=lambda run: True, max_paths=24 if t.tier == "thorough" else 10)


def judge(t, config, args, lines, run, kinds, refs, first):
    if run.panic or run.notes.get("error"):
        t.error(f"synthesis fails (see C06): {run.panic or run.notes.get('error')}")
        return
    d = run.dag
    bake(run)
    refs = [(k, r) for k, r in refs if run.notes.get(f"result.{k}") != "constant" or run.baked or d.const_of(r) is None]
    sound(t, config, args, lines, run, refs, None, kinds)
    if t.r["violations"] or t.r["errors"]:
        return
    # the real build's matrices must be the ones just judged
    honest = {v: t.rng.randrange(P) for v in inputs_of(run).values()} if first and not run.baked else dict(run.inputs)
    rr = t.real(config, args, honest, lines)
    if real_shape(rr) != shape(run):
        t.error("the real build's constraint system differs from the symbolic one")
        return
    f = Forced(run)
    vals = d.eval(list(f.z.values()), {**honest, **{v: 0 for v in f.free.values()}})
    if not f.free and any(vals[f.z[j]] != rr.z[j] for j in rr.z):
        t.error("encoding mismatch: determined columns differ from the real assignment")
        return
    t.r["validated"] += 1
    if not t.r["samples"]:
        t.r["samples"].append(dict(task=t.name, job=[str(a) for a in args], rows=run.sizes[2], result=run.notes["result.0"],
                                   input={k: hex(v) for k, v in list(honest.items())[:2]}))


def tasks(tier, seed):
    ts = []
    for n in range(7, 0, -1):
        for j, k in enumerate(kinds_for(n, tier)):
            if set(k) == {"c"}:
                continue
            if tier != "thorough" and n > 2 and (j + n) % 3 and j > 1:
                continue
            for m in ["prove", "weight"] if tier == "thorough" else [["prove", "weight"][(n + j) % 2]]:
                ts.append((f"rate{n}/{k}/{m}", one, (n, k, m, j % 5, CONFIGS[(n + j) % 3])))
                if "c" in k:
                    ts.append((f"rate{n}/{k}/{m}/drawn", one, (n, k, m, -1, CONFIGS[(n + j) % 3])))
    for j, (r, k) in enumerate(CHAINS):
        for m in ["prove", "weight"] if tier == "thorough" else [["weight", "prove"][j % 2]]:
            ts.append((f"chain/{r}/{k}/{m}", chained, (r, k, m, j % 5 if j % 2 else -1, CONFIGS[(j + 1) % 3])))
    return ts, dict(
        functions=FN,
        bounds="rates 1-7; allocations of each word as constant (boundary and drawn values), witness, public input, linear combinations, repeated word, output of an earlier "
               "gadget; chains of up to 6 gadgets in one system; modes prove, weight (outlined). Every column but the allocated inputs is an unknown chosen by the prover; all assignments satisfying all rows are covered",
        outside="field arithmetic inside decaf377; other allocation combinations; constants other than those listed; the proof system",
        assumptions=["decaf377::Fq implements F_p exactly", "the constraint system is the one ark-relations finalises"])
