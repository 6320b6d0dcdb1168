"""C16: the shipped parameters are the published ones, consistent with each other, and stored canonically."""
import build, engine
from checks.matrices import *
from checks import shipped

CONFIGS = list(build.CONFIGS)


def constants(t, n, configs):
    notes, want = shipped.expected(n)
    seen = set()
    for c in configs:
        text = engine._exec(build.build("sym", c), ["params", n], [])
        if text in seen:
            t.r["info"].setdefault("same_constants", []).append(c)
            real(t, n, c, notes, want)
            continue
        seen.add(text)

        def goals(run):
            d = run.dag
            extra = sorted(set(run.out) - set(want))
            if extra:
                t.error(f"constants without a reference: {extra[:3]}")
            gs = [(l, run.out.get(l), d.k(x)) for l, x in want.items()]
            # limbs as written in the source: below p
            bad = [l for l, x in run.raw.items() if x >= P]
            for l in bad[:3]:
                rr = t.real(c, ["params", n])
                if l in rr.noncanonical:
                    t.violation(f"{l}: stored limbs are not reduced modulo p", c, ["params", n], {})
                else:
                    t.error(f"{l}: limbs not reduced symbolically, canonical in the real build")
            t.r["obligations"] += len(run.raw)
            t.r["proven"] += len(run.raw) - len(bad)
            return gs
        t.explore(c, ["params", n], goals, notes=lambda run: notes, twin=False)
        if t.r["violations"]:
            return
        real(t, n, c, notes, want)


def real(t, n, c, notes, want):
    rr = t.real(c, ["params", n])
    for k, v in notes.items():
        if rr.notes.get(k) != v:
            t.violation(f"{k}: got {rr.notes.get(k)!r}, expected {v!r}", c, ["params", n], {})
    for l, x in want.items():
        if rr.out.get(l) != x:
            t.violation(f"{l}: got {rr.panic or rr.out.get(l)}, expected {x:#x}", c, ["params", n], {})
    for l in sorted(rr.noncanonical)[:1]:
        t.violation(f"{l}: stored value is not canonical", c, ["params", n], {})
    t.r["validated"] += 1


def relations(t, n, config):
    """For every vector x: M^-1(Mx) = x, Mhat^-1(Mhat x) = x, M'(M''x) = Mx, and per sparse layer M S = next."""
    run = t.sym(config, ["params", n])
    w, d = n + 1, run.dag
    if run.panic:
        t.replay(config, ["params", n], {}, "panic", None)
        return
    m = lambda l, r, c: [[run.out[f"{l}.{i * c + j}"] for j in range(c)] for i in range(r)]
    x = [d.var(f"x.{i}") for i in range(w)]
    ap = lambda A, v: [d.dot(r, v) for r in A]
    mds, inv_ = m("mds", w, w), m("M_inverse", w, w)
    mx = ap(mds, x)
    gs = [(f"M_inverse(M x).{i}", a, b) for i, (a, b) in enumerate(zip(ap(inv_, mx), x))]
    gs += [(f"M(M_inverse x).{i}", a, b) for i, (a, b) in enumerate(zip(ap(mds, ap(inv_, x)), x))]
    y = x[1:]
    gs += [(f"M_hat_inverse(M_hat x).{i}", a, b) for i, (a, b) in enumerate(zip(ap(m("M_hat_inverse", n, n), ap(m("M_hat", n, n), y)), y))]
    gs += [(f"M'(M'' x).{i}", a, b) for i, (a, b) in enumerate(zip(ap(m("M_prime", w, w), ap(m("M_doubleprime", w, w), x)), mx))]
    # the sparse layers, multiplied out after M_i, are the plain partial-round matrices: 31 applications of M
    s = ap(m("M_i", w, w), x)
    for k in range(30, -1, -1):
        v, h = [run.out[f"vc.{k}.{i}"] for i in range(n)], [run.out[f"wc.{k}.{i}"] for i in range(n)]
        s = [d.dot([run.out["M_00"]] + h, s)] + [d.add(d.mul(v[i], s[0]), s[i + 1]) for i in range(n)]
    full = x
    for _ in range(31):
        full = ap(mds, full)
    gs += [(f"sparse layers after M_i.{i}", a, b) for i, (a, b) in enumerate(zip(s, full))]

    def refuted(label, env):
        # constants differ from the real build only if the encoding is wrong; check, then report
        rr = t.real(config, ["params", n])
        if any(rr.out.get(l) != d.const_of(v) for l, v in run.out.items()):
            t.error("the real build holds other constants than the symbolic one")
        else:
            t.violation(f"{label}: the identity fails for the shipped constants", config, ["params", n], {}, detail=dict(vector=str({k: hex(v) for k, v in env.items()})))
    t.r["paths"] += 1
    t.goals(d, gs, on_refuted=refuted)
    t.twin(d, gs[0])


def tasks(tier, seed):
    ts = [(f"rate{n}", constants, (n, CONFIGS)) for n in range(7, 0, -1)]
    ts += [(f"relations/{n}/{c}", relations, (n, c)) for n in range(7, 0, -1) for c in (["min-dev", "all-rel"] if tier == "quick" else CONFIGS)]
    return ts, dict(
        functions=["poseidon377::RATE_1..7_PARAMS, every field", "MdsMatrix::{hat,v,w,inverse}, RoundNumbers::{full,partial,total}",
                   "ArcMatrix, OptimizedArcMatrix, OptimizedMdsMatrices constructors"],
        bounds="every constant of every rate 1-7; the identities between them for all vectors; configurations " + ", ".join(CONFIGS),
        outside="32-bit representations of the constants",
        assumptions=["the reference is regenerated from the published procedure: merlin transcript (own Keccak/STROBE), Cauchy matrix 1/(i+t+j), factorisation and equivalent constants of the paper's appendix",
                     "decaf377::Fq implements F_p exactly"])
