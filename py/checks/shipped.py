"""The shipped parameters, as the compiled code holds them."""
import spec
from field import P


def const(run, label):
    x = run.out.get(label)
    return None if x is None else run.dag.const_of(x)


def vec(run, label, n):
    return [const(run, f"{label}.{k}") for k in range(n)]


def mat(run, label, r, c):
    v = vec(run, label, r * c)
    return [v[i * c:i * c + c] for i in range(r)]


def extract(run, n):
    """spec.Params filled from the `params` job; None when something is missing."""
    t = n + 1
    try:
        rF, rP = int(run.notes["r_F"]), int(run.notes["r_P"])
        alpha = run.notes["alpha"] if run.notes["alpha"] == "inv" else int(run.notes["alpha"])
    except (KeyError, ValueError):
        return None
    p = spec.Params(t, rF, rP, alpha, mat(run, "mds", t, t), mat(run, "arc", rF + rP, t))
    p.oarc = mat(run, "oarc", rF + rP, t)
    p.M_i = mat(run, "M_i", t, t)
    p.M_00 = const(run, "M_00")
    p.vc = [vec(run, f"vc.{k}", t - 1) for k in range(rP)]
    p.wc = [vec(run, f"wc.{k}", t - 1) for k in range(rP)]
    allv = [x for m in (p.mds, p.arc, p.oarc, p.M_i, p.vc, p.wc) for r in m for x in r] + [p.M_00]
    return None if None in allv else p


def expected(n):
    """(notes, {label: value}) of the `params` job, from the published definition."""
    t, p = n + 1, spec.shipped(n)
    out = {}

    def put(label, m):
        for k, x in enumerate(m):
            out[f"{label}.{k}"] = x
    flat = lambda m: [x for r in m for x in r]
    for label, m in (("mds", p.mds), ("arc", p.arc), ("oarc", p.oarc), ("M_hat", p.M_hat), ("M_prime", p.M_prime), ("M_doubleprime", p.M_doubleprime),
                     ("M_inverse", p.M_inverse), ("M_hat_inverse", p.M_hat_inverse), ("M_i", p.M_i), ("lib.hat", p.M_hat), ("lib.inv", p.M_inverse)):
        put(label, flat(m))
    for label, v in (("v", p.v), ("w", p.w), ("lib.v", p.v), ("lib.w", p.w)):
        put(label, v)
    out["M_00"] = p.M_00
    for k in range(31):
        put(f"vc.{k}", p.vc[k])
        put(f"wc.{k}", p.wc[k])
    return dict(M="128", alpha="17", r_F="8", r_P="31", total="39"), {l: x % P for l, x in out.items()}
