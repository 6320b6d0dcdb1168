"""Runs the harnesses of one Kani crate and replays what they refute on its native build."""
import re, subprocess
import build


def run(t, project, harnesses, twin, samples, args=(), features="", search=(), playback=True):
    """harnesses: {name: what}; twin: (name, value that must be refuted); samples(name) -> argument lists for native runs;
    search: harnesses whose counterexamples the native binary looks for itself; playback: have Kani print the values
    of counterexamples (which costs time)."""
    args = list(args) + [x for h in list(harnesses) + [twin[0]] for x in ("--harness", h)]
    wall, out = build.kani(project, args, features, playback=playback)
    res = {}
    for b in re.split(r"Checking harness proofs::", out)[1:]:
        name = re.match(r"\w+", b).group(0)
        m = re.search(r"VERIFICATION:- (\w+)", b)
        n = re.search(r"\*\* \d+ of (\d+)", b)
        s = re.search(r"Verification Time: ([\d.]+)s", b)
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d, ]+)\]", b)]
        res[name] = dict(verdict=m.group(1) if m else None, checks=int(n.group(1)) if n else 0, seconds=float(s.group(1)) if s else 0,
                         values=[int.from_bytes(bytes(v), "little") for v in vals], failed=re.findall(r"Failed Checks: (.*)", b)[:3])
    if not res:
        t.error("kani gave no verdict: " + out[-1500:])
        return
    exe = build.native(project, features)
    config = "native:" + exe

    def native(name, values):
        p = subprocess.run([exe, name] + [str(v) for v in values], capture_output=True, text=True, timeout=300)
        return p.stdout.strip(), (p.stdout + p.stderr)[-300:]
    t.r["info"]["kani_wall_s"] = round(wall, 1)
    for name in list(harnesses) + [twin[0]]:
        r = res.get(name)
        t.r["queries"] += 1
        t.r["paths"] += 1
        if not r or r["verdict"] not in ("SUCCESSFUL", "FAILED"):
            t.error(f"{name}: no verdict")
            continue
        t.r["info"][name] = dict(what=harnesses.get(name, "vacuity guard (must fail)"), verdict=r["verdict"], checks=r["checks"], seconds=r["seconds"])
        t.r["stats_extra"].append(r["seconds"])
        if name == twin[0]:
            if r["verdict"] == "FAILED" and (r["values"][:1] == [twin[1]] if playback else any(str(twin[1]) in f for f in r["failed"])):
                t.r["twins"] += 1
            elif not t.r["violations"]:
                t.error("vacuity guard: the false variant was not refuted with the expected value")
            continue
        t.r["obligations"] += 1
        t.r["terms"] += r["checks"]
        t.r["samples"].append(dict(harness=name, what=harnesses[name], verdict=r["verdict"], cbmc_checks=r["checks"], seconds=r["seconds"]))
        if r["verdict"] == "SUCCESSFUL":
            t.r["proven"] += 1
            # the native build agrees on a few values
            for vs in samples(name):
                if native(name, vs)[0] != "holds":
                    t.violation(f"{name}: {harnesses[name]}", config, [name] + vs, {}, detail=dict(output=native(name, vs)[1]))
                    break
                t.r["validated"] += 1
            continue
        vs = [] if name in search else r["values"]
        if native(name, vs)[0] != "holds":
            t.violation(f"{name}: {harnesses[name]} fails for {r['values']}", config, [name] + vs, {}, detail=dict(kani=str(r["failed"]), output=native(name, vs)[1]))
        else:
            t.error(f"{name}: refuted by Kani ({r['failed']}), but the native build agrees on {r['values']}")
