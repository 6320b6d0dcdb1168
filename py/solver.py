"""SMT solver access.  cvc5 decides; z3 (newer release) is the second opinion and fallback."""
import os, subprocess, tempfile, time, re

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "crosschecked": 0, "by": {}}
DEADLINE = [None]  # after this, every query is left undecided: a check ends with "inconclusive" rather than not at all


def late():
    return DEADLINE[0] is not None and time.time() > DEADLINE[0]


SOLVERS = {
    "cvc5": lambda f, t: ["cvc5", f"--tlimit={int(t * 1000)}", "--dag-thresh=0", f],
    "z3": lambda f, t: ["z3-new", f"-T:{int(t)}", f],
}


def _run(which, path, timeout):
    t0 = time.time()
    try:
        r = subprocess.run(SOLVERS[which](path, timeout), capture_output=True, text=True, timeout=timeout + 20)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t0
    first = next((l.strip() for l in out.splitlines() if l.strip()), "")
    if "(error" in out and first not in ("sat",):
        # an error after `unsat` from get-value is expected; anything else is inconclusive
        if first != "unsat":
            first = "unknown"
    STATS["solver_s"] += dt
    b = STATS["by"].setdefault(which, [0, 0.0])
    b[0] += 1
    b[1] += dt
    return (first if first in ("sat", "unsat") else "unknown"), out


def check(text, timeout=60, crosscheck=False, only=None):
    """Returns ('sat'|'unsat'|'unknown', output)."""
    STATS["queries"] += 1
    if late():
        STATS["unknown"] += 1
        return "unknown", "out of time"
    fd, path = tempfile.mkstemp(suffix=".smt2")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        if os.environ.get("VERIF_KEEP_SMT"):
            import shutil
            shutil.copy(path, os.path.join(os.environ["VERIF_KEEP_SMT"], f"q{STATS['queries']}.smt2"))
        order = [(w, timeout) for w in only] if only else [("cvc5", 4), ("z3", 15), ("cvc5", timeout)]
        res, out = "unknown", ""
        for w, tl in order:
            res, out = _run(w, path, min(tl, timeout))
            if res != "unknown":
                break
        if crosscheck and res != "unknown":
            other = "z3" if w == "cvc5" else "cvc5"
            r2, _ = _run(other, path, timeout)
            if r2 != "unknown":
                STATS["crosschecked"] += 1
                if r2 != res:
                    raise RuntimeError(f"solvers disagree: {w}={res} {other}={r2}")
    finally:
        os.unlink(path)
    STATS[res] += 1
    return res, out


def values(out):
    """Parse (get-value (...)) / (get-model) output into {name: int}."""
    d = {}
    for m in re.finditer(r"\(\s*([A-Za-z_][\w.|!]*|\|[^|]*\|)\s+(\(-\s*\d+\)|-?\d+)\s*\)", out):
        v = m.group(2)
        v = -int(re.sub(r"\D", "", v)) if v.startswith("(") or v.startswith("-") else int(v)
        d[m.group(1).strip("|")] = v
    for m in re.finditer(r"define-fun\s+(\S+)\s+\(\)\s+Int\s+(\(-\s*\d+\)|-?\d+)", out):
        v = m.group(2)
        v = -int(re.sub(r"\D", "", v)) if v.startswith("(") or v.startswith("-") else int(v)
        d[m.group(1).strip("|")] = v
    return d
