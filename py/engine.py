"""Symbolic execution driver: paths, goals, replay on the real build, evidence."""
import concurrent.futures, json, multiprocessing, os, random, subprocess, sys, tempfile, time, traceback
import build, dag as dagmod, model, solver
from dag import DAG, parse, RealRun
from field import P
from prover import Prover

VERIF = build.VERIF
REPLAY = os.path.join(VERIF, "evidence", "replay")


class Inconclusive(Exception):
    pass


def _exec(binary, args, lines, timeout=300):
    if lines:
        with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
            f.write("\n".join(lines) + "\n")
        path = f.name
    else:
        path = "-"
    try:
        r = subprocess.run([binary, path] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout)
        return r.stdout if r.returncode == 0 else r.stdout + "\n" + r.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        if path != "-":
            os.unlink(path)


class Task:
    """One unit of work in a worker process."""

    def __init__(self, pid, tier, seed, name):
        self.pid, self.tier, self.seed, self.name = pid, tier, seed, name
        self.rng = random.Random(f"{seed}/{name}")
        self.actual = lambda rr, label: rr.out.get(label)  # how a real run shows the value of a goal
        self.until = time.time() + 3600  # no further paths are opened after this
        self.side = self.side_unknown = False
        self.annotate = None  # adds derived observations to a real run
        self.r = dict(name=name, runs=0, paths=0, infeasible=0, unexplored=0, unrealised=0, undecided=0, decisions=0, terms=0, obligations=0,
                      proven=0, queries=0, validated=0, twins=0, violations=[], errors=[], samples=[], info={}, stats_extra=[])

    # -- running --------------------------------------------------------------------------
    def sym(self, config, args, lines=(), dag=None):
        self.r["runs"] += 1
        return parse(_exec(build.build("sym", config), args, list(lines)), dag)

    def real(self, config, args, env=None, lines=(), consts=()):
        ls = [f"v {k} {v}" for k, v in (env or {}).items()] + list(lines)
        rr = RealRun(_exec(build.build("real", config), args, ls))
        rr.inputs = {l.split()[1]: int(l.split()[2]) for l in ls if l[0] in "vc"}
        if self.annotate:
            self.annotate(rr)
        return rr

    def error(self, msg):
        self.r["errors"].append(f"{self.name}: {msg}")

    def violation(self, what, config, args, env, extra_lines=(), detail=None):
        """Record a violation already confirmed on the real build."""
        for v in self.r["violations"]:
            if v["key"] == f"{self.name}/{what.split(':')[0]}":
                return
        self.r["violations"].append(dict(
            key=f"{self.name}/{what.split(':')[0]}", what=f"{self.name}: {what}", config=config, args=[str(a) for a in args],
            input=[f"v {k} {v}" for k, v in (env or {}).items()] + list(extra_lines), detail=detail or {}))

    # -- goals ----------------------------------------------------------------------------
    def replay(self, config, args, env, label, expected, lines=()):
        """Run the real code on env; report when it differs from the oracle."""
        try:
            rr = self.real(config, args, env, lines)
        except RuntimeError as e:
            self.violation(f"{label}: the real code does not terminate normally", config, args, env, lines, dict(error=str(e)[-500:]))
            return True
        if expected is None:
            if rr.panic:
                self.violation(f"{label}: panic {rr.panic}", config, args, env, lines)
                return True
            self.error(f"{label}: symbolic path panics but the real code does not")
            return False
        if self.actual(rr, label) is not None:
            got = self.actual(rr, label)
            if got != expected:
                self.violation(f"{label}: got {got:#x}, expected {expected:#x}", config, args, env, lines)
                return True
        elif rr.panic:
            self.violation(f"{label}: panic {rr.panic}", config, args, env, lines)
            return True
        else:
            got = rr.notes.get(label)
            if got != expected:
                self.violation(f"{label}: got {got!r}, expected {expected!r}", config, args, env, lines)
                return True
        self.error(f"{label}: refuted symbolically, but the real code agrees with the oracle on that input")
        return False

    def prover(self, dag, nonzero=()):
        return Prover(dag, self.rng, timeout=120 if self.tier == "thorough" else 60, crosscheck=self.tier == "thorough", nonzero=nonzero)

    def goals(self, dag, goals, zero=(), nonzero=(), on_refuted=None, what="", neq=()):
        """Discharge goals; on_refuted(label, env) handles counterexamples."""
        pr = self.prover(dag, nonzero)
        q = pr.prove(goals, zero)
        self.r["terms"] += q.terms
        self.r["obligations"] += q.obligations
        self.r["proven"] += len(q.proven)
        self.r["queries"] += q.queries
        for label, env in q.refuted:
            on_refuted(label, env)
            if self.r["violations"]:
                break
        for k, label in enumerate(q.unknown):
            # not proven: look for a counterexample on the path
            g = next((g for g in goals if g[0] == label), None)
            e = g and (k < 6 or not self.side) and model.find(dag, list(zero), self.rng, list(neq) + [(g[1], g[2])])
            if e and on_refuted:
                on_refuted(label, e)
                if self.r["violations"]:
                    break
            if self.side:
                self.side_unknown = True  # a path below a data-dependent branch: counted, outside what was decided
                continue
            self.error(f"{what}{label}: inconclusive")
        return q

    def twin(self, dag, goal, zero=()):
        pr = self.prover(dag)
        if pr.twin(goal, zero):
            self.r["twins"] += 1
        else:
            self.error(f"vacuity guard: a false variant of {goal[0]} was not refuted")

    # -- paths ----------------------------------------------------------------------------
    def explore(self, config, args, goals, inputs=(), notes=None, max_paths=None, validate=True, twin=True,
                fixed_env=None, panic_ok=None, env_filter=None):
        """Explore the data-dependent branches of one job and prove its goals on every path.

        goals(run) -> [(label, term, reference term)], labels being output names;
        notes(run) -> {note: expected}; panic_ok(run) -> True when a panic is the required outcome.
        Returns the run of the first path."""
        max_paths = max_paths or (200 if self.tier == "thorough" else 40)
        inputs = list(inputs)
        queue = [((), None, frozenset())]
        first, seen_paths, locs = None, 0, {}
        while queue:
            if self.r["violations"] or STOP.value:
                break
            forced, env, implied = queue.pop(0)
            if seen_paths >= max_paths or (seen_paths and time.time() > self.until):
                self.r["unexplored"] += 1 + len(queue)
                break
            lines = inputs + [f"f {i} {int(o)}" for i, o in enumerate(forced)]
            if env:
                lines = [f"v {k} {v}" for k, v in env.items() if not any(l.split()[1] == k for l in inputs if l[0] in "cvl")] + lines
            try:
                run = self.sym(config, args, lines)
            except RuntimeError as e:
                self.error(f"symbolic run failed: {str(e)[-600:]}")
                break
            dag = run.dag
            seen_paths += 1
            self.r["paths"] += 1
            ds = run.decisions
            self.r["decisions"] += len(ds)
            bad = [d for d in ds if d["kind"] != "eq"]
            if bad:
                # the encoding does not follow values that leave the field; only differential runs remain
                self._concretised(config, args, goals, run, inputs, bad[0])
                return run

            def zeros(k):
                z = [dag.sub(d["a"], d["b"]) for i, d in enumerate(ds[:k]) if d["outcome"] and i not in implied]
                return [x for x in dict.fromkeys(z) if dag.const_of(x) != 0]

            def neqs(k):
                return [(d["a"], d["b"]) for d in ds[:k] if not d["outcome"]]

            def nonzeros(k):
                return [a if dag.const_of(b) == 0 else dag.sub(a, b) for a, b in neqs(k)]
            # equalities that hold whatever the inputs: their other side is infeasible
            groups = {}
            for i, d in enumerate(ds):
                if i >= len(forced) and d["outcome"]:
                    groups.setdefault(len(neqs(i)), []).append(i)
            for n, ix in groups.items():
                # what is known to be nonzero at the first of them
                same = [(f"d{i}", ds[i]["a"], ds[i]["b"]) for i in ix]
                q = self.prover(dag, nonzero=nonzeros(ix[0])).prove(same, zeros(len(forced)))
                self.r["queries"] += q.queries
                self.r["obligations"] += q.obligations
                implied = implied | {int(l[1:]) for l in q.proven}
                self.r["infeasible"] += len(q.proven)
            self.side, self.side_unknown = first is not None, False
            self._path(config, args, run, goals, notes, zeros(len(ds)), neqs(len(ds)), nonzeros(len(ds)), env, inputs, panic_ok,
                       validate and first is None, twin and first is None)
            self.r["undecided"] += self.side_unknown
            self.side = False
            if first is None:
                first = run
            # children
            for i in range(len(forced), len(ds)):
                if i in implied:
                    continue
                if time.time() > self.until:
                    self.r["unexplored"] += 1
                    continue
                d = ds[i]
                key = (d["loc"], d["outcome"])
                n = locs.get(key, 0)
                # every location, then a spread of its later instances
                if n >= (24 if self.tier == "thorough" else 6) and (n & (n - 1)):
                    locs[key] = n + 1
                    self.r["unexplored"] += 1
                    continue
                locs[key] = n + 1
                pz, pn = zeros(i), neqs(i)
                if d["outcome"]:
                    q = self.prover(dag, nonzero=nonzeros(i)).prove([("flip", d["a"], d["b"])], pz)
                    self.r["queries"] += q.queries
                    if q.proven:
                        self.r["infeasible"] += 1
                        continue
                    cenv = q.refuted[0][1] if q.refuted else None
                    cenv = model.find(dag, pz, self.rng, pn + [(d["a"], d["b"])], names=self._names(run)) if cenv is None else cenv
                else:
                    z = dag.sub(d["a"], d["b"])
                    if dag.const_of(z) not in (None, 0):
                        self.r["infeasible"] += 1
                        continue
                    cenv = model.find(dag, pz + [z], self.rng, pn, names=self._names(run))
                    if cenv is None and self._infeasible(dag, pz + [z], pn):
                        self.r["infeasible"] += 1
                        continue
                if cenv is None:
                    # neither a witness nor a proof of infeasibility: outside the bound, counted
                    self.r["unrealised"] += 1
                    self.r["info"].setdefault("no_witness", []).append(f"{d['loc'].split('/')[-1]} {int(not d['outcome'])}")
                    continue
                child = tuple(e["outcome"] for e in ds[:i]) + (not d["outcome"],)
                queue.append((child, cenv, frozenset(x for x in implied if x < i)))
        return first

    def _names(self, run):
        return sorted(run.inputs)

    def _infeasible(self, dag, zero, neq):
        pr = self.prover(dag)
        names = dag.variables(list(zero) + [x for ab in neq for x in ab])
        envs = [{n: self.rng.randrange(P) for n in names} for _ in range(3)]
        _, _, mono, obl = pr.classify(list(zero) + [x for ab in neq for x in ab], envs)
        if obl:
            return False
        lines, done, atoms = pr.emit(mono, list(zero) + [x for ab in neq for x in ab])
        text = "(set-logic ALL)\n" + "\n".join(pr._assume(sorted(set(zero)), mono, lines, atoms)) + "\n"
        text += "\n".join(f"(assert (not (= (mod (- {done[a]} {done[b]}) {P}) 0)))" for a, b in neq) + "\n(check-sat)\n"
        self.r["queries"] += 1
        return solver.check(text, 5, only=["z3"])[0] == "unsat"

    def _path(self, config, args, run, goals, notes, zero, neq, nonzero, env, inputs, panic_ok, validate, twin):
        dag = run.dag
        names = self._names(run)

        def full(e):
            e2 = {n: run.inputs[n] for n in names}
            e2.update({k: v for k, v in e.items() if k in e2})
            return e2

        def witness():
            e = model.find(dag, zero, self.rng, neq, names=names)
            if e is None and env is not None:
                v = dag.eval(list(zero) + [x for ab in neq for x in ab], full(env))
                if all(v[z] == 0 for z in zero) and all(v[a] != v[b] for a, b in neq):
                    e = env
            return e

        cl = [l for l in inputs if l[0] in "cl"]
        if run.panic and not (panic_ok and panic_ok(run)):
            w = witness()
            if w is None:
                if not (zero or neq):
                    w = {n: run.inputs[n] for n in names}
                else:
                    self.error(f"path ends in a panic ({run.panic}) but no witness was found")
                    return
            self.replay(config, args, full(w), "panic", None, cl)
            return
        gs = goals(run)
        missing = [l for l, a, _ in gs if a is None]
        if missing:
            self.error(f"outputs missing: {missing[:3]}")
            return
        exp_notes = notes(run) if notes else {}
        for k, v in exp_notes.items():
            self.r["obligations"] += 1
            if run.notes.get(k) == v:
                self.r["proven"] += 1
                continue
            w = witness()
            if w is None:
                self.error(f"note {k}: {run.notes.get(k)!r} instead of {v!r} on a path without a witness")
            else:
                self.replay(config, args, full(w), k, v, cl)
            return
        ref = {l: b for l, _, b in gs}

        def refuted(label, e):
            # the sampled environment satisfies `zero`; make it satisfy the disequalities too
            e = full(e)
            v = dag.eval([x for ab in neq for x in ab], e)
            if not all(v[a] != v[b] for a, b in neq):
                e2 = witness()
                e = full(e2) if e2 is not None else e
            exp = dag.eval([ref[label]], e)[ref[label]]
            self.replay(config, args, e, label, exp, cl)

        if gs:
            self.goals(dag, gs, zero, nonzero, refuted, neq=neq)
            if self.side_unknown and not self.r["violations"]:
                validate = True  # at least compare real runs on this path
            if twin and not self.r["violations"]:
                g = next((g for g in gs if dag.op[g[1]][0] not in "k"), None)
                if g:
                    self.twin(dag, g, zero)
        if validate:
            roots = [n for _, a, b in gs for n in (a, b)] + list(run.out.values()) + [x for ab in neq for x in ab] + list(zero)
            order = dag.cone(roots)
            for kind in range(3):
                e = {n: self.rng.randrange(P) if kind == 0 else (0 if kind == 1 else self.rng.choice([0, 1, 2, P - 1, P - 2, (P - 1) // 2])) for n in names}
                v = dag.eval(roots, e, order)
                on_path = all(v[z] == 0 for z in zero) and all(v[a] != v[b] for a, b in neq)
                if not on_path and kind == 0:
                    e = witness()
                    if e is None:
                        continue
                    e = full(e)
                    v = dag.eval(roots, e, order)
                    on_path = True
                if not on_path:
                    continue
                try:
                    rr = self.real(config, args, e, cl)
                except RuntimeError as ex:
                    self.violation("run: the real code does not terminate normally", config, args, e, cl, dict(error=str(ex)[-500:]))
                    return
                for l, _, b in gs:
                    if self.actual(rr, l) != v[b]:
                        self.replay(config, args, e, l, v[b], cl)
                        return
                for k, x in exp_notes.items():
                    if rr.notes.get(k) != x:
                        self.violation(f"{k}: got {rr.notes.get(k)!r}, expected {x!r}", config, args, e, cl)
                        return
                for l, n in run.out.items():
                    if rr.out.get(l) != v[n]:
                        self.error(f"encoding mismatch: output {l} of the real run differs from the symbolic term")
                        return
                self.r["validated"] += 1
                if kind == 0 and len(self.r["samples"]) < 1:
                    self.r["samples"].append(dict(task=self.name, config=config, job=[str(a) for a in args],
                        terms=len(order), goals=len(gs), decisions=len(run.decisions),
                        input={k: hex(x) for k, x in list(e.items())[:3]},
                        output={l: hex(self.actual(rr, l)) for l in list(ref)[:2]}))

    def _concretised(self, config, args, goals, run, inputs, d):
        """A value left the field (bytes, ordering).  Look for a concrete violation, otherwise give up."""
        cl = [l for l in inputs if l[0] in "cl"]
        names = self._names(run)
        gs = goals(run) if not run.panic else []
        for e in self._shapes_of_values(names):
            rr = self.real(config, args, e, cl)
            if rr.panic and not run.panic:
                self.violation(f"panic {rr.panic}", config, args, e, cl)
                return
            for l, _, b in gs:
                x = run.dag.eval([b], e)[b]
                if self.actual(rr, l) != x:
                    self.violation(f"{l}: got {self.actual(rr, l)}, expected {x:#x}", config, args, e, cl)
                    return
        self.error(f"the code inspects the representation of a field element ({d['kind']} at {d['loc']}); outside the encoding")


    def _shapes_of_values(self, names):
        """Assignments whose representations have something special: size, zero or equal limbs and bytes, order."""
        r = self.rng
        small = lambda: r.choice([0, 1, 2, 3, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**128, 2**192, 2**252, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2])
        rnd = lambda: r.randrange(P)
        top = lambda: r.randrange(P - 2**40, P)
        cut = lambda b: (rnd() >> b) << b  # low bits zero
        yield {n: rnd() for n in names}
        for f in (small, lambda: 0, lambda: 1, lambda: P - 1, top, lambda: r.randrange(2**8), lambda: r.randrange(2**32), lambda: r.randrange(2**64), lambda: r.randrange(2**128),
                  lambda: cut(8), lambda: cut(32), lambda: cut(64), lambda: cut(128), lambda: cut(192), lambda: rnd() | 255, lambda: rnd() & ~255 % 2**256):
            yield {n: f() for n in names}
            if f is small:
                for _ in range(10):
                    yield {n: small() for n in names}
            # one special word among drawn ones
            for n in (names if len(names) <= 9 else r.sample(names, 9)):
                yield {**{m: rnd() for m in names}, n: f()}
        base = rnd()
        for k in range(2):
            x = rnd() % 2**64
            yield {n: ((rnd() >> 64) << 64 | x) % P for n in names}  # equal low limbs
            x = (rnd() >> 64) << 64
            yield {n: (x | r.randrange(2**64)) % P for n in names}   # equal high limbs
            x = rnd() % 256
            yield {n: ((rnd() >> 8) << 8 | x) % P for n in names}
            yield {n: base for n in names}
            yield {n: (base + i) % P for i, n in enumerate(sorted(names))}
            yield {n: (base - i) % P for i, n in enumerate(sorted(names))}
        for _ in range(60):
            yield {n: rnd() for n in names}


# -- running tasks and writing evidence ----------------------------------------------------
STOP = multiprocessing.Value("b", 0)  # a violation is confirmed: the remaining tasks are not needed
STARTED = multiprocessing.Value("i", 0)
PLAN = dict(tasks=1, workers=8, end=None)  # `end`: after this, no further paths are opened


def _allowance():
    """Seconds a task that starts now may spend on opening further paths."""
    with STARTED.get_lock():
        STARTED.value += 1
        rest = PLAN["tasks"] - STARTED.value + 1
    left = PLAN["end"] - time.time()
    return max(0, min(left, left * PLAN["workers"] / max(1, rest)))


def _work(a):
    fn, pid, tier, seed, name, args = a
    before = json.loads(json.dumps(solver.STATS))
    t = Task(pid, tier, seed, name)
    t0 = time.time()
    t.until = t0 + _allowance() if PLAN["end"] else t0 + 3600
    try:
        if not STOP.value:
            fn(t, *args)
    except build.BuildError as e:
        t.error("build failed: " + str(e))
    except Exception:
        t.error(traceback.format_exc()[-2500:])
    if t.r["violations"]:
        STOP.value = 1
    t.r["wall_s"] = round(time.time() - t0, 3)
    s = solver.STATS
    for sec in t.r.pop("stats_extra"):  # solver runs made by another tool
        s["queries"] += 1
        s["solver_s"] += sec
    t.r["stats"] = {k: s[k] - before[k] for k in ("queries", "unsat", "sat", "unknown", "solver_s", "crosschecked")}
    return t.r


def run_tasks(pid, tier, seed, tasks, workers=8):
    """tasks: [(name, fn, args)]"""
    jobs = [(fn, pid, tier, seed, name, args) for name, fn, args in tasks]
    PLAN.update(tasks=len(jobs), workers=workers, end=time.time() + (1800 if tier == "thorough" else 330))
    solver.DEADLINE[0] = time.time() + (3000 if tier == "thorough" else 600)
    if os.environ.get("VERIF_SERIAL"):
        return [_work(j) for j in jobs]
    ctx = multiprocessing.get_context("fork")
    with concurrent.futures.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
        return list(ex.map(_work, jobs))


def finish(pid, tier, seed, results, t0, meta):
    tot = lambda k: sum(r[k] for r in results)
    st = lambda k: sum(r["stats"][k] for r in results)
    viol = [v for r in results for v in r["violations"]]
    errors = [e for r in results for e in r["errors"]]
    samples = [s for r in results for s in r["samples"]][:6]
    cov = dict(
        states=tot("terms"), transitions=st("queries"), traces_validated_against_impl=tot("validated"), samples=samples,
        rule=meta.get("rule") or "states = distinct symbolic terms in the cones of the goals, over all jobs and paths; transitions = SMT queries; "
             "traces = runs of the real build whose every output equals the symbolic term evaluated on the same input",
        functions_encoded=meta.get("functions", []), bounds=meta.get("bounds", ""), outside=meta.get("outside", ""),
        tasks=len(results), symbolic_runs=tot("runs"), paths=tot("paths"), infeasible_branches=tot("infeasible"),
        branches_not_explored=tot("unexplored"), branches_without_witness=tot("unrealised"), paths_undecided=tot("undecided"), data_dependent_decisions=tot("decisions"),
        obligations=tot("obligations"), goals_proven=tot("proven"), vacuity_guards_refuted=tot("twins"),
        solver=dict(queries=st("queries"), unsat=st("unsat"), sat=st("sat"), unknown=st("unknown"),
                    seconds=round(st("solver_s"), 2), crosschecked=st("crosschecked")),
        slowest=[dict(task=r["name"], wall_s=r["wall_s"]) for r in sorted(results, key=lambda r: -r["wall_s"])[:4]],
        errors=errors[:10],
    )
    info = {r["name"]: r["info"] for r in results if r["info"]}
    if info:
        cov["details"] = dict(list(info.items())[:12])
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        os.makedirs(REPLAY, exist_ok=True)
        for i, v in enumerate(viol[:5]):
            path = os.path.join(REPLAY, f"{pid}-{i}.txt")
            with open(path, "w") as f:
                exe = v["config"][7:] if v["config"].startswith("native:") else ".build/real-%s/%s/real <this file>" % (
                    v["config"], "release" if v["config"].endswith("rel") else "debug")
                f.write(f"# {v['what']}\n# replay: {exe} {' '.join(v['args'])}\n")
                for k, x in v["detail"].items():
                    f.write(f"# {k}: {x}\n".replace("\n", "\n# ").rstrip("# \n") + "\n")
                f.write("\n".join(v["input"]) + "\n")
            print(v["what"][:600])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR", e[:3000])
        return 2
    print(f"{pid}: held on everything explored: {cov['goals_proven']} goals, {cov['paths']} paths, {cov['solver']['queries']} queries, "
          f"{cov['traces_validated_against_impl']} real runs, {ev['wall_s']} s")
    return 0
