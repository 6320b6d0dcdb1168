"""Builds the harness against /repo's current tree, one target directory per configuration."""
import hashlib, os, shutil, subprocess, sys, glob, fcntl, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TIMES = {}

# configuration -> (cargo features, profile)
CONFIGS = {
    "min-dev": ("", "dev"),
    "ark-dev": ("ark", "dev"),
    "r1cs-dev": ("r1cs", "dev"),
    "all-dev": ("allf", "dev"),
    "min-rel": ("", "release"),
    "all-rel": ("allf", "release"),
}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in [k for k in e if k.startswith("CARGO_PROFILE") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "CARGO_BUILD_TARGET")]:
        e.pop(k, None)
    return e


def _hash(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, sub, files in os.walk(root):
            sub[:] = sorted(s for s in sub if s not in ("target", ".git", ".build", "seeded"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".md", ".json", ".bin", ".txt")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    try:
                        with open(p, "rb") as fh:
                            h.update(hashlib.sha256(fh.read()).digest())
                    except OSError:
                        pass
    return h.hexdigest()


_cache = {}


def source_hash():
    if "h" not in _cache:
        _cache["h"] = _hash([REPO, os.path.join(VERIF, "harness"), os.path.join(VERIF, "shadow")])
    return _cache["h"]


def build(kind, config):
    """kind: 'sym' or 'real'.  Returns the path of the binary."""
    feats, profile = CONFIGS[config]
    target = os.path.join(BUILD, f"{kind}-{config}")
    os.makedirs(target, exist_ok=True)
    sub = "debug" if profile == "dev" else "release"
    out = os.path.join(target, sub, kind)
    stamp = os.path.join(target, "verif.hash")
    with open(os.path.join(target, "verif.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = source_hash()
        if os.path.exists(stamp) and os.path.exists(out) and open(stamp).read() == want:
            return out
        if os.path.exists(stamp):
            os.unlink(stamp)
        # content changed since the last build: do not trust modification times
        for pat in ("poseidon*", "sym-*", "real-*", "decaf377-*" if kind == "sym" else "none-*"):
            for fp in glob.glob(os.path.join(target, sub, ".fingerprint", pat)):
                shutil.rmtree(fp, ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--locked", "-q", "--target-dir", target]
        if profile == "release":
            cmd.append("--release")
        if feats:
            cmd += ["--features", feats]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", kind), env=env(), capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{kind}/{config}: " + r.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(want)
    return out


# Kani harness crates: directory under harness/, name of the native binary
KANI = {"kani": "descr", "paramgen": "paramgen-parts"}


def _fresh(target, name):
    """Content may have changed: do not trust modification times."""
    for d, sub, _ in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for pat in ("poseidon*", name + "-*"):
                for fp in glob.glob(os.path.join(d, pat)):
                    shutil.rmtree(fp, ignore_errors=True)
            sub[:] = []


def kani(project="kani", args=(), tag="", timeout=600, playback=True):
    """Runs Kani harnesses against the current tree; returns (wall time, output)."""
    import time
    target = os.path.join(BUILD, "kani-" + project + tag)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "verif.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _fresh(target, KANI[project])
        e = env()
        e.pop("RUSTUP_TOOLCHAIN", None)
        e["PATH"] = "/usr/local/bin:" + e["PATH"]
        t0 = time.time()
        try:
            r = subprocess.run(["cargo", "kani", "--target-dir", target, "--output-format=terse"] + (["-Z", "concrete-playback", "--concrete-playback=print"] if playback else []) + list(args),
                               cwd=os.path.join(VERIF, "harness", project), env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise BuildError("kani: timeout")
        return time.time() - t0, r.stdout + r.stderr


def native(project="kani", features=""):
    """The native binary that replays Kani's counterexamples."""
    name = KANI[project]
    target = os.path.join(BUILD, name + features)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "verif.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _fresh(target, name)
        cmd = ["cargo", "build", "--offline", "--locked", "-q", "--target-dir", target] + (["--features", features] if features else [])
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", project), env=env(), capture_output=True, text=True)
        if r.returncode:
            raise BuildError(name + ": " + r.stderr[-3000:])
    return os.path.join(target, "debug", name)


def build_many(pairs):
    """Build several (kind, config) pairs in parallel."""
    res, errs = {}, []

    def go(p):
        try:
            res[p] = build(*p)
        except Exception as e:
            errs.append(e)

    ts = [threading.Thread(target=go, args=(p,)) for p in dict.fromkeys(pairs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


if __name__ == "__main__":
    source_hash()
    pairs = [(k, c) for c in CONFIGS for k in ("sym", "real")]
    build_many(pairs)
    native()
    kani()
    for features, args in (("", ["--harness", "published"]), ("rounds", ["--features", "rounds", "--harness", "margin"]), ("alpha", ["--features", "alpha", "--harness", "none"])):
        native("paramgen", features)
        kani("paramgen", args, features)
    print("built", len(pairs))
