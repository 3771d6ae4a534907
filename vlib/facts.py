"""Builds the MIR fact extractor and extracts facts from /repo's current working tree.

Everything lives in /verif/.cache (git-ignored); facts are keyed by a hash of /repo's sources and of
the extractor, so a check always sees the current tree.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ASKAMA_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CRATES = ["askama", "askama_derive", "askama_escape", "askama_parser"]
INTEG = {"actix": "askama_actix", "axum": "askama_axum", "rocket": "askama_rocket", "warp": "askama_warp"}


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_RUSTC_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".md")) or f == "Cargo.lock":
                files.append(os.path.join(root, f))
    for f in files:
        if not os.path.isfile(f):
            continue
        h.update(os.path.relpath(f, REPO).encode())
        h.update(b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    for f in (os.path.join(VERIF, "driver", "src", "main.rs"), os.path.join(VERIF, "driver", "Cargo.toml")):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def _run(cmd, env, cwd):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FactsError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_driver(env):
    _run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(CACHE, "driver")],
         env, os.path.join(VERIF, "driver"))
    return os.path.join(CACHE, "driver", "release", "mirfacts")


def ensure(tags=("",)):
    """Return the directory with facts for the current tree, extracting the missing ones.

    tags: "" = the four default crates (with serde-json); "axum", "actix", ... = one integration build.
    """
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = repo_hash()
        out = os.path.join(CACHE, "facts-" + key)
        os.makedirs(out, exist_ok=True)
        os.utime(out)
        for old in sorted(glob.glob(os.path.join(CACHE, "facts-*")), key=os.path.getmtime)[:-4]:
            if old != out:
                shutil.rmtree(old, ignore_errors=True)
        todo = [t for t in tags if not os.path.exists(os.path.join(out, "DONE." + t))]
        if not todo:
            return out
        env = _env()
        drv = build_driver(env)
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, VERIF).strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        env["MIRFACTS_DIR"] = out
        target = os.path.join(CACHE, "target")
        base = ["cargo", "+nightly", "check", "--offline", "--target-dir", target]
        for t in todo:
            # never let cargo's freshness cache skip the wrapper
            for pat in ("debug/build/askama*", "debug/.fingerprint/askama*", "debug/deps/*askama*"):
                for p in glob.glob(os.path.join(target, pat)):
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
            cmd = base[:]
            if t == "":
                env["MIRFACTS_TAG"] = ""
                for c in CRATES:
                    cmd += ["-p", c]
                cmd += ["--features", "askama/serde-json"]
                need = [c + ".json" for c in CRATES]
            else:
                env["MIRFACTS_TAG"] = "." + t
                cmd += ["-p", INTEG[t]]
                need = [INTEG[t] + "." + t + ".json", "askama_derive." + t + ".json"]
            for n in need:
                if os.path.exists(os.path.join(out, n)):
                    os.unlink(os.path.join(out, n))
            try:
                _run(cmd, env, REPO)
            except FactsError:
                _run(cmd, env, REPO)  # one retry: a transient failure must not decide anything
            for n in need:
                if not os.path.exists(os.path.join(out, n)):
                    raise FactsError("facts missing after extraction: " + n)
            open(os.path.join(out, "DONE." + t), "w").write(key)
        return out


if __name__ == "__main__":
    try:
        print(ensure())
    except FactsError as e:
        print(e)
        sys.exit(2)
