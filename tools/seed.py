"""Development tool (not used by any check): seed.py SPEC.py [ids]: write /verif/seeded/<id>/ from specs and try them.

A spec file defines S = [dict(id, prop, edits=[(file, old, new[, nth])], main, files={}, dep="askama", features=[], needs, breaks)].
"""
import json, os, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# cwd: /repo after the build. Exit 0 if the property holds for the demonstrated input.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cp -r "$here/demo/." "$tmp/"
sed -i "s#@REPO@#$repo#g" "$tmp/Cargo.toml"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cd "$tmp" || exit 3
@RUN@
'''
RUN = 'CARGO_TARGET_DIR="$tmp/target" cargo run --offline -q'
NOBUILD = 'if CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2>err; then echo "accepted"; exit 1; fi\ncat err; grep -q "@MSG@" err'


def sh(cmd, **kw):
    kw.setdefault("env", dict(os.environ, NO_COLOR="1", TERM="dumb"))
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "demo", "src"))
    saved = {}
    try:
        for e in s["edits"]:
            p = os.path.join("/repo", e[0])
            t = open(p).read()
            saved.setdefault(p, t)
            k = e[3] if len(e) > 3 else 0
            if t.count(e[1]) <= k:
                raise SystemExit("%s: text not found: %s" % (s["id"], e[1][:60]))
            i = -1
            for _ in range(k + 1):
                i = t.index(e[1], i + 1)
            open(p, "w").write(t[:i] + e[2] + t[i + len(e[1]):])
        diff = sh("git -C /repo diff").stdout
    finally:
        for p, t in saved.items():
            open(p, "w").write(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    deps = s.get("deps") or {s.get("dep", "askama"): s.get("features", [])}
    toml = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
    for k, f in deps.items():
        if isinstance(f, str):
            toml += "%s = %s\n" % (k, f)
        else:
            toml += '%s = { path = "@REPO@/%s", features = %s }\n' % (k, k, json.dumps(f))
    open(os.path.join(d, "demo", "Cargo.toml"), "w").write(toml)
    open(os.path.join(d, "demo", "src", "main.rs"), "w").write(s["main"])
    for f, t in s.get("files", {}).items():
        p = os.path.join(d, "demo", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    run = s.get("run") or (NOBUILD.replace("@MSG@", s["rejects"]) if "rejects" in s else RUN)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@RUN@", run))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def check(pid):
    return sh("python3 check.py " + pid, cwd=V)


def attempt(sid, full=True):
    d = os.path.join(V, "seeded", sid)
    pid = json.load(open(d + "/meta.json"))["property"]
    out = [sid]
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    out.append("clean demo %d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-1500:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(sid, "does not apply", r.stderr)
        return
    try:
        if full:
            r = sh("bash /opt/vp/build.sh")
            out.append("build %d" % r.returncode)
            if r.returncode:
                print(r.stdout[-1500:], r.stderr[-1500:])
            else:
                sh("bash /opt/vp/test.sh /tmp/o.json")
                o = json.load(open("/tmp/o.json"))
                b = json.load(open("/opt/vp/BASELINE.json"))
                miss = [t for t in b["stable"] if t not in o["passed"]]
                out.append("tests ok" if not miss else "TESTS FAIL %s" % miss[:3])
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        out.append("patched demo %d%s" % (r.returncode, "" if r.returncode else " (NOT VISIBLE)"))
        out.append((r.stderr.strip().splitlines() or ["?"])[0][:150])
        r = check(pid)
        out.append("check %s exit %d %s" % (pid, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED"))
        v = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith(("violated", "undecided", "error"))]
        out.append(v[0][:200] if v else "")
    finally:
        sh("git -C /repo checkout -- .")
    print(" | ".join(out), flush=True)


if __name__ == "__main__":
    if sys.argv[1].endswith(".py"):
        S = runpy.run_path(sys.argv[1])["S"]
        for s in S:
            if sys.argv[2:] and s["id"] not in sys.argv[2:]:
                continue
            write(s)
            attempt(s["id"])
    else:
        for i in sys.argv[1:]:
            attempt(i)
