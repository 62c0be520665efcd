#!/usr/bin/env python3
"""Planted bugs (never read by the checks).
  seed.py new FILE.py     FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (C++ main body file text);
                          applies, builds, runs the stable tests and the demo with and without, stores seeded/ID
  seed.py verify [ID..]   re-validate stored bugs against /repo's HEAD
  seed.py run [ID..]      run the property's quick check against each stored bug (in a scratch copy via VP_REPO)
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -Isrc/LNLib/include "$d/demo.cpp" -L_build/RelWithDebInfo -lLNLib -o "$t/demo" || exit 3
LD_LIBRARY_PATH=_build/RelWithDebInfo timeout 120 "$t/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def tests_ok():
    r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base.get("passed", base.get("stable", base)) if isinstance(base, dict) else base
    try:
        ok = set(json.load(open("/tmp/seed_out.json"))["passed"])
    except Exception:
        return ["no result"]
    return sorted(set(base) - ok)


def demo(d):
    return sh(f"bash {d}/demo.sh", cwd="/repo").returncode


def new(fn):
    spec = importlib.util.spec_from_file_location("s", fn)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    d = os.path.join(S, m.ID)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.cpp"), "w").write(m.DEMO)
    # a demo of the C interface compiles the interface itself
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace('"$d/demo.cpp"', '-Idotnet/CAPI/include "$d/demo.cpp" dotnet/CAPI/src/*.cpp') if getattr(m, "CAPI", False) else DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    try:
        for path, old, nw in m.EDITS:
            p = os.path.join("/repo", path)
            s = open(p, newline="").read()
            nl = "\r\n" if "\r\n" in s else "\n"
            old, nw = old.replace("\n", nl), nw.replace("\n", nl)
            assert s.count(old) >= 1, old
            open(p, "w", newline="").write(s.replace(old, nw, 1))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        clean()
    return verify(m.ID)


def verify(i):
    d = os.path.join(S, i)
    ok = True
    r = sh("bash /opt/vp/build.sh")
    if r.returncode or demo(d) != 0:
        print(i, "BAD: demo fails on the unchanged tree", demo(d))
        ok = False
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode:
            print(i, "BAD: patch does not apply", a.stdout)
            return False
        if sh("bash /opt/vp/build.sh").returncode:
            print(i, "BAD: does not build")
            ok = False
        else:
            miss = tests_ok()
            if miss:
                print(i, "BAD: tests fail", miss)
                ok = False
            if demo(d) == 0:
                print(i, "BAD: demo passes with the bug")
                ok = False
    finally:
        clean()
    if ok:
        print(i, "valid")
    return ok


def run(i):
    d = os.path.join(S, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="seedrun")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q . && git apply {d}/patch.diff")
        r = sh(f"python3 {V}/tools/check.py {prop} quick", env=dict(os.environ, VP_REPO=t))
        caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        print(i, prop, "caught" if caught else f"MISSED (exit {r.returncode})", flush=True)
        if not caught:
            print(r.stdout[-600:])
        else:
            print("   ", [x for x in r.stdout.splitlines() if x.startswith("  ")][:2])
        return caught
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1]
    ids = sys.argv[2:]
    if a == "new":
        for f in ids:
            new(f)
    else:
        ids = ids or sorted(os.listdir(S))
        res = [(verify if a == "verify" else run)(i) for i in ids]
        print(sum(map(bool, res)), "of", len(res))
