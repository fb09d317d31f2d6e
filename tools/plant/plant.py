#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from bugs.py and confirms each change in a scratch copy.
   plant.py make [ID...]   write and confirm
   plant.py try  [ID...]   run the check of its property (quick) on a scratch copy with the change
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, "..", "..", "seeded")
sys.path.insert(0, HERE)
from bugs import BUGS
BASE = "d7c02ab"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on", GOFLAGS="-mod=mod -buildvcs=false")
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV["PATH"]
stable = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def blame(path):
    """True for the lines that the original repository has."""
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=7", "HEAD", "--", path], stdout=subprocess.PIPE, check=True).stdout.decode()
    return [l.startswith("^") or l.startswith(BASE) for l in out.splitlines()]

def edit(tree, b):
    """Applies the edits; returns how many original lines they replace."""
    orig = 0
    for path, old, new in b["edits"]:
        f = os.path.join(tree, path)
        s = open(f).read()
        if s.count(old) != 1: raise SystemExit("%s: %r occurs %d times in %s" % (b["id"], old, s.count(old), path))
        open(f, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "diff", "-U0"], cwd=tree, stdout=subprocess.PIPE).stdout.decode()
    cur = None
    for l in d.splitlines():
        if l.startswith("--- a/"): cur, bl = l[6:], blame(l[6:])
        elif l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            orig += sum(bl[start - 1:start - 1 + n])
    return orig

def tests(tree):
    r = sh(["go", "test", "-json", "./..."], tree, timeout=280)
    ok = set()
    for l in r.stdout.decode(errors="replace").splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Test"])
    return ok

def make(b):
    tree = tempfile.mkdtemp(prefix="plant."); shutil.rmtree(tree)
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        d = os.path.join(SEED, b["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copy(os.path.join(HERE, "lib.py"), d)
        shutil.copy(os.path.join(HERE, "demo.sh"), d); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write("from lib import *\n" + b["demo"].lstrip("\n"))
        clean = sh([os.path.join(d, "demo.sh")], tree, timeout=300)
        base = tests(tree)
        orig = edit(tree, b)
        patch = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(patch)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        build = sh(["go", "build", "./..."], tree)
        bad = sh([os.path.join(d, "demo.sh")], tree, timeout=300)
        got = tests(tree) if build.returncode == 0 else set()
        problems = []
        if build.returncode: problems.append("does not build: " + build.stdout.decode()[:600])
        if clean.returncode: problems.append("demo fails on the unchanged tree: " + clean.stdout.decode()[-600:])
        if not bad.returncode: problems.append("demo passes with the change")
        if base - got: problems.append("tests fail: %s" % sorted(base - got))
        if not orig: problems.append("changes no original line")
        print(b["id"], b["prop"], "OK" if not problems else "BAD " + "; ".join(problems), "|", bad.stdout.decode(errors="replace").strip()[-120:].replace("\n", " "), flush=True)
        if problems: shutil.rmtree(d)
        return not problems
    finally:
        shutil.rmtree(tree, ignore_errors=True)

def trial(b, props=None):
    tree = tempfile.mkdtemp(prefix="plant."); shutil.rmtree(tree)
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        edit(tree, b)
        res = []
        for p in props or [b["prop"]]:
            r = \
                subprocess.run([os.path.join(HERE, "..", "..", "run.sh"), "check", p], cwd="/verif", env=dict(ENV, REPO=tree), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace")
            res.append("%s rc=%d %s" % (p, r.returncode, " ".join(l for l in out.splitlines() if l.startswith(("kind", "case ", "CHECK-ERROR")))[:160]))
        if not props and b in BUGS:
            rec = os.path.join(HERE, "caught.json")
            known = json.load(open(rec)) if os.path.exists(rec) else {}
            known[b["id"]] = res[0][7:].split(",")[0] if "rc=1" in res[0] else "missed"
            json.dump(known, open(rec, "w"), indent=1, sort_keys=True)
        print(b["id"], "CAUGHT" if "rc=1" in res[0] else "MISSED", " ; ".join(res), flush=True)
    finally:
        shutil.rmtree(tree, ignore_errors=True)

ids = sys.argv[2:]
props = [i for i in ids if len(i) == 3 and i[0] == "C"]
ids = [i for i in ids if i not in props]
for b in BUGS:
    if ids and b["id"] not in ids: continue
    if sys.argv[1] == "make": make(b)
    elif sys.argv[1] == "try": trial(b, props)
