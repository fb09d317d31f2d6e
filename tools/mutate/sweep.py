#!/usr/bin/env python3
"""Applies each small change of mutate.go to a scratch copy of /repo; those that build and pass the
tests are run through the checks (small numbers of cases) until one reports them.
   sweep.py OUT.jsonl [-slots N] [-div N] [-seed N] [-all] [-files a,b] [-max N] [-redo OLD.jsonl]
-all runs every check on every change; -redo repeats the changes that OLD.jsonl says nothing caught.
"""
import argparse, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "..", "..", "harness")
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("-slots", type=int, default=3); ap.add_argument("-workers", type=int, default=4)
ap.add_argument("-div", type=int, default=25); ap.add_argument("-seed", type=int, default=1)
ap.add_argument("-full", action="store_true")
ap.add_argument("-all", action="store_true"); ap.add_argument("-files", default=""); ap.add_argument("-max", type=int, default=10**9)
ap.add_argument("-redo", default=""); ap.add_argument("-checks", default="")
A = ap.parse_args()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on", GOFLAGS="-mod=mod -buildvcs=false -trimpath", VERIF_SEED="1")
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV["PATH"]
ROOT = tempfile.mkdtemp(prefix="sweep."); os.chmod(ROOT, 0o755)
MUT = os.path.join(ROOT, "mutate")
subprocess.run(["go", "build", "-o", MUT, os.path.join(HERE, "mutate.go")], check=True, env=ENV)
FILES = sorted(f for f in os.listdir("/repo/pdf") if f.endswith(".go") and not f.endswith("_test.go") and f not in ("unit_test.go", "logger.go"))
srcs = ["/repo/pdf/" + f for f in FILES] + ["/repo/main.go"]
if A.files: srcs = [s for s in srcs if os.path.basename(s) in A.files.split(",")]
muts = []
for l in subprocess.run([MUT, "list"] + srcs, stdout=subprocess.PIPE, check=True).stdout.decode(errors="replace").splitlines():
    f, n, line, what = l.split("\t", 3)
    muts.append((f, int(n), int(line), what))
random.Random(A.seed).shuffle(muts)
if A.redo:
    old = {(d["file"], d["n"]) for d in map(json.loads, open(A.redo)) if d["result"] == "UNCAUGHT"}
    muts = [m for m in muts if (m[0], m[1]) in old]
muts = muts[:A.max]
done = set()
if os.path.exists(A.out):
    for d in map(json.loads, open(A.out)): done.add((d["file"], d["n"]))
stable = None
ORDER = {"encryption.go": "C07 C08", "filters.go": "C04 C05 C06 C24", "font.go": "C14 C13", "page.go": "C13 C14 C23", "action.go": "C15 C16", "file.go": "C16 C15",
         "output.go": "C20 C16 C21 C17", "main.go": "C20 C21", "array.go": "C22 C11 C01", "dictionary.go": "C22 C16 C15 C13 C23", "object.go": "C17 C15 C16 C23 C01",
         "parser.go": "C01 C19 C03 C09 C10 C18 C11 C02 C07 C13 C23", "reference.go": "C11 C22", "errors.go": "C18", "utility.go": "C14 C09 C17 C18", "pdf.go": "C21 C20 C10 C15",
         "xref.go": "C09", "keyword.go": "C13 C19 C17 C14", "number.go": "C17 C01", "string.go": "C01 C22", "name.go": "C17"}
QUICK = {}
def prep(slot, mutated, rel):
    """builds tree + harness; returns (tree, bin) or error"""
    d = os.path.join(ROOT, "s%d" % slot)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/src")
    t = d + "/src/repo"
    subprocess.run(["cp", "-a", "/repo", t], check=True); shutil.rmtree(t + "/.git", ignore_errors=True)
    if mutated is not None: open(os.path.join(t, rel), "wb").write(mutated)
    return d, t
def run(cmd, cwd, timeout, **k):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(ENV, **k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return -99, b""
    return p.returncode, out
def tests(t):
    # as an unprivileged user: a changed program may remove or write anything
    exe = t + "/../t.test"
    rc, out = run(["go", "test", "-c", "-o", exe, "./pdf"], t, 120, GOFLAGS="-mod=mod -buildvcs=false")
    if rc: print(out.decode()[:500]); return set()
    os.chmod(exe, 0o755)
    rc, out = run(["bash", "-c", "ulimit -v 16000000; exec setpriv --reuid=65534 --regid=65534 --clear-groups %s -test.v -test.timeout 50s" % os.path.abspath(exe)], t + "/pdf", 60)
    if A.max == 0: print(rc, out.decode()[:500])
    return {l.split()[2] for l in out.decode(errors="replace").splitlines() if l.startswith("--- PASS: ")}
def build(d, t):
    h = d + "/src/harness"; os.makedirs(h)
    for f in os.listdir(HARNESS):
        if f.endswith(".go") or f in ("go.mod", "go.sum"): shutil.copy(os.path.join(HARNESS, f), h)
    s = open(h + "/go.mod").read().replace("=> /repo", "=> ../repo"); open(h + "/go.mod", "w").write(s)
    rc, out = run(["go", "build", "-o", d + "/pdfverif", "."], h, 300)
    if rc: return out.decode()
    rc, out = run(["go", "build", "-o", d + "/pdfparser", "."], t, 300)
    if rc: return out.decode()
    os.makedirs(d + "/tmp"); os.makedirs(d + "/verif")
    for x in (d, d + "/tmp"): os.chmod(x, 0o755)
    for x in ("/pdfverif", "/pdfparser"): os.chmod(d + x, 0o755)
    return ""
lock = threading.Lock()
def one(slot, m):
    f, n, line, what = m
    rel = os.path.relpath(f, "/repo")
    text = subprocess.run([MUT, "apply", f, str(n)], stdout=subprocess.PIPE, check=True).stdout
    d, t = prep(slot, text, rel)
    rc, out = run(["go", "build", "./..."], t, 120)
    if rc: return "nobuild", ""
    if stable - tests(t): return "tests", ""
    e = build(d, t)
    if e: return "noharness", e[-200:]
    order = ORDER.get(os.path.basename(f), "").split()
    order += [p for p in (sorted(QUICK) if A.full else ("C24", "C12")) if p not in order]
    if A.checks: order = A.checks.split(",")
    hits = []
    for p in order:
        rc, out = run([d + "/pdfverif", "check", "-prop", p, "-verif", d + "/verif", "-cases", str(max(60, QUICK[p] // A.div))], d, 240,
                      PDFVERIF_TMP=d + "/tmp", PDFVERIF_CLI=d + "/pdfparser", PDFVERIF_WORKERS=str(A.workers), PDFVERIF_NOSHRINK="1", VERIF_TIER="quick")
        if rc == 1: hits.append(p)
        elif rc != 0: hits.append("%s(rc%d)" % (p, rc))
        if hits and not A.all: break
    return ("caught" if hits else "UNCAUGHT"), " ".join(hits)
def worker(slot, q):
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        t0 = time.time()
        try: r, info = one(slot, m)
        except Exception as e: r, info = "error", repr(e)
        with lock:
            with open(A.out, "a") as o: o.write(json.dumps({"file": m[0], "n": m[1], "line": m[2], "what": m[3], "result": r, "info": info, "s": round(time.time() - t0, 1)}) + "\n")
try:
    d, t = prep(99, None, "")
    stable = tests(t); print(len(stable), "tests")
    e = build(d, t)
    if e: sys.exit(e)
    for l in subprocess.run([d + "/pdfverif", "list"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines():
        p, q_, _ = l.split(); QUICK[p] = int(q_)
    q = queue.Queue()
    for m in muts:
        if (m[0], m[1]) not in done: q.put(m)
    print(q.qsize(), "mutants", flush=True)
    ts = [threading.Thread(target=worker, args=(i, q)) for i in range(A.slots)]
    [x.start() for x in ts]; [x.join() for x in ts]
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
