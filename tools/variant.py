#!/usr/bin/env python3
"""variant.py FILE [NAMES] [--ids A,B] : applies each behaviour-preserving refactoring of FILE (V = {name: (ids, [(file, old, new)...])})
to a scratch copy of /repo and checks that the tree builds, passes its tests (--tests), and that the checks stay quiet."""
import os, shutil, subprocess, sys, runpy
sys.path[:0] = ["/verif/lib"]
a = sys.argv[1:]
tests = "--tests" in a
a = [x for x in a if x != "--tests"]
ids = None
if "--ids" in a:
    i = a.index("--ids")
    ids = a[i + 1].split(",")
    del a[i:i + 2]
V = runpy.run_path(a[0])["V"]
WT = "/tmp/variant_wt"
J = 1
if "-j" in a:
    i = a.index("-j")
    J = int(a[i + 1])
    del a[i:i + 2]
if J > 1:
    # in as many processes
    names = [n for n in V if len(a) < 2 or n in a[1:]]
    ps = [subprocess.Popen([sys.executable, "-u", __file__, a[0]] + names[k::J] + (["--tests"] if tests else []) + (["--ids", ",".join(ids)] if ids else []) + ["--wt", WT + str(k)],
                           stdout=open("/tmp/variant_log%d" % k, "w"), stderr=subprocess.STDOUT) for k in range(J) if names[k::J]]
    for k, p in enumerate(ps):
        p.wait()
    for k in range(len(ps)):
        print(open("/tmp/variant_log%d" % k).read(), end="")
    sys.exit()
if "--wt" in a:
    i = a.index("--wt")
    WT = a[i + 1]
    del a[i:i + 2]
if not os.path.isdir(WT):
    subprocess.run(["cp", "-a", "/repo", WT], check=True)
bad = 0
for name, (vids, edits) in V.items():
    if len(a) > 1 and name not in a[1:]:
        continue
    subprocess.run("git -C %s checkout -q -f . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (WT, WT, WT), shell=True, check=True)
    okk = True
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(name, "EDIT DOESN'T APPLY", f, s.count(old), repr(old[:60]))
            okk = False
            break
        open(p, "w").write(s.replace(old, new))
    if not okk:
        bad += 1
        continue
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=WT, capture_output=True, text=True)
    if r.returncode:
        print(name, "DOES NOT BUILD", r.stderr[-1500:])
        bad += 1
        continue
    if tests:
        r = subprocess.run(["cargo", "test", "--offline", "-q", "--lib"], cwd=WT, capture_output=True, text=True)
        if r.returncode:
            print(name, "TESTS FAIL", r.stdout[-1500:])
            bad += 1
            continue
    for pid in (ids or vids):
        r = subprocess.run([sys.executable, "/verif/check.py", pid], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=WT))
        print("%-28s %-4s rc=%d" % (name, pid, r.returncode))
        if r.returncode:
            bad += 1
            print("\n".join(l[:300] for l in r.stdout.splitlines() if "analysed:" not in l)[:1200])
print("bad:", bad)
