#!/usr/bin/env python3
"""Creates and validates a planted bug under /verif/seeded (development tool,
no check uses it): plant(id, prop, [(file, old, new)...], demo Go source, needs, breaks)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plantwt"
def sh(c, cwd=W, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -qfd")
def plant(id, prop, edits, demo, needs, breaks, race=False, others=()):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    env = "GOFLAGS= GOPROXY=off GOTOOLCHAIN=local" + (" CGO_ENABLED=1" if race else "")
    with open(d + "/main.go", "w") as f: f.write(demo)
    with open(d + "/demo.sh", "w") as f:
        f.write("#!/bin/bash\n# exit 0: behaves as promised; nonzero: broken. Run with cwd /repo.\n"
                'd=$(cd "$(dirname "$0")" && pwd)\n'
                f'exec env {env} timeout 200 go run{" -race" if race else ""} "$d/main.go"\n')
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1); f.write("\n")
    fresh()
    ok = True
    r = sh(f"bash {d}/demo.sh")
    if r.returncode: print(id, "DEMO FAILS ON BASE", r.stdout[-600:], r.stderr[-600:]); ok = False
    for f, o, n in edits:
        p = f"{W}/{f}"; s = open(p).read()
        if s.count(o) != 1: print(id, "MATCHES", s.count(o), f, repr(o)); return False
        open(p, "w").write(s.replace(o, n))
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    r = sh("go build ./...")
    if r.returncode: print(id, "BUILD", r.stderr); return False
    r = sh("go test ./... 2>&1 | grep -v 'no test files'")
    if "FAIL" in r.stdout: print(id, "TESTS", r.stdout[-900:]); ok = False
    r = sh(f"bash {d}/demo.sh")
    if r.returncode == 0: print(id, "DEMO PASSES WITH PATCH", r.stdout[-300:]); ok = False
    demo_out = (r.stdout + r.stderr).strip().splitlines()[:2]
    # lines must be of the original repository
    bl = sh("git diff -U0 | grep '^@@'").stdout
    for f, _, _ in edits:
        b = sh(f"git diff -U0 {f} | grep '^@@'").stdout
        for l in b.splitlines():
            a = l.split()[1][1:].split(",")
            st = int(a[0]); ln = int(a[1]) if len(a) > 1 else 1
            if ln:
                bb = sh(f"git blame -s -L {st},{st+ln-1} HEAD -- {f}").stdout
                for x in bb.splitlines():
                    if not x.startswith("^b9b676b") and not x.startswith("b9b676b"):
                        print(id, "NOTE own line:", x)
    caught = []
    for c in [prop] + list(others):
        r = subprocess.run(["/verif/bin/xv", "-repo", W, "-property", c, "-known", V + "/known_findings.txt"], capture_output=True, text=True, cwd="/tmp")
        if r.returncode == 1:
            caught.append(c); print("   ", [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")][0][:230])
        elif r.returncode: print(id, "CHECK RC", r.returncode, r.stdout[-200:], r.stderr[-300:])
    fresh()
    print(id, "OK" if ok else "BAD", "caught" if prop in caught else "MISSED", demo_out)
    return ok
