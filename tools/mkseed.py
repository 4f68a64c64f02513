#!/usr/bin/env python3
"""mkseed.py FILE.py [ID...]: confirms planted bugs in a scratch copy of /repo and stores them in /verif/seeded.

FILE.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], and either
test (a Go test file for package dir pkg, run with an overlay) or sh (body of demo.sh; files: extra files).
"""
import sys, os, json, subprocess, shutil, tempfile, runpy
DEMO = '''#!/bin/bash
# runs with cwd = the repository; exit 0 if the behaviour is right
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestZZDemo$' ./%s
'''
def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in seeds:
        if only and s["id"] not in only: continue
        d = tempfile.mkdtemp(prefix="seed-")
        try:
            run("git -C /repo worktree prune; cp -a /repo %s/repo" % d, "/")
            r = d + "/repo"
            out = "/verif/seeded/" + s["id"]
            tmp = d + "/demo"; os.makedirs(tmp)
            if "test" in s:
                pkg = s.get("pkg", ".")
                open(tmp + "/demo_test.go", "w").write(s["test"])
                open(tmp + "/demo.sh", "w").write(DEMO % (pkg, pkg))
            else:
                open(tmp + "/demo.sh", "w").write("#!/bin/bash\n# runs with cwd = the repository; exit 0 if the behaviour is right\n. /opt/vp/env.sh\nd=$(cd \"$(dirname \"$0\")\" && pwd)\nt=$(mktemp -d); trap 'rm -rf \"$t\"' EXIT\n" + s["sh"])
                for n, c in s.get("files", {}).items(): open(tmp + "/" + n, "w").write(c)
            ok = run("bash %s/demo.sh" % tmp, r)
            if ok.returncode != 0:
                print(s["id"], "REJECTED: demo fails on the unchanged tree\n", (ok.stdout + ok.stderr)[-2500:]); continue
            bad = False
            for f, old, new in s["edits"]:
                p = r + "/" + f; t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "REJECTED: text found %d times in %s: %s" % (t.count(old), f, old[:60])); bad = True; break
                open(p, "w").write(t.replace(old, new))
            if bad: continue
            b = run("GOWORK=off; . /opt/vp/env.sh; go vet ./... ; go build ./...", r)
            if b.returncode != 0:
                print(s["id"], "REJECTED: build\n", b.stderr[-1500:]); continue
            t = run(". /opt/vp/env.sh; go test -count=1 -json ./... ", r)
            passed = set()
            for l in t.stdout.splitlines():
                try: e = json.loads(l)
                except Exception: continue
                if e.get("Action") == "fail" and "Test" in e: print(s["id"], "fails", e["Test"]); bad = True
            if bad or t.returncode != 0:
                print(s["id"], "REJECTED: tests", t.stderr[-500:]); continue
            dm = run("bash %s/demo.sh" % tmp, r)
            if dm.returncode == 0:
                print(s["id"], "REJECTED: demo passes with the change"); continue
            diff = run("git diff", r).stdout
            # lines changed must be of the original repository
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            for n in os.listdir(tmp): shutil.copy(tmp + "/" + n, out + "/" + n)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print(s["id"], "kept;", [l for l in (dm.stdout + dm.stderr).splitlines() if "demo" in l or "zz" in l][:2])
        finally:
            shutil.rmtree(d, ignore_errors=True)
main()
