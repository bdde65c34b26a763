"""Make and confirm planted bugs (development tool; no check reads this).

usage: seed.py SPEC.py [id ...] ; SPEC.py defines BUGS = [dict(id, property, file, edits, needs, breaks, demo)]
Each bug is applied in a scratch copy of /repo under /tmp; the test suite has to pass with it, the demonstration has to fail
with it and to pass without it. Then patch.diff, demo.sh, demo.py and meta.json are written to /verif/seeded/<id>."""
import json, os, runpy, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
SEEDED = os.environ.get("SEEDED", "/verif/seeded")


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def tests(wt):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="2",
               OMP_NUM_THREADS="2", PYTHONPATH=wt + ":/opt/vp/plugins")
    return sh(f"{PY} -m pytest -q -p no:cacheprovider -p vp_seed -n 4 --dist worksteal --timeout=800 --disable-warnings "
              f"-o python_files='*_unittest.py' unittests 2>&1 | tail -15", wt, env, 1800)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        if not only and os.path.exists(f"{SEEDED}/{b['id']}/patch.diff"):
            continue
        wt = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        try:
            sh(f"git clone -q /repo {wt}/r")
            r = wt + "/r"
            demo = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
            open(demo + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + b["demo"].strip() + "\n")
            open(demo + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            o = sh(f"bash {demo}/demo.sh", r)
            if o.returncode != 0:
                print(b["id"], "DEMO FAILS ON CLEAN TREE", o.stdout[-800:]); continue
            edits = b["edits"]
            bad = False
            for e in edits:
                f, old, new = e if len(e) == 3 else (b["file"], *e)
                p = f"{r}/exact_diag/{f}"
                s = open(p, newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    print(b["id"], "EDIT MATCHES", s.count(old), old); bad = True; break
                open(p, "w", newline="").write(s.replace(old, new))
            if bad:
                continue
            o = sh(f"bash {demo}/demo.sh", r)
            if o.returncode == 0:
                print(b["id"], "DEMO PASSES WITH BUG"); continue
            dm = o.stdout.strip().splitlines()[-1:]
            if "--notest" not in sys.argv:
                t = tests(r)
                last = t.stdout.strip().splitlines()[-1]
                if "failed" in last or "55 passed" not in last:
                    print(b["id"], "TESTS CATCH IT", t.stdout[-600:]); continue
            base = sh("git rev-list --max-parents=0 HEAD", r).stdout.split()[0]
            gone = [l[1:].rstrip("\r") for l in sh("git diff -U0", r).stdout.splitlines() if l[:1] == "-" and l[:3] != "---"]
            orig = set(x.rstrip("\r") for f in sh("git diff --name-only", r).stdout.split() for x in sh(f"git show {base}:{f}", r).stdout.splitlines())
            if not all(g in orig for g in gone):
                print(b["id"], "TOUCHES LINES OF MY OWN FIXES", [g for g in gone if g not in orig][:1]); continue
            d = f"{SEEDED}/{b['id']}"
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE).stdout
            open(d + "/patch.diff", "wb").write(diff)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(f"{demo}/{f}", d)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            chk = ""
            c = sh(f"{PY} -W ignore run_check.py {b['property']} quick 2>&1 | grep -E 'VIOLATION|KNOWN|error' | head -2", "/verif",
                   dict(os.environ, VERIF_REPO=r))
            chk = c.stdout.strip()[:300]
            print(b["id"], "KEPT;", dm, "; check:", chk or "MISSED", flush=True)
        finally:
            shutil.rmtree(wt); shutil.rmtree(demo, ignore_errors=True)


main()
