"""Confirm a planted bug: python3 tools/plant.py SPEC.py   (SPEC defines PLANTS)
In a scratch copy of /repo: apply the edits, run the stable tests, run the demo
with and without; on success write /verif/seeded/<id>/ and run the check."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# exit 0: property holds; nonzero: broken
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
for p in m.PLANTS:
    if only and p["id"] not in only: continue
    d = tempfile.mkdtemp(prefix="plant"); r = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        t = d + "/demo"; os.mkdir(t)
        open(t + "/demo.py", "w").write(p["demo"]); open(t + "/demo.sh", "w").write(DEMO); os.chmod(t + "/demo.sh", 0o755)
        a = subprocess.run([t + "/demo.sh"], cwd=r, env=ENV, capture_output=True, text=True, timeout=280)
        for f, old, new in p["edits"]:
            s = open(f"{r}/{f}").read()
            assert s.count(old) == 1, (p["id"], f, s.count(old), old)
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        b = subprocess.run([t + "/demo.sh"], cwd=r, env=ENV, capture_output=True, text=True, timeout=280)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-rA"], cwd=r, env=ENV, capture_output=True, text=True)
        passed = {l.split()[1].replace("/", ".").replace(".py::", "::") for l in x.stdout.splitlines() if l.startswith("PASSED")}
        miss = stable - passed
        ok = a.returncode == 0 and b.returncode != 0 and not miss
        print(p["id"], "OK" if ok else "BAD", "clean", a.returncode, "patched", b.returncode, "missing", len(miss), sorted(miss)[:3])
        if not ok:
            print(a.stdout[-600:], a.stderr[-600:], b.stdout[-300:], b.stderr[-300:])
            continue
        print("   demo:", (b.stdout + b.stderr).strip().splitlines()[-1][:150])
        o = f"/verif/seeded/{p['id']}"; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"): shutil.copy(f"{t}/{f}", o)
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(o + "/meta.json", "w"), indent=1)
        c = subprocess.run(["./check", p["property"], "quick"], cwd="/verif", env=dict(ENV, VERIF_REPO=r), capture_output=True, text=True)
        print("   check rc", c.returncode, [l for l in c.stdout.splitlines() if l.startswith(("VIOL", "UNDEC", "INCON", "OK", "  viol"))])
    finally:
        shutil.rmtree(d)
