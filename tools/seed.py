"""Creates /verif/seeded/<id>/ from a description (development tool).

seed.add(id, property, needs, breaks, edits=[(file, old, new)], demo=python source): the demo exits nonzero iff the bug shows.
"""
import json, os, shutil, subprocess, sys

ROOT = "/verif/seeded"
WORK = "/tmp/seedwork"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, stdin=subprocess.DEVNULL, **kw)


def add(sid, prop, needs, breaks, edits, demo, checks=None, run=True):
    copy = f"{WORK}/{sid}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", copy])
    folder = f"{ROOT}/{sid}"
    os.makedirs(folder, exist_ok=True)
    with open(folder + "/demo.py", "w") as f:
        f.write(demo.lstrip("\n"))
    with open(folder + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# run in the repository; exit 0 iff the behaviour is right\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 COLUMNS=20 LINES=6 SLATE_COLORSYS=true_color\n'
                'exec timeout 100 /opt/venv/bin/python "$here/demo.py" </dev/null\n')
    os.chmod(folder + "/demo.sh", 0o755)
    before = sh(["bash", folder + "/demo.sh"], cwd=copy)
    for file, old, new in edits:
        path = f"{copy}/{file}"
        s = open(path).read()
        assert s.count(old) == 1, (sid, file, s.count(old), old)
        open(path, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], cwd=copy).stdout
    open(folder + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(folder + "/meta.json", "w"), indent=1)
    after = sh(["bash", folder + "/demo.sh"], cwd=copy)
    tests = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "tests"], cwd=copy, env={**os.environ, "PYTHONPATH": copy})
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = {l.split("::")[-1].strip() for l in tests.stdout.splitlines() if l.startswith("PASSED ")}
    missing = [s for s in stable if s.split("::")[-1] not in passed]
    result = []
    for c in checks or [prop]:
        p = sh(["/opt/venv/bin/python", "/verif/mc/run.py", c], env={**os.environ, "SLATE_MC_REPO": copy})
        result.append(f"{c}={'caught' if p.returncode == 1 else 'MISSED' if p.returncode == 0 else 'ERROR'}")
        detail = " | ".join(p.stdout.splitlines()[1:2])[:200]
    ok = before.returncode == 0 and after.returncode != 0 and not missing
    print(f"{sid}: demo before={before.returncode} after={after.returncode} tests={'ok' if not missing else missing} {result} {'' if ok else '<<<<<< BAD'}\n    {detail}")
    if before.returncode:
        print(before.stdout[-500:], before.stderr[-800:])
    shutil.rmtree(copy, ignore_errors=True)
