"""plant(id, property, edits, demo, needs, breaks): make a scratch copy of
/repo, apply the edits, confirm that it builds, passes the stable tests and
that the demonstration tells the two trees apart, then keep the patch under
seeded/ and report which checks see it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# run with cwd at the root of the repository
exec /opt/venv/bin/python%s "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""
HEAD = ("import os\nimport sys\n"
        "sys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"
        "sys.dont_write_bytecode = True\n")


def stable_ok(root):
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, PYTHONPATH=root + "/src",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                        "tests"], cwd=root, env=env, capture_output=True,
                       text=True)
    last = p.stdout.strip().splitlines()[-1]
    return "105 passed" in last or "106 passed" in last, last


def scratch(root):
    d = tempfile.mkdtemp(prefix="plant")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
    return d


def edit(d, edits):
    for path, old, new in edits:
        p = os.path.join(d, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def check(d, pids):
    out = {}
    for pid in pids:
        p = subprocess.run(["timeout", "600", sys.executable, HERE + "/check.py", pid, "quick"],
                           env=dict(os.environ, VERIF_REPO=d), text=True,
                           capture_output=True)
        out[pid] = p.returncode
        if p.returncode == 1:
            print("\n".join(x[:160] for x in p.stdout.splitlines()[:5]))
        elif p.returncode:
            print(p.stdout[-300:], p.stderr[-1500:])
    return out


def plant(id, prop, edits, demo, needs, breaks, also=(), opt="", keep=True):
    d = scratch("/repo")
    try:
        dd = tempfile.mkdtemp(prefix="demo")
        open(dd + "/demo.py", "w").write(HEAD + demo.strip() + "\n")
        open(dd + "/demo.sh", "w").write(SH % opt)
        os.chmod(dd + "/demo.sh", 0o755)

        def run():
            p = subprocess.run(["bash", dd + "/demo.sh"], cwd=d, text=True,
                               capture_output=True)
            return p.returncode, (p.stdout + p.stderr)[-400:]
        a = run()
        edit(d, edits)
        b = run()
        if a[0] != 0 or b[0] == 0:
            print(id, "BAD DEMO", a, b)
            return
        t = stable_ok(d)
        if not t[0]:
            print(id, "TESTS", t[1])
            return
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        if keep:
            o = os.path.join(HERE, "seeded", id)
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            for f in ("demo.py", "demo.sh"):
                shutil.copy(dd + "/" + f, o + "/" + f)
            json.dump({"property": prop, "needs": needs,
                       "what_it_breaks": breaks},
                      open(o + "/meta.json", "w"), indent=1)
        print(id, "PLANTED", check(d, (prop,) + tuple(also)))
    finally:
        shutil.rmtree(d)
        shutil.rmtree(dd)


def refactor(id, edits, pids):
    """a behaviour preserving edit: the checks must stay quiet"""
    d = scratch("/repo")
    try:
        edit(d, edits)
        t = stable_ok(d)
        print(id, "TESTS" if t[0] else "FAILS " + t[1],
              check(d, pids) if t[0] else None)
    finally:
        shutil.rmtree(d)
