"""Plant the bugs defined in tools/seeds/*.py and see which checks catch them (development tool).

    plant.py run [ID ...] [-j N] [--keep]   try each bug in scratch copies of /repo and /verif
Each bug: patch applies, builds, the stable tests pass, the demo fails with it and passes without,
the property's quick check reports it.  --keep writes /verif/seeded/<ID>/ for those that qualify.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import textwrap
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")
SEEDS = {}


def S(id, prop, edits, needs, breaks, demo):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, needs=" ".join(needs.split()), breaks=" ".join(breaks.split()), demo=textwrap.dedent(demo).strip() + "\n")


def load():
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/seeds/*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"S": S})


DEMO_SH = '#!/bin/bash\n. /opt/vp/env.sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PLUG = """
import sys
sys.path.insert(0, %(verif)r)
from mc import repo
repo.use(True)
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def fresh(slot):
    base = "/tmp/plant-%d" % slot
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    sh(["cp", "-a", "/repo", base + "/repo"])
    os.makedirs(base + "/verif")
    for x in ("mc", "bin", "known_findings.txt", ".cache"):
        sh(["cp", "-a", os.path.join(VERIF, x), base + "/verif/"])
    for f in glob.glob(base + "/verif/mc/*.py") + glob.glob(base + "/verif/mc/checks/*.py"):
        s = open(f).read()
        if '"/repo' in s:
            open(f, "w").write(s.replace('"/repo', '"' + base + "/repo"))
    open(base + "/plantplug.py", "w").write(PLUG % dict(verif=base + "/verif"))
    return base


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))


def one(seed, slot, args):
    base = "/tmp/plant-%d" % slot
    r = dict(id=seed["id"], prop=seed["prop"])
    repo = base + "/repo"
    sh(["git", "checkout", "-q", "--", "."], cwd=repo)
    try:
        for f, old, new, *nth in seed["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1 and not nth or nth and n <= nth[0]:
                r["result"] = "EDIT matches %d times in %s: %r" % (n, f, old[:60])
                return r
            parts = s.split(old)
            k = nth[0] if nth else 0
            open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = sh(["git", "diff"], cwd=repo).stdout
        ddir = base + "/demo"
        shutil.rmtree(ddir, ignore_errors=True)
        os.makedirs(ddir)
        open(ddir + "/demo.py", "w").write(seed["demo"])
        env = dict(ENV, PYTHONPATH=base)
        run = [PY, "-c", "import plantplug,runpy,sys; runpy.run_path(%r, run_name='__main__')" % (ddir + "/demo.py")]
        d1 = sh(run, cwd=repo, env=env)
        r["demo_with"] = d1.returncode
        if d1.returncode == 0:
            r["result"] = "DEMO passes with the bug"
            return r
        if args.tests:
            t = sh([PY, "-m", "pytest", "tests", "-q", "-p", "plantplug", "-p", "no:cacheprovider", "-x", "-n", "0", "--ignore=tests/test_docs.py", "--deselect", "tests/test_earthquake_oksar.py::TestOksar::test_los"],
                   cwd=repo, env=env)
            r["tests"] = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
            if t.returncode != 0:
                r["result"] = "TESTS catch it: " + " ".join(x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:200]
                return r
        c = sh(["bash", base + "/verif/bin/check", seed["prop"], "--tier", "quick", "--procs", str(args.procs)])
        r["check"] = c.returncode
        hit = "VIOLATION property=%s " % seed["prop"] in c.stdout
        r["what"] = c.stdout.strip().splitlines()[0][:160] if c.stdout.strip() else ""
        r["result"] = "caught" if c.returncode == 1 and hit else "MISSED (%d) %s" % (c.returncode, c.stdout[-300:])
        sh(["git", "checkout", "-q", "--", "."], cwd=repo)
        d0 = sh(run, cwd=repo, env=env)
        r["demo_without"] = d0.returncode
        if d0.returncode:
            r["result"] = "DEMO fails without the bug: " + d0.stdout[-400:]
            return r
        if args.keep:
            out = os.path.join(VERIF, "seeded", seed["id"])
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.py", "w").write(seed["demo"])
            json.dump({"property": seed["prop"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return r
    except Exception as e:
        r["result"] = "ERROR %r" % e
        return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--procs", type=int, default=4)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-tests", dest="tests", action="store_false")
    args = ap.parse_args()
    load()
    todo = [s for k, s in SEEDS.items() if not args.ids or any(k == i or (i.endswith("*") and k.startswith(i[:-1])) or s["prop"] == i for i in args.ids)]
    slots = Queue()
    for i in range(min(args.j, len(todo))):
        fresh(i)
        slots.put(i)

    def go(s):
        k = slots.get()
        try:
            r = one(s, k, args)
        finally:
            slots.put(k)
        print("%-5s %-4s %s" % (r["id"], r["prop"], r["result"]), "|", r.get("what", ""), flush=True)
        return r

    with ThreadPoolExecutor(args.j) as ex:
        res = list(ex.map(go, todo))
    for i in range(args.j):
        shutil.rmtree("/tmp/plant-%d" % i, ignore_errors=True)
    f = os.path.join(VERIF, ".cache/plant.json")
    try:
        old = json.load(open(f))
    except Exception:
        old = {}
    old.update({r["id"]: r for r in res})
    json.dump(old, open(f, "w"), indent=1)


if __name__ == "__main__":
    main()
