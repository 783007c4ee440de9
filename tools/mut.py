"""Development tool: applies one textual change in a scratch copy of /repo, runs the stable tests there and then checks.

usage: mut.py [-n] FILE OLD NEW CHECK...     (-n: without the tests)"""
import json
import os
import shutil
import subprocess as sp
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def scratch():
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    r = os.path.join(d, "repo")
    sp.check_call(["cp", "-a", "/repo", r])
    shutil.rmtree(os.path.join(r, ".git"))
    return d, r


def tests(repo):
    """-> list of stable tests which fail"""
    x = os.path.join(repo, "junit.xml")
    env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PATH="/opt/venv/bin:" + os.environ["PATH"])
    try:
        sp.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "-o", "junit_family=xunit2", f"--junitxml={x}"], cwd=repo, env=env,
               stdout=sp.DEVNULL, stderr=sp.DEVNULL, timeout=400)
    except sp.TimeoutExpired:
        return ["timeout"]
    import xml.etree.ElementTree as ET
    seen = set()

    def name(c):
        return f"{c.get('classname')}::{c.get('name')}"
    try:
        for c in ET.parse(x).getroot().iter("testcase"):
            seen.add(name(c))
            if any(e.tag in ("failure", "error", "skipped") for e in c):
                seen.discard(name(c))
    except Exception as e:
        return [repr(e)]
    finally:
        if os.path.exists(x):
            os.unlink(x)
    with open("/opt/vp/BASELINE.json") as f:
        return sorted(set(json.load(f)["stable"]) - seen)


def run(repo, checks, tier="quick"):
    out = {}
    for c in checks:
        r = sp.run([sys.executable, os.path.join(VERIF, "run.py"), c, "--tier", tier] if False else [sys.executable, "-c",
                   f"import sys; sys.path.insert(0,'{VERIF}/harness'); import vlib, checks; sys.exit(vlib.run_check({c!r}, {tier!r}, checks.CHECKS[{c!r}]))"],
                   env=dict(os.environ, VERIF_REPO=repo), stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
        out[c] = (r.returncode, r.stdout)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    notests = a[0] == "-n"
    if notests:
        a = a[1:]
    file, old, new, *checks = a
    d, repo = scratch()
    try:
        p = os.path.join(repo, "src/eventio", file)
        s = open(p).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
        if not notests:
            b = tests(repo)
            print("tests:", "KILLED by " + ", ".join(b[:3]) if b else "survive")
        for c, (rc, o) in run(repo, checks).items():
            print(c, {0: "missed", 1: "CAUGHT"}.get(rc, "ERROR"), o.strip()[:600].replace("\n", " | "))
    finally:
        shutil.rmtree(d)
