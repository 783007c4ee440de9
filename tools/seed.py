"""Development tool: creates and verifies planted bugs.

usage: seed.py FILE...      FILE: python source defining ID, PROPERTY, FILE, EDITS=[(old, new)..], NEEDS, BREAKS, DEMO (python source)
       seed.py --verify ID...   verifies seeded/ID again
       options: -c runs the check of the property as well, -k keep going
Everything happens in a scratch copy; the patch is only kept if it applies, touches only lines of the original repository,
the stable tests pass with it and the demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess as sp, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import mut
BASE = "32701ab"


def original_lines(patch):
    """every removed line exists in the original commit"""
    bad = []
    cur = None
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            orig = sp.run(["git", "-C", "/repo", "show", f"{BASE}:{cur}"], stdout=sp.PIPE).stdout.decode().splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:] not in orig and l[1:].strip():
                bad.append(l)
    return bad


def prepared(repo):
    import vlib
    vlib.REPO = repo
    tmp = tempfile.mkdtemp(prefix="seedimp_", dir="/tmp")
    return tmp, vlib.prepare_import(tmp)[0]


def demo(d, repo):
    tmp, path = prepared(repo)
    x = tempfile.mkdtemp(prefix="seeddemo_", dir="/tmp")
    try:
        for n in os.listdir(d):
            if n not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(d, n), x)
        r = sp.run(["bash", os.path.join(x, "demo.sh")], cwd=repo, env=dict(os.environ, PYTHONPATH=path, PYTHONDONTWRITEBYTECODE="1"), stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=300)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(tmp); shutil.rmtree(x)


def verify(d, check=False, quiet=False):
    sd, repo = mut.scratch()
    try:
        rc, out = demo(d, repo)
        if rc:
            return f"demo fails on the unchanged tree: {out[-500:]}"
        p = open(os.path.join(d, "patch.diff")).read()
        bad = original_lines(p)
        if bad:
            return f"changes lines which are not original: {bad}"
        sp.check_call(["git", "init", "-q"], cwd=repo)
        r = sp.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
        if r.returncode:
            return "does not apply: " + r.stdout
        rc, out = demo(d, repo)
        if rc == 0:
            return "demo passes with the patch"
        msg = out.strip().splitlines()[-1][:160] if out.strip() else "?"
        if ".pyx" in p:
            tmp, path = prepared(repo)
            for root, _, names in os.walk(path):
                for n in names:
                    q = os.path.join(root, n)
                    if n.endswith(".so") and not os.path.islink(q):
                        shutil.copy(q, os.path.join(repo, "src", os.path.relpath(q, path)))
            shutil.rmtree(tmp)
        b = mut.tests(repo)
        if b:
            return f"tests fail: {b[:3]}"
        res = f"ok (demo: {msg})"
        if check:
            pr = json.load(open(os.path.join(d, "meta.json")))["property"]
            if ".pyx" in p:
                pass
            for c, (rc, o) in mut.run(repo, [pr]).items():
                res += f"\n   {c} " + {0: "MISSED", 1: "caught"}.get(rc, "ERROR") + " " + o.strip()[:300].replace("\n", " | ")
        return res
    finally:
        shutil.rmtree(sd)


def make(path):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seedwt_", dir="/tmp")
    try:
        sp.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
        files = g["FILE"] if isinstance(g["FILE"], list) else [g["FILE"]] * len(g["EDITS"])
        for f, (old, new) in zip(files, g["EDITS"]):
            p = os.path.join(w, "src/eventio", f)
            s = open(p).read()
            assert s.count(old) == 1, (g["ID"], s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sp.check_output(["git", "-C", w, "diff"]).decode()
    finally:
        sp.call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
        shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("from d import *\n" + g["DEMO"].lstrip("\n"))
    shutil.copy(os.path.join(V, "tools/seedlib/d.py"), d)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run in the root of the repository\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


if __name__ == "__main__":
    a = sys.argv[1:]
    check = "-c" in a
    ver = "--verify" in a
    for x in [x for x in a if not x.startswith("-")]:
        d = os.path.join(V, "seeded", x) if ver else make(x)
        print(os.path.basename(d), verify(d, check), flush=True)
