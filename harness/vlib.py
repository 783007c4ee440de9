"""Driver side of the checks (standard library only).

A check = one or more TLC runs of a specification in /verif/spec (which verify
the invariants of the specification and export behaviours) plus replays of
these behaviours in the real code by worker processes (harness/worker.py), or
recorded executions of the real code validated by TLC.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess as sp
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # VERIF_REPO: own development only (scratch copies)
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    """Something in the verification machinery (not in the code under test) failed."""


class Violation(Exception):
    def __init__(self, info):
        super().__init__(info.get("what", "violation"))
        self.info = info


# ---------------------------------------------------------------- build
def _sha(data):
    return hashlib.sha256(data).hexdigest()


def _sha_file_line(path, shown):
    with open(path, "rb") as f:
        return f"{_sha(f.read())}  {shown}"


def _fresh_extensions():
    """-> {pyx path relative to /repo: bool fresh}; same key as /opt/vp/env.sh computes"""
    meta_in = "".join(_sha_file_line(os.path.join(REPO, n), n) + "\n" for n in ("setup.py", "pyproject.toml")
                      if os.path.exists(os.path.join(REPO, n)))
    meta = _sha(meta_in.encode())
    headers, pyxs = [], []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            rel = os.path.relpath(os.path.join(d, n), REPO)
            if n.endswith((".pxd", ".pxi", ".h")):
                headers.append(rel)
            if n.endswith(".pyx"):
                pyxs.append(rel)
    common = "\n".join(_sha_file_line(os.path.join(REPO, h), h) for h in sorted(headers))
    out = {}
    for pyx in sorted(pyxs):
        key = _sha((f"{meta} {common}\n" + _sha_file_line(os.path.join(REPO, pyx), pyx) + "\n").encode())
        base = pyx[:-4]
        stamp = os.path.join(REPO, "build/vp-stamps", base.replace("/", "_"))
        try:
            with open(stamp) as f:
                ok = f.read().strip() == key
        except OSError:
            ok = False
        so = _so_of(base)
        out[pyx] = bool(ok and so)
    return out


def _so_of(base):
    d = os.path.join(REPO, os.path.dirname(base))
    b = os.path.basename(base)
    for n in sorted(os.listdir(d)):
        if n.startswith(b + ".cpython-312") and n.endswith(".so"):
            return os.path.join(d, n)
    return None


def prepare_import(tmp):
    """Returns the PYTHONPATH from which the code of /repo's working tree is imported.

    /repo/src itself if all compiled extensions are up to date, otherwise an
    overlay directory of symbolic links with the stale extensions rebuilt.
    """
    fresh = _fresh_extensions()
    if all(fresh.values()):
        return os.path.join(REPO, "src"), []
    over = os.path.join(tmp, "overlay")
    src = os.path.join(REPO, "src")
    for d, dirs, names in os.walk(src):
        dirs[:] = [x for x in dirs if x != "__pycache__" and not x.endswith(".egg-info")]
        rel = os.path.relpath(d, src)
        os.makedirs(os.path.join(over, rel), exist_ok=True)
        for n in names:
            if n.endswith((".so", ".c", ".pyc")):
                continue
            os.symlink(os.path.join(d, n), os.path.join(over, rel, n))
    procs = []
    for pyx, ok in fresh.items():
        rel = os.path.relpath(pyx, "src")
        base = rel[:-4]
        if ok:
            so = _so_of(pyx[:-4])
            os.symlink(so, os.path.join(over, os.path.dirname(rel), os.path.basename(so)))
            continue
        bdir = os.path.join(tmp, "build_" + base.replace("/", "_"))
        os.makedirs(bdir)
        out = os.path.join(over, base + ".cpython-312-x86_64-linux-gnu.so")
        script = (
            "import sys, sysconfig, subprocess, numpy\n"
            "pyx, mod, c, so = sys.argv[1:]\n"
            "from Cython.Compiler.Main import compile as cc, CompilationOptions\n"
            "o = CompilationOptions(language_level=3, output_file=c)\n"
            "r = cc(pyx, o, full_module_name=mod)\n"
            "assert r.num_errors == 0\n"
            "subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-fwrapv', '-fno-strict-aliasing',"
            " '-I', sysconfig.get_paths()['include'], '-I', numpy.get_include(), c, '-o', so])\n"
        )
        procs.append((pyx, sp.Popen(
            [PY, "-c", script, os.path.join(REPO, pyx), base.replace("/", "."), os.path.join(bdir, "x.c"), out],
            cwd=bdir, stdout=sp.PIPE, stderr=sp.STDOUT)))
    for pyx, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise MachineryError(f"building {pyx} failed:\n{o.decode(errors='replace')[-3000:]}")
    return over, [p for p, ok in fresh.items() if not ok]


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        try:
            # the thorough tier exports gigabytes of behaviours: not into the memory
            if not self.quick or shutil.disk_usage(base).free < 2 << 30:
                base = "/tmp"
        except OSError:
            base = "/tmp"
        self.tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir=base)
        self.disk = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir="/tmp")
        self.states = self.transitions = self.replayed = self.events = 0
        self.traces = 0
        self.samples, self.notes, self.parts, self.assumptions = [], [], [], []
        self.rebuilt = []
        self.pythonpath, self.rebuilt = prepare_import(self.tmp)

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
        e.update(PYTHONPATH=self.pythonpath + ":" + HARNESS, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 MPLBACKEND="Agg", VERIF_IMPORT=self.pythonpath, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                 TMPDIR=self.tmp, VERIF_DISK=self.disk, HOME=e.get("HOME", "/root"), LANG="C.UTF-8", TZ="UTC")
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        shutil.rmtree(self.disk, ignore_errors=True)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, consts=None, init="Init", next="Next", invariants=(), export=None, name=None,
            simulate=None, depth=None, workers=None, timeout=600, properties=(), spec=None, env=None, xmx="6g",
            view=None, need=None, constraint=None, post=None):
        """Run TLC on spec/<module>.tla. `export`: invariant which writes behaviours to IOEnv.OUT.

        Returns the path of the exported file. Raises MachineryError if TLC reports anything but success
        (an invariant of the *specification* is violated, evaluation error, ...)."""
        name = name or module
        if not self.quick:
            timeout = max(timeout, 4 * 3600)
        d = os.path.join(self.tmp, "tlc_" + name)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "out.ndjson")
        if os.path.exists(out):
            os.unlink(out)
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg.append(f"INIT {init}\nNEXT {next}")
        for k, v in (consts or {}).items():
            cfg.append(f"CONSTANT {k} <- c_{k}")
        for i in list(invariants) + ([export] if export else []):
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if view:
            cfg.append(f"VIEW {view}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if post:
            cfg.append(f"POSTCONDITION {post}")
        cfg.append("CHECK_DEADLOCK FALSE")
        mc = "MC_" + re.sub(r"\W", "_", name)
        with open(os.path.join(d, mc + ".tla"), "w") as f:
            f.write(f"---- MODULE {mc} ----\nEXTENDS {module}\n")
            f.writelines(f"c_{k} == {v}\n" for k, v in (consts or {}).items())
            f.write("====\n")
        cfgp = os.path.join(d, mc + ".cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={d}",
               "-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers or NPROC), "-fp", "1", "-seed", str(self.seed)]
        if simulate:
            cmd += ["-simulate", f"num={max(1, simulate // (workers or NPROC))}", "-depth", str(depth or 100)]
        cmd += [os.path.join(d, mc + ".tla")]
        e = self.env(OUT=out, **(env or {}))
        e.pop("PYTHONPATH")
        t = time.time()
        try:
            r = sp.run(cmd, cwd=d, env=e, stdout=sp.PIPE, stderr=sp.STDOUT, timeout=timeout)
        except sp.TimeoutExpired:
            raise MachineryError(f"TLC on {name} did not finish in {timeout}s")
        txt = r.stdout.decode(errors="replace")
        with open(os.path.join(d, "log"), "w") as f:
            f.write(txt)
        if r.returncode != 0:
            raise MachineryError(f"TLC on {name} failed (rc={r.returncode}):\n{_tlc_error(txt)}")
        gen = dist = 0
        m = re.findall(r"(\d+) states generated, (\d+) distinct", txt.replace(",", ","))
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"([\d,]+) states (?:checked|generated)", txt)
            if m:
                gen = dist = int(m[-1].replace(",", ""))
        self.states += dist
        self.transitions += gen
        n = 0
        if export:
            if not os.path.exists(out):
                raise MachineryError(f"TLC on {name} exported no behaviours (vacuous)")
            with open(out, "rb") as f:
                ok = True
                for line in f:
                    n += 1
                    ok = ok and line[:2] == b'"{' and line[-3:] == b'}"\n'
            if not ok:
                # lines longer than the buffer of CSVWrite get mixed up if several TLC workers write them
                if (workers or NPROC) == 1:
                    raise MachineryError(f"TLC on {name} exported malformed behaviours")
                self.states -= dist
                self.transitions -= gen
                return self.tlc(module, consts, init, next, invariants, export, name, simulate, depth, 1, timeout, properties, spec, env, xmx,
                                view, need, constraint, post)
            if need and n < need:
                raise MachineryError(f"TLC on {name} exported only {n} behaviours, expected at least {need}")
        self.parts.append(dict(tlc=name, module=module, states=dist, transitions=gen, behaviours=n,
                               mode="simulation" if simulate else "exhaustive BFS", wall_s=round(time.time() - t, 1)))
        return out

    def python(self, script, *args, timeout=300):
        """Run a script of the harness with the interpreter which can import the code under test."""
        r = sp.run([PY, os.path.join(HARNESS, script), *map(str, args)], cwd=self.tmp, env=self.env(), stdout=sp.PIPE, stderr=sp.STDOUT, timeout=timeout)
        if r.returncode:
            raise MachineryError(f"{script} failed: {r.stdout.decode(errors='replace')[-3000:]}")
        return r.stdout.decode()

    # ------------------------------------------------------------ workers
    def run_workers(self, worker, infile, params=None, nproc=None, timeout=600, label=None, mem_gb=4, count=True):
        """Replay every line of `infile` with harness/worker.py; raises Violation for the first mismatch."""
        nproc = nproc or NPROC
        if not self.quick:
            timeout *= 20
        params = dict(params or {})
        params["seed"] = self.seed
        params["tier"] = self.tier
        t = time.time()
        procs = []
        for i in range(nproc):
            d = os.path.join(self.tmp, f"w_{worker}_{label or ''}_{i}")
            os.makedirs(d, exist_ok=True)
            res = os.path.join(d, "res.json")
            if os.path.exists(res):
                os.unlink(res)
            cmd = [PY, os.path.join(HARNESS, "worker.py"), worker, infile, str(i), str(nproc), res, json.dumps(params)]
            lf = open(os.path.join(d, "log"), "wb")
            procs.append((i, d, res, sp.Popen(cmd, cwd=d, env=self.env(WORKDIR=d, MEM_GB=mem_gb), stdout=lf, stderr=lf, stdin=sp.DEVNULL,
                                              start_new_session=True), lf))
        deadline = t + timeout
        viol, fails, total = [], [], dict(behaviours=0, events=0)
        kinds = {}
        running = list(procs)
        while running:
            for w in list(running):
                i, d, res, p, lf = w
                if p.poll() is not None:
                    how = f"exit status {p.returncode}" if p.returncode else None
                elif time.time() > deadline:
                    how = f"no answer within {timeout}s"
                elif _stalled(d, t):
                    how = f"no answer to one behaviour within {STALL}s"
                else:
                    continue
                running.remove(w)
                if how is not None and p.returncode is None:
                    _killpg(p)
                    p.wait()
                lf.close()
                if how is not None or not os.path.exists(res):
                    fails.append((i, d, how))
                    continue
                with open(res) as f:
                    r = json.load(f)
                total["behaviours"] += r["behaviours"]
                total["events"] += r.get("events", 0)
                for k, v in r.get("kinds", {}).items():
                    kinds[k] = kinds.get(k, 0) + v
                if r.get("violation"):
                    viol.append(r["violation"])
                if r.get("samples") and len(self.samples) < 4:
                    self.samples.append(r["samples"][0])
            if viol:
                # one behaviour is enough
                for i, d, res, p, lf in running:
                    _killpg(p)
                    p.wait()
                    lf.close()
                break
            time.sleep(0.05)
        if viol:
            v = viol[0]
            v.update(worker=worker, params=params)
            raise Violation(v)
        for i, d, how in fails:
            self._worker_failed(worker, d, how, params, infile)
        if count:
            self.replayed += total["behaviours"]
        self.events += total["events"]
        self.parts.append(dict(replay=label or worker, behaviours=total["behaviours"], events=total["events"], kinds=kinds,
                               wall_s=round(time.time() - t, 1)))
        return total, kinds

    def _worker_failed(self, worker, d, how, params, infile):
        with open(os.path.join(d, "log"), errors="replace") as f:
            log = f.read()[-3000:]
        beh = None
        pf = os.path.join(d, "progress")
        if os.path.exists(pf):
            with open(pf) as f:
                s = f.read()
            try:
                beh = json.loads(s)
            except ValueError:
                beh = None
        if "MACHINERY" in log or beh is None:
            raise MachineryError(f"worker {worker} failed ({how}):\n{log}")
        # the code under test crashed, exhausted memory or hung: confirm with the single behaviour
        v = self.replay_one(worker, beh, params, timeout=60)
        if v is None:
            raise MachineryError(f"worker {worker} failed ({how}), not reproducible with {json.dumps(beh)[:500]}:\n{log}")
        raise Violation(v)

    def replay_one(self, worker, beh, params, timeout=120):
        """-> violation dict or None"""
        d = tempfile.mkdtemp(prefix="one_", dir=self.tmp)
        inf, res = os.path.join(d, "in.ndjson"), os.path.join(d, "res.json")
        with open(inf, "w") as f:
            f.write(json.dumps(beh) + "\n")
        with open(os.path.join(d, "log"), "wb") as lf:
            p = sp.Popen([PY, os.path.join(HARNESS, "worker.py"), worker, inf, "0", "1", res, json.dumps(params)], cwd=d,
                         env=self.env(WORKDIR=d, MEM_GB=4), stdout=lf, stderr=lf, stdin=sp.DEVNULL, start_new_session=True)
            try:
                p.wait(timeout)
                how = f"exit status {p.returncode}" if p.returncode else None
            except sp.TimeoutExpired:
                how = f"no answer within {timeout}s"
                _killpg(p)
        if how is None and os.path.exists(res):
            with open(res) as f:
                r = json.load(f)
            if r.get("violation"):
                v = r["violation"]
                v.update(worker=worker, params=params)
                return v
            return None
        with open(os.path.join(d, "log"), errors="replace") as f:
            log = f.read()[-3000:]
        if "MACHINERY" in log:
            raise MachineryError(log)
        return dict(what=f"the process replaying this behaviour ended with {how}", behaviour=beh, worker=worker,
                    params=params, log=log)


def _tlc_error(txt):
    lines = [x for x in txt.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Progress(", "TLC2 Version", "Warning: Please run"))]
    first = next((i for i, x in enumerate(lines) if "rror" in x), 0)
    return "\n".join(lines[first:first + 25])[:2500]


STALL = 150


def _stalled(d, start):
    """Has the worker been busy with the same behaviour for too long?"""
    try:
        last = os.stat(os.path.join(d, "progress")).st_mtime
    except OSError:
        return False
    return time.time() - max(last, start) > STALL


def _killpg(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_lines(path):
    """Behaviours exported by CSVWrite(ToJson(..)): one JSON string containing JSON per line."""
    with open(path) as f:
        for line in f:
            x = json.loads(line)
            yield json.loads(x) if isinstance(x, str) else x


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def run_check(prop, tier, fn, level="model_checking"):
    ctx = None
    try:
        ctx = Ctx(prop, tier)
        rc, viol = 0, None
        try:
            fn(ctx)
        except Violation as v:
            viol = v.info
            rc = 1
        ev = dict(property=prop, tier="quick" if ctx.quick else "thorough", seed=ctx.seed, level=level,
                  coverage=dict(states=ctx.states, transitions=ctx.transitions,
                                traces_validated_against_impl=ctx.replayed + ctx.traces, events=ctx.events,
                                samples=ctx.samples[:4], parts=ctx.parts, rebuilt_extensions=ctx.rebuilt),
                  assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 1), violations=1 if viol else 0)
        if viol:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{prop}_{_sha(json.dumps(viol, sort_keys=True, default=str).encode())[:10]}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=prop, **viol), f, indent=1, default=str)
            ev["violation"] = dict(what=viol.get("what"), replay=rp)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in known_findings():
            if k.get("property") == prop and k.get("status") == "known":
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        if viol:
            print(f"{prop}: {viol.get('what')}")
            print(f"VIOLATION property={prop} replay={rp}")
        else:
            print(f"{prop} {tier}: held; {ctx.states} spec states, {ctx.transitions} transitions, "
                  f"{ctx.replayed + ctx.traces} behaviours validated against the implementation, {ev['wall_s']}s")
        return rc
    except MachineryError as e:
        print(f"MACHINERY ERROR in check {prop}: {e}", file=sys.stderr)
        return 2
    finally:
        if ctx is not None:
            if os.environ.get("VERIF_KEEP"):
                print("kept", ctx.tmp, file=sys.stderr)
            else:
                ctx.close()


def selftest():
    """Are the tools there which the checks need? (nothing is kept)"""
    for cmd in (["java", "-version"], [PY, "-c", "import numpy, zstandard, Cython"]):
        if sp.run(cmd, stdout=sp.DEVNULL, stderr=sp.DEVNULL).returncode:
            print("missing:", cmd)
            return 1
    for n in JARS.split(":"):
        if not os.path.exists(n):
            print("missing:", n)
            return 1
    print("ok")
    return 0
