"""Development tool: mutation campaign.  Small syntactic changes of the package, kept if the stable tests pass, are given to the checks.

usage: campaign.py OUT.jsonl SEED N JOBS [FILE-substring...]"""
import ast
import json
import os
import random
import re
import shutil
import subprocess as sp
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
import mut

MAP = {"base.py": "C01 C03 C04 C06 C23 C08 C05 C07 C24 C25", "header.pyx": "C02", "var_int.pyx": "C15 C16 C20 C18 C17", "tools.py": "C15 C21 C17 C19", "histograms.py": "C21 C22", "search_utils.py": "C24",
       "file_types.py": "C07 C05", "exceptions.py": "C07 C06", "version_handling.py": "C22",
       "iact/__init__.py": "C13 C14 C07 C08", "iact/objects.py": "C19 C20 C22 C27 C23", "simtel/objects.py": "C17 C18 C16 C21 C22 C27 C23", "simtel/simtelfile.py": "C09 C10 C11 C12 C07 C08",
       "simtel/parsing.pyx": "C17 C18 C22", "simtel/__init__.py": "C27", "simtel/pixelset.py": "C17", "simtel/runheader_dtypes.py": "C17", "simtel/attribute.py": "C10",
       "scripts/cut_eventio_file.py": "C25", "scripts/plot_hists.py": "C28", "scripts/print_structure.py": "C26", "scripts/print_object_information.py": "C26",
       "scripts/print_simtel_metaparams.py": "C26", "scripts/print_simtel_history.py": "C26"}
CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is"),
       ast.In: ("in", "not in"), ast.NotIn: ("not in", "in")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "//"), ast.FloorDiv: ("//", "*"), ast.Div: ("/", "*"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.LShift: ("<<", ">>"),
       ast.RShift: (">>", "<<"), ast.Mod: ("%", "//")}


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x) + 1)
    raw = src

    def pos(l, c):
        return off[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def add(a, b, new, what):
        out.append((a, b, new, what))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            o, m = CMP[type(n.ops[0])]
            t = raw[a:b]
            if t.count(o):
                add(a, b, t.replace(o, m, 1), f"{o} -> {m}")
                if o in ("<", "<="):
                    add(a, b, t.replace(o, ">", 1), f"{o} -> >")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            o, m = BIN[type(n.op)]
            t = raw[a:b]
            if t.count(o):
                add(a, b, t.replace(o, m, 1), f"{o} -> {m}")
        elif isinstance(n, ast.BoolOp):
            o, m = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            add(a, b, raw[a:b].replace(o, m, 1), f"{o} -> {m}")
            for k in range(2):
                if len(n.values) == 2:
                    add(*span(n), raw[slice(*span(n.values[k]))], "drop operand of " + o)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(*span(n), "(" + raw[slice(*span(n.operand))] + ")", "drop not")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(*span(n), str(n.value + 1), f"{n.value} -> +1")
            if n.value > 0:
                add(*span(n), str(n.value - 1), f"{n.value} -> -1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(*span(n), str(not n.value), "flip bool")
        elif isinstance(n, ast.If):
            s = raw[slice(*span(n.test))]
            add(*span(n.test), f"not ({s})", "negate if")
            add(*span(n.test), "False", "if False")
            add(*span(n.test), "True", "if True")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)) and n not in docs):
            add(*span(n), "pass", "delete statement")
        elif isinstance(n, ast.Return) and n.value is not None:
            add(*span(n), "return None", "return None")
        elif isinstance(n, ast.Break):
            add(*span(n), "continue", "break -> continue")
        elif isinstance(n, ast.Continue):
            add(*span(n), "pass", "continue -> pass")
        elif isinstance(n, ast.Raise):
            add(*span(n), "pass", "delete raise")
        elif isinstance(n, ast.IfExp):
            add(*span(n), f"({raw[slice(*span(n.orelse))]})", "always else")
            add(*span(n), f"({raw[slice(*span(n.body))]})", "always then")
        elif isinstance(n, ast.Slice):
            if n.lower and n.upper:
                add(*span(n), raw[span(n.lower)[0]:span(n.lower)[1]] + ":", "drop upper")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and isinstance(n.func, ast.Name):
            x, y = raw[slice(*span(n.args[0]))], raw[slice(*span(n.args[1]))]
            if x != y:
                add(span(n.args[0])[0], span(n.args[1])[1], f"{y}, {x}", "swap arguments")
        elif isinstance(n, ast.Dict) and len(n.values) > 1:
            k = len(n.values) // 2
            x, y = n.values[k - 1], n.values[k]
            a, b = raw[slice(*span(x))], raw[slice(*span(y))]
            add(span(x)[0], span(y)[1], b + raw[span(x)[1]:span(y)[0]] + a, "swap dict values")
        elif isinstance(n, ast.Constant) and type(n.value) is str and re.fullmatch(r"<?[><]?[fdhHiIqQuB]\d?", n.value):
            x = n.value
            y = x.translate(str.maketrans("hHiIqQfdBu", "HhIiQqifiu"))
            if y != x:
                add(*span(n), repr(y), f"{x} -> {y}")
    end = src.find("if __name__ ==")
    return [dict(a=a, b=b, new=new, what=w, line=src.count("\n", 0, a) + 1, old=src[a:b]) for a, b, new, w in out if src[a:b] != new and (end < 0 or a < end)]


PYX = [(r"<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "),
       (r" \| ", " & "), (r"\band\b", "or"), (r"\bint16_t\b", "uint16_t"), (r"\buint16_t\b", "int16_t"), (r"\buint32_t\b", "int32_t"), (r"\buint64_t\b", "uint32_t"), (r"\bint64_t\b", "int32_t"),
       (r"\buint8_t\b", "int8_t")]


def pyx_mutants(src):
    out, p = [], 0
    indoc = False
    for ln, line in enumerate(src.split("\n"), 1):
        q = line.count("'''") + line.count('"""')
        code = line.split("#")[0]
        if not indoc and q == 0 and not re.match(r"\s*(cimport|import|from|def|cdef|cpdef)\b.*(:|import .*)$", code):
            for pat, new in PYX:
                for m in re.finditer(pat, code):
                    out.append(dict(a=p + m.start(), b=p + m.end(), new=new, what=f"{m.group()} -> {new}", line=ln, old=m.group()))
            for m in re.finditer(r"(?<![\w.])\d+(?![\w.])|0x[0-9a-fA-F]+", code):
                v = int(m.group(), 0)
                out.append(dict(a=p + m.start(), b=p + m.end(), new=str(v + 1), what=f"{m.group()} -> {v + 1}", line=ln, old=m.group()))
            m = re.match(r"(\s+)(\w[\w\[\], .]*\s*[+-]?=[^=].*|\w+\.\w+\(.*\))$", code)
            if m and not code.rstrip().endswith((",", "(", "[", "\\")) and code.count("(") == code.count(")"):
                out.append(dict(a=p + len(m.group(1)), b=p + len(code.rstrip()), new="pass", what="delete statement", line=ln, old=m.group(2)))
        if q % 2:
            indoc = not indoc
        p += len(line) + 1
    return out


def one(m):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    repo = os.path.join(d, "repo")
    try:
        sp.check_call(["cp", "-a", "/repo", repo])
        shutil.rmtree(os.path.join(repo, ".git"))
        p = os.path.join(repo, "src/eventio", m["file"])
        s = open(p).read()
        open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])
        if m["file"].endswith(".py"):
            try:
                compile(open(p).read(), p, "exec")
            except SyntaxError:
                return dict(m, r="invalid")
        else:
            r = sp.run(["bash", "-c", f"cd {repo} && SETUPTOOLS_SCM_PRETEND_VERSION=2.0 /opt/venv/bin/python setup.py build_ext --inplace"], stdout=sp.DEVNULL, stderr=sp.DEVNULL, timeout=300)
            if r.returncode:
                return dict(m, r="invalid")
        b = mut.tests(repo)
        if b:
            return dict(m, r="tests")
        for c in (m.get("checks") or MAP[m["file"]]).split():
            rc, o = mut.run(repo, [c])[c]
            if rc == 1:
                return dict(m, r="caught", by=c, msg=o.strip()[:200])
            if rc:
                return dict(m, r="error", by=c, msg=o.strip()[-600:])
        return dict(m, r="MISSED")
    except Exception as e:
        return dict(m, r="campaign", msg=repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    out, seed, n, jobs, *pats = sys.argv[1:]
    rng = random.Random(int(seed))
    todo = []
    for f in MAP:
        if pats and not any(x in f for x in pats):
            continue
        p = os.path.join("/repo/src/eventio", f)
        if not os.path.exists(p):
            continue
        s = open(p).read()
        for m in (py_mutants if f.endswith(".py") else pyx_mutants)(s):
            todo.append(dict(m, file=f))
    print(len(todo), "mutants")
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done.add((x["file"], x["a"], x["b"], x["new"]))
    rng.shuffle(todo)
    todo = [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done][:int(n)]
    with ThreadPoolExecutor(int(jobs)) as ex, open(out, "a") as f:
        for r in ex.map(one, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if r["r"] in ("MISSED", "error", "campaign"):
                print(r["r"], r["file"], r["line"], r["what"], repr(r["old"][:80]), r.get("msg", "")[:300], flush=True)
