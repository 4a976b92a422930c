"""
Mutants that the tests let pass, and which checks see them.

    mutate.py survive OUT.json FILE [FILE..]      which single changes of these files of /repo pass the 164 tests
    mutate.py hunt OUT.json P,Q [N,N..]       run the checks P, Q.. against them, in this order, until one sees the change

Everything happens in scratch copies under /tmp, never in /repo itself.
"""
import ast
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeded import PY, sh, worktree  # noqa: E402

SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}


def sites(src):
    """(start, end, replacement, description) of every change."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def indent(n):
        return " " * n.col_offset

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((a, b, new, "%d: %s: %.60s" % (n.lineno, what, " ".join(text(n).split()))))

    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "not (%s)" % text(n.test), "negated")
            if isinstance(n, ast.If) and not n.orelse:
                add(n.test, "False", "never")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            add(n, "%s %s %s" % (text(n.left), SWAP[type(n.ops[0])], text(n.comparators[0])), "compared")
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != k]
                add(n, "(%s)" % (" and " if isinstance(n.op, ast.And) else " or ").join(rest), "without part %d" % k)
        if isinstance(n, ast.Expr) and n not in doc and isinstance(n.value, ast.Call):
            f = text(n.value.func)
            if not f.startswith("log.") and not f.startswith("warnings.warn"):
                add(n, "pass", "dropped")
        if isinstance(n, (ast.AugAssign, ast.Delete, ast.Raise, ast.Break, ast.Continue)):
            add(n, "pass", "dropped")
        if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
            add(n, "pass", "dropped")
        if isinstance(n, ast.Constant) and type(n.value) is int and n not in doc:
            add(n, str(n.value + 1), "one more")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "other")
        if isinstance(n, ast.With) and len(n.items) == 1 and n.items[0].optional_vars is None:
            add(n.items[0].context_expr, "__import__('contextlib').nullcontext()", "without")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy"):
            add(n, text(n.args[0]) if n.args else text(n.func.value), "not copied")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "tuple", "set", "sorted", "abs", "float", "int") and len(n.args) == 1 and not n.keywords:
            add(n, "(%s)" % text(n.args[0]), "not converted")
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + [text(j.value) if j.arg is None else "" for j in []]
                    rest += ["%s=%s" % (j.arg, text(j.value)) if j.arg else "**" + text(j.value) for j in n.keywords if j is not k]
                    add(n, "%s(%s)" % (text(n.func), ", ".join(rest)), "without " + k.arg)
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None:
                    if isinstance(h.type, ast.Tuple):
                        for k in range(len(h.type.elts)):
                            add(h.type, "(%s,)" % ", ".join(text(e) for j, e in enumerate(h.type.elts) if j != k), "handler without part %d" % k)
                    elif text(h.type) == "BaseException":
                        add(h.type, "Exception", "handler narrowed")
                    elif text(h.type) == "Exception":
                        add(h.type, "ValueError", "handler narrowed")
                        add(h.type, "BaseException", "handler widened")
            if n.finalbody and not n.handlers and len(n.finalbody) == 1:
                add(n.finalbody[0], "pass", "finally dropped")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(%s)" % text(n.operand), "sign dropped")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            sym = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}[type(n.op)]
            add(n, "(%s %s %s)" % (text(n.left), sym, text(n.right)), "operator")
    seen, uniq = set(), []
    for m in out:
        if m[:3] not in seen:
            seen.add(m[:3])
            uniq.append(m)
    return uniq


def mutate(src, m):
    raw = src.encode()
    return (raw[:m[0]] + m[2].encode() + raw[m[1]:]).decode()


def survive(outfile, files):
    jobs = []
    for f in files:
        src = open(os.path.join("/repo", f)).read()
        for m in sites(src):
            try:
                ast.parse(mutate(src, m))
            except SyntaxError:
                continue
            jobs.append((f, m))
    n = int(os.environ.get("MUT_JOBS", "6"))
    free = Queue()
    for k in range(n):
        worktree("/tmp/mt%d" % k)
        free.put("/tmp/mt%d" % k)
    kept = []

    def one(job):
        f, m = job
        wt = free.get()
        try:
            p = os.path.join(wt, f)
            src = open(os.path.join("/repo", f)).read()
            open(p, "w").write(mutate(src, m))
            try:
                _, out = sh("timeout 60 nice %s -m pytest -q -x -p no:cacheprovider --timeout=50 tests --deselect tests/test_pkg_init.py::test_available_backends_and_get_backend_bibtex 2>&1 | tail -3" % PY,
                            wt, {"PYTHONPATH": wt + "/src"}, 100)
                ok = "164 passed" in out
            except subprocess.TimeoutExpired:
                ok = False
            open(p, "w").write(src)
            if ok:
                kept.append({"file": f, "m": list(m)})
        finally:
            free.put(wt)

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, jobs))
    kept.sort(key=lambda k: (k["file"], k["m"][0], k["m"][2]))
    json.dump(kept, open(outfile, "w"), indent=0)
    print("%d of %d changes pass the tests" % (len(kept), len(jobs)))


def hunt(outfile, props, only=""):
    """``only``: numbers of the changes, by commas."""
    kept = json.load(open(outfile))
    only = {int(x) for x in only.split(",") if x} or range(len(kept))
    wt = os.environ.get("MUT_TREE", "/tmp/mt0")
    for k, e in enumerate(kept):
        if k not in only:
            continue
        worktree(wt)
        p = os.path.join(wt, e["file"])
        src = open(p).read()
        open(p, "w").write(mutate(src, e["m"]))
        seen = []
        for q in props:
            try:
                code, out = sh("%s %s/check.py %s --tier quick" % (PY, HERE, q), HERE,
                               {"VERIF_REPO": wt, "VERIF_MINIMISE": "1", "VERIF_NOREPLAY": "1", "VERIF_SEED": "1",
                                "VERIF_WALL": os.environ.get("VERIF_WALL", "60")}, 400)
            except subprocess.TimeoutExpired:
                code, out = 9, ""
            if code:
                line = [x for x in out.splitlines() if x.startswith("violation:")]
                seen.append("%s=%d %s" % (q, code, (line[0][11:110] if line else out[-200:])))
                break
        print("%3d %s %s -> %s | %s" % (k, os.path.basename(e["file"]), e["m"][3], e["m"][2][:60], seen or "NOT SEEN"), flush=True)
    worktree(wt)


if __name__ == "__main__":
    if sys.argv[1] == "survive":
        survive(sys.argv[2], sys.argv[3:])
    else:
        hunt(sys.argv[2], sys.argv[3].split(","), *sys.argv[4:])
