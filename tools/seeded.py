"""
Planted bugs: confirm them and see which checks catch them.

    seeded.py new ID        diff of /tmp/wt (a worktree of /repo) -> seeded/ID/patch.diff
    seeded.py verify [ID..] apply to a scratch worktree: tests pass, demo 0 -> nonzero
    seeded.py catch [ID..] [--props P,Q]   run the check of the bug's property (or others) against it

Everything happens in scratch worktrees under /tmp, never in /repo itself.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", SPEY_CHECKUPDATE="OFF",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def worktree(path):
    if not os.path.isdir(path):
        code, out = sh("git -C /repo worktree add -q --detach %s HEAD" % path)
        assert code == 0, out
    head = sh("git -C /repo rev-parse HEAD")[1].strip()
    code, out = sh("git checkout -q -f --detach %s && git clean -fdq" % head, cwd=path)
    assert code == 0, out


def new(ident):
    d = os.path.join(SEEDED, ident)
    os.makedirs(d, exist_ok=True)
    code, out = sh("git diff", cwd="/tmp/wt")
    assert out.strip(), "no change in /tmp/wt"
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(out)
    # original lines only
    sh("git checkout -q -f .", cwd="/tmp/wt")
    demo = os.path.join(d, "demo.sh")
    if not os.path.exists(demo):
        with open(demo, "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(demo, 0o755)


def verify(ident):
    d = os.path.join(SEEDED, ident)
    wt = "/tmp/wtv"
    worktree(wt)
    env = {"PYTHONPATH": wt + "/src"}
    demo = "bash %s/demo.sh" % d
    try:
        code0, out0 = sh(demo, wt, env, 300)
    except subprocess.TimeoutExpired:
        code0, out0 = 99, "timeout"
    code, out = sh("git apply %s/patch.diff" % d, wt)
    if code:
        return "patch does not apply: " + out
    original = set()
    base = sh("git show 7ea5d4d --stat --format=%H", wt)  # noqa: F841
    touched = [ln[6:] for ln in open(os.path.join(d, "patch.diff")) if ln.startswith("--- a/")]
    for f in touched:
        original |= set(sh("git show 7ea5d4d:%s" % f.strip(), wt)[1].splitlines())
    removed = [ln[1:].rstrip("\n") for ln in open(os.path.join(d, "patch.diff"))
               if ln.startswith("-") and not ln.startswith("---")]
    foreign = [r for r in removed if r.strip() and r not in original]
    try:
        code1, out1 = sh(demo, wt, env, 300)
    except subprocess.TimeoutExpired:
        code1, out1 = 99, "timeout"
    code2, out2 = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -5" % PY, wt, env)
    tail = [x for x in out2.splitlines() if "passed" in x or "failed" in x]
    meta = os.path.exists(os.path.join(d, "meta.json"))
    ok = code0 == 0 and code1 != 0 and "164 passed" in out2 and meta
    worktree(wt)
    return "%s demo %d -> %d | %s | lines not original: %d of %d %s%s" % (
        "OK " if ok else "BAD", code0, code1, tail[-1:] and tail[-1], len(foreign), len(removed),
        "" if meta else "NO META ", "" if ok else "\n" + out0[-1500:] + "\n---\n" + out1[-1500:] + "\n" + out2[-1500:])


def catch(ident, props=None, wall="420"):
    d = os.path.join(SEEDED, ident)
    wt = "/tmp/wtc"
    worktree(wt)
    code, out = sh("git apply %s/patch.diff" % d, wt)
    assert code == 0, out
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = []
    for p in props or [meta["property"]]:
        code, out = sh("%s %s/check.py %s --tier quick" % (PY, HERE, p), HERE,
                       {"VERIF_REPO": wt, "VERIF_MINIMISE": "5", "VERIF_SEED": "1"}, 1200)
        line = [x for x in out.splitlines() if x.startswith("violation:")]
        runs = [x for x in out.splitlines() if x.startswith(p + " quick")]
        res.append("%s=%d %s [%s]" % (p, code, (line[0][:200] if line else out[-300:] if code else ""),
                                      runs[0] if runs else ""))
    worktree(wt)
    return "\n      ".join(res)


def main():
    cmd, *rest = sys.argv[1:]
    props = None
    if "--props" in rest:
        k = rest.index("--props")
        props = rest[k + 1].split(",")
        del rest[k:k + 2]
    if cmd == "wt":
        worktree("/tmp/wt")
        return
    if cmd == "new":
        new(rest[0])
        print(ident_line(rest[0], verify(rest[0])))
        return
    for ident in rest or sorted(os.listdir(SEEDED)):
        print(ident_line(ident, verify(ident) if cmd == "verify" else catch(ident, props)), flush=True)


def ident_line(i, s):
    return "%-28s %s" % (i, s)


if __name__ == "__main__":
    main()
