"""seed.py make [id...] | verify [id...] | catch [id...]

Builds /verif/seeded/<id>/ from tools/bugs.py: applies the edits to a scratch copy
of /repo, takes the diff, and (verify) confirms that the tests pass and the demo
tells the trees apart; (catch) runs the property's check against the change."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SEED = "/verif/seeded"
W = os.environ.get("SEEDWORK", "/tmp/seedwork")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])


def make(b):
    sh("git -C %s checkout -q -- ." % W)
    for f, old, new in b["edits"]:
        p = os.path.join(W, "pytiled_parser", f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        if s.count(old) != 1:
            raise SystemExit("%s: %s: %d matches of %r" % (b["id"], f, s.count(old), old[:80]))
        s = s.replace(old, new)
        if crlf:
            s = s.replace("\n", "\r\n")
        open(p, "w", newline="").write(s)
    d = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
    out = os.path.join(SEED, b["id"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "wb").write(d)
    open(out + "/demo.py", "w").write(b["demo"])
    open(out + "/demo.sh", "w").write('''#!/bin/sh
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 "$py" "$here/demo.py"
''')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -q -- ." % W)


def tests(cwd):
    """the repository's tests against the scratch copy"""
    r = sh("PYTHONPATH=%s /opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -4" % cwd, cwd=cwd)
    return r.stdout.strip()


def verify(b):
    out = os.path.join(SEED, b["id"])
    sh("git -C %s checkout -q -- ." % W)
    a = sh("bash %s/demo.sh" % out, cwd=W)
    ap = sh("git apply %s/patch.diff" % out, cwd=W)
    t = tests(W)
    c = sh("bash %s/demo.sh" % out, cwd=W)
    sh("git -C %s checkout -q -- ." % W)
    ok = a.returncode == 0 and ap.returncode == 0 and c.returncode not in (0, 124) and "failed" not in t and "error" not in t.lower()
    print("%-10s %s clean=%s patched=%s tests=%s" % (b["id"], "ok " if ok else "BAD", a.returncode, c.returncode, t.splitlines()[-1] if t else "?"))
    if not ok:
        print(a.stdout[-600:], a.stderr[-800:], ap.stderr, c.stdout[-500:], c.stderr[-500:], t[-1500:])
    return ok


def catch(b, props=None):
    out = os.path.join(SEED, b["id"])
    sh("git -C %s checkout -q -- ." % W)
    sh("git apply %s/patch.diff" % out, cwd=W)
    for p in props or [b["property"]]:
        r = sh("VERIF_REPO=%s VERIF_SEED=1 %s/check %s quick" % (W, os.environ.get("HUNT", "/verif"), p))
        print("%-10s %s rc=%d" % (b["id"], p, r.returncode), "CAUGHT" if "VIOLATION property=%s" % p in r.stdout and r.returncode == 1 else "missed" if r.returncode == 0 else "ERROR")
        if props is None or r.returncode:
            print("     " + "\n     ".join(x[:330] for x in r.stdout.splitlines()[:5]))
        sys.stdout.flush()
    sh("git -C %s checkout -q -- ." % W)


if __name__ == "__main__":
    import bugs
    cmd, ids = sys.argv[1], sys.argv[2:]
    props = None
    if "--all" in ids:
        ids.remove("--all")
        props = ["C%02d" % i for i in range(1, 17)]
    fresh()
    for b in bugs.BUGS:
        if ids and b["id"] not in ids:
            continue
        if cmd == "make":
            make(b)
        elif cmd == "verify":
            make(b)
            verify(b)
        elif cmd == "catch":
            catch(b, props)
    shutil.rmtree(W, ignore_errors=True)
