"""Write and try planted bugs:  plant.py SPEC.py [ID...]   (development tool; no check uses it).

SPEC.py defines BUGS: list of dicts id, property, edits [(file, old, new)], needs, breaks, demo (Python source,
run with cwd in the tree; exits nonzero or raises when the property is broken).
For each: writes seeded/<id>, runs the demo on a clean copy and a patched copy of /repo, and (unless --notests) the
repository's unit tests on the patched copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not. Run in the source tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PATH=/opt/venv/bin:$PATH
tmp=$(mktemp -d) || exit 3
cd "$tmp" || exit 3
timeout 250 /opt/venv/bin/python "$here/demo.py" > "$tmp/out.txt" 2>&1
rc=$?
tail -n 5 "$tmp/out.txt"
cd / && rm -rf "$tmp"
exit $rc
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    scope = {}
    exec(open(args[0]).read(), scope)
    status = 0
    for bug in scope["BUGS"]:
        if len(args) > 1 and bug["id"] not in args[1:]:
            continue
        out = os.path.join(HERE, "seeded", bug["id"])
        tree = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        try:
            sh(f"git -C /repo archive HEAD | tar x -C {tree}")
            sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", cwd=tree)
            ok = True
            for file, old, new in bug["edits"]:
                p = os.path.join(tree, file)
                text = open(p).read()
                if text.count(old) != 1:
                    print(f"{bug['id']}: '{old[:60]}' occurs {text.count(old)} times in {file}")
                    ok = False
                    break
                open(p, "w").write(text.replace(old, new))
            if not ok:
                status = 1
                continue
            diff = sh("git diff", cwd=tree).stdout
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
            with open(os.path.join(out, "meta.json"), "w") as fh:
                json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, fh, indent=1)
                fh.write("\n")
            broken = sh(f"bash {out}/demo.sh", cwd=tree)
            tests = None
            if "--notests" not in sys.argv:
                tests = sh("OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 tests --ignore=tests/system 2>&1 | tail -n 3", cwd=tree)
            sh("git checkout -q -- .", cwd=tree)
            clean = sh(f"bash {out}/demo.sh", cwd=tree)
            good = clean.returncode == 0 and broken.returncode not in (0, 3)
            status |= not good
            print(f"{bug['id']}: demo clean={clean.returncode} broken={broken.returncode} {'' if good else 'BAD'}"
                  f" | {broken.stdout.strip().splitlines()[-1:] } | tests: {tests.stdout.strip().splitlines()[-1] if tests else '-'}", flush=True)
            if not good:
                print(clean.stdout[-1500:], "\n---\n", broken.stdout[-1500:])
        finally:
            shutil.rmtree(tree, ignore_errors=True)
    return status


if __name__ == "__main__":
    sys.exit(main())
