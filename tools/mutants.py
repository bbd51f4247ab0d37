"""Try many small changes:  mutants.py SPEC.py [ID...]   (development tool; no check uses it).

SPEC.py defines MUTANTS: list of (id, property, [(file, old, new), ...]). Each is applied to a copy of /repo under /tmp and
the quick check of its property is run against the copy (VERIF_DEV_REPO). Prints caught / MISSED.
"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    scope = {}
    exec(open(sys.argv[1]).read(), scope)
    for name, prop, edits in scope["MUTANTS"]:
        if len(sys.argv) > 2 and not any(name == a or prop == a for a in sys.argv[2:]):
            continue
        tree = tempfile.mkdtemp(prefix="mutant_", dir="/tmp")
        try:
            subprocess.run(f"cp -a {os.environ['MUT_BASE']}/. {tree}/" if "MUT_BASE" in os.environ else f"git -C /repo archive HEAD | tar x -C {tree}", shell=True, check=True)
            ok = True
            for file, old, new in edits:
                path = os.path.join(tree, file)
                text = open(path).read()
                if text.count(old) != 1:
                    print(f"{name}: {text.count(old)} x {old[:70]!r} in {file}", flush=True)
                    ok = False
                    break
                open(path, "w").write(text.replace(old, new))
            if not ok:
                continue
            for seed in os.environ.get("SEEDS", "1").split():
                begin = time.time()
                env = dict(os.environ, VERIF_DEV_REPO=tree, VERIF_SEED=seed)
                out = subprocess.run(["python3", "run_check.py", prop, "--tier", "quick"], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                line = next((s for s in out.stdout.splitlines() if s.startswith("[")), "")
                verdict = {0: "MISSED", 1: "caught"}.get(out.returncode, f"rc={out.returncode}")
                print(f"{verdict} {name} {prop} seed={seed} {time.time() - begin:.0f}s {line[:150]}", flush=True)
                if out.returncode not in (0, 1):
                    print(out.stdout[-1500:], flush=True)
        finally:
            shutil.rmtree(tree, ignore_errors=True)


if __name__ == "__main__":
    main()
