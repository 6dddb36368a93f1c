"""plant.py SPEC.py: write seeded/<id>/ from a spec (id, property, edits, demo, needs, what)."""
import json, os, subprocess, tempfile

V = "/verif"


def plant(id, prop, edits, demo_py, needs, what, n=None, limit=60):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo_py.lstrip("\n"))
    sh = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
H=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
'''
    if n:
        sh += (f"timeout -k 5 {limit} mpirun --oversubscribe --bind-to none --mca btl self,vader --mca plm isolated "
               f"--mca mpi_yield_when_idle 1 --mca orte_tmpdir_base \"$W\" -np {n} /opt/venv/bin/python \"$H/demo.py\" </dev/null\n")
    else:
        sh += f"timeout -k 5 {limit} /opt/venv/bin/python \"$H/demo.py\" </dev/null\n"
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("planted", id)
