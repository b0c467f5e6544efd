"""Helper to write seeded/<id>/ from (file, old, new) edits against /repo's HEAD; never touches /repo itself."""
import json, os, subprocess, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd = repository after its build
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SOBOL=""; [ -e "$R/dal/math/random/sobol.cpp" ] || SOBOL="-Wl,--defsym=_ZN3Dal8NewSobolEimb=0"
g++ -std=c++17 -O1 -DNDEBUG -w %s -I"$R" "$H/demo.cpp" "$R/_build/public/src/libdal_public.a" "$R/_build/dal/libdal.a" $SOBOL -pthread -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, flags=""):
    d = os.path.join(VERIF, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seedgen_")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        r = w + "/r"
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % flags)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cpp"), "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(w)
