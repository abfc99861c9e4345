#!/usr/bin/env python3
"""Writes seeded/<id>/ from a definition, confirms it, and runs checks against it.

  seed.py make DEFS.py [id...]    write patch.diff, demo.sh, meta.json (+ demo.cpp, shim)
  seed.py confirm [id...]         build + stable tests + demo on both trees (in /repo, undone afterwards)
  seed.py check [id...]           run the property's quick check against each change
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
REPO = Path(os.environ.get("SEED_REPO", "/repo"))
DEMO = """#!/bin/bash
# Run with cwd /repo after build.sh. Exit 0: behaves; nonzero: broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
CXX=g++-14
command -v $CXX >/dev/null || CXX=g++
F="-std=c++23 -O1 -w @SAN@ -I$D/shim -include $D/shim/eigen_compat.hpp -Iinclude -isystem /usr/include/eigen3 -pthread"
i=0
for s in "$D/demo.cpp" @LIBS@; do
  i=$((i+1))
  $CXX $F -c "$s" -o "$T/$i.o" || touch "$T/failed" &
done
wait
[ -e "$T/failed" ] && exit 3
$CXX @SAN@ "$T"/*.o -pthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
"""
PYDEMO = """#!/bin/bash
# Run with cwd /repo after build.sh. Exit 0: behaves; nonzero: broken. Builds the Python extension.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
CXX=g++-14
command -v $CXX >/dev/null || CXX=g++
NB=$(ls -d /opt/vp/venv/lib/python3*/site-packages/nanobind | head -1)
PY=$(python3 -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
export CXX T D F="-std=c++23 -O0 -g0 -w -fPIC -fvisibility=hidden -DSLEIPNIR_PYTHON=1 -I$D/shim -include $D/shim/eigen_compat.hpp -Iinclude -Ipython/cpp -isystem /usr/include/eigen3 -isystem $NB/include -isystem $NB/ext/robin_map/include -isystem $PY -pthread"
{ find python/cpp src -name '*.cpp'; echo $NB/src/nb_combined.cpp; } | xargs -P8 -I{} sh -c '$CXX $F -c {} -o $T/$(echo {} | tr / _).o || touch $T/failed'
[ -e "$T/failed" ] && exit 3
cp -r python/src/sleipnir "$T/sleipnir"
$CXX -shared "$T"/*.o -pthread -o "$T/sleipnir/_sleipnir$(python3 -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')" || exit 3
cd "$T" && PYTHONPATH="$T" timeout 120 @PYTHON@ "$D/demo.py"
"""
AD = "src/autodiff/*.cpp src/util/*.cpp"
ALL = "$(find src -name '*.cpp')"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(defs, ids):
    ns = {"AD": AD, "ALL": ALL}
    exec(Path(defs).read_text(), ns)
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        d = SEEDED / s["id"]
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "/repo is dirty"
        for f, old, new in s["edits"]:
            p = REPO / f
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            p.write_text(t.replace(old, new))
        (d / "patch.diff").write_text(sh(f"git -C {REPO} diff").stdout)
        sh(f"git -C {REPO} checkout -- .")
        if s.get("py"):
            (d / "demo.py").write_text(s["demo"])
            (d / "demo.sh").write_text(PYDEMO.replace("@PYTHON@", "python3-vt"))
        else:
            (d / "demo.cpp").write_text(s["demo"])
            (d / "demo.sh").write_text(DEMO.replace("@SAN@", s.get("san", "")).replace("-O1 -w", "-O1 -w " + s["flags"] if s.get("flags") else "-O1 -w").replace("@LIBS@", s.get("libs", "")))
        (d / "demo.sh").chmod(0o755)
        shutil.copytree(ROOT / "shim", d / "shim")
        (d / "meta.json").write_text(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")


def all_ids(ids):
    return ids or sorted(p.name for p in SEEDED.iterdir() if (p / "patch.diff").exists())


def stable():
    b = json.loads(Path("/opt/vp/BASELINE.json").read_text())
    return set(b["stable"])


def confirm(ids):
    for i in all_ids(ids):
        d = SEEDED / i
        t = Path(tempfile.mkdtemp())
        shutil.copytree(d, t / "x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        clean = sh(f"bash {t}/x/demo.sh", cwd=REPO)
        a = sh(f"git -C {REPO} apply {d}/patch.diff")
        try:
            if REPO == Path("/repo"):
                b = sh("bash /opt/vp/build.sh")
                sh(f"bash /opt/vp/test.sh {t}/o.json")
                passed = set(json.loads((t / "o.json").read_text())["passed"])
            else:  # scratch copy: the demonstration only
                b, passed = sh("true"), stable()
            bad = sh(f"bash {t}/x/demo.sh", cwd=REPO)
        finally:
            sh(f"git -C {REPO} checkout -- .")
        ok = clean.returncode == 0 and a.returncode == 0 and b.returncode == 0 and stable() <= passed and bad.returncode not in (0, 3)
        print(i, "OK" if ok else f"BAD clean={clean.returncode} apply={a.returncode} build={b.returncode} missing={stable() - passed} demo={bad.returncode} {clean.stderr[:600]} {bad.stderr[-600:]} {b.stdout[-500:] if b.returncode else ''}", (bad.stdout + bad.stderr).strip()[-150:].replace("\n", " | "), flush=True)
        shutil.rmtree(t)
    if REPO == Path("/repo"):
        sh("bash /opt/vp/build.sh")


def check(ids):
    for i in all_ids(ids):
        d = SEEDED / i
        pid = json.loads((d / "meta.json").read_text())["property"]
        a = sh(f"git -C {REPO} apply {d}/patch.diff")
        assert a.returncode == 0, a.stderr
        try:
            r = sh(f"VERIF_REPO={REPO} python3 run.py {pid} quick", cwd=ROOT)
        finally:
            sh(f"git -C {REPO} checkout -- .")
        v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={pid}")]
        print(i, pid, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", (r.stdout.splitlines() or [""])[0][:150], r.stderr[:300], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        dict(confirm=confirm, check=check)[sys.argv[1]](sys.argv[2:])
