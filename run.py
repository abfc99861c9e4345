#!/usr/bin/env python3
"""Driver of the checks.

  run.py <ID> quick|thorough      run the check of one property
  run.py replay <ID> <file>       re-run one saved failing case (exit 1: it still fails)
  run.py build                    compile every harness (setup_cmd)

Every harness and the library are compiled from /repo's current working tree into
/verif/_build (ignored by git), keyed by the content of everything they include.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = ROOT / "_build"
REPLAYS = ROOT / "replays"
EVIDENCE = ROOT / "evidence"
JOBS = int(os.environ.get("VERIF_JOBS", 0)) or os.cpu_count() or 4  # VERIF_JOBS, VERIF_SCALE: for trying many planted bugs at once
SCALE = float(os.environ.get("VERIF_SCALE", 1))

sys.path.insert(0, str(ROOT))
from checks import CHECKS, HARNESSES  # noqa: E402

CXX = "g++-14" if shutil.which("g++-14") else "g++"
BASE = [
    "-std=c++23", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS",
    f"-I{ROOT}/shim", f"-I{ROOT}/harness", "-include", f"{ROOT}/shim/eigen_compat.hpp",
    f"-I{REPO}/include", "-isystem", "/usr/include/eigen3", "-pthread",
]
VARIANTS = {
    "plain": (["-O1"], []),
    "fast": (["-O2"], []),
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
             ["-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "cov": (["-O1", "-fsanitize-coverage=trace-pc"], []),
    "python": (["-O1", "-fPIC", "-fvisibility=hidden", "-DSLEIPNIR_PYTHON=1"], ["-shared"]),
}


class CheckError(Exception):
    pass


class SideError(CheckError):
    """Only uses of the library that a check compiles because the property says they work (HARNESSES: must_compile) fail to compile."""


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO / "include", REPO / "src", REPO / "python" / "cpp", REPO / "python" / "src", ROOT / "harness", ROOT / "shim"):
        for f in sorted(base.rglob("*")):
            if f.is_file() and "__pycache__" not in f.parts:
                h.update(str(f).encode())
                h.update(f.read_bytes())
    h.update(json.dumps([CXX, BASE, VARIANTS, HARNESSES]).encode())
    return h.hexdigest()


def lib_sources(kind):
    if kind == "none":
        return []
    src = REPO / "src"
    allsrc = sorted(src.rglob("*.cpp"))
    if kind == "autodiff":
        return [f for f in allsrc if "optimization" not in f.relative_to(src).parts]
    return allsrc


def python_parts():
    """(interpreter, nanobind package, extra compiler flags) for the Python bindings."""
    py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
    nb = [Path(p) for p in sorted(glob.glob("/opt/vp/venv/lib/python3*/site-packages/nanobind"))]
    if not nb:
        raise CheckError("nanobind is not installed")
    inc = subprocess.run([py, "-c", "import sysconfig; print(sysconfig.get_path('include')); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True).stdout.split()
    return py, nb[0], ["-isystem", f"{nb[0]}/include", "-isystem", f"{nb[0]}/ext/robin_map/include", "-isystem", inc[0],
                       f"-I{REPO}/python/cpp"], inc[1]


def compile_one(job):
    src, obj, flags = job
    if obj.exists():
        return None
    tmp = obj.with_suffix(f".{os.getpid()}.tmp")
    p = subprocess.run([CXX, *BASE, *flags, "-c", str(src), "-o", str(tmp)], capture_output=True, text=True)
    if p.returncode:
        return f"{src}:\n{p.stderr[:4000]}"
    os.replace(tmp, obj)
    return None


def build(wanted):
    """wanted: list of (harness, variant). Returns {(harness, variant): binary}."""
    key = tree_hash()[:20]
    d = BUILD / key
    if BUILD.exists():
        for old in sorted(BUILD.iterdir(), key=lambda q: q.stat().st_mtime)[:-3]:
            if old.is_dir() and old.name != key and len(old.name) == 20:
                shutil.rmtree(old, ignore_errors=True)
    d.mkdir(parents=True, exist_ok=True)
    jobs, bins = {}, {}
    for harness, variant in wanted:
        cf, lf = VARIANTS[variant]
        objs = []
        if variant == "python":
            py, nb, extra, suffix = python_parts()
            for s in lib_sources("all") + sorted((REPO / "python" / "cpp").rglob("*.cpp")) + [nb / "src" / "nb_combined.cpp"]:
                o = d / (str(s).strip("/").replace("/", "_") + ".python.o")
                jobs[o] = (s, o, cf + extra)
                objs.append(o)
            pkg = d / "pypkg" / "sleipnir"
            if not pkg.exists():
                tmp = d / f"pypkg.{os.getpid()}.tmp"
                shutil.copytree(REPO / "python" / "src" / "sleipnir", tmp, ignore=shutil.ignore_patterns("__pycache__"))
                pkg.parent.mkdir(exist_ok=True)
                try:
                    os.replace(tmp, pkg)
                except OSError:
                    shutil.rmtree(tmp, ignore_errors=True)
            bins[(harness, variant)] = (pkg / f"_sleipnir{suffix}", objs, lf)
            continue
        own = [ROOT / "harness" / f"{harness}.cpp", ROOT / "harness" / "pbt_main.cpp"]
        for s in own + lib_sources(HARNESSES[harness]["lib"]):
            flags = [f for f in cf if not (s.name == "pbt_main.cpp" and "sanitize-coverage" in f)]
            mine = s in own or HARNESSES[harness].get("lib_flags", False)
            if mine:
                flags = flags + HARNESSES[harness].get("flags", [])
            o = d / (str(s).strip("/").replace("/", "_") + f".{variant}" + (f".{harness}" if mine else "") + ".o")
            jobs[o] = (s, o, flags)
            objs.append(o)
        # Further builds of the library, with the code that uses them, in namespaces of their own
        for side, defs in HARNESSES[harness].get("sides", {}).items():
            with_lib = side in HARNESSES[harness]["side_libs"]
            for s in [ROOT / "harness" / HARNESSES[harness]["side_source"]] + (lib_sources("all") if with_lib else []):
                o = d / (str(s).strip("/").replace("/", "_") + f".{variant}.{harness}.{side}.o")
                jobs[o] = (s, o, cf + HARNESSES[harness].get("flags", []) + defs)
                objs.append(o)
        bins[(harness, variant)] = (d / f"{harness}.{variant}", objs, lf)
    # long compilations first
    order = sorted(jobs.values(), key=lambda j: -(j[0].stat().st_size + (10**6 if "harness" in str(j[0]) or j[0].name == "main.cpp" else 0)))
    with ThreadPoolExecutor(JOBS) as ex:
        failed = {j[1]: e for j, e in zip(order, ex.map(compile_one, order)) if e}
    if failed:
        optional = {o for h in HARNESSES for side in HARNESSES[h].get("must_compile", []) for o in failed if o.name.endswith(f".{h}.{side}.o")}
        raise (SideError if optional == set(failed) else CheckError)("compilation failed\n" + "\n".join(failed.values()))
    out = {}

    def link(kv):
        (hv, (binary, objs, lf)) = kv
        if not binary.exists():
            tmp = binary.parent / f"{binary.name}.{os.getpid()}.tmp"
            p = subprocess.run([CXX, *map(str, objs), *lf, "-pthread", "-o", str(tmp)], capture_output=True, text=True)
            if p.returncode:
                raise CheckError("linking failed\n" + p.stderr[:4000])
            os.replace(tmp, binary)
        if hv[1] == "python":
            out[hv] = [python_parts()[0], "-B", str(ROOT / "harness" / f"{hv[0]}.py"), str(binary.parent.parent)]
        else:
            out[hv] = [str(binary)]

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, bins.items()))
    return out


def known_findings():
    f = ROOT / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else []


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[pid]
    units = chk["units"]
    wanted = sorted({(u["harness"], u.get("variant", "plain")) for u in units})
    if tier == "thorough":
        wanted = sorted(set(wanted) | {(u["harness"], "cov") for u in units if u.get("fuzz", True) and u.get("variant", "plain") in ("plain", "fast")})
        wanted = sorted(set(wanted) | {(u["harness"], "asan") for u in units if u.get("asan", True) and u.get("variant", "plain") in ("plain", "fast")})
    bins = build(wanted)
    t_build = time.time() - t0

    REPLAYS.mkdir(exist_ok=True)
    EVIDENCE.mkdir(exist_ok=True)
    work = BUILD / f"run.{os.getpid()}"
    work.mkdir(parents=True, exist_ok=True)
    tasks = []
    quick_budget = 240.0
    for u in units:
        variant = u.get("variant", "plain")
        shards = u.get("shards", JOBS)
        n = int(u["cases"] * SCALE) if tier == "quick" else u.get("thorough", u["cases"] * 12)
        for s in range(shards):
            tasks.append(dict(u=u, bin=bins[(u["harness"], variant)], cmd="run", prop=u["prop"], n=-(-n // shards),
                              seed=(seed * 1000003 + s * 7919 + 17) & 0x7FFFFFFF, shard=s, variant=variant,
                              budget=quick_budget if tier == "quick" else 3600.0))
        if tier == "thorough" and variant in ("plain", "fast"):
            if u.get("fuzz", True):
                for s in range(JOBS):
                    tasks.append(dict(u=u, bin=bins[(u["harness"], "cov")], cmd="fuzz", prop=u["prop"], n=10**9,
                                      seed=(seed * 1000003 + s * 104729 + 5) & 0x7FFFFFFF, shard=s, variant="cov", budget=120.0))
            if u.get("asan", True):
                for s in range(JOBS):
                    tasks.append(dict(u=u, bin=bins[(u["harness"], "asan")], cmd="run", prop=u["prop"], n=-(-u["cases"] // JOBS),
                                      seed=(seed * 1000003 + s * 15485863 + 3) & 0x7FFFFFFF, shard=s, variant="asan", budget=600.0))

    def run_task(t):
        tag = f"{t['prop']}.{t['cmd']}.{t['variant']}.{t['shard']}"
        out, rep = work / f"{tag}.json", work / f"{tag}.replay"
        env = dict(os.environ, PBT_STDERR=str(work / f"{tag}.err"), PBT_SCRATCH=str(work / f"{tag}.scratch"))
        (work / f"{tag}.scratch").mkdir(exist_ok=True)
        p = subprocess.run([*t["bin"], t["cmd"], "--prop", t["prop"], "--seed", str(t["seed"]), "--cases", str(t["n"]),
                            "--out", str(out), "--replay-out", str(rep), "--budget", str(t["budget"])],
                           capture_output=True, text=True, env=env)
        if p.returncode or not out.exists():
            raise CheckError(f"{tag}: engine failed ({p.returncode}) {p.stderr[:2000]}")
        r = json.loads(out.read_text(errors="replace"), strict=False)
        r["_task"], r["_replay"], r["_err"] = t, rep, work / f"{tag}.err"
        return r

    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(run_task, tasks))

    # merge
    per = {}
    violations, unreproduced = [], 0
    for r in results:
        m = per.setdefault(r["prop"], dict(evaluations=0, discarded=0, nontrivial=0, distinct_nontrivial=0, rule=r["rule"], labels={}, samples=[],
                                           fuzz_executions=0, fuzz_corpus=0, fuzz_edges=0))
        m["evaluations"] += r["evaluations"]
        m["discarded"] += r["discarded"]
        m["nontrivial"] += r["nontrivial"]
        m["distinct_nontrivial"] += r["distinct_nontrivial"]
        if r["_task"]["cmd"] == "fuzz":
            m["fuzz_executions"] += r["evaluations"]
            m["fuzz_corpus"] += r["corpus"]
            m["fuzz_edges"] = max(m["fuzz_edges"], r["cov"])
        for k, v in r["labels"].items():
            m["labels"][k] = m["labels"].get(k, 0) + v
        if len(m["samples"]) < 3:
            m["samples"] += r["samples"][: 3 - len(m["samples"])]
        if r["failed"]:
            if r["reproduced"]:
                violations.append(r)
            else:
                unreproduced += 1
    # known findings: specific failing histories, re-run one by one
    known_lines = []
    for k in known_findings():
        if k.get("status") != "open" or k["property"] != pid:
            continue
        b = bins.get((k["harness"], k.get("variant", "plain")))
        if b is None:
            continue
        p = subprocess.run([*b, "replay", "--prop", k["prop"], "--file", str(ROOT / k["replay"])], capture_output=True, text=True,
                           env=dict(os.environ, PBT_SCRATCH=str(work)))
        if p.returncode == 1:
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
        elif p.returncode != 0:
            raise CheckError(f"known-finding probe failed: {p.stderr[:500]}")

    tot = lambda f: sum(m[f] for m in per.values())  # noqa: E731
    samples = []
    for name, m in per.items():
        samples += [f"[{name}] {s.strip()}"[:1500] for s in m["samples"]]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot("evaluations"), distinct_nontrivial=tot("distinct_nontrivial"),
            rule="; ".join(f"{n}: {m['rule']}" for n, m in per.items()),
            samples=samples or ["(none)"], per_property=per, known_findings=len(known_lines), unreproduced=unreproduced,
            build_s=round(t_build, 1)),
        assumptions=chk.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    for l in known_lines:
        print(l)
    for name, m in per.items():
        print(f"{pid} {name}: {m['evaluations']} cases, {m['distinct_nontrivial']} distinct non-trivial, {m['discarded']} discarded")
    code = 0
    seen = set()
    for r in sorted(violations, key=lambda r: r["_replay"].stat().st_size):
        if r["prop"] in seen:
            continue
        seen.add(r["prop"])
        dst = REPLAYS / f"{pid}.{r['prop']}.txt"
        head = f"check: {pid}\nharness: {r['_task']['u']['harness']}\nvariant: {r['_task']['variant']}\n"
        dst.write_text(head + r["_replay"].read_text(errors="replace"))
        print(f"{r['message']}\n{r['desc']}")
        if r["_err"].exists():
            print(r["_err"].read_text(errors="replace")[:1500])
        print(f"VIOLATION property={pid} replay={dst}")
        code = 1
    print(f"{pid} {tier}: {'VIOLATION' if code else 'held'} on {tot('evaluations')} cases, build {t_build:.1f} s, total {time.time() - t0:.1f} s")
    shutil.rmtree(work, ignore_errors=True)
    return code


def replay(pid, file):
    head = {}
    for line in Path(file).read_text(errors="replace").splitlines()[:4]:
        k, _, v = line.partition(": ")
        head[k] = v
    b = build([(head["harness"], head["variant"])])[(head["harness"], head["variant"])]
    scratch = BUILD / "replay.scratch"
    scratch.mkdir(exist_ok=True)
    p = subprocess.run([*b, "replay", "--prop", head["prop"], "--file", str(file)], env=dict(os.environ, PBT_SCRATCH=str(scratch)))
    return p.returncode


def main():
    try:
        if sys.argv[1] == "build":
            want = {(u["harness"], u.get("variant", "plain")) for c in CHECKS.values() for u in c.get("units", [])}
            build(sorted(want))
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2], sys.argv[3])
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run_check(pid, tier)
    except SideError as e:
        if sys.argv[1] == "build":
            return 0  # the check itself reports it
        if sys.argv[1] == "replay":
            print(e)
            return 1
        REPLAYS.mkdir(exist_ok=True)
        dst = REPLAYS / f"{sys.argv[1]}.compile.txt"
        harness, prop = CHECKS[sys.argv[1]]["units"][0]["harness"], CHECKS[sys.argv[1]]["units"][0]["prop"]
        dst.write_text(f"check: {sys.argv[1]}\nharness: {harness}\nvariant: plain\nprop: {prop}\n{e}\n")
        print(f"{e}\nVIOLATION property={sys.argv[1]} replay={dst}")
        return 1
    except CheckError as e:
        print(f"check error: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
