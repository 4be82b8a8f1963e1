#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough]: builds /repo's working tree with the property's
harnesses, explores, writes evidence/<id>.json.  Exit 0 held / 1 VIOLATION / 2 machinery error."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "/usr/bin/clang++-20")
SAN = ["-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,bounds,return,"
       "unreachable,bool,vla-bound", "-fno-sanitize-recover=all"]
BASE = ["-std=c++26", "-g1", "-O1", "-fno-omit-frame-pointer", "-DPYSTD_HAS_REGEX",
        "-D_FILE_OFFSET_BITS=64"]


def tree_key(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def files(d, exts=(".hpp", ".cpp", ".in", ".h")):
    return [os.path.join(d, f) for f in os.listdir(d) if f.endswith(exts)]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def compile_one(args):
    cmd, out, fallback = args
    if os.path.exists(out):
        return 0, ""
    tmp = out + ".tmp%d" % os.getpid()
    rc, log = run(cmd + ["-o", tmp])
    if rc != 0 and fallback:  # the parts that look at tuning knobs of the library are optional
        rc, log = run(cmd + fallback + ["-o", tmp])
    if rc == 0:
        os.rename(tmp, out)
    return rc, " ".join(cmd) + "\n" + log


def prune_build(keep=14):
    """Drop old object directories so that the build folder stays small."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("k-")]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(harnesses):
    """harnesses: list of dicts (src, epoch, flags, wrap, ...). Returns binaries."""
    src = os.path.join(REPO, "src")
    inc = os.path.join(REPO, "include")
    repo_files = files(src) + files(inc) + [f for f in files(os.path.join(REPO, "tools")) if f.endswith(".cpp")]
    mach = files(os.path.join(VERIF, "mc")) + files(os.path.join(VERIF, "harness"))
    jobs = []
    bins = []
    os.makedirs(BUILD, exist_ok=True)
    prune_build()
    jobs_by_out = {}
    fallback = {}
    links = []
    for h in harnesses:
        san = h.get("san", SAN)
        libflags = BASE + san + h.get("libflags", [])
        k = hashlib.sha256((tree_key(repo_files) + repr(libflags) + CXX).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "k-" + k)
        gen = os.path.join(d, "gen")
        os.makedirs(gen, exist_ok=True)
        os.utime(d)
        with open(os.path.join(gen, "pystd_config.hpp"), "w") as f:
            f.write("#pragma once\n#define PYSTD2025_HAS_REGEX\n#define PYSTD2026_HAS_REGEX\n")
        incs = ["-I" + gen, "-I" + inc, "-I" + src]
        hincs = incs + (["-idirafter", REPO] if h.get("with_tools") else [])
        objs = []
        epochs = h.get("libepochs", [h["epoch"]])
        for f in sorted(os.listdir(src)):
            if not f.endswith(".cpp"):
                continue
            if f.startswith("pystd20") and not any(f.startswith("pystd" + e) for e in epochs):
                continue
            o = os.path.join(d, f[:-4] + ".o")
            jobs_by_out[o] = [CXX] + libflags + ["-nostdinc++"] + incs + ["-c", os.path.join(src, f)]
            objs.append(o)
        hsan = h.get("hsan", san)
        hflags = BASE + hsan + ["-DEPOCH=" + h["epoch"]] + h.get("flags", [])
        hk = hashlib.sha256((tree_key(mach) + repr(hflags) + repr(h.get("link"))).encode()).hexdigest()[:12]
        eo = os.path.join(d, "mc-%s.o" % hk)
        jobs_by_out[eo] = [CXX] + BASE + hsan + ["-c", os.path.join(VERIF, "mc", "mc.cpp")]
        ho = os.path.join(d, "%s-%s-%s.o" % (h["src"].replace(".cpp", ""), h["epoch"], hk))
        jobs_by_out[ho] = ([CXX] + hflags + hincs + ["-I" + os.path.join(VERIF, "mc"),
                           "-I" + os.path.join(VERIF, "harness"),
                           "-c", os.path.join(VERIF, "harness", h["src"])])
        fallback[ho] = h.get("fallback", [])
        extra = []
        for e in h.get("extra", []):
            xo = os.path.join(d, "%s-%s.o" % (e.replace(".cpp", ""), hk))
            jobs_by_out[xo] = ([CXX] + BASE + ["-DEPOCH=" + h["epoch"]] + h.get("extraflags", []) + incs +
                               ["-I" + os.path.join(VERIF, "mc"),
                                "-c", os.path.join(VERIF, "harness", e)])
            extra.append(xo)
        exe = os.path.join(d, "%s-%s-%s" % (h["src"].replace(".cpp", ""), h["epoch"], hk))
        lsan = h.get("linksan", san)
        links.append(([CXX] + lsan + ["-o", exe + ".tmp", ho, eo] + extra + objs +
                      ["-lpcre2-8", "-lpthread"] + h.get("link", []), exe))
        bins.append(exe)
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, log in ex.map(compile_one, [(c, o, fallback.get(o)) for o, c in jobs_by_out.items()]):
            if rc != 0:
                raise RuntimeError("compilation failed:\n" + log)

        def link(l):
            cmd, exe = l
            if os.path.exists(exe):
                return 0, ""
            rc, log = run(cmd)
            if rc == 0:
                os.rename(exe + ".tmp", exe)
            return rc, log
        for rc, log in ex.map(link, links):
            if rc != 0:
                raise RuntimeError("link failed:\n" + log)
    return bins


def summary(x):
    """One line that says what went wrong."""
    if x["msg"]:
        return x["msg"]
    for line in x["log"].splitlines():
        for pat in ("ERROR: AddressSanitizer", "runtime error:", "Assertion", "terminate called",
                    "internal failure", "Internal"):
            if pat in line:
                return line.strip()
    return " / ".join(x["log"].strip().splitlines()[-3:])


def load_known():
    """known_findings.jsonl: {"property","scenario","epoch","match"} entries and fixed: records."""
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    res.append(json.loads(line))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    chk = CHECKS[prop]
    harnesses = []
    for h in chk["harnesses"]:
        for e in h.get("epochs", ["2026"]):
            if "--epoch" in sys.argv and sys.argv[sys.argv.index("--epoch") + 1] != e:
                continue
            hh = dict(h)
            hh["epoch"] = e
            harnesses.append(hh)
    bins = build(harnesses)
    tb = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "3000"))
    known = [k for k in load_known() if k["property"] == prop]
    outdir = os.path.join(BUILD, "out")
    os.makedirs(outdir, exist_ok=True)
    scen, failures = [], []
    for h, exe in zip(harnesses, bins):
        left = budget - (time.time() - t0 - tb)
        shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        tmp = tempfile.mkdtemp(prefix="mc-", dir=shm)
        out = os.path.join(tmp, "out.json")
        cmd = [exe, "--out", out, "--budget", "%.0f" % max(left, 20), "--tmp", tmp]
        for pfx in h.get("scenarios", [""]) if not only else [only]:
            c = list(cmd)
            if pfx:
                c += ["--only", pfx]
            if tier == "thorough":
                c.append("--thorough")
            env = dict(os.environ)
            env.update({"LC_ALL": "C.UTF-8", "TZ": "UTC", "MC_REPO": REPO})
            p = subprocess.run(c, env=env)
            if p.returncode not in (0, 1):
                shutil.rmtree(tmp, ignore_errors=True)
                raise RuntimeError("harness %s ended with %d" % (exe, p.returncode))
            with open(out) as f:
                data = json.load(f)
            for s in data["scenarios"]:
                s["epoch"] = h["epoch"]
                s["exe"] = exe
                scen.append(s)
                for x in s["failures"]:
                    failures.append((s, x))
        shutil.rmtree(tmp, ignore_errors=True)
    if not scen:
        raise RuntimeError("no scenario ran")
    new, old = [], []
    for s, x in failures:
        hit = None
        for k in known:
            if k["scenario"] == s["name"] and k.get("epoch", s["epoch"]) == s["epoch"] and \
                    k["match"] in summary(x):
                hit = k
        (old if hit else new).append((s, x, hit))
    shown = set()
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    del shown
    # replay artefacts
    rdir = os.path.join(VERIF, "replays")
    paths = []
    for i, (s, x, _) in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.txt" % (prop, s["epoch"], i))
        with open(path, "w") as f:
            f.write(s["name"] + "\n" + " ".join(map(str, x["choices"])) + "\n\n")
            f.write("# property %s, epoch %s, tier %s: %s: %s\n" % (prop, s["epoch"], tier, x["kind"], x["msg"]))
            f.write("# replay: %s%s --replay %s\n" % (s["exe"], " --thorough" if tier == "thorough" else "", path))
            f.write("# operations executed:\n" + x["log"] + "\n")
        paths.append(path)
    wall = time.time() - t0
    tot = lambda k: sum(s[k] for s in scen)  # noqa: E731
    samples = []
    for s in scen:
        for one in s["samples"]:
            samples.append("%s/%s: %s" % (s["epoch"], s["name"], one))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": tot("states"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("execs"),
            "pruned_executions": tot("pruned"),
            "exhaustive": all(s["exhaustive"] for s in scen),
            "scenarios": [{k: s[k] for k in ("name", "epoch", "bounds", "execs", "transitions",
                                             "states", "pruned", "max_choices", "wall",
                                             "exhaustive", "cap")} for s in scen],
            "samples": samples[:40],
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if chk.get("level") in ("exploration", "fault_enumeration"):
        ev["coverage"]["evaluations"] = tot("execs")
        ev["coverage"]["distinct_nontrivial"] = tot("states")
        ev["coverage"]["rule"] = chk["rule"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d transitions, %d states, exhaustive=%s, build %.0fs, total %.0fs"
          % (prop, tier, tot("execs"), tot("transitions"), tot("states"),
             ev["coverage"]["exhaustive"], tb, wall))
    for (s, x, _), path in zip(new, paths):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s [%s] %s: %s" % (s["name"], s["epoch"], x["kind"], summary(x)[:600]))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # noqa: BLE001
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
