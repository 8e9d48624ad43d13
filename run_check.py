#!/usr/bin/env python3
"""Build and run the property-based check of one property.

usage: run_check.py C06 [--tier quick|thorough] [--only SUBPROPERTY]
       run_check.py C06 --replay FILE        re-run one saved failing case

The harness props/<ID>.cpp is compiled against the current working tree of
/repo in up to three flavours (see VARIANTS); each flavour runs every
subproperty.  Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 the
harness could not be built or run.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CRU_REPO", "/repo")

COMMON = ["-std=c++17", "-g1", "-Wno-deprecated-declarations", "-w", "-pthread",
          # Sanitized and unsanitized objects must free each other's matrices.
          "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"]
VARIANTS = {
    # what the library is normally built as
    "plain": {"flags": ["-O2", "-fopenmp"], "share": 0.55, "scale": 1.0},
    # memory errors, undefined behaviour, standard library preconditions
    "asan": {
        "flags": ["-O1", "-fopenmp", "-fsanitize=address,undefined",
                  "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                  "-D_GLIBCXX_ASSERTIONS"],
        "share": 0.45, "scale": 0.3},
    # the ROS parts, against stand-ins for the message headers
    "ros2": {"flags": ["-O1", "-fopenmp", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all",
                       "-DCOMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION=2",
                       "-I", os.path.join(VERIF, "props/ros_stub/ros2")],
             "share": 0.5, "scale": 1.0},
    "ros1": {"flags": ["-O1", "-fopenmp", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all",
                       "-DCOMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION=1",
                       "-I", os.path.join(VERIF, "props/ros_stub/ros1")],
             "share": 0.5, "scale": 1.0},
    # data races (std::async paths: libgomp is not instrumented)
    "tsan": {"flags": ["-O1", "-fsanitize=thread"], "share": 0.3, "scale": 0.1},
}
BUDGET = {"quick": 40.0, "thorough": 600.0}


def directives(source):
    out = {}
    with open(source, encoding="utf-8") as f:
        for line in f:
            m = re.match(r"// PBT-([A-Z]+):\s*(.*)$", line)
            if m:
                out[m.group(1)] = m.group(2).strip()
    return out


def build_shared(info, workdir):
    """Library sources that are expensive to compile and mostly arithmetic are
    built once, without sanitizers, and linked into every flavour."""
    jobs = []
    for name in info.get("UNSANITIZED", "").split():
        src = os.path.join(REPO, "src", "common_robotics_utilities", name)
        obj = os.path.join(workdir, name + ".o")
        cmd = ["g++", "-std=c++17", "-O1", "-fopenmp", "-w", "-pthread",
               "-DEIGEN_MALLOC_ALREADY_ALIGNED=1",
               "-I", os.path.join(REPO, "include"),
               "-isystem", "/usr/include/eigen3", "-c", src, "-o", obj]
        jobs.append((src, obj, subprocess.Popen(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    return jobs


def build(prop, variant, info, workdir, lenient=False):
    harness = os.path.join(VERIF, "props", prop + ".cpp")
    out_dir = os.path.join(workdir, variant)
    os.makedirs(out_dir, exist_ok=True)
    sources = [harness, os.path.join(VERIF, "pbt", "pbt_main.cpp")]
    for name in info.get("SOURCES", "").split():
        sources.append(os.path.join(
            REPO, "src", "common_robotics_utilities", name))
    flags = list(COMMON) + VARIANTS[variant]["flags"]
    if lenient:
        flags.append("-DPBT_LENIENT")
    includes = ["-I", os.path.join(VERIF, "pbt"),
                "-I", os.path.join(VERIF, "props"),
                "-I", os.path.join(REPO, "include"),
                "-isystem", "/usr/include/eigen3"]
    jobs = []
    for src in sources:
        obj = os.path.join(out_dir, os.path.basename(src) + ".o")
        cmd = ["g++"] + flags + includes + ["-c", src, "-o", obj]
        jobs.append((src, obj, subprocess.Popen(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    return flags, out_dir, jobs


def link(flags, out_dir, jobs):
    objs = []
    ok = True
    for src, obj, proc in jobs:
        if not hasattr(proc, "text"):
            proc.text = proc.communicate()[0].decode(errors="replace")
        text = proc.text
        if proc.returncode != 0:
            sys.stderr.write("compile failed: %s\n%s\n" % (src, text[-6000:]))
            ok = False
        objs.append(obj)
    if not ok:
        return None
    exe = os.path.join(out_dir, "check")
    r = subprocess.run(["g++"] + flags + objs + ["-o", exe, "-lz"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       check=False)
    if r.returncode != 0:
        sys.stderr.write("link failed:\n%s\n"
                         % r.stdout.decode(errors="replace")[-6000:])
        return None
    return exe


def run_env(info):
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = info.get("THREADS", "4")
    env["OMP_WAIT_POLICY"] = "passive"
    env["OMP_DYNAMIC"] = "false"
    env["MALLOC_ARENA_MAX"] = "8"  # address space is capped, see pbt.hpp
    env["ASAN_OPTIONS"] = ("allocator_may_return_null=1:detect_leaks=0:"
                           "max_allocation_size_mb=1024:abort_on_error=0:"
                           "exitcode=77:detect_stack_use_after_return=0:"
                           "quarantine_size_mb=16")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1"
    return env


def listed_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return set()
    with open(path, encoding="utf-8") as f:
        return {line.strip() for line in f
                if line.startswith("KNOWN-FINDING:")}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only", default="")
    ap.add_argument("--variant", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--time", type=float, default=0.0)
    ap.add_argument("--keep", default="", help="build directory to keep")
    args = ap.parse_args()
    prop = args.property
    if args.tier not in BUDGET:
        args.tier = "quick"
    begin = time.time()
    harness = os.path.join(VERIF, "props", prop + ".cpp")
    info = directives(harness)
    variants = info.get("VARIANTS", "plain asan").split()
    if args.variant:
        variants = [args.variant]
    if args.replay:
        with open(args.replay, encoding="utf-8", errors="replace") as f:
            for line in f:
                if line.startswith("variant: ") and not args.variant:
                    variants = [line.split()[1]]
    workdir = args.keep or tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    replay_dir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    code = 2
    try:
        code = run_all(args, prop, info, variants, workdir, replay_dir, begin)
    finally:
        if not args.keep:
            shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(code)


def run_all(args, prop, info, variants, workdir, replay_dir, begin):
    shared = build_shared(info, workdir)
    built = {v: build(prop, v, info, workdir) for v in variants}
    for flags, out_dir, jobs in built.values():
        jobs.extend(shared)
    exes = {v: link(*built[v]) for v in variants}
    if any(e is None for e in exes.values()):
        # Some harnesses can leave out the types that ask most of the library
        # (that cannot be copied, say): better an answer for the others than
        # none.
        with open(os.path.join(VERIF, "props", prop + ".cpp"),
                  encoding="utf-8") as f:
            can_be_lenient = "PBT_LENIENT" in f.read()
        if can_be_lenient:
            sys.stderr.write("%s: trying again without the types that ask "
                             "most of the library\n" % prop)
            built = {v: build(prop, v, info, workdir, True) for v in variants}
            for flags, out_dir, jobs in built.values():
                jobs.extend(shared)
            exes = {v: link(*built[v]) for v in variants}
    if any(e is None for e in exes.values()):
        print("ERROR: the harness of %s does not build against %s"
              % (prop, REPO))
        return 2
    compile_s = time.time() - begin
    sys.stderr.write("%s: built in %.1f s\n" % (prop, compile_s))
    budget = args.time or BUDGET[args.tier]
    share_sum = sum(VARIANTS[v]["share"] for v in variants)
    results = []
    known = []
    status = 0
    violation_path = None
    for v in variants:
        scratch = os.path.join(workdir, "scratch-" + v)
        os.makedirs(scratch, exist_ok=True)
        out = os.path.join(workdir, v + ".json")
        cmd = [exes[v], "--property", prop, "--tier", args.tier,
               "--seed", args.seed, "--variant", v, "--out", out,
               "--workers", info.get("WORKERS", "8"),
               "--time", "%g" % (budget * VARIANTS[v]["share"] / share_sum),
               "--scale", "%g" % (args.scale * VARIANTS[v]["scale"]),
               "--replay-dir", replay_dir, "--scratch", scratch]
        if args.only:
            cmd += ["--only", args.only]
        if args.replay:
            cmd += ["--replay", args.replay]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, env=run_env(info),
                           check=False, cwd=scratch)
        text = r.stdout.decode(errors="replace")
        for line in text.splitlines():
            if line.startswith("KNOWN-FINDING:"):
                if line.strip() not in known:
                    known.append(line.strip())
            elif line.startswith("VIOLATION"):
                violation_path = line.split("replay=", 1)[1]
            elif args.replay:
                print(line)
        if r.returncode == 1 and violation_path is not None:
            status = 1
        elif r.returncode != 0:
            sys.stderr.write("runner exit status %d (%s)\n%s\n"
                             % (r.returncode, v, text[-2000:]))
            return 2
        if os.path.exists(out):
            with open(out, encoding="utf-8") as f:
                results.append(json.load(f))
        if status == 1:
            break
    listed = listed_findings()
    for line in known:
        if line in listed:
            print(line)
        elif status == 0:
            status = 1
            violation_path = os.path.join(replay_dir, prop + "-finding.replay")
            with open(violation_path, "w", encoding="utf-8") as f:
                f.write("unlisted finding: %s\n" % line)
    if not args.replay:
        write_evidence(args, prop, results, status, begin, compile_s, known)
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (prop, violation_path))
    return status


def write_evidence(args, prop, results, status, begin, compile_s, known):
    rules = []
    samples = []
    evaluations = 0
    distinct = 0
    detail = []
    for res in results:
        for p in res["props"]:
            evaluations += p["evaluations"]
            distinct += p["distinct_nontrivial"]
            text = "%s: %s" % (p["name"], p["rule"])
            if text not in rules:
                rules.append(text)
            if res["variant"] == results[0]["variant"]:
                for s in p["samples"][:2]:
                    samples.append("%s: %s" % (p["name"], s[:600]))
            detail.append({k: p[k] for k in (
                "name", "evaluations", "discards", "nontrivial",
                "distinct_nontrivial", "wall_s", "labels")}
                | {"variant": res["variant"]})
    doc = {
        "property": prop,
        "tier": args.tier,
        "seed": int(args.seed) if args.seed.isdigit() else args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": " | ".join(rules),
            "samples": samples[:40],
        },
        "wall_s": round(time.time() - begin, 2),
        "violations": 1 if status == 1 else 0,
        "assumptions": ASSUMPTIONS + known,
        "compile_s": round(compile_s, 2),
        "subproperties": detail,
    }
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


ASSUMPTIONS = [
    "generated-input search: absence of failures outside the explored cases "
    "is not established",
    "g++ 13, x86-64 little-endian, libstdc++, Eigen and zlib as installed",
]

if __name__ == "__main__":
    main()
