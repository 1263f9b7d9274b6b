#!/usr/bin/env python3
"""Runs the model check of one property against /repo's current working tree.

  check.py Cxx [--tier quick|thorough] [--replay FILE] [--space NAME]

Builds the program(s) that decide the property from /repo's sources (cached by content hash in
/verif/build), enumerates the property's bounded spaces, rewrites /verif/evidence/Cxx.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import argparse, hashlib, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")

INC = ["-I" + os.path.join(REPO, "include")]
BENCH = ["-I" + os.path.join(REPO, "bench")]
BASE = ["-std=c++14", "-mpopcnt", "-w", "-pthread"]
FLAVOURS = {
    # asserts on: an assertion that fails is a violation
    "main": ("g++", BASE + ["-O2"]),
    # as the project's release build: asserts off
    "release": ("g++", BASE + ["-O3", "-DNDEBUG"]),
    "asan": ("g++", BASE + ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                            "-fno-omit-frame-pointer", "-DMC_NO_ALLOC"]),
    "asanrel": ("g++", BASE + ["-O1", "-g", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                               "-fno-omit-frame-pointer", "-DMC_NO_ALLOC"]),
    # reads of memory nothing has written to
    "msan": ("clang++", BASE + ["-O1", "-g1", "-DNDEBUG", "-fsanitize=memory", "-fno-omit-frame-pointer", "-DMC_NO_ALLOC", "-DMC_MSAN",
                                "-include", os.path.join(MC, "instrumented.h")]),
}
# property -> program, flavours of the quick and of the thorough tier; a flavour may be limited to some spaces
BRIEF = "release:ab2,0f2,groups,deep,tails"
FILTER = ("filter_main.cpp", ["main", BRIEF], ["main", "release"])
BENCHMAIN = ("bench_main.cpp", ["main", "release"], ["main", "release"])
COMPONENT = ("components.cpp", ["main", "release"], ["main", "release"])
PROPS = {p: FILTER for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
                             "C12", "C13", "C14", "C17", "C18", "C20", "C29", "C30", "C31"]}
PROPS.update({p: COMPONENT for p in ["C21", "C22", "C23", "C24"]})
PROPS.update({p: BENCHMAIN for p in ["C19", "C25", "C26", "C27", "C28"]})
PROPS["C32"] = ("counting.cpp", ["main"], ["main", "release"])
PROPS["C17"] = ("filter_main.cpp", ["main", "release:ab2,lens"], ["main", "release"])
PROPS["C26"] = ("bench_main.cpp", ["main", "release:ab2,0f2,lens,groups"], ["main", "release"])
PROPS["C28"] = ("bench_main.cpp", ["main"], ["main", "release"])
# two objects: the operations, instrumented by the compiler, and the run time they are instrumented for
FLAVOURS["sched"] = ("g++", BASE + ["-O1", "-g1", "-fsanitize=thread", "-include", os.path.join(MC, "instrumented.h"), "-DMC_NO_ALLOC"])
FLAVOURS["schedrel"] = ("g++", BASE + ["-O2", "-g1", "-DNDEBUG", "-fsanitize=thread", "-include", os.path.join(MC, "instrumented.h"), "-DMC_NO_ALLOC"])
RUNTIME = ["-std=c++14", "-O2", "-w", "-pthread", "-fno-threadsafe-statics"]
PROPS["C15"] = ("conc/ops.cpp", ["sched"], ["sched", "schedrel"])
PROPS["C16"] = ("filter_main.cpp", ["asanrel", "msan"], ["asanrel", "msan", "asan"])

# C28 also runs the benchmark programs themselves, unchanged; the multi-threaded one with its threads scheduled
PROGRAMS = {"C28": [("MC_WORKLOAD", "workload.cpp", "program"), ("MC_WORKLOAD_MT", "workload_multi_thread.cpp", "threads")]}
FLAVOURS["program"] = ("g++", BASE + ["-O1"])
FLAVOURS["threads"] = ("g++", BASE + ["-O1", "-DVERBOSE=1", "-fno-pie", "-fsanitize=thread", "-include", os.path.join(MC, "instrumented.h"), "-finstrument-functions", "-finstrument-functions-exclude-file-list=include/,/usr"])

TEXT = json.load(open(os.path.join(VERIF, "mc", "describe.json")))


def log(*a):
    print(*a, flush=True)


def tree_files():
    out = []
    for top in [os.path.join(REPO, "include"), os.path.join(REPO, "bench"), MC]:
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".cpp", ".c", ".inc")):
                    out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in tree_files():
        h.update(f.encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h


def build(src, flavour):
    cc, flags = FLAVOURS[flavour]
    h = tree_hash()
    h.update(repr((src, cc, flags)).encode())
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s-%s-%s" % (src.replace(".cpp", "").replace("/", "_"), flavour, h.hexdigest()[:20]))
    if os.path.exists(exe):
        return exe
    # keep the cache small
    olds = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=os.path.getmtime)
    for f in olds[:-24]:
        try:
            os.unlink(f)
        except OSError:
            pass
    fd, tmp = tempfile.mkstemp(dir=BUILD, prefix="tmp-")
    os.close(fd)
    path = os.path.join(REPO, "bench", src) if flavour in ("program", "threads") else os.path.join(MC, src)
    inc = INC + (BENCH if src == "bench_main.cpp" or flavour in ("program", "threads") else [])
    cmds = [[cc] + flags + inc + [path, "-o", tmp]]
    parts = []
    if flavour == "threads":
        parts = [tmp + ".1.o", tmp + ".2.o"]
        cmds = [[cc] + flags + inc + ["-c", path, "-o", parts[0]],
                [cc, "-std=c++14", "-O1", "-w", "-fno-pie", "-fno-threadsafe-statics", "-c", os.path.join(MC, "conc", "coop.cpp"), "-o", parts[1]],
                [cc, "-no-pie", "-rdynamic"] + parts + ["-o", tmp]]
    if flavour.startswith("sched"):
        parts = [tmp + ".1.o", tmp + ".2.o"]
        cmds = [[cc] + flags + INC + ["-c", os.path.join(MC, src), "-o", parts[0]],
                [cc] + RUNTIME + ["-c", os.path.join(MC, "conc", "rt.cpp"), "-o", parts[1]],
                [cc, "-pthread", "-rdynamic"] + parts + ["-ldl", "-o", tmp]]
    for cmd in cmds:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            break
    for p in parts:
        if os.path.exists(p):
            os.unlink(p)
    if r.returncode != 0:
        os.unlink(tmp)
        log("BUILD FAILED:", " ".join(cmd))
        log(r.stdout[-3000:])
        sys.exit(2)
    os.chmod(tmp, 0o755)
    os.rename(tmp, exe)
    return exe


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build every quick program")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--build", help=argparse.SUPPRESS)
    ap.add_argument("--replay")
    ap.add_argument("--space")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    if a.setup:
        jobs = sorted(set((src, fl.split(":")[0]) for src, quick, _ in PROPS.values() for fl in quick) |
                      set(x[1:] for ps in PROGRAMS.values() for x in ps))
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--build", "%s:%s" % j]) for j in jobs]
        return max([p.wait() for p in ps])
    if a.build:
        build(*a.build.split(":"))
        return 0
    if a.prop not in PROPS:
        log("unknown property", a.prop)
        return 2
    tier = "thorough" if a.tier == "thorough" else "quick"
    src, quick, thorough = PROPS[a.prop]
    flavours = thorough if tier == "thorough" else quick
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=2500:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    env["VERIF_TIER"] = tier
    t0 = time.time()
    for var, psrc, fl in PROGRAMS.get(a.prop, []):
        env[var] = build(psrc, fl)
    # compile what is not in the cache, all at once
    names = sorted(set(fl.split(":")[0] for fl in flavours))
    for p in [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--build", "%s:%s" % (src, fl)]) for fl in names]:
        if p.wait():
            return 2
    if a.replay:
        rc = 0
        for fl in names:
            exe = build(src, fl)
            r = subprocess.run([exe, "--replay", a.replay], env=env)
            rc = max(rc, r.returncode)
        return rc
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    results = []
    status, msg, replay = "ok", "", ""
    for fl in flavours:
        fl, _, only = fl.partition(":")
        exe = build(src, fl)
        if fl == "msan":
            # the run time needs an address-space layout it can live with; without one this build says nothing
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors="replace")
            if "MemorySanitizer" in r.stdout and len(flavours) > 1:
                log("[msan] not usable here:", r.stdout.strip()[-300:])
                continue
        fd, out = tempfile.mkstemp(prefix="mcres")
        os.close(fd)
        cmd = [exe, "--prop", a.prop, "--tier", tier, "--out", out, "--replaydir", REPLAYS, "--workers", str(a.workers)]
        if a.space or only:
            cmd += ["--space", a.space or only]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors="replace")
        log("[%s] %s" % (fl, r.stdout.strip()[-3000:]))
        try:
            res = json.load(open(out))
        except Exception as e:
            log("no result from", " ".join(cmd), "exit", r.returncode, e)
            os.unlink(out)
            return 2
        os.unlink(out)
        res["flavour"] = fl
        res["only"] = only
        results.append(res)
        if res["status"] == "violated":
            status, msg, replay = "violated", res["msg"], res["replay"]
            break
        if res["status"] != "ok" and status == "ok":
            status, msg = "error", res["msg"]
    wall = time.time() - t0
    write_evidence(a.prop, tier, results, wall, 1 if status == "violated" else 0, msg)
    if status == "violated":
        log("VIOLATION property=%s replay=%s" % (a.prop, replay))
        log(msg)
        log("replay: python3 %s %s --replay %s" % (os.path.join(VERIF, "check.py"), a.prop, replay))
        return 1
    if status != "ok":
        log("NO VERDICT:", msg)
        return 2
    for k in known_findings(a.prop):
        log(k)
    log("property %s held (%s, %.1f s)" % (a.prop, tier, wall))
    return 0


NAMES = ["operations_compared", None, "histories_or_interleavings", "answers_positive", "answers_negative",
         "answers_false_positive", "ambiguous_boundaries", "invalid_iterators", None, None, None, None, None]


def write_evidence(prop, tier, results, wall, violations, msg):
    d = TEXT.get(prop, {})
    main = results[0]
    c = main["counters"]
    hist = main["hist"]
    cov = {
        "states": main["distinct"],
        "transitions": sum(r["counters"][0] for r in results),
        "traces_validated_against_impl": sum(r["scenarios"] + r["counters"][2] for r in results),
        "samples": main["samples"],
        "exhaustive": all(r["status"] == "ok" for r in results),
        "meaning": {
            "states": d.get("states", "distinct (key list, configuration) scenarios built on the real code"),
            "transitions": d.get("transitions", "operations executed on the real code whose answer was compared with the reference model"),
            "traces_validated_against_impl": d.get("traces", "complete runs of the real code (build, all operations, destroy) that agreed with the model, over all builds"),
        },
        "spaces": main["spaces"],
        "builds": [{"flavour": r["flavour"], "flags": " ".join(FLAVOURS[r["flavour"]][1]), "scenarios": r["scenarios"],
                    "limited_to_spaces": r["only"] or "all", "operations": r["counters"][0], "wall_s": r["wall"]} for r in results],
    }
    extra = {}
    for i, n in enumerate(NAMES):
        n = d.get("counters", {}).get(str(i), n if n != "operations_compared" else None)
        if n and c[i]:
            extra[n] = c[i]
    if extra:
        cov["outcomes"] = extra
    if any(hist):
        cov["dense_levels"] = {("all %d" % (i - 32) if i >= 32 else str(i)): v for i, v in enumerate(hist) if v}
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "coverage": cov,
        "assumptions": d.get("assumptions", TEXT.get("assumptions", [])),
        "wall_s": round(wall, 2), "violations": violations,
    }
    if msg:
        ev["coverage"]["message"] = msg[:2000]
    path = os.path.join(EVIDENCE, prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, path)


if __name__ == "__main__":
    sys.exit(main())
