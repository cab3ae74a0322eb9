#!/usr/bin/env python3
"""Driver: check.py <ID> [--replay FILE]

Builds the harness of one property from /repo's current working tree, runs it, writes evidence/<ID>.json.
exit 0: held on everything explored; exit 1 + "VIOLATION property=<ID> replay=<path>": broken; 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, ASSUMPTIONS  # noqa: E402

GCC, CLANG = "g++", "clang++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def base_flags(b):
    cxx = b.get("cxx", GCC)
    f = [cxx, "-std=" + b.get("std", "c++20"), "-g1", "-w", "-pthread", "-I" + REPO + "/include", "-I" + HERE + "/fw",
         "-I" + HERE + "/harness"]
    if cxx == GCC:
        f += ["-fext-numeric-literals"]
    f += b.get("opt", ["-O1"])
    if b.get("san", True) is True:
        f += SAN + ["-fno-omit-frame-pointer"]
    elif b.get("san"):
        f += b["san"]
    f += ["-D" + d for d in b.get("defs", [])] + b.get("xflags", [])
    return f


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(args):
    cmd, out = args
    t = time.time()
    r = sh(cmd + ["-o", out])
    return (r.returncode, r.stdout, cmd, out, time.time() - t)


def write_replay(pid, doc):
    os.makedirs(HERE + "/replays", exist_ok=True)
    p = "%s/replays/%s.json" % (HERE, pid)
    with open(p, "w") as f:
        json.dump(doc, f, indent=1)
    return p


def toolchain_ok():
    with tempfile.NamedTemporaryFile("w", suffix=".cpp") as f:
        f.write("#include <vector>\nint main(){std::vector<int> v; return (int)v.size();}\n")
        f.flush()
        return sh([GCC, "-std=c++20", "-fsyntax-only", f.name]).returncode == 0


def build(pid, spec, tmp, seed, tier, only=None):
    """returns (binaries, compile_failure, builds left out)"""
    jobs, links, owner, bad = [], [], {}, {}
    for b in spec["builds"]:
        if only and b["name"] != only:
            continue
        if tier == "quick" and b.get("thorough_only"):
            continue
        objs = []
        fl = base_flags(b) + ["-DVERIF_SEED=%dull" % seed]
        hs = b.get("src", spec.get("src"))
        for s in hs + ["fw:pbt_main.cpp"] + ["fw:" + x for x in spec.get("fw", [])] + ["lib:" + x for x in b.get("lib", spec.get("lib", []))]:
            o = "%s/%s-%s.o" % (tmp, b["name"], re.sub(r"\W", "_", s))
            if s.startswith("lib:"):
                path, extra = REPO + "/src/" + s[4:], ["-DMUU_BUILDING=1"]
                if "libstd" in b:
                    extra.append("-std=" + b["libstd"])
            elif s.startswith("fw:"):
                path, extra = HERE + "/fw/" + s[3:].split("@")[0], []
            else:
                # "file.cpp@DEF=1": the same file compiled in parts
                path, extra = HERE + "/harness/" + s.split("@")[0], ["-D" + d for d in s.split("@")[1:]]
            ff = fl + extra
            if s.endswith("@nosan"):
                ff = [x for x in ff if not x.startswith("-fsanitize") and not x.startswith("-fno-sanitize")] + ["-O2"]
            if s.startswith("fw:"):
                ff = [x for x in ff if not x.startswith("-O")] + ["-O1"]
            jobs.append((ff + ["-c", path], o))
            owner[o] = b
            objs.append(o)
        exe = "%s/%s" % (tmp, b["name"])
        cxx = b.get("cxx", GCC)
        link = fl + objs + (["-lquadmath"] if cxx == GCC else []) + b.get("ldflags", [])
        links.append((b, link, exe))
    # big harness units first
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, jobs))
    for rc, outp, cmd, o, dt in res:
        if os.environ.get("VERIF_VERBOSE"):
            print("  compiled %s %.1fs" % (os.path.basename(o), dt))
        if rc:
            bad.setdefault(owner[o]["name"], (owner[o], cmd, outp))
    links = [x for x in links if x[0]["name"] not in bad]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, [(l, e) for _, l, e in links]))
    for (rc, outp, cmd, o, dt), (b, _, _) in zip(res, links):
        if rc:
            bad.setdefault(b["name"], (b, cmd, outp))
    good = [(b, e) for b, _, e in links if b["name"] not in bad]
    # the repository itself is built with g++ only: a tree that only clang rejects is judged by the g++ build alone
    fatal = [v for v in bad.values() if v[0].get("cxx", GCC) == GCC or not good]
    if fatal:
        return None, fatal[0][1:], []
    return good, None, ["%s: %s" % (n, next((l for l in v[2].splitlines() if "error" in l), "does not compile")[:300]) for n, v in bad.items()]


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    env["LSAN_OPTIONS"] = "exitcode=0"
    env["LANG"] = env["LC_ALL"] = "C.UTF-8"
    return env


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed = replay.get("seed", seed)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, spec, seed, tier, replay, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known(pid):
    out = []
    for line in open(HERE + "/known_findings.txt"):
        m = re.match(r"KNOWN: property=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            out.append(m.group(2))
    return out


def evidence(pid, tier, seed, cov, t0, violations):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, pid), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": ASSUMPTIONS + CHECKS[pid].get("assumptions", []),
                   "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1)


def run(pid, spec, seed, tier, replay, tmp, t0):
    rule = spec["rule"]
    if replay and replay.get("kind") == "compile":
        bins, bad, _ = build(pid, spec, tmp, seed, tier)
        print(bad[1][-3000:] if bad else "compiles")
        return 1 if bad else 0
    bins, bad, left_out = build(pid, spec, tmp, seed, tier, only=replay["build"] if replay else None)
    if bad:
        cmd, outp = bad
        errs = [l for l in outp.splitlines() if "error:" in l or "undefined reference" in l]
        if not toolchain_ok() or not errs:
            print("check error: compiler not usable\n" + outp[-2000:])
            return 2
        # the public API use (or compile-time evaluation) in this harness is part of the property: it compiles on the
        # pinned tree, so a tree that rejects it no longer provides the behaviour
        p = write_replay(pid, {"property": pid, "kind": "compile", "seed": seed, "cmd": cmd, "output": outp[-8000:]})
        evidence(pid, tier, seed, {"evaluations": 1, "distinct_nontrivial": 0, "rule": rule, "samples": [errs[:3]]}, t0, 1)
        print("harness no longer compiles against the tree: " + errs[0])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    for x in left_out:
        print("note: left out a build that clang alone rejects: " + x)
    env = run_env()
    if replay:
        b, exe = bins[0]
        r = subprocess.run([exe, "--seed", str(seed), "--replay", replay["prop"], " ".join(map(str, replay["choices"]))]
                           + (["--thorough"] if tier == "thorough" else []), env=env)
        return r.returncode
    t_build = time.time() - t0
    total = {"evaluations": 0, "distinct_nontrivial": 0}
    per, samples, viol, classes = [], [], [], {}
    n = len(bins)
    for b, exe in bins:
        out = "%s/%s.json" % (tmp, b["name"])
        cap = (300 if tier == "quick" else 780) * 0.9 / n
        cmd = [exe, "--seed", str(seed), "--out", out, "--jobs", str(b.get("jobs", 8)), "--cap", str(b.get("cap", cap)),
               "--hang", str(b.get("hang", 40)), "--scale", str(b.get("scale", 1))]
        if tier == "thorough":
            cmd.append("--thorough")
        r = sh(cmd, env=env)
        log = r.stdout
        if not os.path.exists(out):
            print("check error: runner died\n" + log[-3000:])
            return 2
        doc = json.load(open(out))
        for p in doc["props"]:
            total["evaluations"] += p["evaluations"]
            total["distinct_nontrivial"] += p["distinct_nontrivial"]
            d = {"build": b["name"], "check": p["name"], "evaluated": p["evaluations"], "discarded": p["discarded"],
                 "nontrivial": p["distinct_nontrivial"]}
            if p["capped"]:
                d["stopped_by_time_cap"] = True
            if p["classes"]:
                d["classes"] = p["classes"]
            per.append(d)
            if p["samples"] and len(samples) < 12 and b is bins[0][0]:
                samples.append({"check": p["name"], "case": p["samples"][-1]})
        for f in doc["failures"]:
            oracle = re.match(r"[\w.]+:\d+: CHECK|[\w.]+:\d+: \S+|unexpected exception", f["first_message"]) is not None
            if not oracle and f["confirmed"] == 0:
                print("check error: crash/hang not reproducible: %s %s" % (f["prop"], f["first_message"]))
                print(log[-2000:])
                return 2
            f["build"] = b["name"]
            viol.append((f, log))
        if viol:
            break
    per_run = {"rule": rule, "samples": samples or [per[0] if per else {}], "build_s": round(t_build, 1), "checks": per}
    if left_out:
        per_run["builds_left_out"] = left_out
    per_run.update(total)
    if not viol and not total["distinct_nontrivial"]:
        print("check error: no non-trivial case was generated")
        return 2
    evidence(pid, tier, seed, per_run, t0, len(viol))
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viol:
        f, log = viol[0]
        p = write_replay(pid, {"property": pid, "kind": "case", "seed": seed, "tier": tier, "build": f["build"],
                               "prop": f["prop"], "choices": f["choices"], "message": f["message"], "case": f["case"],
                               "log": log[-6000:]})
        print("%s [%s]: %s\n  case: %s\n  confirmed %d/%d" % (f["prop"], f["build"], f["message"], f["case"][:1500],
                                                          f["confirmed"], f["tries"]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1fs" % (pid, total["evaluations"], total["distinct_nontrivial"],
                                                              time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
