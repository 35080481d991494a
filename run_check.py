#!/usr/bin/env python3
"""run_check.py <PROPERTY-ID> [quick|thorough] [--replay FILE] [--seed N] [--scale X]

Builds the harness of one property from /repo's working tree, runs it in all of its
configurations, rewrites evidence/<id>.json and reports.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. 2: no answer.
"""
import glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
NPROC = os.cpu_count() or 4

COMMON = ["-std=c++17", "-pipe", "-Wno-attributes", f"-I{REPO}/include", f"-I{HARN}", f"-I{HARN}/checks",
          "-isystem", "/usr/include/eigen3"]
LIBS = ["-lgmpxx", "-lgmp"]
# pointer-overflow is left out: 'begin() + 1' on an empty monomial (a null pointer plus
# an offset that is never used) is ubiquitous and has no observable effect.
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    # assert()s enabled, sanitizers
    "san": dict(cxx="g++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DPBT_SANITIZED"] + SAN,
                link=SAN, scale=0.35),
    # data races; only for checks that ask for it
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-DPBT_SANITIZED", "-fsanitize=thread"],
                 link=["-fsanitize=thread"], scale=0.5),
    # what a user ships
    "rel": dict(cxx="g++", flags=["-O2", "-DNDEBUG"], link=[], scale=2.0),
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=4096:"
                        "hard_rss_limit_mb=3000:detect_stack_use_after_return=0",
           TSAN_OPTIONS="halt_on_error=1:exitcode=99",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), HARN):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h


def directives(src):
    """// PBT key: value   lines at the top of a check's source."""
    r = {}
    with open(src) as f:
        for line in f:
            if line.startswith("// PBT ") and ":" in line:
                k, v = line[7:].split(":", 1)
                r[k.strip()] = v.strip()
    return r


def build(pid, configs):
    srcs = sorted(glob.glob(os.path.join(HARN, "checks", pid + "_*.cpp")))
    if not srcs:
        print(f"no harness for {pid}")
        sys.exit(2)
    h = tree_hash()
    h.update(json.dumps([pid, COMMON, {c: CONFIGS[c]["flags"] for c in configs}]).encode())
    bdir = os.path.join(VERIF, ".build", pid + "-" + h.hexdigest()[:16])
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    objs = {c: [] for c in configs}
    for c in configs:
        for s in [os.path.join(HARN, "engine.cpp")] + srcs:
            d = directives(s)
            if "configs" in d and c not in d["configs"].split():
                continue
            extra = d.get("flags", "").split() + d.get("flags-" + c, "").split()
            cxx = d.get("cxx-" + c, CONFIGS[c]["cxx"])
            o = os.path.join(bdir, f"{c}-{os.path.basename(s)}.o")
            objs[c].append(o)
            if not os.path.exists(o):
                tmp = o + f".{os.getpid()}.tmp"
                jobs.append((o, tmp, [cxx] + COMMON + CONFIGS[c]["flags"] + extra +
                             ["-c", s, "-o", tmp]))

    def run(j):
        o, tmp, cmd = j
        t = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, o)
        if os.environ.get("PBT_TIMES"):
            print(f"  compile {os.path.basename(o)} {time.time() - t:.1f}s")
        return r, cmd

    with ThreadPoolExecutor(NPROC) as ex:
        for r, cmd in ex.map(run, jobs):
            if r.returncode != 0:
                print("BUILD-FAILED:", " ".join(cmd))
                print(r.stderr[:3000])
                sys.exit(2)
    exes = {}
    for c in configs:
        exe = os.path.join(bdir, c)
        if not os.path.exists(exe):
            r = subprocess.run([CONFIGS[c]["cxx"]] + CONFIGS[c]["link"] + objs[c] +
                               ["-o", exe + ".tmp"] + LIBS, capture_output=True, text=True)
            if r.returncode != 0:
                print("LINK-FAILED", r.stderr[:4000])
                sys.exit(2)
            os.rename(exe + ".tmp", exe)
        exes[c] = exe
    # Keep the cache small: drop older builds of this check
    for old in glob.glob(os.path.join(VERIF, ".build", pid + "-*")):
        if old != bdir and time.time() - os.path.getmtime(old) > 3600:
            subprocess.run(["rm", "-rf", old])
    return exes


PREFIX = []


def usable(exe):
    """ThreadSanitizer does not start under every address space layout."""
    for pre in ([], ["setarch", "-R"]):
        try:
            r = subprocess.run(pre + [exe, "--only", "(none)", "--out", os.devnull], capture_output=True, env=ENV)
        except OSError:
            continue
        if r.returncode == 0:
            PREFIX[:] = pre
            return True
    return False


def replay(exe, path, tail=3000):
    r = subprocess.run(PREFIX + [exe, "--replay", path], capture_output=True, text=True, env=ENV,
                       errors="replace")
    return r.returncode == 1, (r.stdout + r.stderr[-tail:])


def meta(pid):
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            if p["id"] == pid:
                return p
    return {"title": "?"}


def main():
    args = sys.argv[1:]
    pid = args[0]
    opt = {}
    tier = os.environ.get("VERIF_TIER", "quick")
    i = 1
    while i < len(args):
        if args[i].startswith("--"):
            opt[args[i][2:]] = args[i + 1]
            i += 2
        else:
            tier = args[i]
            i += 1
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")) or 1)
    scale = float(opt.get("scale", "1"))
    t0 = time.time()
    configs = ["san", "rel"]
    for s in sorted(glob.glob(os.path.join(HARN, "checks", pid + "_*.cpp"))):
        configs = directives(s).get("run-configs", " ".join(configs)).split()
    if "config" in opt:
        configs = opt["config"].split(",")
    if "replay" in opt:
        p = opt["replay"]
        cfg = os.path.basename(os.path.dirname(os.path.abspath(p)))
        cfg = cfg if cfg in CONFIGS else configs[0]
        exes = build(pid, [cfg])
        bad, out = replay(exes[cfg], p, 20000)
        print(out)
        sys.exit(1 if bad else 0)

    exes = build(pid, configs)
    tb = time.time() - t0
    results, violations = {}, []
    for c in list(configs):
        if c == "tsan" and not usable(exes[c]):
            print("ThreadSanitizer does not work here: configuration left out")
            configs.remove(c)
            continue
        rdir = os.path.join(VERIF, "replays", pid, c)
        os.makedirs(rdir, exist_ok=True)
        out = os.path.join(os.path.dirname(exes[c]), f"result-{c}-{os.getpid()}.json")
        t = time.time()
        cmd = PREFIX + [exes[c], "--tier", tier, "--seed", str(seed), "--workers", str(NPROC),
               "--scale", str(CONFIGS[c]["scale"] * scale), "--out", out, "--replay-dir", rdir]
        if "only" in opt:
            cmd += ["--only", opt["only"]]
        r = subprocess.run(cmd, capture_output=True, text=True, env=ENV, errors="replace")
        if not os.path.exists(out):
            print(f"ERROR: {c} produced no result (exit {r.returncode})\n{r.stdout[-2000:]}\n{r.stderr[-4000:]}")
            sys.exit(2)
        with open(out) as f:
            results[c] = json.load(f)
        os.unlink(out)
        results[c]["wall"] = time.time() - t
        for fl in results[c]["failures"]:
            # Replays of a hang take as long as the watchdog lets them
            n = 1 if fl["message"].startswith("hang") else 3
            ok = sum(replay(exes[c], fl["replay"])[0] for _ in range(n))
            fl["reproduced"] = ok
            if ok == n:
                violations.append((c, fl))
            else:
                print(f"UNSTABLE failure in {c}/{fl['prop']} ({ok}/{n} replays): {fl['message']}")
                if ok:
                    violations.append((c, fl))
        if violations:
            break

    # ---------------------------------------------------------------- evidence
    ev = distinct = 0
    per, samples = {}, []
    for c, r in results.items():
        for p in r["props"]:
            ev += p["run"]
            # configurations other than the largest repeat a prefix-like sample of the same
            # generator: distinct cases are counted once per configuration that ran them all
            per.setdefault(p["name"], {})[c] = {k: p[k] for k in ("run", "nontrivial", "distinct", "discarded", "max_case_ms", "labels")}
            if c == configs[-1] or len(configs) == 1:
                samples += [f"{p['name']}: {s}" for s in p["samples"][:2]]
    for name, by in per.items():
        distinct += max(x["distinct"] for x in by.values())
    rules = []
    for s in sorted(glob.glob(os.path.join(HARN, "checks", pid + "_*.cpp"))):
        d = directives(s)
        if "rule" in d:
            rules.append(d["rule"])
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": distinct,
            "rule": " ".join(rules) or "a case is counted when its property calls nontrivial()",
            "samples": samples[:12] or ["(none)"],
            "configurations": {c: dict(flags=CONFIGS[c]["flags"], wall_s=round(results[c]["wall"], 2))
                               for c in results},
            "per_property": per,
        },
        "assumptions": ["the reference models in /verif/harness", "g++ and its sanitizers", "GMP"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    kf = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf):
        with open(kf) as f:
            for line in f:
                if line.startswith(f"known: property={pid} "):
                    print("KNOWN-FINDING:", line[len("known: "):].strip())
    walls = ", ".join(f"{c} {r['wall']:.1f}s" for c, r in results.items())
    print(f"{pid} [{tier}, seed {seed}] {ev} cases, {distinct} distinct non-trivial; "
          f"build {tb:.1f}s, {walls}")
    for c, fl in violations:
        print(f"config {c}, {fl['prop']} case {fl['case']}: {fl['message']}\n  shrunk case: {fl['desc']}")
        print(f"VIOLATION property={pid} replay={fl['replay']}")
    # A failure that no replay reproduced is not believed, but it is no pass either: say so.
    sys.exit(1 if violations else 0)


main()
