#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   run the simulations that decide one property
   check.py --setup                        build everything once
   check.py --replay FILE                  replay a recorded violation
Builds the simulator from /repo's working tree, runs seeded simulations, reports."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SIM = os.path.join(VERIF, "sim")
os.environ["SIM_DATA"] = os.path.join(REPO, "data", "sample")
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known-findings.txt")
SIMRUN = os.path.join(BUILD, "simrun")
JOBS = os.cpu_count() or 4
THREADED = ("C13",)


class CheckError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.returncode, p.stdout, p.stderr


def pgflags():
    rc, out, _ = sh(["pg_config", "--includedir-server"])
    inc = out.strip() if rc == 0 else "/usr/include/postgresql/16/server"
    rc, out, _ = sh(["pg_config", "--version"])
    m = re.search(r"(\d+)\.(\d+)", out or "")
    ver = "1615"
    if m:
        ver = m.group(1) + ("%02d" % int(m.group(2)) if len(m.group(2)) < 2 else m.group(2))
    return inc, ver


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def ls(d, *ext):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(ext)]


# what the instrumented library calls in the C library goes through the thread simulator (sim/thr_rt.cpp)
RENAME = [(f, "thr_" + f) for f in ("memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy strcat strdup memchr strchr snprintf sprintf strtok setlocale localeconv "
          "localtime gmtime ctime asctime getenv setenv putenv unsetenv lrand48 drand48 mbtowc wctomb mblen").split()] + [("_ZNSt6locale6globalERKS_", "thr_locale_global")]
COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]


def compile_jobs():
    inc, ver = pgflags()
    hdr = filehash(ls(SRC, ".h", ".hpp"))
    simhdr = filehash(ls(SIM, ".h"))
    jobs = []          # (group, object, command, extra-hash)
    cxxr = ["g++", *COMMON, "-std=c++11", "-w", "-I" + SRC]
    for f in ls(SRC, ".cpp"):
        b = os.path.basename(f)[:-4]
        jobs.append(("repo", "r_%s.o" % b, cxxr + ["-c", f], hdr))
        jobs.append(("tsan", "t_%s.o" % b, cxxr + ["-fsanitize=thread", "-c", f], hdr + str(RENAME)))
    for f in ls(SRC, ".c"):
        b = os.path.basename(f)[:-2]
        jobs.append(("c", "rc_%s.o" % b, ["gcc", *COMMON, "-w", "-DPGSQL_VERSION=" + ver, "-I" + inc, "-I" + SRC, "-c", f], hdr))
    tool = os.path.join(SRC, "tester", "compile-lexicon.cpp")
    if os.path.exists(tool):
        jobs.append(("c", "k_compile_lexicon.o", cxxr + ["-Dmain=compile_lexicon_main", "-c", tool], hdr))
    for f in ls(SIM, ".cpp"):
        b = os.path.basename(f)[:-4]
        if b.startswith("thr_inst_"):
            jobs.append(("tsan", "t_%s.o" % b, ["g++", *COMMON, "-std=c++11", "-w", "-fsanitize=thread", "-c", f], str(RENAME)))
            continue
        jobs.append(("thr" if b.startswith("thr_") else "sim", "s_%s.o" % b, ["g++", *COMMON, *(["-O2"] if b in ("thr_rt", "alloc") else []), "-std=c++17", "-w", "-I" + SRC, "-I" + SIM, "-c", f], hdr + simhdr))
    for f in ls(SIM, ".c"):
        b = os.path.basename(f)[:-2]
        jobs.append(("sim", "sc_%s.o" % b, ["gcc", *COMMON, "-w", "-I" + inc, "-I" + SIM, "-c", f], hdr + simhdr))
    return jobs


def build(thr=False):
    """thr: the simulator of concurrent callers, whose copy of the library is instrumented"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs = [j for j in compile_jobs() if j[0] in (("sim", "thr", "tsan", "c") if thr else ("sim", "repo", "c"))]
    simrun = SIMRUN + ("-thr" if thr else "")

    def one(j):
        group, obj, cmd, extra = j
        src = cmd[-1]
        with open(src, "rb") as f:
            key = hashlib.sha256((" ".join(cmd) + extra).encode() + f.read()).hexdigest()[:24]
        out = os.path.join(BUILD, "obj", obj)
        stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return None
        p = subprocess.run(cmd + ["-o", out + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return "%s\n%s" % (" ".join(cmd), p.stdout[-3000:])
        if group == "tsan":
            subprocess.run(["objcopy"] + ["--redefine-sym=%s=%s" % r for r in RENAME] + [out + ".tmp"], check=True)
        os.replace(out + ".tmp", out)
        with open(stamp, "w") as f:
            f.write(key)
        return None

    # the slow ones first
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[2][-1]))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, order) if e]
    if errs:
        raise CheckError("build failed:\n" + "\n".join(errs[:3]))
    ob = lambda g: [os.path.join(BUILD, "obj", j[1]) for j in jobs if j[0] == g]
    rc, icu, _ = sh(["pkg-config", "--libs", "icu-uc", "icu-io"])
    libs = ["-lboost_regex", "-lboost_serialization"] + (icu.split() if rc == 0 else ["-licuuc", "-licuio", "-licui18n"]) + ["-licui18n", "-lpthread", "-ldl"]
    if thr:         # first, so that the instrumented copies of inline functions are the ones that are linked
        first, lib = ob("tsan"), ob("thr") + ob("c")
    else:
        a = os.path.join(BUILD, "librepo.a")
        if os.path.exists(a):
            os.remove(a)
        rc, _, err = sh(["ar", "rcs", a] + ob("repo") + ob("c"))
        if rc:
            raise CheckError("ar: " + err)
        first, lib = [], [a]
    wraps = ["-Wl,--wrap=" + s for s in ("getLexiconPtr", "getGrammarPtr", "freeLexiconPtr", "freeGrammarPtr")]
    stubs = []
    for _ in range(3):
        cmd = ["g++", "-rdynamic", "-Wl,-z,now", "-o", simrun + ".tmp"] + first + ob("sim") + stubs + lib + wraps + libs
        rc, _, err = sh(cmd)
        if rc == 0:
            os.replace(simrun + ".tmp", simrun)
            return simrun
        miss = sorted(set(re.findall(r"undefined reference to `([A-Za-z_][A-Za-z0-9_]*)'", err)))
        if not miss or stubs:
            break
        # backend functions the simulated backend does not know: calling one ends the check
        c = os.path.join(BUILD, "unsupported.c")
        with open(c, "w") as f:
            f.write("extern void sim_unsupported(const char*) __attribute__((noreturn));\n")
            for m in miss:
                f.write("__attribute__((weak)) void %s(void) { sim_unsupported(\"%s\"); }\n" % (m, m))
        o = os.path.join(BUILD, "obj", "unsupported.o")
        sh(["gcc", "-w", "-c", c, "-o", o])
        stubs = [o]
    raise CheckError("link failed:\n" + err[-3000:])


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


RULES = json.load(open(os.path.join(VERIF, "tools", "rules.json")))


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    SIMRUN = build(prop in THREADED)
    tb = time.time() - t0
    budget = float(os.environ.get("SIM_BUDGET", "0")) or (600.0 if tier == "thorough" else {"C13": 120.0, "C05": 90.0, "C16": 90.0, "C01": 75.0, "C04": 75.0, "C08": 75.0, "C09": 75.0, "C15": 75.0, "C17": 75.0}.get(prop, 60.0))
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    stats = os.path.join(BUILD, "stats-%s.json" % prop)
    if os.path.exists(stats):
        os.remove(stats)
    known = [k for k in known_findings() if k[0] == prop]
    cmd = [SIMRUN, "check", prop, "--seed", str(seed), "--tier", tier, "--jobs", str(JOBS), "--budget", str(budget), "--replays", replays, "--out", stats]
    if known:
        cmd += ["--known", ",".join(k[1] for k in known)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(stats):
        raise CheckError("simrun gave no result (%d): %s" % (p.returncode, p.stdout[-2000:]))
    st = json.load(open(stats))
    vio = 0
    if st["violation"]:
        for _ in range(2):          # in fresh processes
            r = subprocess.run([SIMRUN, "replay", st["violation"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 1 or "as recorded" not in r.stdout:
                raise CheckError("the violation does not replay (%d): %s\n%s" % (r.returncode, st["verdict"], r.stdout[-1500:]))
        vio = 1
    elif p.returncode:
        raise CheckError("simrun failed (%d): %s" % (p.returncode, p.stdout[-2000:]))
    if st["determinism_failed"] or st["unstable"]:
        raise CheckError("simulation is not deterministic: " + st["notes"])
    if st["runs"] == 0 or st["distinct_nontrivial"] == 0:
        raise CheckError("nothing was explored")
    wall = time.time() - t0
    c = st["counts"]
    hours = st["wall_seconds"] / 3600.0
    faults = {k: v for k, v in c.items() if k.startswith(("fault_", "io_", "cut_points")) and not k.startswith("faults_")}
    R = RULES[prop]
    cov = {
        "evaluations": st["runs"], "distinct_nontrivial": st["distinct_nontrivial"], "rule": R["rule"], "samples": st["samples"],
        "seeds": st["seeds"], "runs_with_injected_fault": st["fault_runs"],
        "seeds_per_hour": int(st["seeds"] / hours), "runs_per_hour": int(st["runs"] / hours),
        "simulated_time": "the code under test has no timers and, as it stands, looks at no clock (looks: %d; a simulated clock would jump at each), so time is counted in simulated steps: %d" % (c.get("looks_at_the_clock", 0), st["steps"]),
        "simulated_steps": st["steps"], "faults_injected": faults, "distinct_fault_sites": st["distinct_fault_sites"],
        "distinct_states": st["distinct_states"], "state_measure": R["state"], "distinct_schedules_and_fault_plans": st["distinct_plans"],
        "reference_answers_computed": st["reference_answers"], "probes": {k: v for k, v in c.items() if k not in faults},
        "determinism_reruns_identical": st["determinism_checked"], "discarded_runs": st["discarded"],
        "real_components": R["real"], "stub_components": R["stub"], "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": R["level"], "coverage": cov, "assumptions": R["assume"], "wall_s": round(wall, 1), "violations": vio}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (k[0], k[2]))
    print("%s: %d seeds, %d runs (%d with an injected fault), %d distinct states, %.0f s" % (prop, st["seeds"], st["runs"], st["fault_runs"], st["distinct_states"], wall))
    if vio:
        print(st["verdict"])
        print("VIOLATION property=%s replay=%s" % (prop, st["violation"]))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build()
            build(True)
            return 0
        if a[:1] == ["--replay"]:
            thr = "exec thr" in open(a[1]).read()
            return subprocess.run([build(thr), "replay", a[1]]).returncode
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return run(a[0], tier)
    except CheckError as e:
        print("check error: %s" % e)
        return 2


sys.exit(main())
