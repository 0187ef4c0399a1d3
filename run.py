#!/usr/bin/env python3
"""
run.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo's current tree
run.py --replay FILE                        replay a recorded violation
run.py --setup                              pre-build everything

Builds the library from /repo's working tree in the variants a property needs, links the exploration
harnesses of /verif/harness against it, explores, and writes evidence/<PROPERTY>.json.
"""
import sys, os, json, subprocess, hashlib, time, re, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa

COMMON = ["-std=gnu11", "-g", "-D_GNU_SOURCE", "-pthread", "-DIOT_BUILD_COMPONENTS", "-DIOT_BUILD_DYNAMIC_LOAD",
          "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-w"]
WRAPS = ("malloc calloc realloc reallocarray free aligned_alloc posix_memalign strdup strndup asprintf vasprintf __vasprintf_chk "
  "pthread_create pthread_join pthread_detach pthread_self pthread_exit pthread_setschedparam pthread_getschedparam "
  "pthread_setaffinity_np pthread_setname_np prctl pthread_once pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock "
  "pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait "
  "pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_rwlock_init pthread_rwlock_destroy "
  "pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock "
  "geteuid sysconf sem_init sem_destroy sem_post sem_wait nanosleep clock_nanosleep usleep sleep sched_yield clock_gettime time gettimeofday timespec_get "
  "snprintf vsnprintf fprintf vfprintf printf fputs fwrite memcpy memset strcmp strlen strcpy __assert_fail abort").split()
VARIANTS = {
  # name: (library flags, harness flags, link flags, runtime)
  "asan":    (["-O1", "-fsanitize=address"], ["-O1", "-fsanitize=address"], ["-fsanitize=address"], "seq"),
  "asanrel": (["-O1", "-fsanitize=address", "-DNDEBUG"], ["-O1", "-fsanitize=address"], ["-fsanitize=address"], "seq"),
  "plain":   (["-O2"], ["-O2"], [], "seq"),
  "trace":   (["-O1", "-fsanitize=thread", "-fno-builtin"], ["-O2"], [], "trace"),
  "fib":     (["-O1", "-fsanitize=thread", "-fno-builtin"], ["-O1", "-fno-builtin", "-fno-pie", "-fsanitize=thread"], ["-no-pie"] + ["-Wl,--wrap=" + w for w in WRAPS], "fib"),
  "fibrel":  (["-O1", "-fsanitize=thread", "-fno-builtin", "-DNDEBUG"], ["-O1", "-fno-builtin", "-fno-pie", "-fsanitize=thread"], ["-no-pie"] + ["-Wl,--wrap=" + w for w in WRAPS], "fib"),
}

class BuildError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def cc(args):
    r = sh(["gcc"] + args)
    if r.returncode: raise BuildError(" ".join(["gcc"] + args) + "\n" + r.stdout[-4000:])

def filehash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def gen_defs():
    """include/iot/defs.h is generated by cmake and ignored by git: supply one if it is not there"""
    if os.path.exists(REPO + "/include/iot/defs.h"): return []
    d = BUILD + "/gen/iot"; os.makedirs(d, exist_ok=True)
    ver = open(REPO + "/VERSION").read().strip()
    t = open(REPO + "/src/c/defs.h.in").read()
    out = []
    for line in t.splitlines():
        m = re.match(r"#cmakedefine\s+(\w+)", line)
        if m: line = "#define " + m.group(1)
        line = line.replace("@IOT_VERSION@", ver).replace("${IOT_VERSION}", ver)
        line = re.sub(r"@\w+@|\$\{\w+\}", "1", line)
        out.append(line)
    new = "\n".join(out) + "\n"
    if not os.path.exists(d + "/defs.h") or open(d + "/defs.h").read() != new: open(d + "/defs.h", "w").write(new)
    return ["-I" + BUILD + "/gen"]

def prune(prefix, keep):
    for d in glob.glob(os.path.join(BUILD, prefix + "-*")):
        if os.path.basename(d) != keep and time.time() - os.path.getmtime(d) > 1800: shutil.rmtree(d, ignore_errors=True)

def build_lib(variant):
    lib, _, _, rt = VARIANTS[variant]
    srcs = [s for s in sorted(glob.glob(REPO + "/src/c/*.c"))]
    hdrs = glob.glob(REPO + "/src/c/*.h") + glob.glob(REPO + "/include/iot/**/*.h", recursive=True)
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src/c"] + gen_defs()
    rts = [V + "/lib/mc.c", V + "/lib/mc.h", V + "/lib/fib.c", V + "/lib/fib.h", V + "/lib/trace.c"]
    key = filehash(srcs + hdrs + rts, repr((lib, COMMON, inc, VARIANTS[variant])))
    d = os.path.join(BUILD, f"{variant}-{key}")
    done = d + "/.done"
    if os.path.exists(done): return d, inc
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in srcs:
        jobs.append(COMMON + lib + inc + ["-c", s, "-o", d + "/" + os.path.basename(s)[:-2] + ".o"])
    rflags = COMMON + ["-O2", "-Wno-all"]
    jobs.append(rflags + ["-c", V + "/lib/mc.c", "-o", d + "/rt_mc.o"])
    if rt == "trace": jobs.append(rflags + ["-c", V + "/lib/trace.c", "-o", d + "/rt_trace.o"])
    if rt == "fib": jobs.append(rflags + ["-fno-builtin", "-c", V + "/lib/fib.c", "-o", d + "/rt_fib.o"])
    with ThreadPoolExecutor(8) as ex: list(ex.map(cc, jobs))
    if rt == "fib":
        for o in ("rt_mc.o", "rt_fib.o"):
            redef = sum((["--redefine-sym", f"{f}=__real_{f}"] for f in "snprintf vsnprintf fprintf vfprintf printf fputs fwrite".split()), [])
            r = sh(["objcopy", "--rename-section", ".data=mcdata", "--rename-section", ".bss=mcbss"] + redef + [d + "/" + o])
            if r.returncode: raise BuildError(r.stdout)
    open(done, "w").close()
    prune(variant, os.path.basename(d))
    return d, inc

def build_harness(name, variant):
    d, inc = build_lib(variant)
    lib, hf, lf, rt = VARIANTS[variant]
    src = V + "/harness/" + name + ".c"
    deps = [src] + glob.glob(V + "/harness/*.h") + glob.glob(V + "/lib/*.h")
    key = filehash(deps, repr((hf, lf)))
    exe = f"{d}/{name}-{key}"
    if not os.path.exists(exe):
        objs = sorted(glob.glob(d + "/*.o"))
        extra = []
        for line in open(src):
            m = re.match(r"//\s*LINK:\s*(.*)", line)
            if m: extra += m.group(1).split()
        hn = f"{d}/{name}-{key}.h.o_"
        cc(COMMON + hf + inc + ["-I" + V + "/lib", "-I" + V + "/harness", "-DVARIANT_" + variant.upper(), "-c", src, "-o", hn, "-x", "none"])
        if rt == "fib":
            r = sh(["objcopy", "--rename-section", ".data=hdata", "--rename-section", ".bss=hbss", "--rename-section", ".text=htext", hn])
            if r.returncode: raise BuildError(r.stdout)
        cc(["-pthread"] + lf + ["-o", exe + ".tmp", hn] + objs + extra + ["-lyaml", "-ldl", "-lm"])
        os.rename(exe + ".tmp", exe)
    return exe

def symbolize(exe, text):
    addrs = sorted(set(re.findall(r"@0x([0-9a-f]+)", text)))
    if not addrs: return text
    r = sh(["addr2line", "-f", "-s", "-e", exe] + ["0x%x" % (int(a, 16) - 1) for a in addrs])
    l = r.stdout.splitlines()
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(l): text = re.sub("@0x%s\\b" % a, "%s (%s)" % (l[2*i], l[2*i+1]), text)
    return text

def known_findings(prop):
    out = {}
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3).strip()
    return out

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=16:malloc_context_size=8:abort_on_error=0:print_summary=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1", LC_ALL="C", LANG="C")

def replay_cmd(exe, space, params, choices, known=None):
    return [exe, space] + params + ["--replay", ",".join(map(str, choices)) or "0"]

def do_replay(rec):
    exe = build_harness(rec["harness"], rec["variant"])
    scratch = tempfile.mkdtemp(prefix="vmc.")
    env = dict(ENV, MC_SCRATCH=scratch, VERIF_SCRATCH=scratch)
    try:
        try:
            r = sh(replay_cmd(exe, rec["space"], rec["params"], rec["choices"]), env=env, cwd=scratch, timeout=rec.get("limit", 120))
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = ((e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")) + "\n--> FAIL [hang] no end within the limit\n", -1
    finally:
        sh(["chmod", "-R", "u+rwx", scratch]); shutil.rmtree(scratch, ignore_errors=True)
    return rc, symbolize(exe, out)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        names = sorted({(r["harness"], r.get("variant", "asan")) for c in CHECKS.values() for r in c["runs"]})
        for v in sorted({v for _, v in names}): build_lib(v)
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda n: build_harness(*n), names))
        print("built", len(names), "harnesses"); return 0
    if a and a[0] == "--replay":
        rec = json.load(open(a[1]))
        rc, out = do_replay(rec)
        print(out); print("replay exit", rc)
        return 0 if rc == 0 else 1
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = a[a.index("--only") + 1] if "--only" in a else None
    chk = CHECKS[prop]
    t0 = time.time()
    known = known_findings(prop)
    spaces, knownhits, violation = [], {}, None
    notes = []
    runs = [r for r in chk["runs"] if tier in r.get("tiers", ("quick", "thorough")) and (only is None or only in r.get("spaces", []))]
    pairs = sorted({(r["harness"], r.get("variant", "asan")) for r in runs})
    try:
        for v in sorted({v for _, v in pairs}): build_lib(v)
        with ThreadPoolExecutor(8) as ex: exes = dict(zip(pairs, ex.map(lambda n: build_harness(*n), pairs)))
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)); return 2
    os.makedirs(V + "/replays", exist_ok=True)
    hard = 780 if tier == "quick" else 7200
    for r in runs:
        exe = exes[(r["harness"], r.get("variant", "asan"))]
        variant = r.get("variant", "asan")
        params = ["%s=%s" % kv for kv in dict(r.get("params", {}), **r.get(tier, {})).items()]
        budget = r.get("budget", {}).get(tier, 240 if tier == "quick" else 1500)
        budget = min(budget, max(20, hard - (time.time() - t0)))
        for attempt in (1, 2):
            scratch = tempfile.mkdtemp(prefix="vmc.")
            os.chmod(scratch, 0o777)
            fast = tempfile.mkdtemp(prefix="vmc.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
            os.chmod(fast, 0o777)
            out = scratch + "/out.jsonl"
            kf = scratch + "/known"; open(kf, "w").write("\n".join(known) + "\n")
            cmd = [exe] + r.get("spaces", []) + params + ["--out", out, "--known", kf, "--budget", str(budget)]
            if r.get("workers"): cmd += ["--workers", str(r["workers"])]
            env = dict(ENV, MC_SCRATCH=scratch, VERIF_SCRATCH=fast)
            with open(scratch + "/log", "w") as lf:
                try: rc = subprocess.run(cmd, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=env, cwd=scratch, timeout=budget * max(1, len(r.get("spaces", [])) or 4) + 120).returncode
                except subprocess.TimeoutExpired: rc = 77
            log = open(scratch + "/log", errors="replace").read()
            recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
            sh(["chmod", "-R", "u+rwx", scratch]); shutil.rmtree(scratch, ignore_errors=True); shutil.rmtree(fast, ignore_errors=True)
            fails = [x for x in recs if x["type"] == "fail"]
            if rc == 77 or (rc not in (0, 1)) or (rc == 1 and not fails):
                if attempt == 1: notes.append("internal error, retried"); continue
                print("HARNESS ERROR rc=%s cmd=%s\n%s" % (rc, cmd, log[-6000:])); return 2
            if rc == 0 or not fails: break
            f = fails[0]
            rec = {"property": prop, "harness": r["harness"], "variant": variant, "space": f["space"], "params": params + f.get("run_params", []),
                   "choices": f["choices"], "key": f["key"], "msg": symbolize(exe, f["msg"]), "log": f["log"], "stderr": symbolize(exe, log[-8000:])}
            rrc, rout = do_replay(rec)
            rec["replay_output"] = rout[-20000:]
            if rrc != 0 or attempt == 2:
                rec["reproduced_alone"] = rrc != 0
                if rrc == 77 and attempt == 1: notes.append("replay diverged: " + f["key"]); continue
                violation = rec
                break
            notes.append("failure did not reproduce alone, space explored again: " + f["key"])
        for x in recs:
            if x["type"] == "space":
                x["variant"] = variant; x["harness"] = r["harness"]; x["params"] = params
                if x.get("extra"): x["extra"]["race_pairs"] = [symbolize(exe, p) for p in x["extra"].get("race_pairs", [])]
                spaces.append(x)
            if x["type"] == "known": knownhits[x["key"]] = knownhits.get(x["key"], 0) + x["hits"]
        if violation: break
    tot = lambda k: sum(x[k] for x in spaces)
    samples = [x["space"] + ": " + s[:600] for x in spaces for s in x["samples"][:1]][:8] or [x["space"] for x in spaces][:3]
    cov = {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("cases"),
           "distinct_nontrivial": tot("outcomes") or tot("states"),
           "rule": chk.get("rule", "every choice sequence within the stated bounds is one case, run on the real library; distinct = different observed outcome or state hash"),
           "samples": samples or ["none"], "exhaustive": not any(x["capped"] for x in spaces),
           "explanation": chk["note"],
           "spaces": [{k: x[k] for k in ("space", "what", "variant", "params", "cases", "pruned", "transitions", "states", "outcomes", "deepest", "rounds", "capped", "wall", "extra") if k in x} for x in spaces]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"), "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
          "known_findings_seen": knownhits, "notes": notes}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for x in spaces:
        print("%-10s %-14s %9d cases %10d transitions %8d states %6d outcomes%s %.1fs" % (x["variant"], x["space"], x["cases"], x["transitions"], x["states"], x["outcomes"], " CAPPED" if x["capped"] else "", x["wall"]))
    for n in notes: print("note:", n)
    for k, text in known.items():
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times)" % (prop, k, text, knownhits.get(k, 0)))
    if violation:
        path = V + "/replays/%s-%s.json" % (prop, hashlib.sha256((violation["space"] + violation["key"]).encode()).hexdigest()[:8])
        json.dump(violation, open(path, "w"), indent=1)
        print("key: %s\nmessage: %s\ntrace:\n%s" % (violation["key"], violation["msg"], violation["replay_output"][-3500:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK %s %s %.1fs" % (prop, tier, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
