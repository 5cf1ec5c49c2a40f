#!/usr/bin/env python3
"""Run the check of one property: check.py ID [quick|thorough]; check.py --replay FILE.

Exit 0: held on everything explored (known findings are printed as KNOWN-FINDING lines).
Exit 1: VIOLATION line printed.  Exit 2: the check itself could not reach a verdict.
"""
import array, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import registry
REPO = os.environ.get("VERIF_REPO", "/repo")
CPUS = os.cpu_count() or 4

class CheckError(Exception):
    pass

WARN = ["-w"]
VARIANTS = {
    # name: (compiler, flags, run prefix, scale, env)
    "asan":   ("g++",     "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow,bounds-strict -fno-sanitize-recover=all", [], 1.0),
    "o2":     ("g++",     "-std=c++17 -O2 -g1", [], 1.0),
    "ndebug": ("g++",     "-std=c++17 -O3 -g1 -DNDEBUG", [], 0.5),
    "clang":  ("clang++", "-std=c++17 -O2 -g1", [], 0.5),
    "cubsan": ("clang++", "-std=c++17 -O1 -g1 -fsanitize=address,undefined,float-cast-overflow,local-bounds -fstrict-flex-arrays=3 -fno-sanitize-recover=all", [], 0.5),
    "tsan":   ("g++",     "-std=c++17 -O1 -g1 -fsanitize=thread", [], 1.0),
    "vg":     ("g++",     "-std=c++17 -O1 -g", ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--track-origins=no"], 0.02),
}
# firmware variants: the harness runs on the host and executes firmware built by the project's own cross compiler
HOSTEMU = "-std=c++17 -O2 -g1"
AVR = {"avrO2": "-O2 -flto", "avrOs": "-Os -flto", "avrO1": "-O1", "avrO3": "-O3 -flto"}
for _v in AVR: VARIANTS[_v] = ("g++", HOSTEMU, [], 1.0)
AVRFLAGS = "-mmcu=atmega328p -DF_CPU_HZ=16000000L -std=c++17 -w -fno-exceptions -fno-threadsafe-statics"
AVRLINK = "-fuse-linker-plugin -mrelax"
ENV = {"ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:exitcode=98:detect_stack_use_after_return=1",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:report_signal_unsafe=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}

def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ); e.update(ENV); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=e, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

def build(src, exe, variant, extra, aux=(), parts=1):
    cxx, flags, _, _ = VARIANTS[variant]
    extra = list(extra)
    for name, aflags in aux:   # further translation units with flags of their own
        obj = exe + "." + os.path.basename(name) + ".o"
        cmd = [cxx] + flags.split() + WARN + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "common")] + list(aflags) + ["-c", os.path.join(ROOT, name), "-o", obj]
        rc, out, err = run(cmd, 600)
        if rc != 0:
            raise CheckError("harness does not build against the working tree (%s):\n%s" % (" ".join(cmd), err[-3000:]))
        extra.append(obj)
    def compile(cmd):
        rc, out, err = run(cmd, 600)
        if rc != 0:
            raise CheckError("harness does not build against the working tree (%s):\n%s" % (" ".join(cmd), err[-3000:]))
    cmd = [cxx] + flags.split() + WARN + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "common")]
    if parts > 1:   # a large harness is compiled in parts
        objs = ["%s.part%d.o" % (exe, k) for k in range(parts)]
        with cf.ThreadPoolExecutor(max_workers=parts) as ex:
            list(ex.map(compile, [cmd + extra + ["-DPART=%d" % k, "-c", src, "-o", o] for k, o in enumerate(objs)]))
        compile(cmd + objs + ["-o", exe])
    else:
        compile(cmd + extra + [src, "-o", exe])

def firmware(src, elf, variant, extra=()):
    cmd = ["avr-g++"] + AVRFLAGS.split() + AVR[variant].split() + list(extra) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "avr"), src] + AVRLINK.split() + ["-o", elf]
    rc, out, err = run(cmd, 600)
    if rc != 0:
        raise CheckError("firmware does not build against the working tree (%s):\n%s" % (" ".join(cmd), err[-3000:]))

def crash_kind(rc, err):
    m = re.search(r"runtime error: (.*)", err)
    if m:
        loc = re.search(r"([\w./-]+\.[ch]pp):\d+:\d+: runtime error", err)
        k = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        return "ubsan:%s:%s" % (os.path.basename(loc.group(1)) if loc else "?", k[:80])
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m:
        return "asan:" + m.group(2)
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", err)
    if m:
        return "tsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"Assertion `(.*)' failed", err)
    if m:
        return "assert:" + m.group(1)[:80]
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write)|Syscall param)[^\n]*", err)
    if m:
        return "memcheck:" + m.group(1)
    return "crash:rc%s" % rc

def parse(path):
    r = dict(fails=[], samples=[], groups={}, stats={}, counts={}, done=False)
    if not os.path.exists(path):
        return r
    for line in open(path, errors="replace"):
        f = line.rstrip("\n").split("\t")
        if f[0] == "FAIL" and len(f) >= 4: r["fails"].append(dict(key=f[1], case=f[2], detail=f[3]))
        elif f[0] == "SAMPLE": r["samples"].append(f[1])
        elif f[0] == "GROUP": r["groups"][f[1]] = r["groups"].get(f[1], 0) + int(f[2])
        elif f[0] == "STAT": r["stats"][f[1]] = int(f[2])
        elif f[0] == "COUNT": r["counts"][f[1]] = int(f[2])
        elif f[0] == "DONE": r["done"] = True
    return r

def exec_harness(exe, variant, seed, tier, work, tag, scale, timeout, only=None, extra=(), prefix=()):
    prefix = VARIANTS[variant][2] + list(prefix)
    out = os.path.join(work, tag + ".out"); now = os.path.join(work, tag + ".now")
    cmd = prefix + [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--now", now, "--scale", repr(scale)] + list(extra)
    if only: cmd += ["--only", only]
    rc, so, se = run(cmd, timeout, cwd=work)
    r = parse(out)
    case = open(now, "rb").read().split(b"\0")[0].decode() if os.path.exists(now) else "?"
    return rc, se, so, r, case

def host_variant(spec, variant, seed, tier, work, only=None, shards=1):
    src = os.path.join(ROOT, spec["src"])
    exe = os.path.join(work, variant + ".exe")
    build(src, exe, variant, spec.get("flags", []), spec.get("aux", ()), spec.get("parts", 1))
    elfs = []
    if variant in AVR:
        for n, fw in enumerate(spec["fw"]):
            elf = os.path.join(work, "%s-%d.elf" % (variant, n))
            firmware(os.path.join(REPO, fw[1:]) if fw.startswith("@") else os.path.join(ROOT, fw), elf, variant, spec.get("fwflags", []))
            elfs += ["--elf", elf]
    scale = VARIANTS[variant][3] * spec.get("scale", {}).get(variant, 1.0)
    if tier == "quick": scale *= spec.get("qscale", {}).get(variant, 6.0 if variant in AVR or variant == "o2" else 3.0)
    if only or shards < 2: return one_run(exe, variant, seed, tier, work, variant, scale, only, elfs)
    # the cases are dealt out to several processes
    def shard(k):
        return one_run(exe, variant, seed, tier, work, "%s-%d" % (variant, k), scale, None, elfs + ["--shard", "%d/%d" % (k, shards), "--hashes", os.path.join(work, "%s-%d.hash" % (variant, k))])
    with cf.ThreadPoolExecutor(max_workers=shards) as ex:
        futs = [ex.submit(shard, k) for k in range(shards)]
        parts, errs = [], []
        for f in futs:
            try: parts.append(f.result())
            except CheckError as e: errs.append(e)
    if errs and not any(p["fails"] for p in parts): raise errs[0]
    r = dict(fails=[], samples=[], groups={}, stats={}, counts={}, done=True)
    for p in parts:
        r["fails"] += p["fails"]; r["samples"] += p["samples"]
        for key in ("groups", "stats", "counts"):
            for n, v in p[key].items(): r[key][n] = r[key].get(n, 0) + v
    seen = set()
    for k in range(shards):
        path = os.path.join(work, "%s-%d.hash" % (variant, k))
        if os.path.exists(path):
            a = array.array("Q"); n = os.path.getsize(path) // 8
            with open(path, "rb") as fh: a.fromfile(fh, n)
            seen.update(a)
    r["stats"]["distinct"] = len(seen)
    return r

def one_run(exe, variant, seed, tier, work, tag, scale, only, extra):
    limit = 280 if tier == "quick" else 3000
    rc, se, so, r, case = exec_harness(exe, variant, seed, tier, work, tag, scale, limit, only, extra)
    for attempt in range(6):   # ThreadSanitizer cannot start in every address space layout
        if rc == "timeout" or "FATAL: ThreadSanitizer" not in se: break
        rc, se, so, r, case = exec_harness(exe, variant, seed, tier, work, tag, scale, limit, only, extra, ["setarch", "-R"] if attempt % 2 else [])
    else:
        return dict(fails=[], samples=["ThreadSanitizer could not start here: " + se.strip()[:120]], groups={}, stats={}, counts={}, done=True)
    if rc == "timeout":
        rc2, se2, so2, r2, case2 = exec_harness(exe, variant, seed, tier, work, tag + "-again", scale, 60, case, extra)
        if rc2 == "timeout":
            r["fails"].append(dict(key="hang:" + case.split(":")[0], case=case, detail="the case does not terminate"))
            return r
        raise CheckError("run exceeded its time limit (%s), not reproducible as a hang of case %s" % (variant, case))
    if rc != 0 or not r["done"]:
        if rc in (3, 126, 127) or (rc == 0 and not r["done"]):
            raise CheckError("harness failed to run (%s): rc=%s %s" % (variant, rc, se[-2000:]))
        if rc in (-9,):
            raise CheckError("harness was killed (%s)" % variant)
        k = crash_kind(rc, se)
        lines = [l for l in se.splitlines() if l.strip()][:14]
        r["fails"].append(dict(key="%s@%s" % (k, case.split(":")[0]), case=case, detail=" | ".join(lines)[:1500]))
    return r

def known():
    ks = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: ks.append(m.groups())
    return ks

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = registry.CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
    try:
        try:
            results = run_spec(pid, spec, seed, tier, work)
        except CheckError as e:
            print("CHECK-ERROR property=%s %s" % (pid, e)); return 2
        return verdict(pid, spec, seed, tier, results, time.time() - t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def probe(name, code, work):
    """A small user program that includes one header and nothing else; it has to build and to succeed."""
    header, *flags = name.split()
    def attempt(text, tag):
        src = os.path.join(work, tag + ".cpp"); exe = os.path.join(work, tag + ".probe")
        with open(src, "w") as fh: fh.write(text)
        rc, so, se = run(["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w", "-I" + os.path.join(REPO, "include")] + flags + [src, "-o", exe], 120, cwd=work)
        if rc != 0: return "does not build: " + " | ".join(l for l in se.splitlines() if "error" in l)[:400]
        rc, so, se = run([exe], 60, cwd=work)
        return "" if rc == 0 else "fails (%s): %s" % (rc, se.strip()[:300])
    tag = "probe-" + re.sub(r"\W", "-", name)
    bad = attempt('#include "%s"\n%s\n' % (header, code), tag)
    if bad and attempt("int main() { return 0; }\n", tag + "-none"): raise CheckError("the compiler does not work: " + bad)
    if bad: return [dict(key="header:" + name, case="probe:0", detail="a program that includes only this header " + bad)]
    return []

def probes(spec, work):
    fails = []
    for name, code in spec["probes"].items(): fails += probe(name, code, work)
    n = len(spec["probes"])
    return dict(fails=fails, samples=["program with %s alone" % h for h in spec["probes"]], groups={"probe": n}, stats=dict(evals=n, events=n, distinct=n), counts={"header-programs": n}, done=True)

def run_spec(pid, spec, seed, tier, work, variants=None, only=None):
    results = {}
    if spec.get("probes") and (variants is None or variants == ["probe"]):
        results["probe"] = probes(spec, work)
        if variants: return results
    vs = variants or (spec["variants"] + (spec.get("thorough_variants", []) if tier == "thorough" else []))
    shards = spec.get("shards") or max(1, min(4, -(-CPUS // len(vs))))
    with cf.ThreadPoolExecutor(max_workers=min(len(vs), CPUS)) as ex:
        futs = {v: ex.submit(host_variant, spec, v, seed, tier, work, only, shards) for v in vs}
        errs = []
        for v, f in futs.items():
            try: results[v] = f.result()
            except CheckError as e: errs.append(e)
    if errs and not any(r["fails"] for r in results.values()):
        raise errs[0]
    return results

def verdict(pid, spec, seed, tier, results, wall):
    kn = [(k, d) for p, k, d in known() if p == pid]
    fails, hits = [], {}
    for v, r in results.items():
        for f in r["fails"]:
            f["variant"] = v
            m = [k for k, d in kn if k == f["key"]]
            if m: hits.setdefault(m[0], f)
            else: fails.append(f)
    for k, d in kn:
        if k in hits: print("KNOWN-FINDING: property=%s %s [%s]" % (pid, d, k))
    evals = sum(r["stats"].get("evals", 0) for r in results.values())
    dis = max([r["stats"].get("distinct", 0) for r in results.values()] or [0])
    events = sum(r["stats"].get("events", 0) for r in results.values())
    samples = []
    for r in results.values():
        for s in r["samples"]:
            if len(samples) < 10 and s not in samples: samples.append(s)
    cov = dict(evaluations=evals, distinct_nontrivial=dis, rule=spec["rule"], samples=samples or ["none"],
               monitored_events=events, variants={v: dict(cases=r["groups"], counters=r["counts"], evaluations=r["stats"].get("evals", 0)) for v, r in results.items()},
               known_findings_seen=sorted(hits))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(fails))
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1); fh.write("\n")
    if fails:
        rd = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        seen = set()
        for f in fails:
            if f["key"] in seen: continue
            seen.add(f["key"])
            path = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha1(f["key"].encode()).hexdigest()[:10]))
            json.dump(dict(property=pid, seed=seed, tier=tier, variant=f["variant"], case=f["case"], key=f["key"], detail=f["detail"]), open(path, "w"), indent=1)
            print("  %s [%s %s] %s" % (f["key"], f["variant"], f["case"], f["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if evals == 0 or dis < spec.get("min_distinct", 2):
        print("CHECK-ERROR property=%s observed too little (evaluations=%d distinct=%d)" % (pid, evals, dis)); return 2
    print("OK property=%s tier=%s evaluations=%d distinct=%d events=%d wall=%.1fs" % (pid, tier, evals, dis, events, wall))
    return 0

def replay(path):
    j = json.load(open(path)); pid = j["property"]; spec = registry.CHECKS[pid]
    work = tempfile.mkdtemp(prefix="vreplay-")
    try:
        res = run_spec(pid, spec, j["seed"], j["tier"], work, variants=[j["variant"]], only=j["case"])
        for r in res.values():
            for f in r["fails"]: print(f)
        return 1 if any(r["fails"] for r in res.values()) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
