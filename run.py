#!/usr/bin/env python3
"""Driver: build the library from /repo's working tree, run one property's explorer, judge, write evidence.

usage: run.py <property> [--thorough] [--scenario NAME] [--build NAME] [--replay FILE]
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures, tempfile, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks.table import CHECKS, BUILDS, lib_sources  # noqa

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    print("ERROR:", msg)
    sys.exit(2)

def read(p):
    with open(p, "rb") as f:
        return f.read()

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".in", ".inc", ".def")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(read(p))
    return h.digest()

def gen_features(build, outdir):
    """configure_file() on /repo's own template, with the features of the stable builds."""
    defs = dict(BUILDS[build]["features"])
    src = read(os.path.join(REPO, "include/nostr_features.h.in")).decode()
    out = []
    for line in src.splitlines():
        m = re.match(r"\s*#\s*cmakedefine(01)?\s+(\w+)(.*)$", line)
        if m:
            name = m.group(2)
            if m.group(1):
                out.append("#define %s %d" % (name, 1 if name in defs else 0))
            elif name in defs:
                rest = re.sub(r"@(\w+)@", lambda k: str(defs.get(k.group(1), "")), m.group(3))
                rest = re.sub(r"\$\{(\w+)\}", lambda k: str(defs.get(k.group(1), "")), rest)
                out.append("#define %s%s" % (name, rest))
            else:
                out.append("/* #undef %s */" % name)
        else:
            out.append(re.sub(r"@(\w+)@", lambda k: str(defs.get(k.group(1), "")), line))
    text = "\n".join(out) + "\n"
    os.makedirs(outdir, exist_ok=True)
    p = os.path.join(outdir, "nostr_features.h")
    if not os.path.exists(p) or read(p).decode() != text:
        with open(p, "w") as f:
            f.write(text)
    return outdir

def compile_one(src, flags, cc, key_extra, cachedir):
    h = hashlib.sha256()
    h.update(read(src)); h.update(src.encode()); h.update(" ".join(flags).encode()); h.update(cc.encode()); h.update(key_extra)
    obj = os.path.join(cachedir, h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh([cc] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        return None, "%s: %s" % (src, r.stdout[-3000:])
    os.rename(tmp, obj)
    return obj, None

def build_check(pid, spec, bname, workdir):
    b = BUILDS[bname]
    inc = gen_features(bname, os.path.join(BUILD, "inc-" + bname))
    cache = os.path.join(BUILD, "cache"); os.makedirs(cache, exist_ok=True)
    common = ["-g", "-O1", "-w", "-D_GNU_SOURCE" if spec.get("gnu_source") else "-DMC_BUILD=1",
              "-I" + inc, "-I" + os.path.join(REPO, "include"), "-I/usr/include/cjson"] + b.get("cflags", [])
    libflags = ["-std=gnu99", "-fno-omit-frame-pointer"] + common + b.get("libflags", []) + spec.get("libflags", [])
    if "_extra_inc" in b:
        libflags += b["_extra_inc"]
    harness = ["-std=gnu11"] + common + ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "checks"),
               "-I" + os.path.join(REPO, "src"), "-DMC_REPO=\"%s\"" % REPO, "-DBUILD_%s=1" % bname.upper()] + b.get("harnessflags", []) + spec.get("harnessflags", [])
    mcflags = ["-std=gnu11", "-g", "-O2", "-w", "-I" + os.path.join(VERIF, "lib"), "-I" + inc, "-I" + os.path.join(REPO, "include"), "-I/usr/include/cjson"] + (["-DMC_REPO=1"]) + b.get("mcflags", [])
    repo_h = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), inc])
    our_h = tree_hash([os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")])
    jobs = []
    for s in lib_sources(REPO, b):
        jobs.append((s, libflags, b["cc"], repo_h))
    for s in spec["src"]:
        jobs.append((os.path.join(VERIF, "checks", s), harness, b["cc"], repo_h + our_h))
    for s in ["mc.c"] + spec.get("lib", []) + spec.get("lib_" + bname, []) + b.get("extra_lib", []):
        jobs.append((os.path.join(VERIF, "lib", s), harness if s in spec.get("lib_instrumented", []) else mcflags, b["cc"], repo_h + our_h))
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for obj, err in ex.map(lambda j: compile_one(*j, cache), jobs):
            if err:
                die("compile failed: " + err)
            objs.append(obj)
    exe = os.path.join(workdir, pid + "-" + bname)
    wraps = ["-Wl,--wrap=" + w for w in spec.get("wraps", []) + spec.get("wraps_" + bname, [])]
    r = sh([b["cc"]] + b.get("ldflags", []) + ["-o", exe] + objs + wraps + spec.get("ldflags", []) + b["libs"])
    if r.returncode:
        die("link failed: " + r.stdout[-3000:])
    return exe

def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known

def main():
    t0 = time.time()
    args = sys.argv[1:]
    if not args:
        die("usage: run.py <property>")
    pid = args.pop(0)
    if pid == "--setup":
        for t in ("clang", "gcc"):
            if not shutil.which(t): die("missing " + t)
        os.makedirs(BUILD, exist_ok=True)
        print("setup ok: every check compiles what it needs from", REPO)
        return 0
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    only = onlyb = None
    rep = None
    while args:
        a = args.pop(0)
        if a == "--thorough": thorough = True
        elif a == "--quick": thorough = False
        elif a == "--scenario": only = args.pop(0)
        elif a == "--build": onlyb = args.pop(0)
        elif a == "--replay": rep = args.pop(0)
        else: die("bad argument " + a)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:symbolize=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    for v in list(env):
        if v.startswith("NOSTR_"):
            del env[v]
    try:
        if rep:
            r = json.load(open(rep))
            exe = build_check(pid, spec, r["build"], work)
            c = subprocess.run([exe, "--scenario", r["scenario"], "--replay", r["choices"] or "0", "--workdir", work] + (["--thorough"] if r.get("tier") == "thorough" else []), env=env)
            return c.returncode
        results = []
        timecap = spec.get("cap_thorough", 3000) if thorough else spec.get("cap_quick", 500)
        for bname in spec["builds"]:
            if onlyb and bname != onlyb:
                continue
            exe = build_check(pid, spec, bname, work)
            out = os.path.join(work, "out-%s.json" % bname)
            cmd = [exe, "--out", out, "--workdir", work, "--jobs", str(spec.get("jobs", 8)), "--cap", str(timecap)]
            if only: cmd += ["--scenario", only]
            if thorough: cmd.append("--thorough")
            for attempt in (1, 2):
                c = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if c.returncode in (0, 1) and os.path.exists(out):
                    break
                print("explorer ended with", c.returncode, c.stdout[-2000:])
            else:
                die("the explorer itself failed")
            for s in json.load(open(out)):
                s["build"] = bname
                results.append(s)
            if any(v["key"] == "hang" and v["replayed"] for s in results for v in s["violations"]):
                break  # a confirmed hang: the other builds would wait for it again
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not results:
        die("no scenario ran")

    known = load_known(pid)
    hit, new, unrepro = {}, [], []
    for s in results:
        for v in s["violations"]:
            if v["key"] in known and v["replayed"]:
                hit.setdefault(v["key"], (s, v))
            elif v["replayed"] or v["replay_key"]:
                new.append((s, v))
            else:
                unrepro.append((s, v))
    tot = lambda k: sum(s[k] for s in results)
    print("property %s: %d scenarios, executions=%d transitions=%d states=%d outcomes=%d conformance_traces=%d inner_evals=%d" % (
        pid, len(results), tot("executions"), tot("transitions"), tot("states"), tot("outcomes"), tot("conformance_traces"), tot("inner_evals")))
    for s in results:
        print("  %-28s %-8s exec=%-8d trans=%-9d states=%-7d outcomes=%-7d evals=%-9d viol=%d%s %.1fs" % (
            s["scenario"], s["build"], s["executions"], s["transitions"], s["states"], s["outcomes"], s["inner_evals"],
            len(s["violations"]), " CAPPED" if s["capped"] else "", s["wall_s"]))
    capped = [s["scenario"] for s in results if s["capped"]]

    # evidence
    samples = []
    for s in results:
        for x in s["samples"][:3]:
            samples.append({"scenario": s["scenario"], "build": s["build"], "trace": x[:1500]})
    level = spec["level"]
    cov = {"scenarios": [{k: s[k] for k in ("scenario", "build", "desc", "executions", "transitions", "states", "outcomes", "inner_evals",
                                           "conformance_traces", "nontrivial_executions", "discarded", "max_choice_depth", "capped", "wall_s")} for s in results],
           "executions": tot("executions"), "samples": samples[:24] or [{"note": "no trace recorded"}],
           "exhaustive": not capped, "bounds": spec.get("bounds_thorough" if thorough else "bounds", spec.get("bounds", ""))}
    if capped:
        cov["capped_scenarios"] = capped
    cov["states"] = tot("states"); cov["transitions"] = tot("transitions")
    cov["traces_validated_against_impl"] = tot("conformance_traces")
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = tot("executions") + tot("inner_evals")
        cov["distinct_nontrivial"] = tot("outcomes")
        cov["rule"] = spec.get("rule", "")
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if known:
        ev["coverage"]["known_findings_observed"] = sorted(hit)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only and not onlyb:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
    if new:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        for n, (s, v) in enumerate(new[:6]):
            path = os.path.join(rd, "%s-%s-%d.json" % (pid, s["scenario"], n))
            with open(path, "w") as f:
                json.dump({"property": pid, "scenario": s["scenario"], "build": s["build"], "tier": ev["tier"], "key": v["key"], "message": v["msg"],
                           "choices": v["choices"], "trace": v["trace"].split("\n"), "replay": "python3 run.py %s --replay %s" % (pid, path)}, f, indent=1)
            print("  [%s/%s] %s: %s" % (s["scenario"], s["build"], v["key"], v["msg"][:400]))
            for l in v["trace"].split("\n")[:12]:
                print("      | " + l[:160])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if unrepro:
        for s, v in unrepro[:5]:
            print("  UNREPRODUCIBLE [%s] %s: %s (replay gave %r)" % (s["scenario"], v["key"], v["msg"][:300], v["replay_key"]))
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
