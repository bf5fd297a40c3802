#!/usr/bin/env python3
"""Build the real FLPR sources of /repo plus one harness, explore, report.

usage: check.py PROPERTY [quick|thorough]     run one check
       check.py --setup                       prebuild every harness
       check.py --dev PROPERTY [args...]      run harness with raw arguments
Exit: 0 held, 1 violation (prints VIOLATION line), 2 the check could not run.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FLPR_REPO", "/repo")
BUILD = os.environ.get("FLPR_VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src", "flpr")
HARN = os.path.join(VERIF, "harness")
CXX = "g++"
BASE = ["-std=c++17", "-O1", "-g0", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-w", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address", "-fsanitize-address-use-after-scope"]
# parse_stmt.cc costs 3x to compile with instrumentation: quick tier leaves it plain
PLAIN_QUICK = {"parse_stmt.cc"}
TOOLS = {}  # programs built for the harness, by the name of the environment variable it finds them by
META = json.load(open(os.path.join(HARN, "meta.json")))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def files(d, exts):
    return [os.path.join(d, f) for f in os.listdir(d) if f.endswith(exts)]

class BuildError(Exception): pass

def compile_one(src, obj, flags, incs):
    if os.path.exists(obj): return
    tmp = obj + ".tmp%d.o" % os.getpid()
    r = sh([CXX] + BASE + flags + incs + ["-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)

def is_plain(prop, tier):
    # structural checks on whole programs: without the address sanitizer in the quick tier
    # (memory safety on the same code paths is P21's, which is always instrumented)
    return tier in META[prop].get("plain", [])

def build(props, tier):
    os.makedirs(BUILD, exist_ok=True)
    headers = files(SRC, (".hh",)) + files(os.path.join(REPO, "apps"), (".hh",))
    lfile = os.path.join(SRC, "scan_fort.l")
    gen = os.path.join(BUILD, "gen-" + digest([lfile]))
    if not os.path.exists(os.path.join(gen, "ok")):
        os.makedirs(gen, exist_ok=True)
        r = sh(["flex", "-o", "scan_fort.cc", "--header-file=scan_fort.hh", lfile], cwd=gen)
        if r.returncode: raise BuildError("flex failed:\n" + r.stdout)
        open(os.path.join(gen, "ok"), "w").close()
    incs = ["-I" + os.path.join(REPO, "src"), "-I" + SRC, "-I" + gen, "-I" + os.path.join(REPO, "apps"), "-I" + HARN]
    hd = digest(headers + [os.path.join(gen, "scan_fort.hh")], " ".join(BASE))
    gendeps = hd
    def objname(src, flags):
        return os.path.join(BUILD, os.path.basename(src).replace(".", "_") + "-" +
                            digest([src], gendeps + " ".join(flags)) + ".o")
    def flags_for(src, plain):
        return [] if plain or tier == "quick" and os.path.basename(src) in PLAIN_QUICK else list(ASAN)
    libsrc = files(SRC, (".cc",)) + [os.path.join(gen, "scan_fort.cc")]
    appsrc = {n: os.path.join(REPO, "apps", n) for n in ("flpr_format_base.cc", "module_base.cc")}
    jobs, libs, exes, tools = {}, {}, {}, {}
    def libobjs(plain):
        if plain not in libs:
            libs[plain] = []
            for s in libsrc:
                fl = flags_for(s, plain); o = objname(s, fl); jobs[o] = (s, fl); libs[plain].append(o)
        return libs[plain]
    hh = files(HARN, (".hh",))
    for p in props:
        m = META[p]; plain = is_plain(p, tier); san = [] if plain else list(ASAN); objs = list(libobjs(plain))
        for a in m.get("apps", []):
            s = appsrc[a]; o = objname(s, san); jobs[o] = (s, san); objs.append(o)
        hs = os.path.join(HARN, m.get("src", p + ".cc"))
        inc = [os.path.join(REPO, "apps", a) for a in m.get("includes", [])]  # sources the harness includes whole
        o = os.path.join(BUILD, p + "-" + digest([hs] + hh + inc, gendeps + " ".join(san)) + ".o")
        jobs[o] = (hs, san); objs.append(o)
        exes[p] = objs
        if m.get("tools"):  # programs of apps/ that the harness runs as they are, in the uninstrumented build
            base = list(libobjs(True))
            for a in appsrc:
                o = objname(appsrc[a], []); jobs[o] = (appsrc[a], []); base.append(o)  # linked as an archive, like the library they are
            for t in m["tools"]:
                s = os.path.join(REPO, "apps", t); o = objname(s, []); jobs[o] = (s, []); tools[t] = [o] + base
    order = sorted(jobs, key=lambda o: -os.path.getsize(jobs[o][0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        fs = [ex.submit(compile_one, jobs[o][0], o, jobs[o][1], incs) for o in order]
        for f in fs: f.result()
    res = {}
    def link(p, tool=False):
        objs = tools[p] if tool else exes[p]
        exe = os.path.join(BUILD, p + "-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:16] + ".exe")
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            if tool:
                lib = tmp + ".a"; r = sh(["ar", "rcs", lib] + objs[1:])
                if r.returncode: raise BuildError("ar failed:\n" + r.stdout[-4000:])
                objs = [objs[0], lib]
            r = sh([CXX] + ([] if tool or is_plain(p, tier) else ASAN) + objs + ["-o", tmp])
            if tool: os.unlink(lib)
            if r.returncode: raise BuildError("link failed:\n" + r.stdout[-4000:])
            os.replace(tmp, exe)
        return exe
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for p, e in zip(props, ex.map(link, props)): res[p] = e
        for t in tools: TOOLS["FLPR_TOOL_" + t.split(".")[0].replace("-", "_")] = link(t, True)
    return res

def env():
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"   # builds without the sanitizer: freed memory never looks intact
    e["ASAN_OPTIONS"] = "malloc_context_size=0:quarantine_size_mb=16:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0"
    e["LC_ALL"] = "C"
    e.update(TOOLS)
    return e

def run(prop, tier):
    t0 = time.time()
    m = META[prop]
    try:
        exe = build([prop], tier)[prop]
    except BuildError as e:
        print("ERROR: the check could not be built from /repo's working tree"); print(e); return 2
    tb = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    out = os.path.join(BUILD, "%s-%s-%d.json" % (prop, tier, os.getpid()))
    known = os.path.join(VERIF, "known_findings.txt")
    r = sh([exe, "--tier", tier, "--out", out, "--known", known,
            "--workers", str(os.cpu_count() or 8)], env=env())
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("ERROR: harness ended with", r.returncode); return 2
    j = json.load(open(out)); os.unlink(out)
    nviol = j["violations"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=j["states"], transitions=j["transitions"],
            traces_validated_against_impl=j["traces"], samples=j["samples"], exhaustive=nviol == 0,
            evaluations=j["cases"], rule=m["bounds"][tier],
            counters={n: j["counters"][i] for i, n in enumerate(m.get("counters", []))},
            build_s=round(tb, 1)),
        assumptions=m.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=nviol)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if j["known"]:
        for l in open(known):
            if l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 3)[3].strip()))
    if nviol:
        rp = os.path.join(VERIF, "replay", prop + ".txt")
        with open(rp, "w") as f:
            f.write("property: %s\ntier: %s\ncase index: %d\ncase: %s\nviolation: %s\n" %
                    (prop, tier, j["vindex"], j["vdesc"], j["vmsg"]))
            f.write("replay with: python3 %s --dev %s --tier %s --replay-index %d\n" %
                    (os.path.join(VERIF, "check.py"), prop, tier, j["vindex"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if j["cases"] < m.get("min_cases", {}).get(tier, 1):
        print("ERROR: explored only %d cases" % j["cases"]); return 2
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        try: build([p for p in META], "quick")
        except BuildError as e: print(e); return 2
        return 0
    if a and a[0] == "--dev":
        prop, rest = a[1], a[2:]
        tier = rest[rest.index("--tier") + 1] if "--tier" in rest else "quick"
        exe = build([prop], tier)[prop]
        return subprocess.run([exe, "--known", os.path.join(VERIF, "known_findings.txt")] + rest, env=env()).returncode
    if len(a) < 1 or a[0] not in META:
        print(__doc__); return 2
    return run(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
sys.exit(main())
