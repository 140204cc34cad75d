#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE                re-run one recorded execution
   check.py --setup                      prebuild what the checks need"""
import ctypes, fcntl, hashlib, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import PROPS

WRAP = ["malloc", "calloc", "realloc", "free", "reallocarray", "strdup", "strndup", "posix_memalign", "aligned_alloc", "memalign"]
MODES = {
    "asan": dict(cflags="-O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds",
                 ld="-fsanitize=address,bounds " + " ".join("-Wl,--wrap=" + w for w in WRAP),
                 lib=["mc.c", "mc_wrap.c"]),
    "plain": dict(cflags="-O2 -g",
                 ld=" ".join("-Wl,--wrap=" + w for w in WRAP),
                 lib=["mc.c", "mc_wrap.c"]),
    "mc11": dict(cflags="-O1 -g -fno-omit-frame-pointer -fsanitize=thread -fno-builtin-malloc -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove -fno-builtin-memcmp -DVERIF_MC11=1 -U_FORTIFY_SOURCE",
                 ld=" ".join("-Wl,--wrap=" + w for w in ["malloc", "calloc", "realloc", "free", "reallocarray", "strdup", "posix_memalign", "memcpy", "memset", "memmove", "memcmp"]),
                 lib=["mc.c", "mc11.c"]),
}
LIBFLAGS = "-O2 -g -D_GNU_SOURCE=1 -w"
# the engine itself is compiled without instrumentation

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".c", ".h", ".cpp", ".cc", ".mk", ".py", ".S", ".inc")):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def build_root():
    h = tree_hash([REPO + "/src", REPO + "/inc", REPO + "/portablelib.mk", REPO + "/tools", HERE + "/lib", HERE + "/h", HERE + "/bin/check.py", HERE + "/bin/props.py"])
    root = os.path.join(HERE, "build", h)
    os.makedirs(root, exist_ok=True)
    os.utime(root)
    ents = sorted((os.path.getmtime(os.path.join(HERE, "build", e)), e) for e in os.listdir(os.path.join(HERE, "build")) if os.path.isdir(os.path.join(HERE, "build", e)))
    for _, e in ents[:-4]:
        if e != h:
            shutil.rmtree(os.path.join(HERE, "build", e), ignore_errors=True)
    return root

def fail_build(what, out):
    print("BUILD FAILED:", what)
    print(out[-4000:])
    sys.exit(2)

class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def build_lib(root, mode):
    m = MODES[mode]
    d = os.path.join(root, mode)
    with Lock(os.path.join(root, mode + ".lock")):
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(d + "/ok"):
            r = sh(f"make -s -j8 -C {d} -f {HERE}/lib/lib.mk PORTABLE={REPO} OBJDIR={d} XCFLAGS='{m['cflags']}' {d}/libpl.a", env=dict(os.environ, MAKEFLAGS=""))
            if r.returncode: fail_build("library " + mode, r.stdout)
            fl = sh(f"make -s -C {d} -f {HERE}/lib/lib.mk PORTABLE={REPO} OBJDIR={d} XCFLAGS='{m['cflags']}' flags", env=dict(os.environ, MAKEFLAGS="")).stdout.strip()
            open(d + "/flags", "w").write(fl)
            for f in m["lib"]:
                r = sh(f"gcc {LIBFLAGS} -I{HERE}/lib -c -o {d}/eng_{f[:-2]}.o {HERE}/lib/{f}")
                if r.returncode: fail_build(f, r.stdout)
            open(d + "/ok", "w").write("ok")
    return d

def build(root, hname, spec):
    mode = spec.get("mode", "asan")
    d = build_lib(root, mode)
    exe = os.path.join(root, hname)
    with Lock(exe + ".lock"):
        if os.path.exists(exe): return exe
        fl = open(d + "/flags").read()
        src = spec.get("src", hname + ".c")
        cxx = src.endswith(".cc")
        comp = "g++ -std=c++17" if cxx else "gcc"
        defs = spec.get("defs", "").replace("/verif", HERE) + "".join(" -DWRAP_" + w for w in spec.get("wrap", []))
        gen = ""
        if "pre" in spec:   # sources generated by the tree under test
            g = exe + ".gen"
            r = sh(f"python3 {HERE}/h/{spec['pre']} {REPO} {g} {fl}")
            if r.returncode: fail_build(spec["pre"], r.stdout)
            fl += f" -I{g}"
            gen = f"{g}/*.o"
        r = sh(f"{comp} {defs} {fl} -I{HERE}/lib -I{HERE}/h -DREPO_DIR='\"{REPO}\"' -I{REPO} -I{REPO}/src -c -o {exe}.o {HERE}/h/{src}")
        if r.returncode: fail_build(src, r.stdout)
        engs = " ".join(f"{d}/eng_{f[:-2]}.o" for f in MODES[mode]["lib"])
        ld = MODES[mode]["ld"] + " " + " ".join("-Wl,--wrap=" + w for w in spec.get("wrap", []))
        r = sh(f"g++ -o {exe}.tmp {exe}.o {gen} {engs} {d}/libpl.a {ld} {spec.get('libs','')} -lsodium -lpthread && mv {exe}.tmp {exe}")
        if r.returncode: fail_build("link " + hname, r.stdout)
    return exe

def known_for(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known: "): continue
            # known: property=ID key=<key> :: description
            head, _, desc = line[7:].partition(" :: ")
            a, _, k = head.partition(" key=")
            if a.strip() == "property=" + pid: out[k.strip()] = desc
    return out

def no_aslr():
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(0x0040000)
    except Exception: pass

ENV = dict(os.environ, LC_ALL="C", TZ="UTC",
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:quarantine_size_mb=8:malloc_context_size=3:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=190:strict_string_checks=0:detect_odr_violation=0:intercept_tls_get_addr=0",
    UBSAN_OPTIONS="print_stacktrace=0")

def run_exe(exe, args, timeout):
    for attempt in range(4):
        try:
            r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, preexec_fn=no_aslr, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return 124, str(e)
        if r.returncode in (0, 1): return r.returncode, r.stdout
        # a sanitizer start-up failure (address space clash): try again
    return r.returncode, r.stdout

def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    root = build_root()
    known = known_for(pid)
    outdir = os.path.join(HERE, "build", "replay")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    budget = P.get("budget", {}).get(tier, 240 if tier == "quick" else 840)
    scen, viols, hits, capped, notes = [], [], set(), False, []
    for hname, spec in P["harness"].items():
        left = budget - (time.time() - t0)
        exe = build(root, hname, spec)
        kf = os.path.join(root, f"{pid}-{hname}.known")
        open(kf, "w").write("\n".join(known) + "\n")
        of = os.path.join(root, f"{pid}-{hname}-{tier}.json")
        vec = os.path.join(outdir, f"{pid}-{hname}.replay")
        for f in (of, vec):
            if os.path.exists(f): os.unlink(f)
        rc, out = run_exe(exe, ["--tier", tier, "--out", of, "--known", kf, "--vec", vec, "--budget", str(max(10, left))], timeout=max(60, left + 120))
        if os.environ.get("MC_VERBOSE"): print(out, end="")
        if rc not in (0, 1):
            print(out[-3000:]); print(f"harness {hname} ended with {rc}"); sys.exit(2)
        try: res = json.load(open(of))
        except Exception as e:
            print(out[-3000:]); print("no result from", hname, e); sys.exit(2)
        capped |= res["capped"]
        for s in res["scenarios"]:
            s["harness"] = hname; scen.append(s); hits.update(s["known"])
            if s.get("nondet"): notes.append(f"{hname}/{s['name']}: {s['nondet']} executions cut because a choice point changed on re-execution")
        if rc == 1:
            v = res["violation"]
            # confirm by replaying the recorded choices twice in fresh processes
            with open(vec, "a") as f: f.write(f"harness {hname}\nproperty {pid}\n")
            keys = []
            for _ in range(2):
                r2, o2 = run_exe(exe, ["--replay", vec], timeout=200)
                keys.append(r2)
            if 1 in keys:
                viols.append((v, vec))
                break
            # not reproduced alone: does the whole exploration find it again? (state carried over from earlier executions)
            if 2 in keys: print(o2[-2000:]); print("replay of", vec, "did not run"); sys.exit(2)
            rc2, out2 = run_exe(exe, ["--tier", tier, "--out", of, "--known", kf, "--vec", vec, "--budget", str(max(10, left))], timeout=max(60, left + 120))
            if rc2 == 1:
                v2 = json.load(open(of))["violation"]
                with open(vec, "a") as f: f.write(f"harness {hname}\nproperty {pid}\nwhole {tier}\n")
                viols.append((v2, vec)); break
            notes.append(f"unreproduced: {v['key']}: {v['msg']}")
            print("note: an execution failed but neither its replay nor a second exploration did:", v["key"], v["msg"])
    for k, d in known.items():
        if k in hits: print(f"KNOWN-FINDING: property={pid} {d}")
        elif not viols and not capped: notes.append("known finding not met in this run: " + k)
    for v, vec in viols:
        print(f"  scenario {v['scenario']}: {v['key']}: {v['msg']}")
        print(f"VIOLATION property={pid} replay={vec}")
    tot = lambda k: sum(s[k] for s in scen)
    samples = []
    for s in scen:
        for x in s["samples"][:1]: samples.append({"scenario": s["name"], "trace": x})
    if not samples: samples = [{"scenario": s["name"], "trace": "(no trace recorded)"} for s in scen[:1]]
    lvl = P["level"]
    cov = {"scenarios": [{k: s[k] for k in ("harness", "name", "executions", "transitions", "states", "pruned", "maxdepth", "complete", "wall")} for s in scen]}
    complete = all(s["complete"] for s in scen)
    cov["exhaustive"] = bool(complete and not capped and not viols)
    cov["capped_by_time"] = capped
    cov["samples"] = samples[:12]
    if lvl == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"),
                   states_note="distinct hashes of the state after each step, summed over scenarios" + ("; table full: lower bound" if any(s["states_saturated"] for s in scen) else ""),
                   traces_note="every explored execution ran the real code of /repo, stepped against the reference model")
    else:
        cov.update(evaluations=tot("executions"), distinct_nontrivial=tot("executions") - tot("trivial"), steps=tot("transitions"), rule=P["rule"])
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lvl, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": P.get("assumptions", []) + notes, "violations": len(viols)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: executions={tot('executions')} transitions={tot('transitions')} states={tot('states')} exhaustive={cov['exhaustive']} wall={ev['wall_s']}s")
    return 1 if viols else 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        d = dict(l.split(" ", 1) for l in open(a[1]).read().splitlines() if " " in l)
        hname, pid = d["harness"].strip(), d["property"].strip()
        exe = build(build_root(), hname, PROPS[pid]["harness"][hname])
        rc, out = run_exe(exe, ["--replay", a[1]], 600)
        print(out); return rc
    if a and a[0] == "--setup":
        root = build_root()
        for m in sorted({s.get("mode", "asan") for P in PROPS.values() for s in P["harness"].values()}): build_lib(root, m)
        return 0
    if a and a[0] == "--selftest":
        # the scheduler and memory model reach exactly the outcomes C11 allows on the litmus shapes
        exe = build(build_root(), "litmus", dict(src="litmus.c", mode="mc11"))
        import tempfile
        d = tempfile.mkdtemp(); ENV["LITMUS_OUT"] = d
        rc, out = run_exe(exe, ["--tier", "quick", "-j", "1"], 100)
        bad = rc
        weak = {"sb_rlx": ("0 0", 1), "sb_ra": ("0 0", 1), "sb_sc": ("0 0", 0), "sb_fence": ("0 0", 0), "mp_rlx": ("1 0", 1), "mp_ra": ("1 0", 0),
                "mp_relonly": ("1 0", 1), "mp_fence": ("1 0", 0), "iriw_ra": ("1 0 1 0", 1), "iriw_sc": ("1 0 1 0", 0)}
        for f in sorted(os.listdir(d)):
            L = sorted(set(open(d + "/" + f).read().splitlines()))
            ok = L == ["3 0 0 0"] if f == "inc" else any(l.startswith(weak[f][0]) for l in L) == bool(weak[f][1])
            bad |= not ok
            print(f, "ok" if ok else "WRONG", L)
        shutil.rmtree(d)
        exe = build(build_root(), "litmus_race", dict(src="litmus.c", defs="-DRACE", mode="mc11"))
        for k, want in enumerate([0, 1, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0]):
            ENV["LITMUS_RACE"] = str(k); rc, out = run_exe(exe, ["--tier", "quick", "-j", "1"], 100)
            ok = (rc == 1 and "data race" in out) if want else rc == 0
            bad |= not ok; print("race shape", k, "ok" if ok else "WRONG", "race" if want else "no race")
        return int(bool(bad))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)
sys.exit(main())
