#!/usr/bin/env python3
"""plant.py SPEC.py...   make /verif/seeded/<id>/ from specs and confirm each: builds, stable tests pass, demo 0/nonzero.
   A spec file calls B(id, property, [(file, old, new)...], needs, breaks, demo=<C source>, srcs=[...], cc='gcc').
   plant.py --check ID... [--tier T]   run the property's check with the change in place (in a private mount of copies)
Works in user namespaces with copies of /repo mounted over /repo: nothing outside is touched."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: the property holds for this demonstration. Run in the repository's directory.
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$t"' EXIT
F="-O1 -g -I$r/inc/linux -I$r/src -I$r/src/hashtable -I$r/inc -D__linux__=1 -D__amd64__=1 -D_GNU_SOURCE=1 -w %(extra)s"
L=""; for s in %(srcs)s; do %(cc)s $F -c -o $t/$(basename $s).o $r/$s || exit 9; L="$L $t/$(basename $s).o"; done
%(cc)s $F -o $t/demo $d/%(demo)s $L -lpthread %(libs)s || exit 9
cd $t && mkdir w && cd w && timeout 100 ../demo
'''
def ns(script, verif=False, timeout=1500):
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        pre = f"set -e; cp -a /repo {d}/repo; mount --bind {d}/repo /repo; git config --global --add safe.directory '*' 2>/dev/null || true; "
        if verif: pre += f"mkdir {d}/verif; cp -a /verif/bin /verif/lib /verif/h /verif/known_findings.txt {d}/verif/; mount --bind {d}/verif /verif; "
        env = dict(os.environ, HOME=d, TMPDIR="/tmp")
        return subprocess.run(["unshare", "-Urm", "bash", "-c", pre + "set +e; cd /repo; " + script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    finally: shutil.rmtree(d, ignore_errors=True)
specs = []
def B(id, prop, edits, needs, breaks, demo, srcs=(), cc="gcc", libs="", extra="", ext=None, pre=""):
    specs.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, srcs=list(srcs), cc=cc, libs=libs, extra=extra, pre=pre, ext=ext or ("cc" if cc == "g++" else "c")))
def make(s):
    d = f"{SEED}/{s['id']}"; tmp = tempfile.mkdtemp(prefix="mk", dir="/tmp")
    try:
        subprocess.check_call(f"git clone -q /repo {tmp}/r", shell=True)
        for f, a, b in s["edits"]:
            p = f"{tmp}/r/{f}"; t = open(p).read()
            if t.count(a) != 1: return f"{s['id']}: {t.count(a)} places in {f}: {a[:60]!r}"
            open(p, "w").write(t.replace(a, b))
        patch = subprocess.check_output(["git", "-C", f"{tmp}/r", "diff"], text=True)
        root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]
        orig = subprocess.check_output(["git", "-C", "/repo", "diff", root, "HEAD"], text=True).splitlines(); mine = set(l[1:].strip() for l in orig if l.startswith("+"))
        gone = [l[1:].strip() for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        if gone and all(l in mine for l in gone): return f"{s['id']}: touches none of the original lines"
    finally: shutil.rmtree(tmp)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(f"{d}/demo.{s['ext']}", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % dict(cc=s["cc"], srcs=" ".join(s["srcs"]) or '""', demo="demo." + s["ext"], libs=s["libs"], extra=s["extra"]) if s["srcs"] else
        "\n".join(l for l in (DEMO % dict(cc=s["cc"], srcs="X", demo="demo." + s["ext"], libs=s["libs"], extra=s["extra"])).splitlines() if not l.startswith("L=")) + "\n")
    if s["pre"]:   # commands that run before the first compilation
        t = open(d + "/demo.sh").read(); i = t.index('L=""'); open(d + "/demo.sh", "w").write(t[:i] + s["pre"].strip() + "\n" + t[i:])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return confirm(s["id"])
def confirm(i):
    d = f"{SEED}/{i}"
    r = ns(f"""cp -a {d} /tmp/d$$ ; rm -f /tmp/d$$/patch.diff /tmp/d$$/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1 || echo NOBUILD0
bash /tmp/d$$/demo.sh >/tmp/d$$/o 2>&1; a=$?; [ $a = 0 ] || {{ echo DEMO0=$a; tail -5 /tmp/d$$/o; }}
git apply {d}/patch.diff || echo NOAPPLY
flock /tmp/plant.lock bash /opt/vp/test.sh /tmp/d$$/t.json >/tmp/d$$/tl 2>&1 || {{ echo TESTRC; tail -5 /tmp/d$$/tl; }}
python3 -c "
import json;t=json.load(open('/tmp/d$$/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=[x for x in b['stable'] if x not in t['passed']];print('TESTS',m) if m else 0"
bash /tmp/d$$/demo.sh >/tmp/d$$/o 2>&1; a=$?; [ $a != 0 ] || echo DEMO1=0; [ $a != 9 ] || echo DEMO1=BUILD
rm -rf /tmp/d$$""")
    bad = r.stdout.strip()
    return f"{i}: " + ("confirmed" if not bad else "NOT CONFIRMED " + bad)
def check(i, tier="quick"):
    d = f"{SEED}/{i}"; p = json.load(open(d + "/meta.json"))["property"]
    shutil.copy(d + "/patch.diff", f"/tmp/pc-{i}.diff")
    r = ns(f"git apply /tmp/pc-{i}.diff || echo NOAPPLY; timeout 900 python3 /verif/bin/check.py {p} {tier}; echo rc=$?", verif=True)
    os.unlink(f"/tmp/pc-{i}.diff")
    l = r.stdout.strip('\n').splitlines()
    v = [x for x in l if x.startswith("VIOLATION")]; s = [x for x in l if x.startswith("  scenario")]
    return f"{i} {p}: " + (("caught " + (s[0][:300] if s else "")) if v and l[-1] == "rc=1" else "MISSED " + " | ".join(l[-3:]))
if __name__ == "__main__":
    if sys.argv[1] == "--check":
        a = [x for x in sys.argv[2:] if not x.startswith("--")]
        if not a: a = sorted(os.listdir(SEED))
        with cf.ThreadPoolExecutor(2) as ex:
            for x in ex.map(check, a): print(x, flush=True)
    elif sys.argv[1] == "--confirm":
        with cf.ThreadPoolExecutor(4) as ex:
            for x in ex.map(confirm, sys.argv[2:] or sorted(os.listdir(SEED))): print(x, flush=True)
    else:
        for f in sys.argv[1:]: exec(open(f).read())
        with cf.ThreadPoolExecutor(4) as ex:
            for x in ex.map(make, specs): print(x, flush=True)
