#!/usr/bin/env python3
"""Creates and tries out planted bugs (never used by a check).

  seed.py SPEC.py...   (re)creates /verif/seeded/<id>/ from each spec and runs
                       its demo on a clean and on a patched scratch copy
  seed.py --run [ID..] runs the property's check against each patched copy
A spec is a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS
[(file, old, new)], SOURCES [repo files], DEMO (C++ text), EXTRA flags.
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("SEED_SCRATCH", "/tmp/seedrepo")
DEMO_SH = '''#!/bin/bash
# Exit 0: the behaviour is right. Non-zero: it is broken (or does not build).
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
tar xzf "$D/shim.tgz" -C "$T" || exit 9
export ASAN_OPTIONS=detect_leaks=0
P=
for f in "$D/demo.cc" %s; do
  o=$T/$(echo "$f" | tr '/' '_').o
  clang++ -std=c++20 -w -O1 %s -I"$T/shim" -I"$PWD" -I"$PWD/iamf/include" -isystem /usr/include/eigen3 -c "$f" -o "$o" &
  P="$P $!"
done
for p in $P; do wait $p || exit 9; done
clang++ %s -no-pie -Wl,--unresolved-symbols=ignore-all "$T"/*.o -o "$T/demo" || exit 9
cd "$T" && timeout 60 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def fresh():
    if not os.path.isdir(SCR):
        sh("git clone -q /repo %s" % SCR)
    sh("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD && git -C %s clean -fdq" % (SCR, SCR, SCR))
    a = sh("git -C /repo rev-parse HEAD").stdout.strip(); b = sh("git -C %s rev-parse HEAD" % SCR).stdout.strip()
    if a != b:
        sh("git -C %s fetch -q && git -C %s reset -q --hard %s" % (SCR, SCR, a))
def create(path):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join(VERIF, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in g["EDITS"]:
        p = os.path.join(SCR, f)
        t = open(p).read()
        assert t.count(old) == 1, "%s: %d matches of %r" % (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % SCR).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write("#include <cstdlib>\nextern \"C\" [[noreturn]] void verif_check_failed(const char*) { abort(); }\n" + g["DEMO"])
    x = g.get("EXTRA", "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % (" ".join(g["SOURCES"]), x, x))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    sh("tar --sort=name --mtime=@0 --owner=0 --group=0 -C %s -czf %s/shim.tgz shim" % (VERIF, d))
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    bad = sh("bash %s/demo.sh" % d, cwd=SCR)
    fresh()
    good = sh("bash %s/demo.sh" % d, cwd=SCR)
    ok = good.returncode == 0 and bad.returncode not in (0, 9)
    print(g["ID"], "ok" if ok else "BAD", "clean rc", good.returncode, "patched rc", bad.returncode)
    if not ok:
        print(good.stdout[-1500:], "-----", bad.stdout[-600:])
def runid(i):
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    fresh()
    r = sh("git -C %s apply %s/patch.diff" % (SCR, d))
    if r.returncode:
        print(i, "does not apply", r.stdout); return
    env = dict(os.environ, VERIF_REPO=SCR, VERIF_BUILD="/tmp/seedbuild")
    r = sh("%s/check.py %s" % (VERIF, prop), env=env)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    d2 = [l for l in r.stdout.splitlines() if l.startswith("  ")][:2]
    print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, d2 if v else r.stdout[-400:], flush=True)
    fresh()
if __name__ == "__main__":
    if sys.argv[1] == "--run":
        for i in sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, "seeded"))):
            runid(i)
    else:
        for p in sys.argv[1:]:
            create(p)
