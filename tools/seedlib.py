"""Helper used while writing /verif/seeded: seed(id, property, [(file, old, new)...], demo_cpp, srcs, needs, breaks)."""
import json, os, subprocess, sys, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in /repo; builds the demonstration beside this file in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$PWD"
clang++-18 -std=gnu++23 -D__cpp_concepts=202002L -Wno-builtin-macro-redefined -D_GNU_SOURCE -O1 -g1 %(san)s -w %(flags)s -I"$D" -I"$R" "$D/demo.cpp" %(srcs)s -o "$T/demo" -lpthread %(libs)s || { echo "demo does not build"; exit 1; }
cd "$T" && timeout 120 ./demo
'''
PAR = DEMO.replace(DEMO[DEMO.index("clang++-18"):DEMO.index('cd "$T"')], '''i=0; for f in "$D/demo.cpp" %(srcs)s; do i=$((i+1)); (clang++-18 -std=gnu++23 -D__cpp_concepts=202002L -Wno-builtin-macro-redefined -D_GNU_SOURCE -O1 -g1 %(san)s -w %(flags)s -I"$D" -I"$R" -c "$f" -o "$T/$i.o" || touch "$T/failed") & done; wait
[ ! -e "$T/failed" ] && clang++-18 %(san)s "$T"/*.o -o "$T/demo" -lpthread %(libs)s || { echo "demo does not build"; exit 1; }
''')
def seed(sid, prop, edits, demo, srcs=(), needs="", breaks="", flags="", san="-fsanitize=address", libs="", files=None, par=False):
    d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True); patch = ""
    byf = {}
    for f, a, b in edits:
        s = byf.get(f) or open("/repo/" + f).read(); assert s.count(a) == 1, (sid, f, s.count(a), a); byf[f] = s.replace(a, b)
    for f, t in byf.items():
        o = open("/repo/" + f).read()
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch); open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    for n, c in (files or {}).items(): os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True); open(d + "/" + n, "w").write(c)
    open(d + "/demo.sh", "w").write((PAR if par else DEMO) % dict(san=san, flags=flags, libs=libs, srcs=" ".join('"$R/%s"' % s if not s.startswith("$") else '"%s"' % s for s in srcs))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
