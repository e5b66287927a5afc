"""mk(id, prop, [(file, old, new)], demo_cc, units, needs, breaks): writes /verif/seeded/<id>."""
import os, subprocess, json, shutil
DEMO = '''#!/bin/bash
# builds demo.cc with the sources it needs from the current directory (/repo) and runs it
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
%s
F=(-std=c++17 -w %s %s -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL %s -I"$R" -I"$R/_build/gen")
i=0; for s in "$H/demo.cc" %s; do i=$((i+1)); g++ "${F[@]}" -c -o "$D/$i.o" "$s" & done; wait
g++ -std=c++17 %s -o "$D/demo" "$D"/*.o -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lfmt -lspdlog -lz -lpthread || exit 90
cd "$D" && timeout %d ./demo
'''
def mk(id, prop, edits, demo, units, needs, breaks, san="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr", extra_inc="", pre="", files=None, opt="-O1", extra_src="", timeout=120):
    d = "/verif/seeded/" + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, a, b in edits:
        p = "/repo/" + f; s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a); open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (pre, opt, san, extra_inc, " ".join('"$R/%s"' % u for u in units) + extra_src, san, timeout)); os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True); open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
