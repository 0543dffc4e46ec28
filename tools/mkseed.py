#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads edits from stdin as a python program defining EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (shell) and optional FILES;
writes seeded/ID/."""
import sys, os, json, subprocess
id, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
R = os.environ.get("SX_REPO", "/repo")
S = "/verif/seeded/" + id
os.makedirs(S, exist_ok=True)
assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain"]).strip(), "dirty"
try:
    for f, old, new in ns["EDITS"]:
        p = R + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", R, "diff"])
    open(S + "/patch.diff", "wb").write(d)
finally:
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
RUST = '''#!/bin/bash
D=$(dirname "$(realpath "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh
R=$PWD/target/debug
L=$(ls -t $R/deps/libsubstrait_explain-*.rlib | head -1); P=$(ls -t $R/deps/libprost-*.rlib | head -1)
for s in $R/deps/libsubstrait-*.rlib; do
  rustc --edition 2024 "$D/demo.rs" -o "$T/demo" --extern substrait_explain=$L --extern substrait=$s --extern prost=$P -L dependency=$R/deps 2>"$T/err" && break
done
[ -x "$T/demo" ] || { cat "$T/err"; exit 99; }
'''
CLI = '''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
X=$PWD/target/debug/substrait-explain
'''
demo = ns["DEMO"]
demo = (RUST if "DEMO_RS" in ns else CLI) + demo.strip() + "\n"
open(S + "/demo.sh", "w").write(demo)
if "DEMO_RS" in ns:
    open(S + "/demo.rs", "w").write(ns["DEMO_RS"].strip() + "\n")
for f, t in ns.get("FILES", {}).items():
    open(S + "/" + f, "w").write(t)
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(S + "/meta.json", "w"), indent=1)
print("wrote", S)
