#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list in plants.py, confirming each change in a scratch copy of /repo.

usage: plant.py SCRATCH [id ...]     SCRATCH is a copy of /repo at HEAD (cp -a /repo SCRATCH)
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plants import PLANTS
BASE = "c8488e2"
CRATE = {"parser": "oni-comb-parser-rs", "crond": "oni-comb-crond-rs", "uri": "oni-comb-uri-rs", "hocon": "oni-comb-hocon-rs"}
DEPS = {
    "parser": '',
    "crond": 'chrono = "0.4"\nintervals-rs = "*"\noni-comb-parser-rs = { path = "@REPO@/parser" }\n',
    "uri": '',
    "hocon": 'rust_decimal = "*"\nchrono = "0.4"\n',
    "toys": 'oni-comb-parser-rs = { path = "@REPO@/parser" }\nlog = "*"\nregex = "*"\n',
}
DEMO = r'''#!/bin/bash
# exit 0 when the program in demo.rs finds the behaviour the property asks for
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" "$dir/work"
sed "s|@REPO@|$repo|g" "$here/demo.rs" > "$dir/src/main.rs"
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$dir/Cargo.toml"
cp "$here/Cargo.lock.in" "$dir/Cargo.lock"
cd "$dir" || exit 2
export CARGO_TARGET_DIR=$dir/target
cargo build --offline -q 2>"$dir/build.log" || { cat "$dir/build.log"; exit 3; }
cd "$dir/work" && timeout 60 "$dir/target/debug/demo"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, **kw)

ENV = "bash -c '. /opt/vp/env.sh; cd %s; %s'"

def tests_pass(scratch):
    r = sh(ENV % (scratch, "cargo test --workspace --no-run --offline 2>&1"), scratch)
    if r.returncode: return "build failed:\n" + r.stdout[-3000:]
    r = sh(ENV % (scratch, "timeout 600 cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 2>&1"), scratch)
    if r.returncode: return "tests: " + "\n".join(l for l in r.stdout.splitlines() if "FAIL" in l)
    r = sh(ENV % (scratch, "cargo test --workspace --doc --no-fail-fast --offline 2>&1"), scratch)
    if r.returncode: return "doc tests: " + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l)
    return None

def run(p, scratch):
    sh("git checkout -q -- .", scratch)
    for f, old, new in p["edits"]:
        path = os.path.join(scratch, f); text = open(path).read()
        if text.count(old) != 1: return "edit in %s matches %d times: %r" % (f, text.count(old), old[:60])
        open(path, "w").write(text.replace(old, new))
    diff = sh("git diff", scratch).stdout
    # the lines that go must be lines of the original repository
    for f in {e[0] for e in p["edits"]}:
        blame = sh("git blame -s --line-porcelain HEAD -- " + f, scratch).stdout  # HEAD lines by commit
        owner, cur = [], None
        for l in blame.splitlines():
            if l.startswith("\t"): owner.append(cur)
            elif len(l.split()) >= 3 and len(l.split()[0]) == 40: cur = l.split()[0]
        old_commits = set(sh("git rev-list " + BASE, scratch).stdout.split())
        n = 0
        for l in sh("git diff -U0 -- " + f, scratch).stdout.splitlines():
            if l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                if owner[n - 1] not in old_commits: return "touches a line of ours in %s:%d: %s" % (f, n, l)
                n += 1
    out = "/verif/seeded/" + p["id"]
    tmp = "/tmp/w/plant_" + p["id"]
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    c = p["crate"]
    open(tmp + "/patch.diff", "w").write(diff)
    open(tmp + "/demo.rs", "w").write(p["demo"].lstrip("\n"))
    open(tmp + "/demo.sh", "w").write(DEMO); os.chmod(tmp + "/demo.sh", 0o755)
    dep = "" if c == "toys" else '%s = { path = "@REPO@/%s" }\n' % (CRATE[c], c)
    open(tmp + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n' + dep + DEPS[c] + ('log = "*"\n' if c == 'parser' and 'log::' in p['demo'] else '') + '\n[workspace]\n')
    shutil.copy("/verif/harness/%s_h/Cargo.lock" % c, tmp + "/Cargo.lock.in")
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % tmp, scratch)
    if r.returncode in (0, 2, 3): return "demo with the change: rc %d\n%s" % (r.returncode, "\n".join(l for l in (r.stdout + r.stderr).splitlines() if l.startswith(("error", "thread", " left", "right", " -->"))))
    why = (r.stdout + r.stderr).strip().splitlines()[:6]
    e = tests_pass(scratch)
    if e: return e
    sh("git checkout -q -- .", scratch)
    r = sh("bash %s/demo.sh" % tmp, scratch)
    if r.returncode: return "demo without the change: rc %d\n%s" % (r.returncode, "\n".join(l for l in (r.stdout + r.stderr).splitlines() if l.startswith(("error", "thread", " left", "right", " -->"))))
    r = sh("git apply --check %s/patch.diff" % tmp, "/repo")
    if r.returncode: return "does not apply: " + r.stderr
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out); shutil.rmtree(tmp)
    return "OK  " + " | ".join(why)[:200]

if __name__ == "__main__":
    scratch, ids = sys.argv[1], sys.argv[2:]
    for p in PLANTS:
        if ids and p["id"] not in ids: continue
        if not ids and os.path.exists("/verif/seeded/" + p["id"]): continue
        print(p["id"], p["property"], run(p, scratch), flush=True)
    sh("git checkout -q -- .", scratch)
