#!/usr/bin/env python3
"""Writes and confirms planted bugs (never run by a check).

  plant.py make SPEC.py       write seeded/<id>/ from the BUGS list in SPEC.py
  plant.py confirm ID...      apply to /repo, build, stable tests, demo, the property's check; undo
  plant.py check ID [PROP..]  apply, run the checks of PROP (default: the bug's own property), undo
"""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
BASE = "38c8d95"
SEEDED = os.environ.get("PLANT_OUT", os.path.join(VERIF, "seeded"))
DEMO = r'''#!/bin/bash
# cwd: the repository. Exit 0: the property holds, anything else: it does not.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 9
trap 'rm -rf -- "$w"' EXIT
%(pre)s
for f in $(find "$PWD/src" "$PWD/c/src" -name '*.cpp'); do
    echo "$w/$(echo "$f" | tr / _).o: ; $CXX -c $FLAGS $f -o \$@"
done > "$w/mk"
echo "$w/demo.o: ; $CXX -c $FLAGS $here/demo.cpp -o \$@" >> "$w/mk"
make -s -j8 -f "$w/mk" $(sed -n 's/: ;.*//p' "$w/mk") || exit 8
$CXX $FLAGS "$w"/*.o -o "$w/demo" || exit 8
cd "$w"
%(run)s
'''
FLAGS = 'CXX=g++; FLAGS="-std=c++17 -O1 -w -pthread -D__STDC_FORMAT_MACROS %s -I$PWD/src -I$PWD/c/src"'

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])

def dirty():
    return sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip()

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    assert not dirty(), dirty()
    for b in ns["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for path, old, new in b["edits"]:
                p = os.path.join(REPO, path)
                t = open(p, newline="").read()
                crlf = "\r\n" in t
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                n = t.count(old)
                if n != 1:
                    raise SystemExit("%s: %s: %d matches of %r" % (b["id"], path, n, old))
                open(p, "w", newline="").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
        finally:
            clean()
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO % {"pre": FLAGS % b.get("flags", ""), "run": b.get("run", 'timeout 100 "$w/demo"')})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        own = not_original(d)
        print("made", b["id"], "| lines not of the original:" if own else "", own or "")

def not_original(d):
    """removed lines that are not in the base version of the file"""
    out, path, base = [], None, ""
    for line in open(os.path.join(d, "patch.diff"), errors="replace"):
        if line.startswith("--- a/"):
            path = line[6:].strip()
            base = sh(["git", "-C", REPO, "show", BASE + ":" + path]).stdout
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:].strip() and line[1:].strip() not in base:
                out.append(line[1:].strip())
    return out

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "stable_tests"):
        if k in b:
            return set(b[k])
    return set(next(v for v in b.values() if isinstance(v, list)))

def run_check(prop):
    t = time.time()
    r = sh([sys.executable, os.path.join(VERIF, "check.py"), "--property", prop], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    lines = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "BUILD"))] or r.stdout.splitlines()[-1:]
    return r.returncode, time.time() - t, (lines[0][:200] if lines else "")

def apply(i):
    assert not dirty(), dirty()
    r = sh(["git", "-C", REPO, "apply", os.path.join(SEEDED, i, "patch.diff")])
    if r.returncode:
        raise SystemExit(r.stdout)

def confirm(ids, props=None, full=True):
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        res = []
        try:
            if full:
                r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
                res.append("demo-clean=%d" % r.returncode)
                if r.returncode: res.append(r.stdout[-300:])
            apply(i)
            if full:
                r = sh(["bash", "/opt/vp/test.sh", "/tmp/wt/out.json"])
                passed = set(json.load(open("/tmp/wt/out.json"))["passed"])
                missing = sorted(stable() - passed)
                res.append("tests=%s" % ("ok" if not missing else "FAIL %d %s" % (len(missing), missing[:4])))
                r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
                res.append("demo-patched=%d %s" % (r.returncode, r.stdout[-120:].replace("\n", " ")))
            for p in props or [prop]:
                rc, t, l = run_check(p)
                res.append("%s %s rc=%d %.0fs %s" % (p, "CAUGHT" if rc == 1 else "MISSED", rc, t, l))
        finally:
            clean()
        print(i, "|", " | ".join(res), flush=True)

if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    if c == "make":
        for s in a: make(s)
    elif c == "confirm":
        confirm(a or sorted(os.listdir(SEEDED)))
    elif c == "check":
        confirm(a[:1], a[1:] or None, False)
