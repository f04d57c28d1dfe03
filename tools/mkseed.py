"""Confirms planted bugs and writes them to /verif/seeded. Usage: mkseed.py FILE...
Each FILE is Python that calls bug(id, property, edits, demo, needs, breaks, [cflags]).
edits: list of (file, old text, new text[, which occurrence]). Works in the scratch
copy /tmp/sw; nothing is applied to /repo."""
import json, os, re, shutil, subprocess, sys
SW = "/tmp/sw"
OUT = "/verif/seeded"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def reset():
    if not os.path.isdir(SW):
        sh("cp -a /repo %s" % SW)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", SW)
            os.makedirs("/tmp/swbin", exist_ok=True); open("/tmp/swbin/" + f, "w").write(t)
    sh("cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % SW)

DEMO = """#!/bin/bash
# exit 0: the property holds; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$out"' EXIT
%s -g -w -I. %s -o "$out/demo" "$here/demo.c" tg.c -lm -lpthread || exit 98
cd "$out" || exit 97
timeout 120 "$out/demo"
"""

def demo_rc(d):
    r = sh("cd %s && bash %s/demo.sh" % (SW, d), env={k: v for k, v in os.environ.items() if not k.startswith("VERIF")})
    return r.returncode, r.stdout

def bug(id, prop, edits, demo, needs, breaks, cflags="-O1", cc="gcc"):
    if ONLY and id not in ONLY: return
    if os.path.exists("%s/%s/meta.json" % (OUT, id)) and not ONLY:
        return
    reset()
    orig = set(sh("cd /repo && git log --format=%H --invert-grep --grep='^fix:'").stdout.split())
    for e in edits:
        f, old, new = e[:3]
        p = SW + "/" + f
        t = open(p).read()
        n = t.count(old)
        k = e[3] if len(e) > 3 else 0
        if n == 0 or (n > 1 and len(e) < 4):
            print(id, "NOT MADE: %d matches in %s of %r" % (n, f, old[:80])); return
        parts = t.split(old)
        t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(t)
    d = "/tmp/seeds/out/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = subprocess.run("cd %s && git diff" % SW, shell=True, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write(DEMO % (cc, cflags))
    # removed lines must be the repository's own
    cur = None; ln = 0; removed = []; added = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"): removed.append((cur, ln)); ln += 1
        elif l.startswith("+"): added += 1
        else: ln += 1
    if not removed: print(id, "WARNING: removes no line")
    for f, n in removed:
        h = sh("cd /repo && git blame -l -s -L %d,%d HEAD -- %s" % (n, n, f)).stdout.split()[0].lstrip("^")
        if not any(o.startswith(h) for o in orig):
            print(id, "NOT MADE: line %s:%d is from a fix" % (f, n)); return
    rc, out = demo_rc(d)
    if rc == 0:
        print(id, "NOT MADE: demo passes with the change\n" + out[-500:]); return
    brk = out[-200:]
    if rc >= 97 and rc <= 99: print(id, "NOT MADE: demo did not build\n" + out[-800:]); return
    r = sh("bash /tmp/swbin/build.sh")
    if r.returncode: print(id, "NOT MADE: build fails\n" + r.stdout[-800:]); return
    r = sh("bash /tmp/swbin/test.sh /tmp/sw-out.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/sw-out.json"))
    miss = [x for x in b["stable"] if x not in set(o.get("passed", []))]
    if miss: print(id, "NOT MADE: tests fail:", len(miss), miss[:4]); return
    sh("cd %s && git checkout -q -- ." % SW)
    rc, out = demo_rc(d)
    if rc != 0: print(id, "NOT MADE: demo fails on the unchanged tree", rc, out[-500:]); return
    dst = OUT + "/" + id
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dst + "/meta.json", "w"), indent=1)
    print(id, "ok;", brk.strip().replace("\n", " | ")[:160])

ONLY = set()
for a in sys.argv[1:]:
    if not a.endswith(".py"): ONLY.add(a)
for a in sys.argv[1:]:
    if a.endswith(".py"): exec(open(a).read())
