#!/usr/bin/env python3
"""Planted bugs. As a module: plant(id, property, edits, demo, needs, breaks) packs a change as
/verif/seeded/ID and confirms it in a scratch tree. As a program: --again [ID...] confirms, --detect
[ID...] applies each to /repo, runs the check of its property and undoes it."""
import json, os, re, shutil, subprocess, sys, tempfile, time
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"
SEEDED = os.path.join(HOME, "seeded")

def sh(cmd, cwd="/", **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", **kw)

def scratch():
    shutil.rmtree(W, ignore_errors=True)
    sh("git clone -q /repo %s" % W)  # HEAD, whatever is in the working tree

def kit(dest):
    t = tempfile.mkdtemp(prefix="kit.")
    for name, src in [("stubs", "rust/stubs"), ("wrap", "rust/wrap"), ("demo", "tools/kit/demo")]:
        shutil.copytree(os.path.join(HOME, src), os.path.join(t, name), ignore=shutil.ignore_patterns("target", "main.rs"))
    shutil.copy(os.path.join(HOME, "tools/kit/Cargo.toml"), t)
    if "// build: log" in open(os.path.join(dest, "demo.rs")).read():
        c = os.path.join(t, "demo/Cargo.toml")
        s = open(c).read().replace('path = "../wrap/gearley-recognizer" }', 'path = "../wrap/gearley-recognizer", features = ["log"] }')
        open(c, "w").write(s + 'log = "0.4"\n')
    shutil.copy(os.path.join(HOME, "rust/Cargo.lock"), t)
    sh("tar --sort=name --mtime=@0 --owner=0 --group=0 -c . | gzip -n9 > %s" % os.path.join(dest, "kit.tar.gz"), t)
    shutil.rmtree(t)

def confirm(id):
    d = os.path.join(SEEDED, id)
    scratch()
    clean = sh("bash %s/demo.sh" % d, W)
    a = sh("git apply %s/patch.diff" % d, W)
    if a.returncode:
        return "DOES NOT APPLY: " + a.stderr
    bad = sh("bash %s/demo.sh" % d, W)
    msg = []
    if clean.returncode:
        msg.append("BAD: clean tree: %d\n%s" % (clean.returncode, (clean.stdout + clean.stderr)[-3000:]))
    if bad.returncode in (0, 3):
        msg.append("BAD: patched tree: %d\n%s" % (bad.returncode, (bad.stdout + bad.stderr)[-3000:]))
    return "\n".join(msg) or "ok (%d: %s)" % (bad.returncode, " ".join(bad.stderr.split())[:160])

def plant(id, prop, edits, demo, needs, breaks):
    scratch()
    for file, old, new in edits:
        p = os.path.join(W, file)
        s = open(p).read()
        assert s.count(old) == 1, (id, file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", W).stdout
    assert diff.strip(), "no change"
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if not demo.lstrip().startswith("//!raw"):
        demo = "use demo::*;\n" + demo
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    shutil.copy(os.path.join(HOME, "tools/kit/demo.sh"), d)
    kit(d)
    print(id, confirm(id), flush=True)

def detect(id, others=()):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    out = []
    assert not sh("git status --porcelain", "/repo").stdout.strip()
    try:
        a = sh("git apply %s/patch.diff" % d, "/repo")
        assert a.returncode == 0, a.stderr
        for p in [prop, *others]:
            t = time.time()
            r = sh("./run.sh check %s quick" % p, HOME)
            hit = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:1]
            out.append("%s %s (%d, %.0f s) %s" % (p, "caught" if hit else "MISSED", r.returncode, time.time() - t, v))
            if not hit:
                out.append(r.stdout[-600:] if r.returncode else "")
    finally:
        sh("git checkout -- .", "/repo")
    return " | ".join(out)

if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if sys.argv[1] == "--again":
        for id in ids:
            print(id, confirm(id), flush=True)
    elif sys.argv[1] == "--kits":
        for id in ids:
            kit(os.path.join(SEEDED, id))
    elif sys.argv[1] == "--detect":
        for id in ids:
            print(id, detect(id), flush=True)
