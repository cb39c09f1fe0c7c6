#!/usr/bin/env python3
"""Runs checks against a changed copy of the sources, away from /repo.
usage: trial.py [--scale S] [--tree N] PATCH ID...   (PATCH: a diff against /repo, or - for none)"""
import argparse, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

def binary_of(id):
    for b, ids in list(mutate.OTHER.values()):
        if id in ids:
            return b
    return "pv-traced" if id in ("C33",) else "pv-engine"

def trial(patch, ids, scale=0.3, tree=90, show=1):
    t = mutate.Tree(tree)
    if patch != "-":
        subprocess.run(["git", "-C", t.repo, "apply", os.path.abspath(patch)], check=True)
    out = {}
    for id in ids:
        b = binary_of(id)
        rc, text = t.sh("cargo", "build", "--release", "--offline", "-q", "-p", b, timeout=900)
        if rc:
            print(text[-3000:])
            out[id] = "does not build"
            continue
        rc, text = t.sh(t.env["CARGO_TARGET_DIR"] + "/release/" + b, id, "--scale", str(scale), timeout=900)
        v = [l for l in text.splitlines() if "VIOLATION" in l or l.startswith(("signature", "message", "fail"))]
        out[id] = "VIOLATION" if rc == 1 and v else "quiet" if rc == 0 else "rc %d" % rc
        if show:
            print(id, out[id], *[l[:400] for l in text.splitlines()[:6] if rc], sep="\n    ", flush=True)
    return out

if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("--scale", type=float, default=0.3)
    a.add_argument("--tree", type=int, default=90)
    a.add_argument("patch")
    a.add_argument("ids", nargs="+")
    o = a.parse_args()
    trial(o.patch, o.ids, o.scale, o.tree)
