#!/usr/bin/env python3
"""Mutation run: small changes to the sources, one at a time, each against the checks.
usage: mutate.py [--jobs N] [--scale S] [--out FILE] FILE...   (paths relative to /repo)
Works in copies under /tmp/mutate; /repo is not touched. Survivors are printed as they are found."""
import argparse, json, os, re, shutil, subprocess, sys, threading, queue
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mutate"
ENGINE = ["C20", "C04", "C01", "C12", "C05", "C07", "C03", "C13", "C16", "C17", "C06", "C08", "C02", "C14", "C15", "C18", "C19", "C21", "C22", "C23", "C24", "C28", "C29", "C31", "C32", "C30"]
OTHER = {"gearley-vec2d": ("pv-vec2d", ["C10", "C25", "C26"]), "compact-bocage": ("pv-storage", ["C09"]),
         "gearley-utils/src/cartesian_product.rs": ("pv-cartesian", ["C11", "C27"])}

SWAPS = [(" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= ", " < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
         (" + ", [" - "]), (" - ", [" + "]), (" * ", [" + "]), (" && ", [" || "]), (" || ", [" && "]), (" << ", [" >> "]), (" >> ", [" << "]),
         (" & ", [" | "]), (" | ", [" & "]), (" += ", [" -= "]), (" -= ", [" += "]), (" |= ", [" &= ", " = "]),
         ("true", ["false"]), ("false", ["true"]), (".rev()", [""]), (".min(", [".max("]), (".max(", [".min("]),
         (".is_some()", [".is_none()"]), (".is_none()", [".is_some()"]), (".is_empty()", [".is_empty() == false"]),
         ("..=", [".."]), (".first()", [".last()"]), (".last()", [".first()"]), ("continue;", ["break;", ""]), ("break;", ["continue;", ""]),
         ("Less", ["Greater"]), ("Greater", ["Less"]), (".skip(1)", [""]), ("?;", [";"]), (".any(", [".all("]), (".all(", [".any("]),
         (".push(", [".truncate(0); //"]), ("Some(", []), (".rev()", [""]), (".take(", [".skip("]), (".0", [".1"]), (".1", [".0"]),
         ("lhs", ["rhs0"]), ("rhs1", ["rhs0"]), ("rhs0", ["rhs1"]), ("usize::MAX", ["0"]), ("!0", ["0"]), ("if !", ["if "]), ("(!", ["("]), ("!self", ["self"])]

# Numbers cut off: wrong for large grammars or long inputs only.
NARROW = [(" as u32", [" as u8 as u32", " as u16 as u32", " as u32 & 63", " as u32 & 1023"]), (" as usize", [" as u8 as usize", " as u16 as usize", " as usize % 64", " as usize % 1024"]),
          (".usize()", [".usize() as u8 as usize", ".usize() % 64", ".usize() % 1024"]), (".len()", [".len().min(64)", ".len().min(1024)", ".len() as u8 as usize", ".len() as u16 as usize"]),
          (".enumerate()", [".enumerate().take(64)", ".enumerate().take(512)"]), (".iter()", [".iter().take(64)", ".iter().take(512)"]), (".into_iter()", [".into_iter().take(64)", ".into_iter().take(512)"])]


def mutants(text):
    lines = text.split("\n")
    out = []
    skip = False
    for n, line in enumerate(lines):
        code = line.split("//")[0] if '"' not in line else line
        s = code.strip()
        if "#[cfg(test)]" in line:
            break
        if not s or s.startswith(("#", "//", "use ", "pub use", "mod ", "pub mod", "trace!", "debug!", "impl", "where", "fn ", "pub fn", "type ")):
            continue
        def add(new, what):
            if new != line:
                out.append((n, new, what))
        for old, news in SWAPS:
            for m in re.finditer(re.escape(old), code):
                a, b = m.span()
                if old.isalpha() and (code[a - 1:a].isalnum() or code[b:b + 1].isalnum() or code[a - 1:a] == "_" or code[b:b + 1] == "_"):
                    continue
                if old in (".0", ".1") and code[b:b + 1].isdigit():
                    continue
                for new in news:
                    add(line[:a] + new + line[b:], "%s -> %s" % (old.strip(), new.strip()))
        for m in [] if SWAPS[0][0] == NARROW[0][0] else re.finditer(r"(?<![\w.#])(\d+)(?![\w.])|(?<=\.\.)(\d+)|(?<![\w.])(\d+)(?=\.\.)", code):
            v = int(m.group(0))
            for nv in {v + 1, max(v - 1, 0), 0}:
                add(line[:m.start()] + str(nv) + line[m.end():], "%d -> %d" % (v, nv))
        if SWAPS[0][0] == NARROW[0][0]:
            continue
        m = re.match(r"(\s*)(\} else )?(if|while) (?!let)(.*) \{$", code)
        if m:
            pre, els, kw, cond = m.groups()
            for new in ("!(%s)", "true || (%s)", "false && (%s)") if kw == "if" else ("false && (%s)",):
                add("%s%s%s %s {" % (pre, els or "", kw, new % cond), "condition " + new)
        if s.endswith(";") and not s.startswith(("let ", "return", "break", "continue", "const ", "pub ", "}", ")", "]", "static ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            prev = next((l.strip() for l in reversed(lines[:n]) if l.strip() and not l.strip().startswith("//")), "")
            if prev.endswith((";", "{", "}", ",")):
                add(re.match(r"\s*", line).group(0) + "();", "statement removed")
        m = re.match(r"(\s*)return (.*);$", code)
        if m and "bool" not in code:
            pass
    return lines, out

class Tree:
    def __init__(self, k):
        self.dir = "%s/%d" % (ROOT, k)
        os.makedirs(self.dir, exist_ok=True)
        self.repo = self.dir + "/repo"
        self.rust = self.dir + "/rust"
        for d in (self.repo, self.rust):
            shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", self.repo], check=True)
        shutil.copytree(HOME + "/rust", self.rust, ignore=shutil.ignore_patterns("target"))
        for base, _, files in os.walk(self.rust + "/wrap"):
            for f in files:
                p = os.path.join(base, f)
                t = open(p).read()
                open(p, "w").write(t.replace("/repo/", self.repo + "/"))
        self.home = self.dir + "/home"
        for d in ("evidence", "replays"):
            os.makedirs(self.home + "/" + d, exist_ok=True)
        shutil.copy(HOME + "/known_findings.txt", self.home)
        self.env = dict(os.environ, VERIF_HOME=self.home, CARGO_TARGET_DIR=self.dir + "/target", CARGO_PROFILE_RELEASE_OPT_LEVEL="1",
                        CARGO_PROFILE_RELEASE_DEBUG="0", PBT_NO_MIRI="1", CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="4")

    def sh(self, *cmd, timeout=300):
        try:
            r = subprocess.run(cmd, cwd=self.rust, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return 124, "timeout"

    def build(self, bins):
        for b in bins:
            rc, text = self.sh("cargo", "build", "--release", "--offline", "-q", "-p", b, timeout=600)
            if rc:
                return False
        return True

    def check(self, bin, ids, scale):
        for id in ids:
            rc, text = self.sh(self.env["CARGO_TARGET_DIR"] + "/release/" + bin, id, "--scale", str(scale), timeout=600)
            if rc:
                v = "VIOLATION" if "VIOLATION property=" in text else "rc %d" % rc
                return "%s %s" % (id, v)
        return None

def main():
    a = argparse.ArgumentParser()
    a.add_argument("--jobs", type=int, default=3)
    a.add_argument("--scale", type=float, default=0.1)
    a.add_argument("--out", default="/tmp/mutate/out.jsonl")
    a.add_argument("--only", help="comma-separated FILE:LINE prefixes")
    a.add_argument("--narrow", action="store_true", help="only numbers cut off")
    a.add_argument("files", nargs="+")
    o = a.parse_args()
    if o.narrow:
        SWAPS[:] = NARROW
    os.makedirs(ROOT, exist_ok=True)
    done = set()
    if os.path.exists(o.out):
        for l in open(o.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    work = queue.Queue()
    for f in o.files:
        lines, ms = mutants(open("/repo/" + f).read())
        for n, new, what in ms:
            if (f, n + 1, new) not in done:
                work.put((f, n, new, what))
    print(work.qsize(), "mutants", flush=True)
    lock = threading.Lock()
    def worker(k):
        tree = Tree(k)
        assert tree.build(["pv-engine", "pv-vec2d", "pv-storage", "pv-cartesian"]), "build"
        while True:
            try:
                f, n, new, what = work.get_nowait()
            except queue.Empty:
                return
            path = tree.repo + "/" + f
            orig = open(path).read()
            lines = orig.split("\n")
            old = lines[n]
            lines[n] = new
            open(path, "w").write("\n".join(lines))
            runs = [OTHER[p] for p in OTHER if f.startswith(p)] + [("pv-engine", ENGINE)]
            if f.endswith("cartesian_product.rs"):
                runs = runs[:1]
            result = None
            if not tree.build([b for b, _ in runs]):
                result = "does not build"
            else:
                for b, ids in runs:
                    result = tree.check(b, ids, o.scale)
                    if result:
                        break
            open(path, "w").write(orig)
            with lock:
                with open(o.out, "a") as out:
                    out.write(json.dumps(dict(file=f, line=n + 1, old=old, new=new, what=what, result=result or "SURVIVED")) + "\n")
                if not result:
                    print("SURVIVED %s:%d %s\n    %s" % (f, n + 1, what, new.strip()), flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(o.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    print("done")
if __name__ == "__main__":
    main()
