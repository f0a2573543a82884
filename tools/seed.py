#!/usr/bin/env python3
"""seed.py NAME [--checks A,B] : make (from seeded/_src/NAME.py) and verify a planted bug.

The source defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO (python text)."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(ROOT, "tools", "demolib")
SRC = os.path.join(ROOT, "tools", "seeds")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
    OPENSSL_CONF="/opt/vp/openssl-legacy.cnf")

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def main():
    name = sys.argv[1]
    s = runpy.run_path(os.path.join(SRC, name + ".py"))
    tmp = tempfile.mkdtemp(prefix="seed-")
    clean, bad = os.path.join(tmp, "clean"), os.path.join(tmp, "bad")
    try:
        for d in (clean, bad):
            shutil.copytree("/repo", d)
        for f, old, new in s["EDITS"]:
            p = os.path.join(bad, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        out = os.path.join(ROOT, "seeded", name)
        os.makedirs(out, exist_ok=True)
        diff = run(["git", "diff"], bad).stdout
        # only lines of the original repository may change
        base = {}
        for f in {e[0] for e in s["EDITS"]}:
            base[f] = subprocess.run(["git", "show", "ad7b312:" + f], cwd="/repo",
                capture_output=True, text=True).stdout.splitlines()
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            elif line.startswith("-") and not line.startswith("---"):
                if line[1:] not in base[cur]:
                    print("WARNING: not an original line:", cur, line)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        for f in os.listdir(LIB):
            if f.endswith((".py", ".sh")):
                shutil.copy(os.path.join(LIB, f), out)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=s["PROPERTY"], needs=" ".join(s["NEEDS"].split()),
            what_it_breaks=" ".join(s["BREAKS"].split())),
            open(os.path.join(out, "meta.json"), "w"), indent=1)
        r1 = run(["bash", os.path.join(out, "demo.sh")], clean, env=ENV)
        r2 = run(["bash", os.path.join(out, "demo.sh")], bad, env=ENV)
        print(name, "demo clean", r1.returncode, r1.stdout[-300:], r1.stderr[-800:] if r1.returncode else "")
        print(name, "demo patched", r2.returncode, r2.stdout[-300:].strip(), r2.stderr[-300:].strip())
        r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-c", "/dev/null",
            "--rootdir=" + bad, "-p", "no:cacheprovider", "--import-mode=importlib",
            "-o", "python_files=*.py", "--ignore=test/__main__.py", "-q", "test"],
            bad, env=dict(ENV, PYTHONPATH=bad))
        print(name, "tests", r.returncode, r.stdout.strip().splitlines()[-1:])
        if r1.returncode != 0 or r2.returncode == 0 or r.returncode != 0:
            print(name, "NOT A SEED")
            if "--keep" not in sys.argv:
                shutil.rmtree(out)
        checks = [s["PROPERTY"]]
        if "--checks" in sys.argv:
            checks = sys.argv[sys.argv.index("--checks") + 1].split(",")
        for c in checks:
            if not os.path.exists(os.path.join(ROOT, "mc", "checks", c + ".py")):
                print(name, "check", c, "not built"); continue
            k = run(["./check", c], ROOT, env=dict(os.environ, MC_REPO=bad))
            v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
            d = [l for l in k.stdout.splitlines() if l.startswith("  [")]
            print(name, "check", c, "rc", k.returncode, "CAUGHT" if k.returncode == 1 and v else "MISSED",
                len(v), (d or [k.stdout[-200:] + k.stderr[-300:]])[0][:250])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

main()
