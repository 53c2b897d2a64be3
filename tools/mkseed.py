#!/usr/bin/env python3
"""mkseed.py DEFS.py...: creates /verif/seeded/<id>/ for every seed of the files and validates it in a scratch copy.
A definitions file calls seed(id, prop, file, [(old, new), ...], needs, breaks, demo)."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, sh=None):
    SEEDS.append((id, prop, edits, needs, breaks, demo, sh))
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def main():
    only = set()
    for f in sys.argv[1:]:
        if f.endswith(".py"):
            exec(compile(open(f).read(), f, "exec"), {"seed": seed})
        else:
            only.add(f)
    w = tempfile.mkdtemp(prefix="lokky-seed-")
    R = os.path.join(w, "repo")
    run(["cp", "-a", "/repo", R], "/")
    orig = run("git log --format=%H | tail -1", R).stdout.strip()
    try:
        for id, prop, edits, needs, breaks, demo, sh in SEEDS:
            if only and id not in only:
                continue
            run("git checkout -q -- .", R)
            ok = True
            for f, old, new in edits:
                p = os.path.join(R, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(id, "EDIT NOT UNIQUE", f, s.count(old), old[:60])
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = run("git diff", R).stdout
            # removed or context lines come from the original
            rm = [l[1:].strip() for l in diff.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
            txt = run("git show %s:src/vec.rs; for f in small_vec ptr boxed rc arc urc string scope marker lib; do git show %s:src/$f.rs; done" % (orig, orig), R).stdout
            mine = [l for l in rm if l not in txt]
            # changes of lines that a fix added are kept apart
            d = os.path.join(HERE, "extra", id) if mine else os.path.join(OUT, id)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.rs"), "w").write("include!(\"common.rs\");\n" + demo.strip("\n") + "\n")
            shutil.copy(os.path.join(HERE, "demo_common.rs"), os.path.join(d, "common.rs"))
            shutil.copy(os.path.join(HERE, sh or "demo.sh"), os.path.join(d, "demo.sh"))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            b = run(["bash", os.path.join(d, "demo.sh")], R)
            t = run("cargo test --offline --lib 2>&1 | tail -4 | grep 'test result'", R)
            run("git checkout -q -- .", R)
            g = run(["bash", os.path.join(d, "demo.sh")], R)
            good = g.returncode == 0 and b.returncode not in (0, 3, 4, 5) and " 0 failed" in t.stdout
            print(id, prop, "OK" if good else "BAD", "| clean", g.returncode, g.stdout.strip()[:300], "| patched", b.returncode, b.stdout.strip()[:300], "|", "" if " 0 failed" in t.stdout else t.stdout.strip()[:100], "| not original: %s" % mine if mine else "")
    finally:
        shutil.rmtree(w)
main()
