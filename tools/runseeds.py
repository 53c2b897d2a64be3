#!/usr/bin/env python3
"""runseeds.py [-a] [seed...]: runs the check of each seed's property (-a: every claimed check) on a scratch copy with the seed applied."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = "-a" in args
args = [a for a in args if a != "-a"]
claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
w = tempfile.mkdtemp(prefix="lokky-seed-")
subprocess.run("mkdir %s/repo && cd /repo && git archive HEAD | tar -x -C %s/repo && cd %s/repo && git init -q" % (w, w, w), shell=True, check=True)
try:
    for d in sorted([V + "/seeded/" + s for s in os.listdir(V + "/seeded")] + [V + "/tools/extra/" + s for s in os.listdir(V + "/tools/extra")]):
        s = os.path.basename(d)
        if args and not any(a in s for a in args):
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        p = d + "/patch.diff"
        r = subprocess.run(["git", "apply", p], cwd=w + "/repo")
        if r.returncode:
            print(s, "does not apply")
            continue
        out = []
        for q in (claimed if allp else [prop]):
            if q not in claimed:
                out.append(q + ":unclaimed")
                continue
            r = subprocess.run(["python3-vt", V + "/check.py", q, "quick"], cwd=V, env=dict(os.environ, LOKKY_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode or not allp:
                out.append("%s:%d %s" % (q, r.returncode, [l for l in r.stdout.split("\n") if l][0][:170]))
        subprocess.run(["git", "apply", "-R", p], cwd=w + "/repo", check=True)
        print(s, "|", "CAUGHT" if any(o.startswith(prop + ":1") for o in out) else "MISSED", "|", " ; ".join(out), flush=True)
finally:
    shutil.rmtree(w)
