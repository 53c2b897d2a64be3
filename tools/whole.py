"""whole.py [REPO]: every scenario in every mode once and every rule; prints what any check would report."""
import os, sys, re, tempfile, shutil, time, collections, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 1:
    os.environ["LOKKY_REPO"] = sys.argv[1]
sys.path.insert(0, V); sys.path.insert(0, V + "/analyzer")
import check, json
t0 = time.time()
w = tempfile.mkdtemp(prefix="lokky-whole-")
try:
    text = check.probe_text()
    check.compile_lib(w)
    check._progs, lost = check.variants(w, text, os.environ["VARIANTS"].split(",") if "VARIANTS" in os.environ else list(check.VARIANTS))
    und = collections.Counter(lost)
    import strings, rules
    finds = []
    res = []
    if check._progs:
        check._deadline = t0 + 1800
        names = [n for n in check.functions(text) if re.match(r"[sn]_", n) and re.search(os.environ.get("FILTER", ""), n)]
        check.wanted = lambda p, n: check.ALL
        jobs = check.plan("", os.environ.get("TIER", "quick"), names)
        jobs.sort(key=check.order)
        with mp.get_context("fork").Pool(int(os.environ.get("JOBS", "8"))) as pool:
            res = list(pool.imap_unordered(check.job, jobs, 1))
    trunc = wid = 0
    for n, m, d in res:
        if d is None:
            und[n + " gave up"] += 1; continue
        trunc += d["truncated"]; wid += d["accelerated"]
        for k in d["unsup"]:
            und[k] += 1
        for f in d["findings"]:
            finds.append((n, m, f))
    for p in sorted(rules.RULES):
        f, e, u = rules.RULES[p](w, check.REPO, V)
        for x in u: und[p + " rule: " + x] += 1
        for x in f:
            if x.get("key") != "envelop-bounds":
                finds.append((p + " rule", "", dict(x, props=[p], soft=False)))
    g = collections.OrderedDict()
    for n, m, f in finds:
        g.setdefault((f["cls"], f["where"], f["msg"], f["soft"]), []).append((n, m, f))
    for (c, wh, msg, soft), l in g.items():
        ps = sorted(set(p for _, _, f in l for p in f["props"]))
        print("%s %s: %s [%s] %s in %d: %s" % ("soft" if soft else "ALARM", c, msg, wh, ",".join(ps), len(l), ", ".join("%s/%s" % (n, m) for n, m, f in l[:4])))
        if not soft:
            print("     when", l[0][2].get("wit"))
    for k, v in und.most_common(30):
        print("undecided x%d: %s" % (v, k[:300]))
    print("%d analyses, %d alarms, %d undecided, %d cut, %d accelerated, %.0f s" % (len(res), sum(1 for k in g if not k[3]), sum(und.values()), trunc, wid, time.time() - t0))
finally:
    shutil.rmtree(w)
