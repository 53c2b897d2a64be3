#!/usr/bin/env python3
"""Static check of one property of max-ym/lokky: `check.py PROPERTY`.

Compiles /repo's current source to metadata, dumps the typed MIR of everything the scenarios of
the probe reach, and interprets it abstractly."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LOKKY_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "analyzer"))
FLAGS = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Cpanic=unwind", "-Awarnings", "--edition", "2021"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def build_driver(verbose=False):
    out = os.path.join(HERE, ".build", "lokky-driver")
    src = os.path.join(HERE, "driver", "main.rs")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    r = sh(["rustc", "+nightly", "-O", "--edition", "2021", "-o", tmp, src])
    if r.returncode:
        print(r.stderr)
        sys.exit(2)
    os.rename(tmp, out)
    return out


def cfgs():
    """Features that are enabled by default in the analysed configuration."""
    return []


# Configurations that are analysed: the optimised build with elements of ordinary size and, less deeply, the debug
# build (debug assertions and arithmetic overflow checks compiled in), elements of one byte, and elements of more than
# a kilobyte that need more alignment than any other type, elements without a destructor.
DEBUG = ["-Coverflow-checks=on", "-Cdebug-assertions=on", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"]
VARIANTS = {"": [], "debug": DEBUG, "small": [], "large": [], "nodrop": []}


def variant_text(text, variant):
    if variant == "small":
        return text.replace("_p: [u64; 3],", "_p: [u8; 1],", 1)
    if variant == "large":
        return text.replace("pub struct T {\n    _p: [u64; 3],", "#[repr(align(64))]\npub struct T {\n    _p: [u64; 256],", 1)
    if variant == "nodrop":
        return text.replace("impl Drop for T {", "impl Undropped for T {", 1).replace("impl Clone for T {", "pub trait Undropped {\n    fn drop(&mut self);\n}\nimpl Clone for T {", 1)
    return text


def variant_has(variant, name):
    """Scenarios in which the variant can make a difference."""
    return variant in ("", "debug") or not re.match(r"s_str|s_mark|s_scope|[sn]_z|s_wrap_str", name)


def compile_lib(work, extra=()):
    r = sh(["rustc", "+nightly", "--crate-name", "lokky"] + FLAGS + list(extra) + ["--crate-type", "rlib", "--emit=metadata", "-o", os.path.join(work, "liblokky.rmeta"), os.path.join(REPO, "src/lib.rs")])
    return r


def functions(text):
    """Line ranges of the free functions of the probe: name -> (first, last)."""
    out = {}
    cur = None
    for i, l in enumerate(text.split("\n")):
        m = re.match(r"(?:pub )?(?:unsafe )?fn (\w+)", l)
        if m:
            cur = (m.group(1), i)
        if l.startswith("}") and cur:
            out[cur[0]] = (cur[1], i)
            cur = None
    return out


def dump(work, text, extra=()):
    """Compile the probe and dump it. Functions that do not compile against the current library
    are left out. Returns the path of the dump and the names left out."""
    S = sysroot()
    drv = build_driver()
    src = os.path.join(work, "probe.rs")
    lost = []
    for _ in range(12):
        open(src, "w").write(text)
        env = dict(os.environ, LD_LIBRARY_PATH=S + "/lib", DUMP_OUT=os.path.join(work, "dump.json"), DUMP_STOPS=os.path.join(HERE, "driver", "stops.txt"))
        r = sh([drv, "--sysroot", S, "--crate-name", "probe"] + FLAGS + list(extra) + ["--error-format=json", "--crate-type", "rlib", "--emit=metadata", "--extern", "lokky=" + os.path.join(work, "liblokky.rmeta"), "--out-dir", work, src], env=env)
        if r.returncode == 0:
            return os.path.join(work, "dump.json"), lost
        fns = functions(text)
        bad = set()
        for l in r.stderr.split("\n"):
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("level") != "error":
                continue
            for sp in d["spans"]:
                if sp["file_name"] == src:
                    for n, (a, b) in fns.items():
                        if a <= sp["line_start"] - 1 <= b:
                            bad.add(n)
        if not bad:
            return None, [r.stderr[-2000:]]
        ls = text.split("\n")
        for n in bad:
            a, b = fns[n]
            for k in range(a, b + 1):
                ls[k] = ""
        lost += sorted(bad)
        text = "\n".join(ls)
    return None, lost


def variants(work, text, names):
    """Dump of the program in each of the variants."""
    import strings as models
    progs, lost = {}, []
    for v in names:
        w = os.path.join(work, "v" + v)
        os.makedirs(w, exist_ok=True)
        if compile_lib(w, VARIANTS[v]).returncode:
            lost.append("the library does not compile in the variant " + v)
            continue
        path, l = dump(w, variant_text(text, v), VARIANTS[v])
        lost += ["does not compile against the current library: " + x for x in l]
        if path:
            progs[v] = models.Prog(path)
            progs[v].nodrop = v == "nodrop"
            os.unlink(path)
    return progs, lost


# ------------------------------------------------------------------ properties of a finding

FAMILY = [
    (r"s_vec_(retain|dedup)", ["C07"]),
    (r"n_sv_(retain|dedup)", ["C02", "C07"]),
    (r"s_vec|z_vec|s_zvec", ["C01"]),
    (r"s_into_iter|s_drain|n_sv_drain|s_zinto|s_zdrain", ["C06"]),
    (r"n_sv|n_zsv", ["C02"]),
    (r"s_box|s_ptr", ["C24"]),
    (r"s_sh_arc", ["C15", "C14"]),
    (r"s_sh_urc", ["C15", "C16"]),
    (r"s_rc", ["C13"]),
    (r"s_arc", ["C14"]),
    (r"s_urc", ["C16"]),
    (r"s_scope", ["C19"]),
    (r"s_str", ["C21"]),
    (r"s_mark", ["C26"]),
    (r"[sn]_wrap", ["C22"]),
]
MEM = ("oob", "wild", "dangling", "overlap", "overflow", "ub", "uninit")


def family(name):
    for r, p in FAMILY:
        if re.match(r, name):
            return p
    return []


def props_of(f, name):
    fam = family(name)
    ps = set()
    if f.props:
        ps.add(f.props)
    c = f.cls
    life = [p for p in fam if p in ("C06", "C07", "C13", "C14", "C15", "C16", "C24")]
    if c in ("double", "stale", "leak"):
        ps.add("C04" if f.panicked else "C03")
        ps.update(life)
    elif c in MEM:
        ps.add("C05")
        if f.panicked:
            ps.add("C04")
        ps.update(fam)
    elif c == "uaf":
        ps.update(["C05", "C08"])
        ps.update(life)
    elif c in ("foreign", "double_free", "wrong_alloc", "layout", "memleak"):
        ps.add("C08")
        ps.update(p for p in fam if p in ("C13", "C14", "C15", "C16", "C24"))
    elif c in ("zero", "toolarge"):
        ps.add("C09")
    elif c == "null":
        ps.update(["C10", "C05"])
    elif c == "marker":
        ps.add("C11")
    elif c == "utf8":
        ps.add("C20")
    elif c in ("list", "hang"):
        ps.update(fam)
    if f.failed:
        if c in ("claim", "list", "double", "stale", "leak", "memleak", "uaf", "foreign", "double_free", "null") + MEM:
            ps.add("C10")
    if f.failed or f.panicked:
        if c in ("double", "stale", "uaf", "double_free") + MEM:
            ps.add("C04")
    if "envelop" in name and ps & {"C14", "C16"}:
        ps.add("C18")
    if "C01" in ps and fam == ["C01"] and c == "uninit" and f.panicked:
        ps.discard("C01")
    return ps


# Modes in which the scenarios of a family are analysed for a property.
ALL = ("plain", "panic", "null")


def wanted(prop, name):
    fam = family(name)
    if prop in ("C03", "C05", "C08", "C09", "C11"):
        return ALL
    if prop == "C04":
        return ("panic", "null")
    if prop == "C10":
        return ("plain", "null")
    if prop in fam or (prop == "C12" and "C02" in fam) or (prop == "C17" and fam and fam[0] in ("C13", "C14", "C15", "C16")) or (prop == "C20" and "C21" in fam) or (prop == "C22" and "C26" in fam) or (prop == "C18" and "envelop" in name):
        return ALL
    return ()


_progs = {}
_deadline = None


def job(a):
    variant, name, mode, unroll = a
    import run
    prog = _progs[variant]
    try:
        I = run.run_entry(prog, name, prog.entries[name], mode, unroll, deadline=_deadline)
    except RecursionError:
        return name, mode, None
    if variant:
        mode += ", " + variant
    fs = [dict(cls=f.cls, msg=f.msg, where=f.where, stack=f.stack, wit=f.wit, soft=f.soft, props=sorted(props_of(f, name))) for f in I.findings]
    return name, mode, dict(findings=fs, unsup=I.unsup, trunc=I.trunc, truncated=I.truncated, steps=I.steps, ends=I.ends, proved={"%s: %s" % k: v for k, v in I.proved.items()}, calls=sorted(I.calls), time=I.time, widened=I.widened, accelerated=I.accelerated)


def main():
    global _deadline
    prop = sys.argv[1]
    if prop == "--setup":
        build_driver()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    _deadline = t0 + (600 if tier == "quick" else 780)
    work = tempfile.mkdtemp(prefix="lokky-check-")
    try:
        code = check(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def probe_text():
    fs = ["base.rs"] + sorted(f for f in os.listdir(os.path.join(HERE, "probe")) if f.endswith(".rs") and f != "base.rs" and not f.startswith("w_"))
    return "\n".join(open(os.path.join(HERE, "probe", f)).read() for f in fs)


def order(j):
    """The long analyses first; the variants last."""
    return (1 if j[0] else 0, 0 if "steps" in j[1] or "dedup" in j[1] else 1, 0 if j[2] == "panic" else 1)


def plan(prop, tier, names):
    """Analyses of a check: variant, scenario, mode, rounds of a loop."""
    jobs = []
    for v in _progs:
        for n in names:
            if n not in _progs[v].entries or not variant_has(v, n):
                continue
            modes = wanted(prop, n)
            if v and tier == "quick":
                modes = [m for m in modes if m == "plain" or len(modes) == 1][:1] if "steps" not in n else []
            unroll = 5 if n.startswith("s_str") or (tier != "quick" and not v) else 3
            jobs += [(v, n, m, unroll) for m in modes]
    return jobs


def check(prop, tier, seed, t0, work):
    global _progs
    findings = []
    undecided = []
    ev = {}
    r = compile_lib(work)
    if r.returncode:
        print("the library does not compile:\n" + r.stderr[-3000:])
        return 2
    import rules
    if prop in rules.RULES:
        f, e, u = rules.RULES[prop](work, REPO, HERE)
        findings += f
        ev.update(e)
        undecided += u
    jobs = []
    text = probe_text()
    names = [n for n in functions(text) if re.match(r"[sn]_", n) and wanted(prop, n)]
    if names:
        _progs, lost = variants(work, text, list(VARIANTS))
        undecided += lost
        jobs = plan(prop, tier, names)
    res = []
    if jobs:
        jobs.sort(key=order)
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            res = list(pool.imap_unordered(job, jobs, 1))
    calls = set()
    proved = {}
    steps = paths = trunc = widened = accel = 0
    ends = {}
    for name, mode, d in res:
        if d is None:
            undecided.append("%s (%s): analysis gave up" % (name, mode))
            continue
        calls.update(d["calls"])
        steps += d["steps"]
        widened += d["widened"]
        accel += d["accelerated"]
        for k, v in d["ends"].items():
            paths += v
            ends[k] = ends.get(k, 0) + v
        trunc += d["truncated"]
        for k, v in d["proved"].items():
            if k.startswith(prop):
                proved[k] = proved.get(k, 0) + v
        for k, v in d["unsup"].items():
            undecided.append("%s (%s): %s (x%d)" % (name, mode, k, v))
        for f in d["findings"]:
            if prop in f["props"] and not f["soft"]:
                f["scenario"] = "%s (%s)" % (name, mode)
                findings.append(f)
            elif prop in f["props"]:
                undecided.append("%s (%s): %s at %s (no witness)" % (name, mode, f["msg"], f["where"]))
    known = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m:
            known.append(m.groups())
    groups = {}
    for f in findings:
        fn = re.sub(r"^\S+:\d+ ?", "", f["where"])
        key = f.get("key") or "%s@%s" % (f["cls"], fn)
        groups.setdefault(key, []).append(f)
    rep = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rep, f))
    bad = 0
    for i, (key, fs) in enumerate(sorted(groups.items())):
        k = [x for x in known if x[0] == prop and x[1] == key]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
            continue
        bad += 1
        path = os.path.join(rep, "%s-%d.txt" % (prop, bad))
        with open(path, "w") as o:
            o.write("property %s: %s\n" % (prop, key))
            for f in fs[:6]:
                o.write("\n%s: %s\n  at %s\n" % (f["cls"], f["msg"], f["where"]))
                for x, t in (("scenario", "scenario"), ("stack", "call chain"), ("wit", "when")):
                    if f.get(x):
                        o.write("  %s: %s\n" % (t, f[x]))
        f = fs[0]
        print("%s: %s [%s]%s" % (f["cls"], f["msg"], f["where"], " in " + f["scenario"] if f.get("scenario") else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    cov = {
        "explanation": EXPL,
        "scenarios": len(set(n for n, m, d in res)),
        "analyses": len(res),
        "variants": sorted(v or "release" for v in _progs),
        "paths_to_an_end": paths,
        "ends": ends,
        "abstract_steps": steps,
        "library_functions_interpreted": len(calls),
        "functions": sorted(calls)[:400],
        "obligations_discharged": proved,
        "repetitions_generalised": widened,
        "loops_accelerated": accel,
        "loops_cut": trunc,
        "undecided": undecided[:60],
        "undecided_count": len(undecided),
    }
    if not res:
        for k in ("scenarios", "analyses", "paths_to_an_end", "ends", "abstract_steps", "library_functions_interpreted", "functions", "obligations_discharged", "loops_cut", "loops_accelerated", "repetitions_generalised", "variants"):
            cov.pop(k)
        cov["explanation"] = EXPL_RULES
    cov.update(ev)
    out = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": bad}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(out, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d analyses, %d paths, %d library functions, %d undecided, %d violations, %.1f s" % (prop, len(res), paths, len(calls), len(undecided), bad, time.time() - t0))
    return 1 if bad else 0


EXPL = "Abstract interpretation of the type-checked MIR of /repo's current source: every scenario applies operations of the library to an arbitrary container (symbolic length, capacity, index, element identity, marker) and each path's abstract end state is compared with the meaning stated by the property. A finding is reported only when the violated fact is definite on its path."
EXPL_RULES = "Rules decided by the compiler's own checks on the current source (see the rule and its counts)."
ASSUME = ["MIR of the nightly compiler at opt-level 0 is the meaning of the source", "elements of 24, 1 and 2048 bytes (align 8, 1 and 64) stand for all elements that have a size, lengths and capacities are below 2^40 where no failing request is analysed", "loops are followed for a bounded number of rounds (loops_cut) unless an induction step was shown for them (loops_accelerated)"]

if __name__ == "__main__":
    main()
