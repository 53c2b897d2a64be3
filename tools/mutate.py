"""mutate.py OUT [file.rs ...]: plants small syntactic changes one at a time in copies of /repo; for each that
compiles and passes the tests, runs the scenarios that reach the changed function (and the rules) and writes to
OUT whether anything is reported.  Development aid: the quiet ones are read by hand."""
import os, re, sys, json, subprocess, shutil, time, tempfile, random, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
SWAP = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
        (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"&&", "||"), (r"\|\|(?= )", "&&"),
        (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\bAcquire\b", "Relaxed"), (r"\bRelease\b", "Relaxed"), (r"\bAcqRel\b", "Relaxed"), (r"\bAcquire\b", "Release"), (r"\bRelease\b", "Acquire"),
        (r"\bstrong", "weak"), (r"\bweak", "strong"), (r"\bdec_", "inc_"), (r"\binc_", "dec_"), (r"\bmax\(", "min("), (r"\.len\(\)", ".capacity()"),
        (r"\.capacity\(\)", ".len()"), (r"\bindex\b", "0"), (r"\bptr::copy\(", "ptr::copy_nonoverlapping("),
        (r"\bother\b", "self"), (r"\bself\.marker\(\)", "Default::default()"), (r"\bself\.alloc_marker", "AllocMarker::None"), (r"\bmarker\b", "Default::default()"),
        (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
        (r"is_stack\(\)", "is_heap()"), (r"\bStack\(", "Heap("), (r"\.next\(\)", ".next_back()"), (r"\.next_back\(\)", ".next()"),
        (r"\+= 1", "+= 0"), (r"\+= 1", "+= 2"), (r"\+=", "-="), (r"-=", "+="), (r"\bwrapping_add", "wrapping_sub"), (r"ManuallyDrop::new\((\w+)\)", r"\1"),
        (r"\+ Sync\b", ""), (r"\+ Send\b", ""), (r"Send \+ ", ""), (r"Sync \+ ", ""), (r": Send\b", ": Sized"), (r": Sync\b", ": Sized"), (r"\bLess\b", "Greater"),
        (r"\.unwrap_unchecked\(\)", ".unwrap()"), (r"\.checked_add\((\w+)\)", r".wrapping_add(\1).into()"), (r"old_layout", "new_layout"), (r"strong_count", "weak_count"),
        (r"\bas_ref\b", "as_mut"), (r"\bcount\b", "0"), (r"\blen\b(?!\()", "0"), (r"\bat\b", "0"), (r"\.\.=", ".."), (r"\?;", ".unwrap();")]


FAM = {"vec.rs": "s_z?(vec|into|drain)|s_wrap_vec|s_wrap_deref", "small_vec.rs": "n_", "string.rs": "s_str|s_wrap_str", "rc.rs": "s_rc|s_wrap_rc", "arc.rs": "s_(sh_)?arc|s_wrap_arc",
       "urc.rs": "s_(sh_)?urc|s_wrap_urc", "boxed.rs": "s_box|s_wrap_box", "ptr.rs": "s_ptr|s_box", "scope.rs": "s_scope|s_mark", "marker.rs": "s_rc|s_arc|s_urc|s_scope"}


def functions(lines):
    out, i = [], 0
    for i, l in enumerate(lines):
        m = re.match(r"(\s*)(pub(\(\w+\))? )?(unsafe )?(const )?fn (\w+)", l)
        if m:
            ind = m.group(1)
            j = i
            while j < len(lines) and not (lines[j].startswith(ind + "}") and len(lines[j].rstrip().rstrip(";")) == len(ind) + 1):
                if lines[j].rstrip().endswith(";") and j == i:
                    break
                j += 1
            out.append((i, j, m.group(6)))
    return out


def mutants(fn):
    L = open("/repo/src/" + fn).read().split("\n")
    end = next((i for i, l in enumerate(L) if re.match(r"\s*#\[cfg\(test\)\]", l)), len(L))
    fs = [f for f in functions(L) if f[0] < end]
    # test functions without a module
    bad = set()
    for a, b, n in fs:
        if any("#[test]" in L[k] for k in range(max(0, a - 3), a)):
            bad.update(range(a, b + 1))
    res = []
    for i in range(end):
        l = L[i]
        s = l.strip()
        if i in bad or not s or s.startswith(("//", "#", "use ", "mod ", "pub mod", "pub use")) or "trace!" in l or "debug_assert" in l:
            continue
        fnm = [f for f in fs if f[0] <= i <= f[1]]
        rng = (fnm[-1][0] + 1, fnm[-1][1] + 1) if fnm else (i + 1, i + 1)
        name = fnm[-1][2] if fnm else "-"
        seen = set()
        def add(kind, new, i=i, n=1):
            t = "\n".join(new)
            if t not in seen:
                seen.add(t)
                res.append((fn, i, n, kind, new, rng, name))
        code = l.split(" //")[0]
        for pat, rep in SWAP:
            for m in list(re.finditer(pat, code))[:2]:
                x = l[:m.start()] + m.expand(rep) + l[m.end():]
                if x != l:
                    add("%s->%s" % (pat, rep), [x])
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ".", "type ", "static", "const ")) and s.count("(") == s.count(")"):
            add("delete", [""])
        m = re.match(r"(\s*)(\} else )?if (?!let )(.*) \{$", l)
        if m:
            add("if true", ["%s%sif true {" % (m.group(1), m.group(2) or "")])
            add("if false", ["%s%sif false {" % (m.group(1), m.group(2) or "")])
            add("if not", ["%s%sif !(%s) {" % (m.group(1), m.group(2) or "", m.group(3))])
        # swap with the next statement (comments stay)
        if s.endswith(";") and not s.startswith("}"):
            j = i + 1
            while j < end and (not L[j].strip() or L[j].strip().startswith("//")):
                j += 1
            if j < end and L[j].strip().endswith(";") and len(L[j]) - len(L[j].lstrip()) == len(l) - len(l.lstrip()) and "trace!" not in L[j] and "debug_assert" not in L[j] and not L[j].strip().startswith(("}", ".")):
                add("swap", [L[j]] + L[i + 1:j] + [l], n=j - i + 1)
    return res


def coverage():
    """scenario -> lines of the library it interprets."""
    sys.path.insert(0, V); sys.path.insert(0, V + "/analyzer")
    import check, strings, interp, run
    w = tempfile.mkdtemp(prefix="lokky-mut-")
    check.compile_lib(w)
    path, lost = check.dump(w, check.probe_text())
    prog = strings.Prog(path)
    check._progs = {"": prog}
    shutil.rmtree(w)
    names = [n for n in prog.entries if re.match(r"[sn]_", n)]
    with mp.get_context("fork").Pool(8) as p:
        return dict(p.imap_unordered(cov1, names, 1))


def cov1(n):
    import check, interp, run
    c = {}
    o = interp.Interp.rvalue
    def rv(self, st, fr, r, d):
        b = fr[1]
        if b["crate"] == "lokky":
            c.setdefault(b["file"].split("/")[-1], set()).add(self.stack[-1][1][0])
        return o(self, st, fr, r, d)
    interp.Interp.rvalue = rv
    o2 = interp.Interp.terminator
    def tm(self, st, fr, t, ln):
        b = fr[1]
        if b["crate"] == "lokky":
            c.setdefault(b["file"].split("/")[-1], set()).add(ln[0])
        return o2(self, st, fr, t, ln)
    interp.Interp.terminator = tm
    t0 = time.time()
    for m in ("plain", "panic", "null"):
        run.run_entry(check._progs[""], n, check._progs[""].entries[n], m)
    interp.Interp.rvalue, interp.Interp.terminator = o, o2
    return n, (dict((k, sorted(v)) for k, v in c.items()), time.time() - t0)


def one(a):
    k, mu, cov = a
    fn, i, n, kind, new, rng, name = mu
    me = mp.current_process()._identity[0]
    d = "%s/w%d" % (W, me)
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call("cp -a /repo/. %s/" % d, shell=True)
    shutil.copy("/repo/src/" + fn, d + "/src/" + fn)
    p = d + "/src/" + fn
    L = open(p).read().split("\n")
    old = L[i:i + n]
    L[i:i + n] = new
    open(p, "w").write("\n".join(L))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="1")
    head = "%s:%d %s {%s}\n    - %s\n    + %s" % (fn, i + 1, name, kind, " / ".join(x.strip() for x in old), " / ".join(x.strip() for x in new))
    try:
        r = subprocess.run(["cargo", "test", "--offline", "-q", "--lib", "--no-run"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return k, "NOBUILD", head, ""
        try:
            r = subprocess.run(["cargo", "test", "--offline", "-q", "--lib"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
            if r.returncode:
                return k, "TESTED", head, ""
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-f", d + "/target"])
            return k, "TESTED", head, ""
        return (k,) + analyse(d, fn, rng, cov, head)
    finally:
        shutil.copy("/repo/src/" + fn, p)


def analyse(d, fn, rng, cov, head):
    r = subprocess.run([sys.executable, __file__, "--analyse", d, fn, str(rng[0]), str(rng[1])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    l = [x for x in r.stdout.split("\n") if x.startswith("RESULT ")]
    if not l:
        return "ERROR", head, r.stdout[-500:]
    x = json.loads(l[-1][7:])
    return x[0], head, x[1]


def analyse_main(d, fn, a, b):
    os.environ["LOKKY_REPO"] = d
    sys.path.insert(0, V); sys.path.insert(0, V + "/analyzer")
    import check, strings, rules
    cov = json.load(open(W + "/cov.json"))
    w = tempfile.mkdtemp(prefix="lokky-mut-")
    try:
        if check.compile_lib(w).returncode:
            return "NOBUILD", ""
        path, lost = check.dump(w, check.probe_text())
        und = set("lost " + x for x in lost)
        names = sorted((t, n) for n, (c, t) in cov.items() if any(a <= x <= b for x in c.get(fn, ())))
        # bodies inlined into the scenarios leave no trace: all of the family of the file
        fam = FAM.get(fn, "s_wrap")
        names += sorted((t, n) for n, (c, t) in cov.items() if re.match(fam, n) and (t, n) not in set(names))
        if path:
            check._progs = {"": strings.Prog(path)}
            check._deadline = time.time() + 300
            for t, n in names:
                if n not in check._progs[""].entries:
                    continue
                for m in check.ALL:
                    _, _, r = check.job(("", n, m, 5 if n.startswith("s_str") else 3))
                    if r is None:
                        und.add("gave up " + n)
                        continue
                    for u in r["unsup"]:
                        und.add(u)
                    for f in r["findings"]:
                        if f["props"] and not f["soft"]:
                            return "CAUGHT", "%s %s %s [%s] in %s/%s" % (",".join(f["props"]), f["cls"], f["msg"], f["where"], n, m)
        for p in sorted(rules.RULES):
            f, e, u = rules.RULES[p](w, check.REPO, V)
            for x in u: und.add(p + " rule: " + x)
            for x in f:
                if x.get("key") != "envelop-bounds":
                    return "CAUGHT", "rule %s %s" % (p, x["msg"])
        return ("UNDECIDED" if und else "QUIET"), "%d scenarios; %s" % (len(names), " ; ".join(sorted(und))[:500])
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    if sys.argv[1] == "--analyse":
        print("RESULT " + json.dumps(analyse_main(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))))
        sys.exit(0)
    out = sys.argv[1]
    os.makedirs(W, exist_ok=True)
    json.dump(coverage(), open(W + "/cov.json", "w"))
    files = sys.argv[2:] or sorted(x for x in os.listdir("/repo/src") if x not in ("test_log.rs", "macros.rs"))
    ms = [m for f in files for m in mutants(f)]
    random.Random(1).shuffle(ms)
    print(len(ms), "mutants")
    cnt = {}
    with open(out, "w") as o, mp.get_context("fork").Pool(int(os.environ.get("JOBS", "8"))) as p:
        for k, v, head, info in p.imap_unordered(one, [(k, m, None) for k, m in enumerate(ms)], 1):
            cnt[v] = cnt.get(v, 0) + 1
            if sum(cnt.values()) % 50 == 0:
                print(time.strftime("%H:%M:%S"), cnt, flush=True)
            if v not in ("NOBUILD", "TESTED"):
                o.write("%s %s\n    = %s\n" % (v, head, info)); o.flush()
    print(cnt)
