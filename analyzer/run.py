"""Runs scenarios of the probe."""
import sys
import time
from strings import *


def finish(I, st, kind, zsrc=None):
    """Rules at the end of a scenario: every value and every block is accounted for."""
    if kind != "ret":
        return
    zm, zd = st.ghost.get("zmade", 0), st.ghost.get("zdrop", 0)
    if zd != 0 and not st.ge(zm, zd):
        raise Bug("double", "%s values without a size were destroyed or handed out but only %s were made" % (show(st.norm(zd)), show(st.norm(zm))))
    if st.ghost.get("panicked") or st.ghost.get("panic"):
        return
    if not st.eq(zm, zd):
        raise Bug("leak", "of %s values without a size only %s were destroyed or handed out" % (show(st.norm(zm)), show(st.norm(zd))))
    # Elements without a destructor need not be destroyed.
    per = {}
    for s, i, n in () if getattr(I.p, "nodrop", False) else st.created:
        per.setdefault(s, [0, 0])[0] = add(per.get(s, [0, 0])[0], n)
    for s, i, n in st.dropped + st.given:
        if s in per:
            per[s][1] = add(per[s][1], n)
    for s, (c, d) in per.items():
        if not st.eq(c, d):
            raise Bug("leak", "of %s values of %s only %s were destroyed or handed out" % (show(st.norm(c)), s, show(st.norm(d))))
    I.prove("C03", "all values accounted for")
    for o, h in st.heap.items():
        if h[3] == "live" and not st.ghost.get(("keep", o)):
            raise Bug("memleak", "a block of %s bytes is never given back" % show(st.norm(h[0])))
    I.prove("C08", "all blocks given back")


def run_entry(prog, name, bid, mode, unroll=3, limit=1500000, deadline=None):
    panics, nulls = {"plain": (0, 0), "panic": (1, 0), "null": (0, 1)}[mode]
    I = Interp(prog, unroll, panics, nulls, limit)
    I.deadline = deadline
    st = State()
    if "n" == name[0]:
        prog.nsym = I.fresh(st, "N", 0, 1 << 40)
    t0 = time.time()
    npaths = 0
    try:
        outs = I.call_body(st, bid, [])
    except Unsupported as e:
        I.nosup(str(e))
        outs = []
    except (Bug, Fork, Dead) as e:
        I.nosup("escaped %r" % (e,))
        outs = []
    ends = {}
    for kind, s, v in outs:
        npaths += 1
        ends[kind] = ends.get(kind, 0) + 1
        work = [s]
        while work:
            s = work.pop()
            try:
                finish(I, s, kind)
            except Fork as f:
                for alt in f.alts:
                    s2 = s.copy()
                    if s2.assume(alt):
                        work.append(s2)
            except Bug as b:
                I.stack = [(bid, [0])]
                I.report(s, b.cls, b.msg, b.when, b.prop)
                I.stack = []
    I.time = time.time() - t0
    I.ends = ends
    return I


if __name__ == "__main__":
    prog = Prog(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    modes = sys.argv[3].split(",") if len(sys.argv) > 3 else ["plain", "panic", "null"]
    for short, bid in prog.entries.items():
        if pat and not any(p in short for p in pat.split(",")):
            continue
        for mode in modes:
            I = run_entry(prog, short, bid, mode)
            print("%-28s %-6s ends=%s steps=%d %.2fs trunc=%d proved=%s" % (short, mode, I.ends, I.steps, I.time, I.truncated, sum(I.proved.values())))
            for k, v in I.unsup.items():
                print("   UNSUP x%d %s" % (v, k))
            for k, v in I.trunc.items():
                print("   TRUNC x%d %s" % (v, k))
            seen = {}
            for f in I.findings:
                k = (f.cls, f.msg, f.where)
                seen.setdefault(k, []).append(f)
            for k, fs in list(seen.items())[:8]:
                print("   FIND x%d %r soft=%s prop=%s" % (len(fs), fs[0], fs[0].soft, fs[0].props))
