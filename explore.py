#!/usr/bin/env python3
"""explore.py ID N: runs N cases and lists the distinct failures (development aid)"""
import sys, os, re, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lv import harness, build
from lv.src import Src, shrink
import check
cid, n = sys.argv[1], int(sys.argv[2])
seed = int(os.environ.get("VERIF_SEED", "1"))
f = check.factory(cid)
tree = build.build()
pool = mp.Pool(8, harness._init, (f, tree))
kinds = {}
st = {}
for r in pool.imap_unordered(harness._work, [(seed, i) for i in range(n)], chunksize=4):
    st[r[1]] = st.get(r[1], 0) + 1
    if r[1] == "error":
        kinds.setdefault("ERROR " + r[2].strip().split("\n")[-1], []).append((r[3], r[2]))
    if r[1] == "fail":
        kind, detail = r[5]
        k = kind
        if kind.startswith("compiler"):
            d = re.sub(r"\d+", "#", detail.split(":", 1)[-1])
            m = re.search(r"(Error: [^\n]*|[^\n]*(ICE|nexpected|xpect)[^\n]*)", d)
            k += " | " + (m.group(0) if m else d[:160])
        kinds.setdefault(k, []).append((r[4], detail))
pool.terminate()
print(st)
for k, v in sorted(kinds.items(), key=lambda x: -len(x[1])):
    print("==", len(v), k)
c, tool = f(), harness.Tool(tree)
sys.setrecursionlimit(20000)
show = int(sys.argv[3]) if len(sys.argv) > 3 else 1
skip = int(sys.argv[4]) if len(sys.argv) > 4 else 0
for k, v in sorted(kinds.items(), key=lambda x: -len(x[1]))[skip:skip + show]:
    v.sort(key=lambda x: len(x[0]))
    if k.startswith("ERROR"):
        print(v[0][1]); continue
    rec, detail = v[0]
    kind0 = k
    def sig(fl):
        k = fl.kind
        if fl.kind.startswith("compiler"):
            d = re.sub(r"\d+", "#", fl.detail.split(":", 1)[-1])
            m = re.search(r"(Error: [^\n]*|[^\n]*(ICE|nexpected|xpect)[^\n]*)", d)
            k += " | " + (m.group(0) if m else d[:160])
        return k
    def fails(ch):
        s = Src(choices=ch)
        try:
            _, fl = harness.one(c, tool, s)
        except Exception:
            return None
        return list(s.rec) if fl is not None and sig(fl) == kind0 else None
    best = shrink(rec, fails, int(os.environ.get("BUDGET", "400")))
    case, fl = harness.one(c, tool, Src(choices=best))
    print("#" * 70); print(k); print(c.sample_full(case)); print(fl.detail[:1500] if fl else None)
    open("/tmp/s/last.pas", "w", encoding="latin1").write(getattr(case, "text", ""))
