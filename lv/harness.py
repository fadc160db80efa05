"""Runs a check: generates cases in parallel worker processes, judges each, confirms and shrinks a failure,
writes the replay file and the evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import build
from .run import Tool
from .src import Src, Overrun, shrink

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")


class Fail(Exception):
    """the property does not hold for this case"""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Discard(Exception):
    pass


class Check:
    """One property. gen(src) makes a case (any object with .text for people); judge(case, wd, tool) raises
    Fail when the property does not hold; trivial(case) says whether it counts."""
    id = "?"
    rule = ""
    quick, thorough = 200, 4000
    assumptions = []
    shrink_budget = 200

    def gen(self, src):
        raise NotImplementedError

    def judge(self, case, wd, tool):
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def sample(self, case):
        return str(getattr(case, "text", case))[:1500]

    def key(self, case):
        return self.sample_full(case)

    def sample_full(self, case):
        return str(getattr(case, "text", case))

    def features(self, case):
        """names counted in the evidence"""
        return ()


_check = _tool = None


def _init(check_factory, tree):
    global _check, _tool
    _check = check_factory()
    _tool = Tool(tree)
    sys.setrecursionlimit(20000)


def scratch():
    return tempfile.mkdtemp(prefix="lv-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)


def one(check, tool, src):
    """-> (case, Fail or None); raises Discard"""
    try:
        case = check.gen(src)
    except Overrun:
        raise Discard()
    if case is None:
        raise Discard()
    wd = scratch()
    try:
        check.judge(case, wd, tool)
        return case, None
    except Fail as f:
        return case, f
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def seed_of(seed, cid, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (seed, cid, i)).encode()).digest()[:8], "big")


def _work(job):
    seed, i = job
    src = Src(seed=seed_of(seed, _check.id, i))
    try:
        case, fail = one(_check, _tool, src)
    except Discard:
        return i, "discard", None, None, None, None
    except Exception:
        return i, "error", traceback.format_exc(), list(src.rec), None, None
    key = hashlib.sha256(_check.key(case).encode("utf8", "replace")).hexdigest()
    nt = bool(_check.nontrivial(case))
    if fail is None:
        return i, "ok", key, nt, list(_check.features(case)), (_check.sample(case) if i < 40 else None)
    return i, "fail", key, nt, list(src.rec), (fail.kind, fail.detail)


def confirm(check, tool, rec, kind, times=3):
    """the same kind of failure every time"""
    for _ in range(times):
        try:
            _, f = one(check, tool, Src(choices=rec))
        except Discard:
            return False
        if f is None or f.kind != kind:
            return False
    return True


def known(cid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == cid and k.get("status") != "fixed"]


def replay(check_factory, path):
    d = json.load(open(path))
    check, tool = check_factory(), Tool(build.build())
    sys.setrecursionlimit(20000)
    case, f = one(check, tool, Src(choices=d["choices"]))
    print(check.sample_full(case))
    if f:
        print("FAILS:", f.kind)
        print(f.detail)
        return 1
    print("holds")
    return 0


def main(check_factory, tier, seed, count=None, jobs=8, start=0):
    t0 = time.time()
    check = check_factory()
    tree = build.build()
    tool = Tool(tree)
    sys.setrecursionlimit(20000)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    n = count or (check.quick if tier == "quick" else check.thorough)
    stats = {"ok": 0, "discard": 0, "error": 0, "fail": 0, "flaky": 0}
    keys, nontriv, feats, samples, errors = set(), set(), {}, [], []
    violation = None
    failures = []
    known_lines = []
    for k in known(check.id):
        if check.known_fails(k, tool):
            known_lines.append("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    extra = {}
    if hasattr(check, "fixed_cases"):
        # deterministic cases that every run includes
        for name, f in check.fixed_cases(tool):
            extra["fixed_cases"] = extra.get("fixed_cases", 0) + 1
            if f is not None and violation is None:
                violation = (name, f)
    pool = mp.Pool(jobs, _init, (check_factory, tree))
    try:
        for r in pool.imap_unordered(_work, [(seed, i) for i in range(start, start + n)],
                                     chunksize=max(1, min(8, n // 64))):
            if violation:
                break
            i, st = r[0], r[1]
            stats[st] += 1
            if st == "error":
                errors.append(r[2])
                if len(errors) > 20:
                    break
            elif st in ("ok", "fail"):
                keys.add(r[2])
                if r[3]:
                    nontriv.add(r[2])
                if st == "ok":
                    for f in r[4]:
                        feats[f] = feats.get(f, 0) + 1
                    if r[5] is not None and r[3] and len(samples) < 3:
                        samples.append(r[5])
                else:
                    failures.append((i, r[4], r[5]))
                    if len(failures) >= 4:
                        break
    finally:
        pool.terminate()
        pool.join()
    failures.sort(key=lambda f: len(f[1]))
    for i, rec, (kind, detail) in failures:
        if violation:
            break
        if confirm(check, tool, rec, kind):
            violation = shrunk(check, tool, rec, kind, seed, i, evdir)
        else:
            stats["flaky"] += 1
    if violation and len(violation) == 2 and isinstance(violation[1], Fail):
        path = os.path.join(evdir, "replay-%s.json" % check.id)
        json.dump({"property": check.id, "fixed_case": violation[0], "kind": violation[1].kind,
                   "detail": violation[1].detail}, open(path, "w"), indent=1)
        violation = (path, violation[1].kind, violation[1].detail, violation[0])
    ev = {
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["ok"] + stats["fail"], "distinct_nontrivial": len(nontriv),
            "distinct": len(keys), "discarded": stats["discard"], "not_reproduced": stats["flaky"],
            "rule": check.rule, "samples": samples, "features": dict(sorted(feats.items())), **extra,
        },
        "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(evdir, check.id + ".json"), "w"), indent=1)
    for l in known_lines:
        print(l)
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (
        check.id, stats["ok"] + stats["fail"], len(nontriv), stats["discard"], time.time() - t0))
    if violation:
        path, kind, detail, text = violation
        print("%s\n--- %s\n%s" % (text, kind, detail))
        print("VIOLATION property=%s replay=%s" % (check.id, os.path.relpath(path, HERE)))
        return 1
    if errors:
        sys.stderr.write(errors[0])
        print("the check itself failed %d times" % len(errors))
        return 3
    if not nontriv:
        print("nothing was explored")
        return 3
    return 0


def shrunk(check, tool, rec, kind, seed, i, evdir):
    def fails(c):
        src = Src(choices=c)
        try:
            _, f = one(check, tool, src)
        except Discard:
            return None
        except Exception:
            return None
        return list(src.rec) if f is not None and f.kind == kind else None

    best = shrink(rec, fails, check.shrink_budget)
    case, f = one(check, tool, Src(choices=best))
    if f is None:
        best = rec
        case, f = one(check, tool, Src(choices=best))
    detail = f.detail if f else "?"
    path = os.path.join(evdir, "replay-%s.json" % check.id)
    json.dump({"property": check.id, "seed": seed, "case": i, "kind": kind, "detail": detail, "choices": best,
               "text": check.sample_full(case)}, open(path, "w"), indent=1)
    return path, kind, detail, check.sample_full(case)
