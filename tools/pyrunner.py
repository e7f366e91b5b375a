#!/usr/bin/env python3
"""Runs the Hypothesis-driven checks of the application.
pyrunner.py ID OUT.json SCRATCH SECONDS | pyrunner.py ID --replay FILE

A module pychecks/ID.py has PARTS: a list of dicts(name, strategy, check, quick, thorough). A strategy draws a case that is plain
JSON; check(case, ctx) raises Violation, or Discard, and tells ctx what it compared."""
import importlib, json, multiprocessing, os, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, "pychecks")]
import vbuild
from appkit import Violation, Discard, Context

WORKERS = os.cpu_count() or 4


def worker(args):
    pid, name, k, n, seed, scratch, deadline = args
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    mod = importlib.import_module(pid)
    part = next(p for p in mod.PARTS if p["name"] == name)
    d = tempfile.mkdtemp(prefix="%s-%s-%d-" % (pid, name, k), dir=scratch)
    ctx = Context(d)
    st = {"evaluations": 0, "oracle_checks": 0, "labels": {}, "discarded": {}, "samples": []}
    seen, last = set(), {}

    def body(case):
        if time.time() > deadline and not last:
            return
        ctx.reset()
        if not last:
            st["evaluations"] += 1
        try:
            part["check"](case, ctx)
        except Discard as e:
            if not last:
                st["discarded"][str(e)] = st["discarded"].get(str(e), 0) + 1
            return
        except Violation as e:
            last.update(case=case, message=str(e))
            raise
        finally:
            ctx.clean()
        if last:
            return
        st["oracle_checks"] += ctx.checks
        for l in ctx.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if ctx.nontrivial:
            seen.add(hash(json.dumps(case, sort_keys=True)))
            if len(st["samples"]) < 2:
                st["samples"].append({"case": json.loads(json.dumps(case, default=str)[:4000]) if len(json.dumps(case)) < 4000 else json.dumps(case)[:1500]})

    test = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(given(part["strategy"])(body))
    test = hseed(seed * 1009 + k)(test)
    error = None
    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        if not last:
            error = "".join(traceback.format_exception(e))[-3000:]
    shutil.rmtree(d, ignore_errors=True)
    st["distinct_nontrivial"] = len(seen)
    return name, k, st, dict(last) or None, error


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid)
    if sys.argv[2] == "--replay":
        r = json.load(open(sys.argv[3]))
        mod.prepare()
        part = next(p for p in mod.PARTS if p["name"] == r["part"])
        d = tempfile.mkdtemp(prefix="replay-")
        try:
            part["check"](r["case"], Context(d))
        except Violation as e:
            print("%s/%s: %s" % (pid, r["part"], e))
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[3]))
            return 1
        except Discard as e:
            print("discarded: %s" % e)
            return 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print("the case passes")
        return 0
    out, scratch, seconds = sys.argv[2], sys.argv[3], float(sys.argv[4])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    res = {"parts": {}, "violations": [], "notes": []}
    try:
        mod.prepare()
    except vbuild.BuildError as e:
        json.dump(dict(res, error="the application does not build against this tree\n%s" % e), open(out, "w"))
        return 0
    jobs = []
    for p in mod.PARTS:
        n = p[tier]
        w = max(1, min(WORKERS, n))
        for k in range(w):
            jobs.append((pid, p["name"], k, (n + w - 1) // w, seed, scratch, t0 + seconds * 0.85))
    errors = []
    with multiprocessing.Pool(WORKERS) as pool:
        for name, k, st, fail, error in pool.imap_unordered(worker, jobs, chunksize=1):
            t = res["parts"].setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "oracle_checks": 0, "labels": {}, "discarded": {}, "samples": []})
            for q in ("evaluations", "distinct_nontrivial", "oracle_checks"):
                t[q] += st[q]
            for q in ("labels", "discarded"):
                for a, b in st[q].items():
                    t[q][a] = t[q].get(a, 0) + b
            t["samples"] = (t["samples"] + st["samples"])[:2]
            if error:
                errors.append("%s/%s: %s" % (pid, name, error))
            if fail:
                part = next(p for p in mod.PARTS if p["name"] == name)
                # what was found must fail again in a fresh directory
                again = 0
                for _ in range(3):
                    d = tempfile.mkdtemp(prefix="again-", dir=scratch)
                    try:
                        part["check"](fail["case"], Context(d))
                    except Violation as e:
                        again += 1
                        fail["message"] = str(e)
                    except Discard:
                        pass
                    shutil.rmtree(d, ignore_errors=True)
                if again:
                    res["violations"].append({"part": name, "index": k, "seed": seed, "property": pid, **fail})
                else:
                    res["notes"].append("a case of %s failed once and never again: %s" % (name, fail["message"][:300]))
                if len(res["violations"]) >= 1:
                    pool.terminate()
                    break
    if errors and not res["violations"]:
        res["error"] = errors[0]
    json.dump(res, open(out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
