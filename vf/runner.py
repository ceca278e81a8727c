"""Runs one check: enumerated cases, then generated ones, on several processes; shrinks failures; writes the evidence.

A check module (vf/checks/cXX.py) provides
    PROPERTY, RULE (what counts as non-trivial), ASSUMPTIONS (list), TECHNIQUE notes
    case(src) -> Out             one generated case; every decision is drawn from `src`
    enumerated(tier) -> list     optional fixed cases: (label, zero-argument function -> Out)
    COUNTS = {"quick": n, "thorough": n}
    KNOWN = {finding id: zero-argument function -> True while the finding is still there}   (optional)
"""
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback

from .gen import Src

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(EVID, "replays")
KNOWN_FILE = os.path.join(ROOT, "known_findings.json")
CASE_LIMIT = 120          # seconds: one case takes milliseconds; more than this is a hang
GUARD = {"quick": 300, "thorough": 3000}
SHRINK_SECONDS = {"quick": 20, "thorough": 60}


class Violation(Exception):
    pass


class Out:
    """Outcome of one case."""
    __slots__ = ("fail", "nontrivial", "key", "sample", "labels", "discard")

    def __init__(self, sample=None, nontrivial=True, key=None, labels=(), fail=None, discard=False):
        self.sample, self.nontrivial, self.labels, self.fail, self.discard = sample, nontrivial, labels, fail, discard
        self.key = key if key is not None else sample


class HarnessError(Exception):
    """Something is wrong with the checking machinery or the environment, not with the code under test."""


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def fail(detail):
    raise Violation(detail)


def require(cond, detail):
    if not cond:
        raise Violation(detail() if callable(detail) else detail)


VF = os.path.dirname(os.path.abspath(__file__))
GENERATORS = {os.path.join(VF, "gen.py"), os.path.join(VF, "mutate.py")}


def run_one(fn):
    """Run one case; any exception of the case other than HarnessError is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        out = fn()
        if out is None:
            out = Out()
        return out
    except Violation as e:
        return Out(fail=str(e))
    except (HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except _Timeout:
        return Out(fail=f"did not finish within {CASE_LIMIT} s")
    except RecursionError:
        return Out(fail="recursion limit exceeded: " + traceback.format_exc(limit=-3))
    except Exception as e:
        from .sut import SutError
        if isinstance(e, SutError):
            return Out(fail=str(e))
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if files[-1].startswith(VF) and any(f in GENERATORS for f in files):  # no verdict on treeno: it was not called
            return Out(discard=True, labels=["generator error"])
        return Out(fail="unexpected " + "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-6)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def case_seed(prop, seed, i):
    return int.from_bytes(hashlib.sha256(f"{prop}/{seed}/{i}".encode("utf-8", "surrogatepass")).digest()[:8], "big")


def digest(x):
    return hashlib.blake2b(str(x).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def take(counter, total, chunk):
    """Indices below total not taken by another worker."""
    while True:
        with counter.get_lock():
            start = counter.value
            counter.value = start + chunk
        if start >= total:
            return
        yield from range(start, min(start + chunk, total))


def worker(mod, cases, next_enum, next_gen, tier, seed, path, t_end):
    res = {"enumerated": 0, "generated": 0, "discarded": 0, "keys": set(), "samples": [], "gsamples": [], "labels": {}, "fail": None,
           "error": None, "stopped": False, "nontrivial": 0}
    try:
        def note(out, samples, room):
            if out.discard:
                res["discarded"] += 1
                return
            if out.nontrivial:
                res["nontrivial"] += 1
                res["keys"].add(digest(out.key))
                if out.sample is not None and len(samples) < room and len(str(out.sample)) < 700:
                    samples.append(str(out.sample))
            for l in out.labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
        for i in take(next_enum, len(cases), 16):
            label, fn = cases[i]
            if time.time() > t_end:
                res["stopped"] = True
                break
            out = run_one(fn)
            res["enumerated"] += 1
            if out.fail:
                res["fail"] = {"kind": "enumerated", "index": i, "label": str(label), "detail": out.fail, "choices": None}
                break
            note(out, res["samples"], 1)
        if res["fail"] is None:
            for i in take(next_gen, mod.COUNTS.get(tier, 0), 4):
                if time.time() > t_end:
                    res["stopped"] = True
                    break
                src = Src(case_seed(mod.PROPERTY, seed, i))
                out = run_one(lambda: mod.case(src))
                res["generated"] += 1
                if out.fail:
                    res["fail"] = {"kind": "generated", "index": i, "label": None, "detail": out.fail,
                                   "choices": list(src.rec)}
                    break
                note(out, res["gsamples"], 2)
    except BaseException:
        res["error"] = traceback.format_exc()
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump(res, f)
    os.replace(tmp, path)


def sample_of(mod, choices):
    """The generated input of a list of choices, for people to read."""
    try:
        src = Src(replay=choices)
        if hasattr(mod, "describe"):
            return mod.describe(src)
    except Exception:
        pass
    return None


def shrink(mod, choices, detail, seconds):
    """Greedy reduction of the recorded choices while the case keeps failing."""
    t_end = time.time() + seconds
    best, best_detail = list(choices), detail

    def attempt(c):
        src = Src(replay=c)
        try:
            out = run_one(lambda: mod.case(src))
        except BaseException:
            return None
        if out.fail:
            return list(src.rec), out.fail
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    first = attempt(best)
    if first is None:
        return best, best_detail, False
    best, best_detail = first
    improved = True
    while improved and time.time() < t_end:
        improved = False
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() < t_end:
                for cand in (best[:i] + best[i + size:], best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    if cand == best:
                        continue
                    r = attempt(cand)
                    if r is not None and better(r[0], best):
                        best, best_detail = r
                        improved = True
                        break
                else:
                    i += max(1, size // 2)
        i = 0
        while i < len(best) and time.time() < t_end:
            v = best[i]
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v and i < len(best):
                    r = attempt(best[:i] + [nv] + best[i + 1:])
                    if r is not None and better(r[0], best):
                        best, best_detail = r
                        improved = True
                        break
            i += 1
    return best, best_detail, True


def load_known(prop):
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == prop]


def main(prop, tier, seed, replay=None):
    from . import sut
    mod = importlib.import_module("vf.checks." + prop.lower())
    os.makedirs(REPLAYS, exist_ok=True)
    sys.setrecursionlimit(6000)
    if replay:
        return do_replay(mod, replay)
    t0 = time.time()
    nw = int(os.environ.get("VF_JOBS", "8"))
    t_end = t0 + GUARD[tier]
    sut.mod("treeno.builder.convert")          # imported once, before forking
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    known_lines = []
    for e in load_known(prop):
        probe = getattr(mod, "KNOWN", {}).get(e["id"])
        if probe is None:
            continue
        if probe():
            known_lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
    for line in known_lines:
        print(line, flush=True)
    cases = getattr(mod, "enumerated", lambda tier: [])(tier)      # built once; the workers inherit it
    gc.collect()
    gc.freeze()
    gc.set_threshold(50000, 20, 20)
    base = os.path.join(EVID, f".{prop}.{os.getpid()}")
    ctx = multiprocessing.get_context("fork")
    next_enum, next_gen = ctx.Value("i", 0), ctx.Value("i", 0)
    pids = []
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, cases, next_enum, next_gen, tier, seed, f"{base}.{w}", t_end)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            os._exit(code)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    results = []
    for w in range(nw):
        p = f"{base}.{w}"
        try:
            with open(p, "rb") as f:
                results.append(pickle.load(f))
            os.remove(p)
        except FileNotFoundError:
            print(f"worker {w} of {prop} ended without a result", file=sys.stderr)
            return 2
    errors = [r["error"] for r in results if r["error"]]
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    fails = [r["fail"] for r in results if r["fail"]]
    violation = None
    if fails:
        f = min(fails, key=lambda f: (0 if f["kind"] == "enumerated" else 1, len(f["choices"] or ()), f["index"]))
        if f["kind"] == "generated":
            choices, detail, again = shrink(mod, f["choices"], f["detail"], SHRINK_SECONDS[tier])
            f["original_choices"], f["choices"], f["detail"] = f["choices"], choices, detail
            f["reproduced"] = again
        f["property"], f["seed"], f["tier"] = prop, seed, tier
        path = os.path.join(REPLAYS, f"{prop}.json")
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        violation = (path, f)
    keys = set()
    labels, samples = {}, []
    for r in results:
        keys |= r["keys"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    for r in results[:3]:
        samples += r["samples"]
    for k in range(2):
        for r in results:
            if k < len(r["gsamples"]) and len(samples) < 9:
                samples.append(r["gsamples"][k])
    n_enum = sum(r["enumerated"] for r in results)
    n_gen = sum(r["generated"] for r in results)
    n_disc = sum(r["discarded"] for r in results)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n_enum + n_gen - n_disc,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples or ["(none)"],
            "enumerated_cases": n_enum, "generated_cases": n_gen, "discarded_cases": n_disc,
            "nontrivial_cases": sum(r["nontrivial"] for r in results),
            "labels": dict(sorted(labels.items(), key=lambda kv: (-kv[1], kv[0]))[:40]),
            "stopped_by_clock": any(r["stopped"] for r in results),
        },
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "assumptions": mod.ASSUMPTIONS,
    }
    if violation:
        ev["violation_detail"] = violation[1]["detail"][:4000]
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print(f"{prop} {tier} seed={seed}: {n_enum} enumerated + {n_gen} generated cases, {len(keys)} distinct non-trivial, "
          f"{n_disc} discarded, {wall:.1f} s", flush=True)
    if violation:
        path, f = violation
        print(("case: " + f["label"]) if f["label"] else f"generated case {f['index']} ({len(f['choices'])} choices)")
        print(f["detail"][:3000])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    return 0


def do_replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    if d["kind"] == "enumerated":
        cases = mod.enumerated(d["tier"])
        label, fn = cases[d["index"]]
        if str(label) != d["label"]:
            fn = dict((str(l), f) for l, f in cases)[d["label"]]
        out = run_one(fn)
    else:
        out = run_one(lambda: mod.case(Src(replay=d["choices"])))
    if out.fail:
        print(out.fail)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the replayed case holds")
    return 0
