"""Runs one check: python -m vmon.main <PROPERTY> | replay <file>"""
from __future__ import annotations

import importlib
import json
import logging
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from random import Random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")


def load_known() -> dict:
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return {e["id"]: e for e in json.load(f)}


def load_check(prop: str):
    return importlib.import_module(f"vmon.checks.{prop.lower()}")


def run_case(mod, prop: str, seed: int, tier: str, idx: int, known: dict) -> dict:
    from vmon.monitor import Ctx, Violation
    from vmon.steps import steps

    ctx = Ctx(prop, known)
    rng = Random(f"{seed}:{prop}:{idx}")
    if getattr(mod, "ANY_POSITION", False):
        ctx.positions = Random(f"{seed}:{prop}:{idx}:positions")
    out = {"idx": idx, "violation": None, "error": None}
    start = steps.count
    steps.budget = steps.count + ctx.step_budget
    try:
        mod.case(ctx, rng, idx, tier)
        ctx.check_sources()
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
        tb = v.__cause__ or v
        out["trace"] = "".join(traceback.format_exception(tb))[-4000:]
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = "".join(traceback.format_exception(e))[-6000:]
    finally:
        steps.budget = 1 << 62
    ctx.count("repo_steps", steps.count - start)
    ctx.count("source_ops", ctx.source_ops)
    ctx.count("source_bytes", ctx.source_bytes)
    out["counters"] = dict(ctx.counters)
    out["states"] = sorted(ctx.states)
    out["known"] = ctx.known_hits
    out["params"] = ctx.params
    return out


_G = {}


def _work(idx: int) -> dict:
    return run_case(_G["mod"], _G["prop"], _G["seed"], _G["tier"], idx, _G["known"])


def _chunk(idxs: list[int]):
    from vmon.steps import steps

    res = []
    for i in idxs:
        r = _work(i)
        if r["violation"] is None and r["error"] is None:
            r.pop("params")
        res.append(r)
    return res, sorted(steps.lines)


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, "w")


def main(argv: list[str]) -> int:
    logging.disable(logging.CRITICAL)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    if len(argv) < 2:
        print(__doc__)
        return 2
    known = load_known()
    sys.path.insert(0, "/repo")
    import dissect.volume

    if not os.path.realpath(list(dissect.volume.__path__)[0] if dissect.volume.__file__ is None else dissect.volume.__file__).startswith("/repo/"):
        print("dissect.volume is not imported from /repo", file=sys.stderr)
        return 2
    from vmon.steps import steps

    if argv[1] == "replay":
        with open(argv[2]) as f:
            rep = json.load(f)
        mod = load_check(rep["property"])
        steps.enable()
        r = run_case(mod, rep["property"], rep["seed"], rep["tier"], rep["case"], known)
        print(json.dumps({k: r[k] for k in ("idx", "violation", "error", "params")}, indent=1, default=str))
        print(r.get("trace", ""))
        return 1 if r["violation"] else 2 if r["error"] else 0

    prop = argv[1].upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    mod = load_check(prop)
    n = mod.CASES["thorough" if tier == "thorough" else "quick"]
    if len(argv) > 2:
        n = int(argv[2])
    _G.update(mod=mod, prop=prop, seed=seed, tier=tier, known=known)
    t0 = time.monotonic()
    limit = float(os.environ.get("VMON_DEADLINE", "840"))

    steps.enable()
    workers = max(1, min(4, os.cpu_count() or 1))
    per = max(1, min(50, n // (workers * 8) or 1))
    chunks = [list(range(i, min(n, i + per))) for i in range(0, n, per)]
    counters: Counter = Counter()
    states: Counter = Counter()
    lines: set = set()
    knowns: dict[str, str] = {}
    known_counts: Counter = Counter()
    violations, errors = [], []
    done = 0
    pool = multiprocessing.get_context("fork").Pool(workers, _init)
    timed_out = False
    try:
        it = pool.imap(_chunk, chunks)
        for _ in chunks:
            try:
                res, ln = it.next(timeout=max(1.0, limit - (time.monotonic() - t0)))
            except multiprocessing.TimeoutError:
                timed_out = True
                break
            lines.update(map(tuple, ln))
            for r in res:
                done += 1
                counters.update(r["counters"])
                states.update(r["states"])
                for k, w in r["known"].items():
                    knowns[k] = w
                    known_counts[k] += 1
                if r["violation"]:
                    violations.append(r)
                if r["error"]:
                    errors.append(r)
            if len(violations) >= 5 or len(errors) >= 3:
                break
    finally:
        pool.terminate()
        pool.join()

    wall = time.monotonic() - t0
    os.makedirs(EVIDENCE, exist_ok=True)
    minimum = getattr(mod, "MINIMUM", {})
    short = {k: (counters.get(k, 0), v) for k, v in minimum.items() if counters.get(k, 0) < v}
    by_file = Counter(f for f, _ in lines)
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(states),
            "rule": mod.RULE,
            "samples": sorted(states)[:: max(1, len(states) // 40)][:40],
        },
        "observed": {k: v for k, v in sorted(counters.items())},
        "lines_reached": dict(sorted(by_file.items())),
        "known_findings": dict(known_counts),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(violations),
        "wall_s": round(wall, 3),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k, w in sorted(knowns.items()):
        print(f"KNOWN-FINDING: property={prop} {k} {w} (observed {known_counts[k]} times)")
    if violations:
        for i, r in enumerate(violations[:5]):
            path = os.path.join(EVIDENCE, f"replay-{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "case": r["idx"], "violation": r["violation"],
                           "params": r["params"], "trace": r.get("trace")}, f, indent=1, default=str)
            print(f"case {r['idx']}: {r['violation']['kind']}: {r['violation']['detail']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for r in errors[:3]:
            print(f"HARNESS ERROR in case {r['idx']}: {r['error']}\n{r.get('trace', '')}", file=sys.stderr)
        return 2
    if timed_out:
        print("INCONCLUSIVE: deadline reached before all cases ran", file=sys.stderr)
        return 2
    if short or len(states) < getattr(mod, "MIN_STATES", 2):
        print(f"INCONCLUSIVE: monitors observed too little: {short}, {len(states)} states", file=sys.stderr)
        return 2
    print(f"{prop} held: {done} cases, {len(states)} distinct states, {dict(counters)} in {wall:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except Exception:
        traceback.print_exc()
        code = 2  # trouble in the harness is not a verdict
    sys.exit(code)
