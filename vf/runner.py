"""Runs one property's workload, collects verdicts, writes evidence and replay files.

exit 0: held on everything observed; 1: violated (VIOLATION line); 2: inconclusive (too little observed) or error.
"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import random
import resource
import signal
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "VTK_SMP_MAX_THREADS"):
    os.environ.setdefault(k, "1")

MAX_KINDS = 6
CPU_CASE_S = 90  # processor seconds after which a single case counts as "does not terminate"


class CaseTimeout(BaseException):
    pass


def _on_alarm(*_):
    raise CaseTimeout()


class Ctx:
    """Passed to a property for one case: collects violations and observation counters."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []  # (kind, message)
        self.counts = {}
        self.skipped = None
        self.trivial = False

    def bad(self, kind, msg):
        if len(self.violations) < 40:
            self.violations.append((kind, str(msg)[:600]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def expect(self, ok, kind, msg):
        self.count("checked")
        if not ok:
            self.bad(kind, msg() if callable(msg) else msg)
        return ok


def load(prop):
    for name in ("props_state", "props_traj", "props_query", "props_out"):
        m = importlib.import_module("vf." + name)
        if prop in m.PROPS:
            return m.PROPS[prop]
    raise SystemExit(f"unknown property {prop}")


def rng_for(prop, seed, i):
    return random.Random(f"{prop}:{seed}:{i}")


def run_case(spec, prop, tier, case):
    ctx = Ctx(prop, tier)
    signal.setitimer(signal.ITIMER_PROF, CPU_CASE_S)
    try:
        spec["check"](case, ctx)
    except CaseTimeout:
        ctx.bad("hang", f"no result after {CPU_CASE_S} s of processor time")
    except (MemoryError, RecursionError) as e:
        ctx.bad("crash", f"{type(e).__name__}")
    except Exception as e:  # noqa: BLE001
        from . import sut

        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith(sut.REPO + "/") for f in frames):
            ctx.bad("crash", f"{type(e).__name__}: {e} (raised in {[f for f in frames if f.startswith(sut.REPO + '/')][-1]})")
        elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError, AttributeError)):
            last = traceback.extract_tb(e.__traceback__)[-1]
            ctx.bad("malformed", f"{type(e).__name__}: {e} while reading a result ({last.filename}:{last.lineno})")
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def _init():
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def _work(a):
    prop, seed, tier, idx = a
    spec = load(prop)
    out = []
    for i in idx:
        try:
            case = spec["gen"](rng_for(prop, seed, i), i, tier)
            ctx = run_case(spec, prop, tier, case)
        except Exception:  # noqa: BLE001  error of the harness, never a verdict
            out.append((i, "harness", traceback.format_exc()[-1500:], None, {}, None, False))
            continue
        out.append((i, "ok", ctx.violations, case if (ctx.violations or i < 3) else None, ctx.counts, digest(case),
                    ctx.trivial or ctx.skipped is not None))
    return out


def shrink(spec, prop, tier, case, kind, budget):
    """Greedy removal of program lines that keeps a violation of the same kind."""
    if not isinstance(case, dict) or not isinstance(case.get("lines"), list) or spec.get("noshrink"):
        return case
    t0 = time.time()
    lines = list(case["lines"])

    def still(ls):
        c = dict(case, lines=ls)
        try:
            ok = spec.get("valid", lambda c: True)(c)
            if not ok:
                return False
            return any(k == kind for k, _ in run_case(spec, prop, tier, c).violations)
        except Exception:  # noqa: BLE001
            return False

    n = 2
    while len(lines) > 1 and time.time() - t0 < budget:
        step = max(1, len(lines) // n)
        for i in range(0, len(lines), step):
            if time.time() - t0 > budget:
                break
            cand = lines[:i] + lines[i + step:]
            if cand and still(cand):
                lines = cand
                n = max(2, n - 1)
                break
        else:
            if step == 1:
                break
            n = min(len(lines), n * 2)
    return dict(case, lines=lines)


def known_findings():
    out = {}
    p = ROOT / "known_findings.txt"
    if p.exists():
        for line in p.read_text(encoding="utf-8").splitlines():
            # known: property=C07 kind=<mechanism> <text>
            if line.startswith("known: "):
                w = line[7:].split(" ", 2)
                prop, kind = w[0].split("=", 1)[1], w[1].split("=", 1)[1]
                out[(prop, kind)] = w[2] if len(w) > 2 else ""
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--n", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, help="run (and print) one generated case")
    a = ap.parse_args(argv)
    prop, tier, seed = a.property, a.tier, a.seed
    spec = load(prop)
    from . import sut

    base = pathlib.Path(os.environ.get("TMPDIR") or "/tmp")
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix=f"vf_{prop}_", dir=base)
    os.environ["VF_SCRATCH"] = scratch
    try:
        return _main(a, prop, tier, seed, spec, sut)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, prop, tier, seed, spec, sut):
    t0 = time.time()
    _init()
    sut.preload()
    if a.replay or a.case is not None:
        if a.replay:
            rec = json.loads(pathlib.Path(a.replay).read_text(encoding="utf-8"))
            case = rec["case"]
        else:
            case = spec["gen"](rng_for(prop, seed, a.case), a.case, tier)
            print(json.dumps(case, indent=1, default=str))
        ctx = run_case(spec, prop, tier, case)
        print("observed:", json.dumps(ctx.counts))
        for k, m in ctx.violations:
            print(f"  [{k}] {m}")
        if ctx.violations:
            print(f"VIOLATION property={prop} replay={a.replay or '-'}")
            return 1
        print("no violation" + (f" (skipped: {ctx.skipped})" if ctx.skipped else ""))
        return 0

    n = a.n or spec["n"][tier]
    limit = {"quick": 420, "thorough": 840}[tier]  # generous wall-clock watchdog, only ever makes a run cover less
    chunk = max(1, min(spec.get("chunk", 20), n // (a.jobs * 4) or 1))
    tasks = [(prop, seed, tier, list(range(i, min(i + chunk, n)))) for i in range(0, n, chunk)]
    counts, seen, nontrivial = {}, set(), set()
    done = 0
    bad, harness, samples = {}, [], []
    stopped = None
    known = known_findings()
    hit_known = {}
    ctxm = mp.get_context("fork")
    with ctxm.Pool(a.jobs, initializer=_init, maxtasksperchild=spec.get("maxtasks")) as pool:
        it = pool.imap_unordered(_work, tasks)
        while True:
            left = limit - (time.time() - t0)
            if left <= 0:
                stopped = "time limit"
                break
            try:
                res = it.next(timeout=left)
            except StopIteration:
                break
            except mp.TimeoutError:
                stopped = "time limit"
                break
            for i, st, v, case, cn, dg, triv in res:
                if st == "harness":
                    harness.append((i, v))
                    continue
                done += 1
                for k, x in cn.items():
                    counts[k] = counts.get(k, 0) + x
                seen.add(dg)
                if not triv:
                    nontrivial.add(dg)
                if case is not None and len(samples) < 3 and not v:
                    samples.append({"index": i, "case": case, "observed": cn})
                for kind, msg in v:
                    if (prop, kind) in known:
                        hit_known[kind] = hit_known.get(kind, 0) + 1
                    elif kind not in bad and len(bad) < MAX_KINDS:
                        bad[kind] = (i, case, msg)
            if len(bad) >= MAX_KINDS or (bad and time.time() - t0 > 20) or len(harness) > 20:
                stopped = "enough violations" if bad else "harness errors"
                break
        pool.terminate()
    if spec.get("final"):
        c = Ctx(prop, tier)
        spec["final"](seed, tier, c)
        for k, x in c.counts.items():
            counts[k] = counts.get(k, 0) + x
        for kind, msg in c.violations:
            if (prop, kind) not in known and kind not in bad:
                bad[kind] = (-1, {"final": True, "seed": seed}, msg)

    for (p, kind), text in sorted(known.items()):
        if p == prop:
            print(f"KNOWN-FINDING: property={prop} kind={kind} {text} (seen {hit_known.get(kind, 0)} times)")

    # replay files
    rep_dir = ROOT / "replays"
    printed = []
    for j, (kind, (i, case, msg)) in enumerate(sorted(bad.items(), key=lambda kv: kv[1][0])):
        rep_dir.mkdir(exist_ok=True)
        orig = case
        if j == 0 and isinstance(case, dict) and "lines" in case:
            case = shrink(spec, prop, tier, case, kind, 15)
        f = rep_dir / f"{prop}-{seed}-{j}.json"
        f.write_text(json.dumps({"property": prop, "kind": kind, "message": msg, "seed": seed, "index": i, "case": case,
                                 "unshrunk": orig if orig is not case else None}, indent=1, default=str), encoding="utf-8")
        print(f"[{kind}] case {i}: {msg}")
        printed.append(f)
        print(f"VIOLATION property={prop} replay={f}")

    need = spec.get("need", {})
    part = done / n if stopped == "time limit" else 1  # a slow machine observes less, but in proportion
    lack = {k: (counts.get(k, 0), v) for k, v in need.items() if counts.get(k, 0) < int(v * part)} if not a.n else {}
    if done == 0:
        lack["cases"] = (0, n)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(nontrivial),
            "rule": spec["rule"] + " Counted per distinct (program, setup, query) record; a case is trivial when it was skipped"
                    " as undecidable or when no monitored event occurred in it.",
            "samples": samples, "observed_events": counts, "planned": n, "stopped_early": stopped,
            "distinct": len(seen), "harness_errors": len(harness),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n", encoding="utf-8")
    print(f"{prop} {tier} seed={seed}: {done}/{n} cases, {len(nontrivial)} distinct non-trivial, {time.time() - t0:.1f} s"
          + (f", stopped: {stopped}" if stopped else ""))
    print("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(counts.items())))
    if bad:
        return 1
    if harness:
        print("HARNESS ERROR", harness[0][1], file=sys.stderr)
        return 2
    if lack:
        print(f"INCONCLUSIVE: too little observed {lack}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
