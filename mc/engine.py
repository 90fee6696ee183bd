"""Bounded-exhaustive explorer.

A check is a list of Space objects.  A space enumerates literal cases in a fixed order
(deterministic, simplest first) and runs the real code on each of them, comparing with a
reference model.  Cases are sharded over the cores by block; nothing is sampled.
"""
from __future__ import annotations

import ast
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")


class Violation(Exception):
    """The property does not hold on this case.  `key` names a known finding, if any."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Hang(BaseException):
    pass


def require(cond, msg, *fmt):
    if not cond:
        raise Violation(msg() if callable(msg) else (msg % fmt if fmt else msg))


def equal(got, want, what):
    if got != want or type(got) is not type(want):
        raise Violation(f"{what}:\n  got  {got!r}\n  want {want!r}")


class Ctx:
    """Counters of one worker for one space."""

    def __init__(self):
        self.states = set()
        self.nstates = 0
        self.steps = 0
        self.traces = 0
        self.outcomes = set()

    def state(self, key):
        """A model state was reached (deduplicated by value)."""
        self.states.add(hash(key))

    def fresh_states(self, n=1):
        """n model states that are distinct by construction (e.g. one per code point)."""
        self.nstates += n

    def step(self, n=1):
        """n operations/observations were executed on the real code and on the model."""
        self.steps += n

    def trace(self, n=1):
        """n complete histories were executed on the real code and agreed."""
        self.traces += n

    def outcome(self, out):
        if len(self.outcomes) < 200_000:
            self.outcomes.add(hash(out))


class Space:
    """name, bound (text), cases() -> iterator of literals, run(case, ctx)."""

    block = 16  # consecutive cases given to one worker
    setup = None  # callable run once per worker, before the first case
    teardown = None

    def __init__(self, name, bound, cases, run, *, block=16, setup=None, teardown=None,
                 timeout=30):
        self.name, self.bound, self.cases, self.run = name, bound, cases, run
        self.block, self.setup, self.teardown, self.timeout = block, setup, teardown, timeout


def _alarm(signum, frame):
    raise Hang("no answer within the per-case time limit")


def run_case(space, case, ctx):
    """-> None or (message, key)."""
    signal.setitimer(signal.ITIMER_REAL, space.timeout)
    try:
        space.run(case, ctx)
        return None
    except Violation as e:
        return e.msg, e.key
    except Hang as e:
        return f"hang: {e}", None
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:  # the code under test failed on a legal case
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-5:]))
        return f"unexpected {type(e).__name__}: {e} [{loc}]", None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


MAX_VIOL = 5  # per space and worker


def _worker(k, n, spaces, deadline, path):
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    for si, sp in enumerate(spaces):
        ctx = Ctx()
        ran = total = 0
        capped = False
        viols = []
        t0 = time.time()
        if sp.setup:
            sp.setup()
        samples = []
        try:
            for i, case in enumerate(sp.cases()):
                total += 1
                if (i // sp.block) % n != k:
                    continue
                if time.time() > deadline:
                    capped = True
                    break
                ran += 1
                if ran in (1, 7, 200):
                    samples.append(repr(case)[:300])
                r = run_case(sp, case, ctx)
                if r is not None:
                    viols.append((si, i, repr(case), r[0], r[1]))
                    if sum(1 for v in viols if v[4] is None) >= MAX_VIOL:
                        capped = True
                        break
        finally:
            if sp.teardown:
                sp.teardown()
        out.append(dict(ran=ran, total=total, capped=capped, viols=viols, samples=samples,
                        states=ctx.states, nstates=ctx.nstates, steps=ctx.steps,
                        traces=ctx.traces, outcomes=ctx.outcomes, wall=time.time() - t0))
    with open(path, "wb") as f:
        pickle.dump(out, f)


def known_findings(prop):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return {}
    return {e["key"]: e for e in json.loads(p.read_text())["known"] if e["property"] == prop}


def explore(prop, spaces, *, tier, level="model_checking", assumptions=(), explanation=""):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    budget = float(os.environ.get("VERIF_BUDGET_S", "780" if tier == "quick" else "7200"))
    deadline = t0 + budget
    n = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
    only = os.environ.get("VERIF_SPACE")
    if only:
        spaces = [s for s in spaces if s.name in only.split(",")]
    tmp = tempfile.mkdtemp(prefix="mc-")
    pids = {}
    sys.stdout.flush()
    for k in range(n):
        path = os.path.join(tmp, f"w{k}")
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(k, n, spaces, deadline, path)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = (k, path)
    results, broken = [], []
    for pid, (k, path) in pids.items():
        _, st = os.waitpid(pid, 0)
        if st != 0 or not os.path.exists(path):
            broken.append((k, st))
            continue
        with open(path, "rb") as f:
            results.append(pickle.load(f))
        os.unlink(path)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    table, samples, viols = [], [], []
    states = steps = traces = cases = 0
    all_out = set()
    exhaustive = not broken
    for si, sp in enumerate(spaces):
        rs = [r[si] for r in results]
        st = set()
        for r in rs:
            st |= r["states"]
            all_out |= r["outcomes"]
            viols += r["viols"]
        nst = len(st) + sum(r["nstates"] for r in rs)
        capped = any(r["capped"] for r in rs)
        exhaustive &= not capped
        row = dict(space=sp.name, bound=sp.bound, cases=sum(r["ran"] for r in rs),
                   states=nst, transitions=sum(r["steps"] for r in rs),
                   traces=sum(r["traces"] for r in rs), complete=not capped,
                   cpu_s=round(sum(r["wall"] for r in rs), 2))
        table.append(row)
        states += nst
        steps += row["transitions"]
        traces += row["traces"]
        cases += row["cases"]
        for r in rs[:1]:
            samples += [{"space": sp.name, "case": c} for c in r["samples"][:2]]
    known = known_findings(prop)
    hit, real = {}, []
    for v in sorted(viols):
        (hit.setdefault(v[4], v) if v[4] in known else real.append(v))
    for key, e in known.items():
        if key in hit:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
        else:
            print(f"note: known finding {key} did not show up in this run")
    outdir = VERIF / "out" / "replays"
    code = 0
    if real:
        code = 1
        outdir.mkdir(parents=True, exist_ok=True)
        si, i, case, msg, _ = real[0]
        rp = outdir / f"{prop}-{spaces[si].name}-{i}.json"
        rp.write_text(json.dumps(dict(property=prop, space=spaces[si].name, index=i, case=case,
                                      message=msg, tier=tier, workers=n,
                                      others=[dict(space=spaces[v[0]].name, index=v[1],
                                                   case=v[2][:500], message=v[3][:500])
                                              for v in real[1:10]]), indent=1))
        print(f"first violation (space {spaces[si].name}, case {i} of its enumeration):")
        print("  case: " + case[:1500])
        print("  " + msg[:3000])
        print(f"VIOLATION property={prop} replay={rp.relative_to(VERIF)}")
    elif broken:
        print(f"error: workers failed: {broken}", file=sys.stderr)
        code = 3
    if not real and not broken and sum(r["cases"] for r in table) == 0:
        print("error: nothing was explored", file=sys.stderr)
        code = 3
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(states=states, transitions=steps,
                            traces_validated_against_impl=traces, evaluations=cases,
                            distinct_observed_outcomes=len(all_out), exhaustive=exhaustive,
                            spaces=table, samples=samples[:24], explanation=explanation,
                            workers=n),
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2),
              violations=len(real))
    (VERIF / "evidence").mkdir(exist_ok=True)
    if not only:
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for row in table:
        print(f"  {row['space']:<24} cases={row['cases']:<9} states={row['states']:<9} "
              f"transitions={row['transitions']:<10} traces={row['traces']:<9} "
              f"{'complete' if row['complete'] else 'CAPPED'}  {row['cpu_s']}s cpu")
    print(f"{prop} {tier}: cases={cases} states={states} transitions={steps} traces={traces} "
          f"outcomes={len(all_out)} violations={len(real)} known={len(hit)} "
          f"wall={ev['wall_s']}s exhaustive={exhaustive}")
    return code


def replay(path, spaces_for):
    """Replay one recorded violation without the explorer."""
    d = json.loads(Path(path).read_text())
    signal.signal(signal.SIGALRM, _alarm)
    for sp in spaces_for(d["property"], d["tier"]):
        if sp.name != d["space"]:
            continue
        if sp.setup:
            sp.setup()
        try:
            case = ast.literal_eval(d["case"])
            print(f"{d['property']} space={sp.name} case={case!r}")
            r = run_case(sp, case, Ctx())
            if r is None:
                # Not reproducible alone: replay what the worker had executed before it.
                n, k = d["workers"], (d["index"] // sp.block) % d["workers"]
                print("passes in a fresh process; replaying the shard that led to it")
                for i, c in enumerate(sp.cases()):
                    if (i // sp.block) % n != k or i > d["index"]:
                        continue
                    r = run_case(sp, c, Ctx())
                    if r is not None:
                        break
        finally:
            if sp.teardown:
                sp.teardown()
        if r is None:
            print("not reproduced")
            return 0
        print(r[0])
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("unknown space", d["space"])
    return 3
