#!/usr/bin/env python3
"""Makes and judges planted bugs.

    seed.py make FILE      FILE is Python defining BUGS: list of dict(id, prop, file, edits, needs,
                           breaks, demo); writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
                           if the change passes the tests and the demo tells it from the clean tree
    seed.py check [IDS]    applies each planted bug to /repo, runs the quick check of its property
                           (or $VERIF_PROPS), and undoes it; prints who was caught

Everything happens in /repo's working tree, which has to be clean, and is undone afterwards.
"""
import json
import os
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = "/repo"
BASE = "42016b0"
SEEDED = V / "seeded"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    r = sh("git", "-C", REPO, "status", "--porcelain")
    if r.stdout:
        sys.exit("/repo is not clean:\n" + r.stdout)


def undo():
    sh("git", "-C", REPO, "checkout", "--", ".")


def demo(d):
    try:
        return sh("bash", str(d / "demo.sh"), cwd=REPO, timeout=300)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, "", "timeout")


def tests():
    out = "/tmp/seed-tests.json"
    sh("bash", "/opt/vp/test.sh", out)
    r = json.load(open(out))
    os.remove(out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("passed", base) if isinstance(base, dict) else base
    want = want if isinstance(want, list) else base["stable"]
    return [t for t in want if t not in r["passed"]]


def original(diff, file):
    """Some removed line is the original repository's, and none is from the fix commits."""
    blame = sh("git", "-C", REPO, "blame", "-s", "-l", "HEAD", "--", file).stdout.splitlines()
    fixed = [i for i, l in enumerate(blame, 1) if not l.lstrip("^").startswith(
        sh("git", "-C", REPO, "rev-parse", BASE).stdout.strip()[:20])]
    n, removed = 0, []
    for l in diff.splitlines():
        if l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            removed.append(n)
            n += 1
        elif l.startswith(" "):
            n += 1
    return removed, [r for r in removed if r in fixed]


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        clean()
        d = SEEDED / b["id"]
        try:
            edits = b["edits"] if isinstance(b["edits"], list) else [b["edits"]]
            for e in edits:
                f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
                p = Path(REPO) / f
                s = p.read_text()
                if s.count(old) != 1:
                    raise SystemError(f"{s.count(old)} occurrences of {old[:60]!r}")
                p.write_text(s.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout
            bad = []
            files = sh("git", "-C", REPO, "diff", "--name-only").stdout.split()
            for f in files:
                rem, fx = original(sh("git", "-C", REPO, "diff", "-U0", "--", f).stdout, f)
                if fx:
                    bad.append(f"changes fix lines {fx}")
                if not rem:
                    bad.append("removes no line")
            if sh("bash", "/opt/vp/build.sh").returncode:
                bad.append("does not build")
            else:
                t = tests()
                if t:
                    bad.append(f"fails tests {t}")
            d.mkdir(parents=True, exist_ok=True)
            (d / "demo.sh").write_text(
                '#!/bin/bash\n# cwd: /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. '
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            (d / "demo.py").write_text(b["demo"].strip() + "\n")
            r = demo(d)
            if r.returncode == 0:
                bad.append("demo passes with the change")
            err = r.stderr.strip().splitlines()[-1:] or [r.stdout[-100:]]
            undo()
            r = demo(d)
            if r.returncode:
                bad.append("demo fails on the clean tree: " + r.stderr[-400:])
            if bad:
                print(f"{b['id']}: REJECTED {'; '.join(bad)}")
                for x in d.iterdir():
                    x.unlink()
                d.rmdir()
                continue
            (d / "patch.diff").write_text(diff)
            (d / "meta.json").write_text(json.dumps(dict(
                property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
            print(f"{b['id']}: ok   [{err[0][:110]}]")
        except SystemError as e:
            print(f"{b['id']}: REJECTED {e}")
        finally:
            undo()


def note(ident, prop, caught, sp):
    p = V / "tools/caught.json"
    d = json.loads(p.read_text()) if p.exists() else {}
    where = sp[0].split("space ")[1].split(",")[0] if sp else "?"
    d[ident] = f"{prop} `{where}`" if caught else f"missed by {prop}"
    p.write_text(json.dumps(d, indent=1, sort_keys=True) + "\n")


def check(ids):
    for d in sorted(SEEDED.iterdir()):
        if not (d / "patch.diff").exists() or (ids and d.name not in ids):
            continue
        clean()
        prop = json.loads((d / "meta.json").read_text())["property"]
        try:
            r = sh("git", "-C", REPO, "apply", str(d / "patch.diff"))
            if r.returncode:
                print(f"{d.name}: does not apply {r.stderr}", flush=True)
                continue
            for p in os.environ.get("VERIF_PROPS", prop).split(","):
                r = sh(str(V / "check"), p, "quick")
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                sp = [l for l in r.stdout.splitlines() if l.startswith("first violation")]
                print(f"{d.name}: {p} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} "
                      f"rc={r.returncode} {sp[:1]}", flush=True)
                note(d.name, p, r.returncode == 1 and v, sp)
        finally:
            undo()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        check(sys.argv[2:])
