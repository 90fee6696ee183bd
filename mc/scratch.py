"""Scratch directories for checks that let the code under test delete and overwrite files.

The worker gives up its root privileges while it runs such a case: the only files it owns, and can
destroy, are the ones in its own scratch directory."""
from __future__ import annotations

import os
import shutil
import tempfile
from pathlib import Path

NOBODY = 65534
S = {}


def enter(prefix="mc-scratch-"):
    S["cwd"] = os.getcwd()
    S["dir"] = d = os.path.realpath(tempfile.mkdtemp(prefix=prefix))
    S["root"] = os.geteuid() == 0
    if S["root"]:
        os.chown(d, NOBODY, NOBODY)
        S["groups"] = os.getgroups()
        os.setgroups([])
        os.setegid(NOBODY)
        os.seteuid(NOBODY)
        if os.geteuid() != NOBODY:
            raise RuntimeError("cannot drop privileges")
    os.chdir(d)
    S["n"] = 0
    return d


def leave():
    if S["root"]:
        os.seteuid(0)
        os.setegid(0)
        os.setgroups(S["groups"])
    os.chdir(S["cwd"])
    d = S.pop("dir")
    assert os.path.basename(d).startswith("mc-scratch-")
    shutil.rmtree(d)


def fresh(name="case"):
    """A new empty directory; the working directory is the scratch directory."""
    S["n"] += 1
    p = os.path.join(S["dir"], f"{name}{S['n']}")
    os.mkdir(p)
    os.chdir(S["dir"])
    return p


def drop(p):
    """Remove a directory made by fresh()."""
    os.chdir(S["dir"])
    assert os.path.dirname(p) == S["dir"]
    shutil.rmtree(p)


def write_tree(root, files):
    """files: {relative path: bytes | ("link", target) | None (directory)}"""
    for rel, data in files.items():
        p = os.path.join(root, rel)
        if data is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, tuple):
            os.symlink(data[1], p)
        else:
            with open(p, "wb") as f:
                f.write(data)


def read_tree(root):
    """{relative path: bytes} of all files below root, following links; None if absent."""
    if not os.path.lexists(root):
        return None
    out = {}
    for d, _, names in os.walk(root, followlinks=True):
        for n in names:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = Path(p).read_bytes() if os.path.exists(p) else None
    return out


def stat_tree(root):
    """Everything that deleting, replacing or rewriting something would change."""
    if not os.path.lexists(root):
        return None
    out = {}
    todo = [root]
    while todo:
        p = todo.pop()
        st = os.lstat(p)
        rel = os.path.relpath(p, root)
        out[rel] = (st.st_mode, st.st_ino, st.st_mtime_ns, st.st_size)
        if os.path.isdir(p) and (not os.path.islink(p) or p == root):
            todo += [os.path.join(p, n) for n in os.listdir(p)]
        elif os.path.isfile(p):
            out[rel] += (Path(p).read_bytes(),)
    return out
