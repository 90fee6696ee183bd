"""Mutation histories: a document built from a few named tags is changed through the public
interface, one operation at a time, and rendered and checked before the first and after every
operation.  The model document is changed alongside; the check gets (real root, model specs).

A case is (start, ((handle, op), ...)).  Handles: R the root (a TagList in starts 0 and 3, else a
tag), A, B, C tags somewhere in it, X a tag not in it yet."""
from __future__ import annotations

import itertools

from htmltools import HTML, TagList

from . import real


class Node:
    __slots__ = ("name", "ws", "attrs", "kids", "entered")

    def __init__(self, name, ws, attrs=(), kids=()):
        self.name, self.ws, self.attrs, self.kids = name, ws, dict(attrs), list(kids)
        self.entered = False

    def spec(self):
        return ("E", self.name, self.ws, tuple(self.attrs.items()), specs(self.kids))

    def copy(self):
        return Node(self.name, self.ws, self.attrs,
                    [k.copy() if isinstance(k, Node) else k for k in self.kids])


def specs(kids):
    return tuple(k.spec() if isinstance(k, Node) else k for k in kids)


NSTARTS = 4


def start(i):
    t = ("T", "t")
    c = Node("b", False, {"id": "c"}, [t])
    x = Node("p", True, {"id": "x"})
    if i == 0:                     # list: block with inline, then a block
        b = Node("span", False, {}, [t])
        a = Node("div", True, {"class": "k"}, [b, ("T", "x<")])
        r = Node(None, None, (), [a, c])
    elif i == 1:                   # tag: three blocks nested, inline last
        c = Node("i", False)
        b = Node("li", True, {"id": "b"}, [c])
        a = Node("ul", True, {}, [b, ("D", ("d0", "1.0"))])
        r = Node("div", True, {"style": "a:b;"}, [("T", "&"), a])
    elif i == 2:                   # tag: all inline, a void tag
        c = Node("br", False)
        b = Node("em", False, {}, [c, t])
        a = Node("a", False, {"href": "?a&b"}, [b])
        r = Node("span", False, {}, [a, ("H", "<u>h</u>")])
    else:                          # list with the same tag placed twice
        c = Node("b", False, {}, [t])
        b = Node("p", True, {}, [c])
        a = Node("div", True, {}, [b])
        r = Node(None, None, (), [a, ("M", 1), b])
    return {"R": r, "A": a, "B": b, "C": c, "X": x}


def make(nodes):
    """Real objects for the model nodes (shared nodes become shared objects)."""
    memo = {}

    def mk(n):
        if not isinstance(n, Node):
            return real.build(n)
        if id(n) not in memo:
            ks = [mk(k) for k in n.kids]
            if n.name is None:
                memo[id(n)] = TagList(*ks)
            else:
                memo[id(n)] = real.ht.Tag(n.name, *ks, _add_ws=n.ws)
                for k, v in n.attrs.items():
                    memo[id(n)].attrs[k] = real.attr_value(v)
        return memo[id(n)]

    return {h: mk(n) for h, n in nodes.items()}


def rank(h):
    return "RABCX".index(h)


DEP = ("D", ("d1", "2.0", (("head", "<x-h></x-h>"),)))
DEP2 = ("D", ("d1", "3.0"))
PAYLOADS = {"t": ("T", "u&"), "e": ("E", "q", False, (("z", "1"),), (("T", "v"),)),
            "blk": ("E", "h1", True, (), (("T", "w"), ("E", "hr", True, (), ()))),
            "h": ("H", "<s>m</s>"), "d": DEP, "d2": DEP2, "m": ("M", 7), "n": ("N", 5)}
LIST_OPS = tuple([("append", p) for p in PAYLOADS]
                 + [("insert0", "t"), ("insert0", "blk"), ("insert0", "m"), ("insert1", "e"),
                    ("insert1", "d"), ("insert-1", "t"), ("extend", "e", "t"),
                    ("extend", "d", "blk"), ("pop",), ("pop0",), ("clear",), ("reverse",),
                    ("iadd", "t"), ("double",)])
TAG_OPS = (("name", "section"), ("name", "textarea"), ("name", "img"), ("ws",), ("set", "k", "v<"),
           ("set", "id", ("H", "&lt;")), ("update", "w\"'"), ("popattr",), ("clearattrs",),
           ("class", "c1"), ("class0", "c0"), ("style", "s:1;"), ("children",), ("with",))
LINKS = tuple((a, b) for a in "RABC" for b in "ABCX" if rank(a) < rank(b))


def all_ops(names=None):
    """(handle, op) pairs; `names` restricts the operation names."""
    out = []
    for h in "RABCX":
        out += [(h, o) for o in LIST_OPS]
        out += [(h, o) for o in TAG_OPS]
        if h == "R":
            out.append((h, ("tagify",)))
    out += [(a, ("link", b)) for a, b in LINKS]
    return [o for o in out if names is None or o[1][0] in names]


FEW = ("append", "insert0", "pop0", "clear", "name", "ws", "set", "popattr", "link")


def few_ops():
    keep = {"append": ("t", "blk", "d"), "insert0": ("t",), "name": ("section", "img"),
            "set": ("k",)}
    return [(h, o) for h, o in all_ops(FEW) if h in "RBX" and
            (o[0] not in keep or o[1] in keep[o[0]])]


def script_ops():
    """One tag with text children that becomes a script/style element and back."""
    ops = [("append", p) for p in ("t", "h", "n", "m")] + [("insert0", "t"), ("extend", "n", "t"),
           ("pop",), ("clear",), ("ws",), ("set", "k", "v<"), ("with",)]
    return [("C", o) for o in ops + [("name", n) for n in ("script", "style", "b", "scripts")]]


def cases(depth, ops=None, starts=range(NSTARTS)):
    ops = all_ops() if ops is None else ops
    for s in starts:
        for h in itertools.product(ops, repeat=depth):
            yield (s, h)


def model_op(n, op, nodes):
    """Apply to the model node; False if the operation is not available there."""
    k, tag = op[0], n.name is not None
    P = PAYLOADS
    if k == "append":
        n.kids.append(P[op[1]])
    elif k == "insert0":
        n.kids.insert(0, P[op[1]])
    elif k == "insert1":
        n.kids.insert(1, P[op[1]])
    elif k == "insert-1":
        n.kids.insert(-1, P[op[1]])
    elif k == "extend":
        n.kids += [P[op[1]], P[op[2]]]
    elif k == "iadd":
        n.kids += [P[op[1]]]
    elif k == "pop":
        if not n.kids:
            return False
        n.kids.pop()
    elif k == "pop0":
        if not n.kids:
            return False
        del n.kids[0]
    elif k == "clear":
        n.kids.clear()
    elif k == "reverse":
        n.kids.reverse()
    elif k == "double":
        if len(n.kids) > 8:
            return False
        n.kids += list(n.kids)
    elif k == "link":
        n.kids.append(nodes[op[1]])
    elif k == "tagify":
        nodes["R"] = n.copy()
    elif not tag:
        return False
    elif k == "name":
        n.name = op[1]
    elif k == "ws":
        n.ws = not n.ws
    elif k == "set":
        n.attrs[op[1]] = op[2]
    elif k == "update":
        n.attrs["k"] = op[1]
        n.attrs["data-x"] = "1"
    elif k == "popattr":
        if not n.attrs:
            return False
        del n.attrs[next(iter(n.attrs))]
    elif k == "clearattrs":
        n.attrs.clear()
    elif k == "class":
        n.attrs["class"] = (n.attrs["class"] + " " if "class" in n.attrs else "") + op[1]
    elif k == "class0":
        n.attrs["class"] = op[1] + (" " + n.attrs["class"] if "class" in n.attrs else "")
    elif k == "style":
        n.attrs["style"] = (n.attrs["style"] + " " if "style" in n.attrs else "") + op[1]
    elif k == "children":
        n.kids = [("T", "new"), P["e"]]
    elif k == "with":
        if n.entered:
            return False           # a tag is entered once
        n.entered = True
        n.kids.append(P["h"])
    else:
        raise ValueError(op)
    return True


def real_op(x, op, objs):
    k = op[0]
    kids = x if isinstance(x, TagList) else x.children
    if k == "append":
        x.append(real.build(PAYLOADS[op[1]]))
    elif k == "insert0":
        x.insert(0, real.build(PAYLOADS[op[1]]))
    elif k == "insert1":
        x.insert(1, real.build(PAYLOADS[op[1]]))
    elif k == "insert-1":
        x.insert(-1, real.build(PAYLOADS[op[1]]))
    elif k == "extend":
        x.extend([real.build(PAYLOADS[p]) for p in op[1:]])
    elif k == "iadd":
        kids += [real.build(PAYLOADS[op[1]])]
    elif k == "pop":
        kids.pop()
    elif k == "pop0":
        del kids[0]
    elif k == "clear":
        kids.clear()
    elif k == "reverse":
        kids.reverse()
    elif k == "double":
        x.extend(list(kids))
    elif k == "link":
        x.append(objs[op[1]])
    elif k == "tagify":
        objs["R"] = x.tagify()
    elif k == "name":
        x.name = op[1]
    elif k == "ws":
        x.add_ws = not x.add_ws
    elif k == "set":
        x.attrs[op[1]] = real.attr_value(op[2])
    elif k == "update":
        x.attrs.update({"k": op[1]}, data_x="1")
    elif k == "popattr":
        x.attrs.pop(next(iter(x.attrs)))
    elif k == "clearattrs":
        x.attrs.clear()
    elif k == "class":
        x.add_class(op[1])
    elif k == "class0":
        x.add_class(op[1], prepend=True)
    elif k == "style":
        x.add_style(op[1])
    elif k == "children":
        x.children = TagList("new", real.build(PAYLOADS["e"]))
    elif k == "with":
        import sys
        old = sys.displayhook
        try:
            sys.displayhook = lambda v: None
            with x:
                sys.displayhook(real.build(PAYLOADS["h"]))
        finally:
            sys.displayhook = old
    else:
        raise ValueError(op)


def run(case, ctx, check):
    """check(root, specs, what, ctx): root is a Tag (then specs has one item) or a TagList."""
    s, hist = case
    nodes = start(s)
    objs = make(nodes)
    what = f"start {s}"
    done = []

    def look():
        n = nodes["R"]
        sp = specs(n.kids) if n.name is None else (n.spec(),)
        try:
            check(objs["R"], sp, f"start {s}, after {done}", ctx)
            a = nodes["A"]
            check(objs["A"], (a.spec(),), f"start {s}, after {done}, tag A alone", ctx)
        except Exception as e:
            from .engine import Violation
            if isinstance(e, Violation):
                raise
            raise Violation(f"start {s}, after {done}: {type(e).__name__}: {e}")
        ctx.state(sp)

    look()
    for h, op in hist:
        if not model_op(nodes[h], op, nodes):
            return
        done.append((h, op))
        real_op(objs[h], op, objs)
        ctx.step()
        look()
    ctx.trace()
