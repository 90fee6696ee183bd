"""C14: child lists hold only normalised nodes after any sequence of operations.

Breadth-first over operation histories: a plain Python list is the model of a TagList (and of a
Tag's children); every operation is executed on both and every state compared element by element
(identity for objects, type and value for strings), including after failing operations."""
import collections
import collections.abc
import enum
import itertools

from htmltools import (HTML, HTMLDependency, MetadataNode, Tag, TagList, is_tag_child,
                       is_tag_node)
from mc import real
from mc.common import NASTY, SIZES, chunks, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = ("slice/item assignment, dict arguments of extend() and HTML()+TagList"
               " are not specified and not exercised",)


class Str(str):
    pass


class NoisyInt(int):
    def __str__(self):
        return "<i>"


class Color(enum.IntEnum):
    RED = 1


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class Named(collections.namedtuple("Named", "first second")):
    pass


Pair = collections.namedtuple("Pair", "a b")


class SubTagList(TagList):
    pass


class Invalid:
    pass


# Leaf objects shared by every run (identity matters).
TAG = Tag("b", "x")
TAG2 = Tag("p")
HTM = HTML("<h>")
META = real.Meta(1)
DEP = HTMLDependency("d", "1.0")
REPR = real.ReprObj("<r>")
TFY = real.Expand(lambda: "x")
INV = Invalid()

LEAVES = {
    "s": "s<", "empty": "", "nl": "a\nb", "int": 3, "zero": 0, "neg": -1, "float": 1.5,
    "f0": 0.0, "true": True, "false": False, "none": None, "tag": TAG, "tag2": TAG2, "html": HTM,
    "meta": META, "dep": DEP, "repr": REPR, "tfy": TFY, "str_sub": Str("q"), "big": 10**30,
    "noisy": NoisyInt(4), "enum": Color.RED, "inf": float("inf"), "html0": HTML(""),
}
INVALID = {"obj": INV, "bytes": b"x", "set": {1}, "gen": 0, "complex": 1j, "type": Invalid,
           "func": len, "ellipsis": ..., "range": range(2), "bytearray": bytearray(b"x"),
           "memview": memoryview(b"x"), "notimpl": NotImplemented}
del INVALID["gen"]
# A class object like Tag/str is excluded: runtime protocols accept classes with the method.


def thing(a):
    """Argument spec -> real argument (fresh containers, shared leaves)."""
    if isinstance(a, str):
        return LEAVES[a] if a in LEAVES else INVALID[a]
    kind, *items = a
    xs = [thing(i) for i in items]
    kinds = {"l": list, "t": tuple, "ml": MyList, "mt": MyTuple, "np": lambda v: Pair(*v),
             "nn": lambda v: Named(*v)}
    return kinds[kind](xs) if kind in kinds else \
        (TagList(*xs) if kind == "T" else SubTagList(*xs) if kind == "ST" else
         {"k": xs} if kind == "d" else None)


def flat(a):
    """Model: spec -> list of nodes, or TypeError."""
    if isinstance(a, str):
        if a in INVALID:
            raise TypeError(a)
        v = LEAVES[a]
        if v is None:
            return []
        if isinstance(v, (int, float)):
            return [str(v)]
        return [v]
    kind, *items = a
    if kind == "d":
        raise TypeError("dict")
    return [x for i in items for x in flat(i)]


def same(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, str):
            if not isinstance(g, str) or g != w or (type(w) is not str and g is not w):
                return False
        elif g is not w:
            return False
    return True


def show(xs):
    return "[" + ", ".join(f"{type(x).__name__}:{x!r}"[:60] for x in xs) + "]"


def expect(got, want, what):
    if not same(list(got), want):
        raise Violation(f"{what}:\n  got  {show(got)}\n  want {show(want)}")
    for x in got:
        if not is_tag_node(x):
            raise Violation(f"{what}: stored element {x!r} is not a tag node")
    if len(got) != len(want) or (want and (got[0] is not list(got)[0])):
        raise Violation(f"{what}: inconsistent sequence")


# ---- every operation with every argument -----------------------------------------------------

def arg_cases(n):
    atoms = tuple(LEAVES) + tuple(INVALID)
    for a in atoms:
        yield a
    for kind in ("l", "t", "T", "ml", "ST", "d"):
        yield (kind,)
        for a in atoms:
            if kind in ("T", "ST") and a in INVALID:
                continue
            yield (kind, a)
    for a in atoms:
        yield ("mt", a)
        for b in atoms:
            yield ("np", a, b)
            yield ("l", ("nn", a, ("np", b, a)))
    short = ("s", "int", "none", "tag", "html", "dep", "obj")
    for kind in ("l", "t", "T"):
        for a in itertools.product(short, repeat=2):
            if kind == "T" and "obj" in a:
                continue
            yield (kind,) + a
    inner = [(k,) + a for k in ("l", "t", "T") for m in (0, 1, 2)
             for a in itertools.product(("s", "none", "int", "obj"), repeat=m)
             if not (k == "T" and "obj" in a)]
    for k in ("l", "t", "T"):
        for x in inner:
            if k == "T" and "obj" in x:
                continue
            for pre in ((), ("s",), ("none",)):
                for post in ((), ("tag",), ("int",)):
                    yield (k,) + pre + (x,) + post
    if n:
        for k in ("l", "t"):
            for x in inner:
                for y in inner:
                    if len(x) + len(y) <= 5:
                        yield (k, x, "s", y)
                        yield (k, (k, x), y)


BASES = ((), ("s",), ("tag", "s", "html"))


def has_invalid(a):
    return a in INVALID if isinstance(a, str) else a[0] == "d" or any(map(has_invalid, a[1:]))


def run_arg(a, ctx):
    ctx.state(a)
    try:
        f = flat(a)
        ok = True
    except TypeError:
        ok = False
    # is_tag_child accepts whatever the operations accept.
    if ok and is_tag_child(thing(a)) is not True:
        raise Violation(f"is_tag_child({a!r}) is {is_tag_child(thing(a))!r}")
    isd = not isinstance(a, str) and a[0] == "d"
    for base in BASES:
        b = [x for i in base for x in flat(i)]
        for op, tf, mf in OPS1:
            if isd and op in ("ctor", "Tag", "Tagmid", "extend", "Tag.extend", "add", "radd",
                              "iadd", "ctor2"):
                continue  # dicts are attributes, or their iteration is not specified
            if op in LISTOPS and isinstance(a, str) and not (
                    isinstance(thing(a), (str, HTML))):
                continue  # not an iterable of children: unspecified kind of argument
            if op in LISTOPS and isinstance(a, str) and thing(a) == "" and op == "x":
                continue
            x = thing(a)
            before = list(x) if isinstance(x, (list, tuple, TagList)) else None
            tl = TagList(*[thing(i) for i in base])
            tag = Tag("div", *[thing(i) for i in base])
            tgt = tag if op.startswith("Tag") else tl
            try:
                r = tf(tgt, x)
                raised = False
            except TypeError:
                raised = True
            cur = tag.children if op.startswith("Tag") else tl
            if raised != (not ok):
                raise Violation(f"{op}({a!r}) on {base!r}: " + (
                    "TypeError" if raised else f"accepted, result {show(list(cur))}"))
            if raised:
                expect(cur, b, f"{op}({a!r}) failed, but the list changed")
            else:
                new, unchanged = mf(b, f)
                if r is not None:
                    if not isinstance(r, TagList):
                        raise Violation(f"{op}: result is {type(r).__name__}")
                    expect(r, new, f"{op}({a!r}) on {base!r}")
                    if unchanged:
                        expect(cur, b, f"{op}({a!r}) changed its operand")
                        if r is cur:
                            raise Violation(f"{op} returned its operand")
                else:
                    expect(cur, new, f"{op}({a!r}) on {base!r}")
            if before is not None and not (len(x) == len(before) and
                                           all(p is q for p, q in zip(x, before))):
                raise Violation(f"{op}({a!r}) changed its argument")
            ctx.step()
    ctx.outcome((ok, repr(f) if ok else None))
    ctx.trace()


def _iadd(t, x):
    orig = t
    t += x
    if t is not orig:
        raise Violation("+= rebound to a different object")


# (name, real, model(base, flat) -> (result, operand unchanged?))
OPS1 = (
    ("ctor", lambda t, x: TagList(x), lambda b, f: (f, True)),
    ("ctor2", lambda t, x: TagList(x, "k", x), lambda b, f: (f + ["k"] + f, True)),
    ("append", lambda t, x: t.append(x), lambda b, f: (b + f, False)),
    ("append3", lambda t, x: t.append("k", x, None), lambda b, f: (b + ["k"] + f, False)),
    ("extend", lambda t, x: t.extend(x), lambda b, f: (b + f, False)),
    ("extend[]", lambda t, x: t.extend([x, "k"]), lambda b, f: (b + f + ["k"], False)),
    ("extend()", lambda t, x: t.extend(("k", x)), lambda b, f: (b + ["k"] + f, False)),
    ("insert0", lambda t, x: t.insert(0, x), lambda b, f: (f + b, False)),
    ("insert1", lambda t, x: t.insert(1, x), lambda b, f: (b[:1] + f + b[1:], False)),
    ("insert-1", lambda t, x: t.insert(-1, x), lambda b, f: (b[:-1] + f + b[-1:], False)),
    ("insert99", lambda t, x: t.insert(99, x), lambda b, f: (b + f, False)),
    ("insert-99", lambda t, x: t.insert(-99, x), lambda b, f: (f + b, False)),
    ("add", lambda t, x: t + x, lambda b, f: (b + f, True)),
    ("add[]", lambda t, x: t + [x], lambda b, f: (b + f, True)),
    ("radd", lambda t, x: (x if not isinstance(x, HTML) else TagList(x)) + t,
     lambda b, f: (f + b, True)),
    ("radd[]", lambda t, x: [x] + t, lambda b, f: (f + b, True)),
    ("radd()", lambda t, x: (x, "k") + t, lambda b, f: (f + ["k"] + b, True)),
    ("iadd", _iadd, lambda b, f: (b + f, False)),
    ("iadd[]", lambda t, x: _iadd(t, [x]), lambda b, f: (b + f, False)),
    ("Tag.append", lambda t, x: t.append(x), lambda b, f: (b + f, False)),
    ("Tag.append2", lambda t, x: t.append("k", x), lambda b, f: (b + ["k"] + f, False)),
    ("Tag.extend", lambda t, x: t.extend(x), lambda b, f: (b + f, False)),
    ("Tag.extend[]", lambda t, x: t.extend([x]), lambda b, f: (b + f, False)),
    ("Tag.insert", lambda t, x: t.insert(1, x), lambda b, f: (b[:1] + f + b[1:], False)),
    ("Tag", lambda t, x: Tag("i", x).children, lambda b, f: (f, True)),
    ("Tagmid", lambda t, x: Tag("i", "k", x, {"a": "1"}, x).children,
     lambda b, f: (["k"] + f + f, True)),
)
# Iterables of children: name -> made from a list of items
ITERABLES = {
    "generator": lambda xs: (x for x in xs), "iterator": iter, "map": lambda xs: map(lambda x: x, xs),
    "deque": collections.deque, "keys": lambda xs: dict.fromkeys(xs).keys(),
    "values": lambda xs: dict(enumerate(xs)).values(), "userlist": collections.UserList,
    "reversed": lambda xs: reversed(xs[::-1]), "chain": lambda xs: itertools.chain(xs, ()),
    "frozenset": frozenset, "set": set, "zip": lambda xs: (x for x, in zip(xs)),
    "tuple subclass": MyTuple, "list": list, "iter of taglist": lambda xs: iter(xs),
    "sequence": lambda xs: Seq(xs),
}


class Seq(collections.abc.Sequence):
    def __init__(self, xs):
        self.xs = list(xs)

    def __getitem__(self, i):
        return self.xs[i]

    def __len__(self):
        return len(self.xs)


def iter_cases():
    kinds = ("s", "int", "none", "tag", "html", ("l", "s", ("t", "none", "tag2")), ("T", "dep"), "obj",
             "repr")
    for k in ITERABLES:
        for n in range(4):
            for items in itertools.product(kinds, repeat=n):
                if n == 3 and len(set(items)) < 3:
                    continue
                yield (k, items)


def run_iter(case, ctx):
    """extend, +, reflected + and += with iterables of every kind."""
    k, items = case
    ctx.state(case)
    if k in ("set", "frozenset", "keys") and (len(items) > 1 and k != "keys" or len(
            set(items)) < len(items) or any(isinstance(i, tuple) for i in items)):
        return  # order not defined, or not hashable
    if k in ("set", "frozenset", "keys") and any(type(LEAVES.get(i)).__hash__ is None for i in items):
        return
    try:
        f = [x for i in items for x in flat(i)]
    except TypeError:
        f = None
    for base in BASES:
        b = [x for i in base for x in flat(i)]
        for op, real_op, model in (
                ("extend", lambda t, x: t.extend(x), lambda: b + f),
                ("Tag.extend", lambda t, x: t.extend(x), lambda: b + f),
                ("+", lambda t, x: t + x, lambda: b + f),
                ("reflected +", lambda t, x: x + t, lambda: f + b),
                ("+=", _iadd, lambda: b + f)):
            tl = (TagList if op[0] != "T" else lambda *a: Tag("p", *a))(*[thing(i) for i in base])
            x = ITERABLES[k]([thing(i) for i in items])
            try:
                r = real_op(tl, x)
                raised = False
            except TypeError as e:
                raised = e
            cur = tl.children if op[0] == "T" else tl
            if bool(raised) != (f is None):
                raise Violation(f"{base!r} {op} {k} of {items!r}: {raised!r}" if raised else
                                f"{base!r} {op} {k} of {items!r}: accepted")
            if raised:
                expect(cur, b, f"{op} {k} of {items!r} failed, but the list changed")
            elif r is None:
                expect(cur, model(), f"{base!r} {op} {k} of {items!r}")
            else:
                if not isinstance(r, TagList) or r is cur:
                    raise Violation(f"{op} {k}: result is {type(r).__name__}")
                expect(r, model(), f"{base!r} {op} {k} of {items!r}")
                expect(cur, b, f"{op} {k} changed its operand")
            ctx.step()
    ctx.trace()


LISTOPS = ("extend", "add", "radd", "iadd", "Tag.extend")


# ---- histories -------------------------------------------------------------------------------

ARGS = ("s", ("l", "none", "int", ("t", "tag", "s")), "obj", ("l", "s", "obj"), ("T", "html", "s"))
HOPS = tuple(
    [(o, a) for o in ("append", "extend[]", "insert0", "insert1", "insert-1", "add=", "radd=",
                      "iadd") for a in ARGS[:4]] +
    [("append", ARGS[4]), ("iadd", ARGS[4]), ("add=", ARGS[4]), ("extend", ARGS[4])] +
    [("self+",), ("self+=",), ("extself",), ("appself",), ("insself",), ("slice13",),
     ("slice-1",), ("rev",), ("step2",), ("mul2",), ("rmul2",), ("mul0",), ("imul2",), ("pop",),
     ("pop0",), ("del0",), ("copy",), ("reverse",), ("clear",), ("tolist",)])


def hist_cases(n, ops):
    for k in range(1, n + 1):
        for h in itertools.product(ops, repeat=k):
            yield h


def apply_op(tl, model, op):
    """-> (taglist, model list)"""
    name = op[0]
    if len(op) == 2:
        a = op[1]
        x = thing(a)
        try:
            f = flat(a)
        except TypeError:
            f = None
        old = list(model)
        try:
            if name == "append":
                tl.append(x)
            elif name == "extend":
                tl.extend(x)
            elif name == "extend[]":
                tl.extend([x])
            elif name == "insert0":
                tl.insert(0, x)
            elif name == "insert1":
                tl.insert(1, x)
            elif name == "insert-1":
                tl.insert(-1, x)
            elif name == "add=":
                tl2 = tl + ([x] if not isinstance(a, tuple) else x)
                expect(tl, model, "operand of +")
                tl = tl2
            elif name == "radd=":
                tl2 = ([x] if not isinstance(a, tuple) else x) + tl
                expect(tl, model, "operand of reflected +")
                tl = tl2
            elif name == "iadd":
                t0 = tl
                tl += [x] if not isinstance(a, tuple) else x
                if tl is not t0:
                    raise Violation("+= returned another object")
            raised = False
        except TypeError:
            raised = True
        if raised != (f is None):
            raise Violation(f"{op!r}: " + ("TypeError" if raised else "accepted"))
        if f is None:
            return tl, old
        if name in ("append", "extend", "extend[]", "add=", "iadd"):
            model = model + f
        elif name in ("insert0", "radd="):
            model = f + model
        elif name == "insert1":
            model = model[:1] + f + model[1:]
        else:
            model = model[:-1] + f + model[-1:]
        return tl, model
    if name == "self+":
        return tl + tl, model + model
    if name == "self+=":
        tl += tl
        return tl, model + model
    if name == "extself":
        tl.extend(tl)
        return tl, model + model
    if name == "appself":
        tl.append(tl, "k", tl)
        return tl, model + model + ["k"] + model
    if name == "insself":
        tl.insert(1, tl)
        return tl, model[:1] + model + model[1:]
    if name == "slice13":
        return tl[1:3], model[1:3]
    if name == "slice-1":
        return tl[:-1], model[:-1]
    if name == "rev":
        return tl[::-1], model[::-1]
    if name == "step2":
        return tl[::2], model[::2]
    if name == "mul2":
        return tl * 2, model * 2
    if name == "rmul2":
        return 2 * tl, model * 2
    if name == "mul0":
        return tl * 0, []
    if name == "imul2":
        tl *= 2
        return tl, model * 2
    if name in ("pop", "pop0"):
        if model:
            i = -1 if name == "pop" else 0
            r = tl.pop(i)
            if not same([r], [model[i]]):
                raise Violation(f"pop returned {r!r}")
            model = model[:-1] if i else model[1:]
        return tl, model
    if name == "del0":
        if model:
            del tl[0]
        return tl, model[1:]
    if name == "copy":
        c = tl.copy()
        tl.append("gone")
        return c, model
    if name == "reverse":
        tl.reverse()
        return tl, model[::-1]
    if name == "clear":
        tl.clear()
        return tl, []
    if name == "tolist":
        return TagList(list(tl), tuple(tl)), model + model
    raise ValueError(op)


def key(model):
    return tuple(x if isinstance(x, str) else ("o", id(x)) for x in model)


def run_hist(h, ctx):
    tl, model = TagList("a", [TAG2, None]), ["a", TAG2]
    for i, op in enumerate(h):
        if len(model) > 64:
            break
        tl, model = apply_op(tl, model, op)
        if not isinstance(tl, TagList):
            raise Violation(f"step {i} {op!r}: result is {type(tl).__name__}")
        expect(tl, model, f"step {i} {op!r} of {h!r}")
        ctx.step()
        ctx.state(key(model))
    ctx.trace()


TOPS = tuple([(o, a) for o in ("append", "extend", "insert", "append2") for a in ARGS] +
             [("c.append", ARGS[1]), ("c.insert", ARGS[0]), ("c=+",), ("c+=",), ("self",),
              ("enter",), ("ext_children",)])


def run_taghist(h, ctx):
    """Operations of Tag; a Tag's children follow the same model."""
    t, model = Tag("div", "a", [TAG2, None], {"id": "x"}), ["a", TAG2]
    for i, op in enumerate(h):
        name = op[0]
        a = op[1] if len(op) > 1 else None
        if a is not None:
            x = thing(a)
            try:
                f = flat(a)
            except TypeError:
                f = None
            if name == "extend" and a == "obj":
                continue
            try:
                if name == "append":
                    t.append(x)
                elif name == "append2":
                    t.append("k", x)
                elif name == "extend":
                    t.extend(x)
                elif name == "insert":
                    t.insert(-1, x)
                elif name == "c.append":
                    t.children.append(x)
                else:
                    t.children.insert(0, x)
                raised = False
            except TypeError:
                raised = True
            if raised != (f is None):
                raise Violation(f"{op!r}: " + ("TypeError" if raised else "accepted"))
            if f is not None:
                model = {"append": lambda: model + f, "append2": lambda: model + ["k"] + f,
                         "extend": lambda: model + f, "c.append": lambda: model + f,
                         "insert": lambda: model[:-1] + f + model[-1:],
                         "c.insert": lambda: f + model}[name]()
        elif name == "c=+":
            t.children = t.children + ["z", [1]]
            model = model + ["z", "1"]
        elif name == "c+=":
            t.children += ["z", None, 2.5]
            model = model + ["z", "2.5"]
        elif name == "self":
            u = Tag("u")
            u.append(t.children, t)
            expect(u.children, model + [t], "children of another tag as argument")
        elif name == "ext_children":
            if len(model) < 40:
                t.extend(t.children)
                model = model + model
        elif name == "enter":
            if ("enter",) in h[:i]:
                continue  # entering a tag again is C17's business
            import sys
            old = sys.displayhook
            sys.displayhook = lambda v: None
            try:
                with t:
                    sys.displayhook(["w", None, (3, TAG)])
            finally:
                sys.displayhook = old
            model = model + ["w", "3", TAG]
        expect(t.children, model, f"step {i} {op!r}")
        if not isinstance(t.children, TagList):
            raise Violation("children is not a TagList")
        ctx.step()
        ctx.state(key(model))
    if dict(t.attrs) != {"id": "x"}:
        raise Violation(f"attributes changed: {t.attrs!r}")
    ctx.trace()


# ---- indices, sizes, failing positions -------------------------------------------------------

class Idx:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


def index_cases():
    for n in range(0, 7):
        for i in list(range(-9, 10)) + [10**6, -10**6]:
            for a in ("s", "none", ("l",), ("l", "s", "int"), ("T", "tag", "s"), "obj",
                      ("l", "s", "obj")):
                yield (n, i, a)


def run_index(case, ctx):
    n, i, a = case
    ctx.state(case)
    base = [f"e{j}" for j in range(n)]
    for mk in (TagList, lambda *x: Tag("p", *x)):
        for ix in (i, Idx(i)):
            t = mk(*base)
            model = list(base)
            try:
                f = flat(a)
                model[i:i] = f
            except TypeError:
                f = None
            try:
                t.insert(ix, thing(a))
                raised = False
            except TypeError:
                raised = True
            if raised != (f is None):
                raise Violation("insert: " + ("TypeError" if raised else "accepted"))
            expect(t if isinstance(t, TagList) else t.children, model, f"insert({i}, {a!r})")
            ctx.step()
    ctx.trace()


def slice_cases():
    for n in range(0, 6):
        for lo in (None, -7, -2, -1, 0, 1, 2, 7):
            for hi in (None, -7, -2, -1, 0, 1, 3, 7):
                for st in (None, 1, 2, -1, -2):
                    yield (n, lo, hi, st)


def run_slice(case, ctx):
    n, lo, hi, st = case
    base = [("tag", "s", "html", "dep", "repr")[j] for j in range(n)]
    model = [x for b in base for x in flat(b)]
    t = TagList(*[thing(b) for b in base])
    r = t[lo:hi:st]
    if not isinstance(r, TagList):
        raise Violation(f"slice is a {type(r).__name__}")
    expect(r, model[lo:hi:st], f"[{lo}:{hi}:{st}]")
    expect(t, model, "slicing changed the list")
    r.append("new")
    expect(t, model, "appending to a slice changed the list")
    for k in (-1, 0, 1, 2, 3):
        for m in (t * k, k * t):
            if not isinstance(m, TagList):
                raise Violation(f"repetition is a {type(m).__name__}")
            expect(m, model * k, f"* {k}")
    ctx.state(case)
    ctx.step(7)
    ctx.trace()


def size_cases():
    for n in SIZES:
        for kind in ("wide", "deep", "mixed", "bad", "ops"):
            if kind == "deep" and n > 300:
                continue
            yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    ctx.state(case)
    leaf = ("s", "int", "none", "tag", "html", "dep", "zero", "repr")
    if kind == "wide":
        a = ("l",) + tuple(leaf[i % 8] for i in range(n))
    elif kind == "deep":
        a = "s"
        for i in range(n):
            a = (("l", "t", "T")[i % 3], a)
    elif kind == "mixed":
        a = ("t",) + tuple((("l", leaf[i % 8], ("t", "s", "int")), leaf[i % 8])[i % 2]
                           for i in range(n))
    elif kind == "bad":
        a = ("l",) + tuple(leaf[i % 8] for i in range(n)) + ("obj",)
    else:
        tl, model = TagList(), []
        for i in range(n):
            x = leaf[i % 8]
            if i % 3 == 0:
                tl.insert(i // 2, thing(x))
                model[i // 2:i // 2] = flat(x)
            elif i % 3 == 1:
                tl.append([thing(x)], i)
                model += flat(x) + [str(i)]
            else:
                tl += [thing(x)]
                model += flat(x)
        expect(tl, model, f"{n} operations")
        ctx.step(n)
        ctx.trace()
        return
    for f in (lambda: TagList(thing(a)), lambda: TagList(*thing(a)), lambda: Tag("p", thing(a))):
        try:
            want = flat(a)
        except TypeError:
            want = None
        try:
            r = f()
        except TypeError:
            if want is not None:
                raise
            continue
        if want is None:
            raise Violation("invalid object accepted")
        expect(r.children if isinstance(r, Tag) else r, want, f"{kind} {n}")
        ctx.step()
    t = TagList("k")
    for op in (t.append, t.extend, lambda x: t.insert(0, x), lambda x: _iadd(t, x)):
        if kind == "bad":
            try:
                op(thing(a))
                raise Violation("invalid object accepted")
            except TypeError:
                pass
            expect(t, ["k"], f"failed operation with {n} leading items")
            ctx.step()
    ctx.trace()


def run_str(s, ctx):
    """Strings are kept whole by every operation, HTML() stays the same object."""
    ctx.state(s)
    for v in (s, Str(s), HTML(s)):
        w = [v]
        t = TagList("k")
        t.extend(v)
        expect(t, ["k"] + w, "extend(str)")
        t = TagList("k")
        t += v
        expect(t, ["k"] + w, "+= str")
        expect(TagList("k") + v, ["k"] + w, "+ str")
        if not isinstance(v, HTML):
            expect(v + TagList("k"), w + ["k"], "str +")
        g = Tag("p", "k")
        g.extend(v)
        expect(g.children, ["k"] + w, "Tag.extend(str)")
        g.append(v, [v])
        expect(g.children, ["k"] + w * 3, "Tag.append(str)")
        g.insert(0, v)
        expect(g.children, w + ["k"] + w * 3, "Tag.insert(str)")
        expect(TagList(v, (v, [v])), w * 3, "constructor")
        if not (is_tag_node(v) and is_tag_child(v)):
            raise Violation(f"{v!r} is not a tag node/child")
        ctx.step(8)
    ctx.trace()


def run_self(case, ctx):
    """A failing operation on every position of an invalid object leaves everything unchanged."""
    n, pos, kind, op = case
    ctx.state(case)
    items = [f"i{j}" for j in range(n)]
    items.insert(pos, INV)
    arg = {"flat": lambda: items, "nested": lambda: [items[:1], (items[1:],)],
           "tuple": lambda: tuple(items), "after_list": lambda: [["x", ["y"]], *items]}[kind]()
    t, g = TagList("a", TAG), Tag("p", "a", TAG)
    fs = {"append": (lambda: t.append(arg), lambda: g.append(arg)),
          "appendstar": (lambda: t.append(*arg), lambda: g.append(*arg)),
          "extend": (lambda: t.extend(arg), lambda: g.extend(arg)),
          "insert": (lambda: t.insert(1, arg), lambda: g.insert(1, arg)),
          "iadd": (lambda: _iadd(t, arg), lambda: _iadd(g.children, arg)),
          "add": (lambda: t + arg, lambda: g.children + arg),
          "radd": (lambda: arg + t, lambda: arg + g.children)}[op]
    for f in fs:
        try:
            f()
            raise Violation("accepted an invalid object")
        except TypeError:
            pass
        ctx.step()
    expect(t, ["a", TAG], "after a failing operation")
    expect(g.children, ["a", TAG], "after a failing operation")
    ctx.trace()


def self_cases():
    for n in range(0, 5):
        for pos in range(n + 1):
            for kind in ("flat", "nested", "tuple", "after_list"):
                for op in ("append", "appendstar", "extend", "insert", "iadd", "add", "radd"):
                    yield (n, pos, kind, op)


# ---- lists given to themselves; the same objects several times ------------------------------

OWN = {
    "x": lambda x: (x, 1), "[x]": lambda x: ([x], 1), "[x,x]": lambda x: ([x, x], 2),
    "(x,k)": lambda x: ((x, "k"), (1, "k")), "(k,x)": lambda x: (("k", x), ("k", 1)),
    "[[x]]": lambda x: ([[x]], 1), "x[:]": lambda x: (x[:], 1), "x[:1]": lambda x: (x[:1], "first"),
    "x[::-1]": lambda x: (x[::-1], "rev"), "TagList(x)": lambda x: (TagList(x), 1),
    "list(x)": lambda x: (list(x), 1), "tuple(x)": lambda x: (tuple(x), 1), "x*2": lambda x: (x * 2, 2),
    "x+x": lambda x: (x + x, 2), "x.data": lambda x: (x.data, 1), "copy": lambda x: (x.copy(), 1),
}


def own_cases(n):
    def gen():
        for k in range(n + 1):
            for items in itertools.product(("s", "tag", "html", "dep"), repeat=k):
                for form in OWN:
                    for tag in (0, 1):
                        yield (items, form, tag)
    return gen


def _own_model(m, r):
    if r == "first":
        return m[:1]
    if r == "rev":
        return m[::-1]
    if isinstance(r, tuple):
        return [y for x in r for y in (m if x == 1 else [x])]
    return m * r


def run_own(case, ctx):
    """A list (or a tag's children) is an argument of its own operations."""
    items, form, tag = case
    base = [LEAVES[i] for i in items]
    n = len(base)
    ctx.state(case)

    def go(what, f, want):
        t = Tag("p", *base) if tag else None
        x = t.children if tag else TagList(*base)
        arg, r = OWN[form](x)
        m = _own_model(base, r)
        res = f(t if tag else x, x, arg)
        new, own = want(m)
        if res is not None and res is not x and res is not t:
            expect(res, new, f"{what} {form} of {items!r}")
            expect(x, base, f"{what} {form} of {items!r} changed its operand")
        else:
            x = t.children if tag else x
            expect(x, own, f"{what} {form} of {items!r}")
        ctx.step()

    both = lambda new: (new, new)  # noqa
    go("append", lambda t, x, a: t.append(a), lambda m: both(base + m))
    go("append two", lambda t, x, a: t.append(a, "z", a), lambda m: both(base + m + ["z"] + m))
    go("extend", lambda t, x, a: t.extend(a), lambda m: both(base + m))
    for i in range(-n - 1, n + 2):
        at = len(base[:i]) if i >= 0 else max(0, n + i)
        go(f"insert {i}", lambda t, x, a: t.insert(i, a), lambda m: both(base[:at] + m + base[at:]))
    go("add", lambda t, x, a: x + a, lambda m: both(base + m))
    if not isinstance(OWN[form](TagList())[0], TagList):
        go("radd", lambda t, x, a: a + x, lambda m: both(m + base))
    go("construct", lambda t, x, a: TagList(a), lambda m: both(m))
    go("construct two", lambda t, x, a: TagList(a, "z", x), lambda m: both(m + ["z"] + base))
    go("tag", lambda t, x, a: Tag("q", a).children, lambda m: both(m))
    if not tag:
        go("iadd", lambda t, x, a: _iadd(x, a), lambda m: both(base + m))
        go("iadd k", lambda t, x, a: _iadd(x, a) or _iadd(x, ["y"]), lambda m: both(base + m + ["y"]))
    ctx.trace()


def spaces(tier):
    q = tier == "quick"
    red = tuple(o for o in HOPS if o[0] in
                ("append", "insert1", "iadd", "radd=", "self+=", "extself", "appself", "insself",
                 "slice13", "rev", "mul2", "pop0", "copy", "imul2") and
                (len(o) == 1 or o[1] in (ARGS[1], ARGS[3])))
    return [
        Space("arguments", f"every argument shape x {len(OPS1)} operations x 3 lists",
              lambda: arg_cases(not q), run_arg, block=8),
        Space("iterables", f"{len(ITERABLES)} kinds of iterables of up to 3 items x 5 operations x 3 lists",
              iter_cases, run_iter, block=16),
        Space("failures", "invalid object at every position x shape x operation", self_cases,
              run_self),
        Space("own", f"lists of up to {3 if q else 4} nodes (repeated ones too) x {len(OWN)} ways of giving a "
              "list to its own operations", own_cases(3 if q else 4), run_own, block=16),
        Space("indices", "insert at 21 indices into lists of 0-6", index_cases, run_index),
        Space("slices", "all slices/repetitions of lists of 0-5", slice_cases, run_slice),
        Space("strings", "nasty strings kept whole", lambda: iter(NASTY), run_str, block=4),
        Space("sizes", "width, depth, operation-count ladders", size_cases, run_size, block=1),
        Space("histories", f"all histories up to {3 if q else 4} of {len(HOPS)} TagList operations",
              lambda: hist_cases(3 if q else 4, HOPS), run_hist, block=128),
        Space("histories-deep", f"all histories up to {4 if q else 5} of {len(red)} operations",
              lambda: hist_cases(4 if q else 5, red), run_hist, block=128),
        Space("tag-histories", f"all histories up to {3 if q else 4} of {len(TOPS)} Tag operations",
              lambda: hist_cases(3 if q else 4, TOPS), run_taghist, block=64),
    ]
