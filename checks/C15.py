"""C15: attribute names and values are normalised and merged in argument order.

The model of an attribute map is an ordered dict name -> list of parts.  All argument sequences
and all update/item-assignment histories within the bound are executed on the real constructors,
TagAttrDict and consolidate_attrs and compared: names, order, values (str or HTML) and children."""
import collections
import enum
import itertools

from htmltools import HTML, HTMLDependency, HTMLDocument, Tag, TagList, consolidate_attrs, svg, tags
from mc import model as M
from mc import real
from mc.common import NASTY, SIZES, chunks, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "assigning None/False to a name that already has a value is not specified and not checked",
    "|=, setdefault and other inherited dict mutators are not exercised")


class NoisyInt(int):
    def __str__(self):
        return "n!"


class Color(enum.IntEnum):
    RED = 1


class Str(str):
    pass


class MyDict(dict):
    pass


def part(v):
    if v is None or v is False:
        return None
    if v is True:
        return ""
    if isinstance(v, (int, float)):
        return str(v)
    return v


def merge(pairs):
    """[(raw name, value), ...] of one call -> {name: [parts]}"""
    m = {}
    for k, v in pairs:
        p = part(v)
        if p is not None:
            m.setdefault(M.norm_name(k), []).append(p)
    return m


def match(got, parts):
    """The stored value is the parts joined by single spaces."""
    if any(isinstance(p, tuple) for p in parts):
        # With HTML() among them: HTML, each plain part escaped so that it decodes to itself.
        if not isinstance(got, HTML):
            return False
        s = got.as_string()
        if s == " ".join(M.attr_text(p) for p in parts):
            return True
        import re
        return re.fullmatch(M.attr_regex(("P",) + tuple(parts)), s, re.S) is not None
    return isinstance(got, str) and got == " ".join(parts)


def expect(attrs, model, what):
    if list(attrs) != list(model):
        raise Violation(f"{what}: names {list(attrs)!r}, want {list(model)!r}")
    for k, parts in model.items():
        if not match(attrs[k], parts):
            raise Violation(f"{what}: {k} is {type(attrs[k]).__name__} {str(attrs[k])!r}, want "
                            f"parts {parts!r}")


def rv(v):
    return real.attr_value(v)


def D(pairs):
    return {k: rv(v) for k, v in pairs}


# ---- one call ------------------------------------------------------------------------------

def default_dict(d):
    r = collections.defaultdict(list)
    r.update(d)
    return r


FORMS = {
    "dict": dict, "subclass": MyDict, "ordered": collections.OrderedDict, "default": default_dict,
    "attrs": lambda d: Tag("i", d).attrs, "class": lambda d: type(Tag("i").attrs)(d),
    "consolidated": lambda d: consolidate_attrs(d)[0], "counter": lambda d: Count(d),
}


class Count(dict):
    """A dict subclass with text and truth value of its own."""

    def __bool__(self):
        return False

    def __str__(self):
        return "counted"

    def _repr_html_(self):
        return "<shown>"


KIDS = (lambda: ["k0", None, [1, "x"], HTML("<"), Tag("i")],
        lambda: [TagList("a", [None]), ("t", ("u",)), HTMLDependency("d", "1"), real.Meta(1), 2.5],
        lambda: ["", [], (), 0, TagList()],
        lambda: [real.Expand(lambda: "e"), real.ReprObj("<r>"), Sub("s"), [[["n"]], Sub("")], Tag("b", "x")])


class Sub(str):
    pass


def form_cases():
    p = (("x", "v"), ("y_z", None), ("x_", ("H", "<")))
    r = (("y-z", "&"), ("x", True))
    s = (("k", 1),)
    fs = tuple(FORMS)
    for k in range(4):
        for a, b in itertools.product(fs, repeat=2):
            for ds in ((p, r), (r, p), (s, s), ((), r), (p, ())):
                for kw in ((), s, r):
                    yield (k, (a, b), (*ds, kw))
        for a in fs:
            for ds in ((p,), (r,), (s,), ((),), (p, r, s), (s, (), p)):
                yield (k, (a, "dict", a), (*ds, ()))


def run_form(case, ctx):
    k, forms, c = case
    run_call(c, ctx, forms, KIDS[k]())


def run_call(case, ctx, forms=(), a=None):
    """case: (dict, dict, ..., kwargs); each a tuple of (name, value) with distinct raw names."""
    *ds, kw = case
    model = merge([p for d in case for p in d])
    dicts, kws = [FORMS[f](D(d)) for d, f in itertools.zip_longest(
        ds, forms[:len(ds)], fillvalue="dict")], D(kw)
    keep = [list(d.items()) for d in dicts]
    t = Tag("p", *dicts, **kws)
    expect(t.attrs, model, "Tag")
    a = KIDS[0]() if a is None else a
    t2 = Tag("p", *[x for pr in itertools.zip_longest(a[:len(dicts)], dicts) for x in pr
                    if x is not None], *a[len(dicts):], **kws)
    expect(t2.attrs, model, "Tag with children between")
    ca, ck = consolidate_attrs(*dicts, **kws)
    if type(ca) is not dict or ck != []:
        raise Violation(f"consolidate_attrs returned {type(ca).__name__}, {ck!r}")
    expect(ca, model, "consolidate_attrs")
    mixed = [x for pr in itertools.zip_longest(a, dicts, fillvalue=a) for x in pr if x is not a]
    ca, ck = consolidate_attrs(*mixed, **kws)
    kids = [x for x in mixed if not isinstance(x, dict)]
    expect(ca, model, "consolidate_attrs with children")
    if len(ck) != len(kids) or any(x is not y for x, y in zip(ck, kids)):
        raise Violation(f"consolidate_attrs children {ck!r}, want {kids!r}")
    direct, rebuilt = Tag("p", *mixed, **kws), Tag("p", ca, *ck)
    expect(rebuilt.attrs, model, "rebuilt from consolidate_attrs")
    if str(direct) != str(rebuilt) or direct != rebuilt:
        raise Violation(f"rebuilt {rebuilt!r} differs from {direct!r}")
    rebuilt = Tag("p", *ck, ca)
    if str(direct) != str(rebuilt):
        raise Violation(f"rebuilt {rebuilt!r} differs from {direct!r}")
    f = tags.span(*dicts, **kws)
    expect(f.attrs, model, "span()")
    u = Tag("p", old="1")
    u.attrs.update(*dicts, **kws)
    m2 = {"old": ["1"], **model}
    expect(u.attrs, m2, "attrs.update")
    cls = type(t.attrs)
    expect(cls(*dicts, **kws), model, "attribute map constructor")
    expect(t.attrs, model, "unchanged")
    if [list(d.items()) for d in dicts] != keep:
        raise Violation("an argument dict was changed")
    ctx.step(9)
    ctx.state(tuple((k, tuple(v)) for k, v in model.items()))
    ctx.outcome(str(t))
    ctx.trace()


NAMES = ("x", "x_", "x__", "a_b", "a-b", "_", "__", "a_b_", "class_", "class", "for_", "_x", "a__b",
         "xLink", "data_foo_bar", "x-", "-", "é_", "a.b_c", "aria_label_", "X", "a_b__", "___x___")
VALUES = ("v", "", None, False, True, 0, 1, 2.5, "a b", " s ", ("H", "<h>"), ("H", ""), '"&', "0",
          "\n", "None")


def single_cases():
    for n in NAMES:
        for v in VALUES:
            yield (((n, v),), ())
            yield ((), ((n, v),))
            yield ((), (("q", "1"), (n, v)))
            yield (((n, v), ("q", "1")), (("q", "2"),))


def collide_cases(n, names, values):
    """n one-entry dicts/keywords in a row, every combination."""
    ent = [(k, v) for k in names for v in values]
    for seq in itertools.product(ent, repeat=n):
        yield tuple((e,) for e in seq) + ((),)
        yield tuple((e,) for e in seq[:-1]) + ((seq[-1],),)


def onecall_cases(names, values):
    """Colliding raw names inside one dict and inside the keywords."""
    for ks in itertools.permutations(names, 3):
        for vs in itertools.product(values, repeat=3):
            d = tuple(zip(ks, vs))
            yield (d, ())
            yield ((), d)
            yield (d[:1], d[1:])
            yield (d[:2], d[2:])
            yield (d[:1], d[1:2], d[2:])


def grid_cases(q):
    """dict, dict, kwargs of up to two entries each over two colliding spellings."""
    vals = ("v", None, ("H", "<")) if q else ("v", None, ("H", "<"), "", True)
    ents = [()] + [((k, v),) for k in ("x", "x_") for v in vals] + \
        [(("x", v), ("x_", w)) for v in vals for w in vals] + \
        [(("x_", v), ("y", w)) for v in vals for w in vals[:2]] + \
        [(("y", v), ("x", w)) for v in vals for w in vals[:2]]
    for a in ents:
        for b in ents:
            for c in ents:
                yield (a, b, c)


# ---- histories -----------------------------------------------------------------------------

HOPS = (
    ("set", "x", "v"), ("set", "x_", ("H", "<")), ("set", "y_z", 1), ("set", "y-z", True),
    ("set", "new", None), ("set", "new_", False),
    ("upd", ((("x", "a"), ("x_", "b")),), ()), ("upd", ((("x_", "a"),), (("x", ("H", "&")),)), ()),
    ("upd", (), (("y_z", "k"),)), ("upd", ((("y_z", None), ("n", "1")),), (("n_", 2),)),
    ("upd", ((("x", None),),), ()), ("upd", (), ()), ("upd", ((),), ()),
    ("upd", ((("y-z", ("H", "h")),),), (("y_z", "'"), ("x", "w"))),
    ("del", "x"), ("pop", "y-z"), ("copy",), ("kwdict", "x"),
)
INITS = ((((),), ()), (((("x", "0"), ("y_z", "0")),), ()), ((), (("y_z", ("H", "i")), ("x_", ""))))


def hist_cases(n):
    for init in range(len(INITS)):
        for k in range(1, n + 1):
            for h in itertools.product(HOPS, repeat=k):
                yield (init, h)


def run_hist(case, ctx):
    init, h = case
    ds, kw = INITS[init]
    t = Tag("p", *[D(d) for d in ds], **D(kw))
    model = merge([p for d in ds + (kw,) for p in d])
    for i, op in enumerate(h):
        if op[0] == "set":
            if part(op[2]) is None and M.norm_name(op[1]) in model:
                continue
            t.attrs[op[1]] = rv(op[2])
            for k, v in merge([(op[1], op[2])]).items():
                model[k] = v
        elif op[0] == "upd":
            t.attrs.update(*[D(d) for d in op[1]], **D(op[2]))
            for k, v in merge([p for d in op[1] + (op[2],) for p in d]).items():
                model[k] = v
        elif op[0] == "del":
            if op[1] in model:
                del t.attrs[op[1]]
                del model[op[1]]
        elif op[0] == "pop":
            t.attrs.pop(op[1], None)
            model.pop(op[1], None)
        elif op[0] == "copy":
            # build a tag from the attributes: single values, replaced as a whole
            t = Tag("p", t.attrs)
        elif op[0] == "kwdict":
            if op[1] in model:
                t = Tag("p", {op[1]: t.attrs[op[1]]}, x="z")
                model = {"x": model[op[1]] + ["z"]}
        expect(t.attrs, model, f"step {i} {op!r}")
        ctx.step()
        ctx.state(tuple((k, tuple(v)) for k, v in model.items()))
    ctx.trace()


RVALS = ("v", ("H", "v"), "<", ("H", "<"), "&lt;", ("H", "&lt;"), "", True, ("H", ""), 1, "1", 1.0,
         "1.0", "V", "v ", " v", "v v", ("H", "v v"), "True", 0, "0")
HOWS = ("set", "upd", "updkw", "updmore", "set_", "upd2")


def replace_cases(n):
    """A name's value replaced over and over by values that look alike."""
    for vs in itertools.product(RVALS if n == 2 else RVALS[:9], repeat=n):
        for hows in itertools.product(HOWS, repeat=n - 1):
            yield (vs, hows)


def run_replace(case, ctx):
    vs, hows = case
    t = Tag("p", {"a": "1", "x_y": rv(vs[0])}, z="2")
    model = {"a": ["1"], "x-y": [part(vs[0])], "z": ["2"]}
    for how, v in zip(hows, vs[1:]):
        model["x-y"] = [part(v)]
        if how == "set":
            t.attrs["x-y"] = rv(v)
        elif how == "set_":
            t.attrs["x_y_"] = rv(v)
        elif how == "upd":
            t.attrs.update({"x-y": rv(v)})
        elif how == "updkw":
            t.attrs.update(x_y=rv(v))
        elif how == "updmore":
            t.attrs.update({"z": "2"}, {"x_y": rv(v)}, n="1", a="1")
            model["n"] = ["1"]
        else:
            t.attrs.update({"x_y": rv(v)}, x_y=rv(v))
            model["x-y"] *= 2
        expect(t.attrs, model, f"{case!r}")
        ctx.step()
    ctx.state(tuple((k, tuple(v)) for k, v in model.items()))
    ctx.trace()


# ---- names, numbers, sizes -----------------------------------------------------------------

def name_cases(n):
    return M.words(("_", "a", "-", "B"), n, 1)


def run_name(n, ctx):
    ctx.state(n)
    want = M.norm_name(n)
    t = Tag("p", {n: "1"})
    u = Tag("p")
    u.attrs[n] = "1"
    w = Tag("p")
    w.attrs.update({n: "1"})
    forms = [t.attrs, u.attrs, w.attrs, consolidate_attrs({n: "1"})[0]]
    if n.isidentifier() and n not in ("_name", "_add_ws"):
        forms += [Tag("p", **{n: "1"}).attrs, tags.a(**{n: "1"}).attrs,
                  consolidate_attrs(**{n: "1"})[0]]
    for a in forms:
        if dict(a) != {want: "1"}:
            raise Violation(f"{n!r} normalised to {dict(a)!r}, want {want!r}")
        ctx.step()
    d = HTMLDocument("x", **{n: "v"}).render()["html"]
    if want and f' {want}="v">' not in d:
        raise Violation(f"{n!r} on HTMLDocument: {d!r}")
    ctx.trace()


NUMBERS = (0, 1, -1, 10**25, 0.0, -0.0, 1.5, 1e100, 1e-9, float("inf"), float("nan"), NoisyInt(3),
           Color.RED, True, False, None, Str("s"), "")


def run_value(i, ctx):
    v = NUMBERS[i]
    ctx.state(i)
    want = {} if v is None or v is False else \
        {"x": "" if v is True else v if isinstance(v, str) else str(v)}
    t = Tag("p")
    t.attrs["x"] = v
    u = Tag("p")
    u.attrs.update(x=v)
    for a in (Tag("p", x=v).attrs, Tag("p", {"x": v}).attrs, t.attrs, u.attrs,
              consolidate_attrs(x=v)[0], Tag("p", MyDict(x=v)).attrs, Tag("p", {"x_": v}).attrs):
        if dict(a) != want or any(type(k) is not str for k in a.values() if not
                                  isinstance(k, Str)):
            raise Violation(f"value {v!r} stored as {dict(a)!r}, want {want!r}")
        ctx.step()
    for other in ("o", HTML("<")):
        for vs in ((v, other), (other, v), (v, other, v), (v, v)):
            parts = [p for p in ((("H", "<") if x is other and isinstance(x, HTML) else part(x))
                                 for x in vs) if p is not None]
            expect(Tag("p", *[{"x": x} for x in vs]).attrs, {"x": parts} if parts else {},
                   f"merge {vs!r}")
            ctx.step()
    ctx.trace()


BADVALUES = ([], {}, object(), b"x", ("a",), {1}, 1j, Tag("i"), len)


def run_bad(i, ctx):
    """A value of another type is an error and a failing update leaves the map unchanged."""
    v = BADVALUES[i]
    t = Tag("p", a="1", x="0")
    for f in (lambda: Tag("p", x=v), lambda: Tag("p", {"a": "1"}, {"x": v}),
              lambda: t.attrs.update({"a": "2"}, x=v), lambda: t.attrs.update({"n": "1", "x": v}),
              lambda: t.attrs.__setitem__("x", v), lambda: consolidate_attrs(x=v)):
        try:
            r = f()
        except TypeError:
            pass
        else:
            raise Violation(f"value {v!r} accepted: {r!r}")
        ctx.step()
    ctx.state(i)
    ctx.trace()


def size_cases():
    for n in SIZES:
        for kind in ("names", "values", "html-values", "dicts", "long", "longname", "unders"):
            yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    ctx.state(case)
    if kind == "names":
        c = (tuple((f"n_{i}", str(i)) for i in range(n)), ())
    elif kind == "values":
        c = tuple((("x", f"v{i}"),) for i in range(n)) + ((),)
    elif kind == "html-values":
        c = tuple((("x", ("H", "<") if i % 3 == 1 else f"'{i}"),) for i in range(n)) + ((),)
    elif kind == "dicts":
        c = tuple(((f"a{i % 7}", str(i)), (f"b{(i * 3) % 5}_", True)) for i in range(n)) + \
            ((("a0", "kw"), ("z", 1)),)
    elif kind == "long":
        c = ((("x", "v" * n), ("x_", "w" * n)), (("x", "z"),))
    elif kind == "longname":
        c = ((("n" * n + "_", "1"), ("n" * n, "2")), ())
    else:
        c = ((("_" * n, "1"), ("a" + "_" * n + "b", "2")), ())
    run_call(c, ctx)


def func_cases():
    for mod in ("tags", "svg"):
        for f in sorted(k for k in vars(tags if mod == "tags" else svg)
                        if not k.startswith("_")):
            yield (mod, f)


def run_func(case, ctx):
    fn = getattr(tags if case[0] == "tags" else svg, case[1])
    if isinstance(fn, type) or not hasattr(fn, "__code__"):
        return
    try:
        t = fn({"a_b": 1, "x": HTML("<")}, "c", {"x_": "'"}, x="k", class_=None, a_b_="z", q=True)
    except TypeError:
        return
    if not isinstance(t, Tag):
        return
    ctx.state(case)
    expect(t.attrs, {"a-b": ["1", "z"], "x": [("H", "<"), "'", "k"], "q": [""]}, f"{case}")
    ctx.step()
    ctx.trace()


def run_str(s, ctx):
    ctx.state(s)
    for parts in ((s,), (s, s), ("a", s), (s, "", s), (("H", s),), (("H", s), s), (s, ("H", s)),
                  (s, ("H", "<"), s), (("H", "&"), s, ("H", s))):
        expect(Tag("p", *[{"x": rv(p)} for p in parts]).attrs, {"x": list(parts)}, f"{parts!r}")
        ctx.step()
    ctx.trace()


def run_chars(r, ctx):
    """Names: every character other than '_' is kept."""
    for c in scalars(*r):
        if c == "_":
            continue
        a = Tag("p", {"a" + c + "_b_": c, c: "v"}).attrs
        if list(a.items()) != [("a" + c + "-b", c), (c, "v")]:
            raise Violation(f"character {c!r}: {dict(a)!r}")
    ctx.fresh_states(r[1] - r[0])
    ctx.step(r[1] - r[0])
    ctx.trace()



# ---- the same dict object several times, a tag's own attributes --------------------------------

SAME = {"a": (("class", "p"), ("x_", "1")), "b": (("x", "2"), ("class_", ("H", "<"))), "c": (),
        "e": (("class", "p"), ("x_", "1"))}


def same_cases(n):
    def gen():
        for k in range(1, n + 1):
            for seq in itertools.product("abcetu", repeat=k):
                for kw in ((), (("class_", "w"),)):
                    yield (seq, kw)
    return gen


def run_same(case, ctx):
    """a, b, c, e: dicts (a and e are equal); t: the attributes of another tag; u: of the same one."""
    seq, kw = case
    ctx.state(case)
    own = (("x", "0"), ("class", "o"))
    other = (("class", ("H", "&lt;")), ("y", "3"))
    spec = {**SAME, "t": other, "u": own}

    def fresh():
        t, u = Tag("i", D(other)), Tag("b", D(own))
        return u, {**{k: D(v) for k, v in SAME.items()}, "t": t.attrs, "u": u.attrs}

    model = merge([p for s in seq for p in spec[s]] + list(kw))
    kws = D(kw)
    for what, f in (
            ("Tag", lambda u, ds: Tag("p", *ds, **kws).attrs),
            ("Tag with children", lambda u, ds: Tag("p", *[y for d in ds for y in (d, "k")], **kws).attrs),
            ("span", lambda u, ds: tags.span(*ds, **kws).attrs),
            ("attribute map", lambda u, ds: type(u.attrs)(*ds, **kws)),
            ("consolidate_attrs", lambda u, ds: consolidate_attrs(*ds, **kws)[0]),
            ("rebuilt", lambda u, ds: Tag("p", consolidate_attrs(*ds, **kws)[0]).attrs),
            ("update", lambda u, ds: (u.attrs.update(*ds, **kws), u.attrs)[1])):
        u, named = fresh()
        keep = {k: list(v.items()) for k, v in named.items()}
        got = f(u, [named[s] for s in seq])
        want = {**{k: [v] for k, v in own}, **model} if what == "update" else model
        expect(got, want, f"{what} of {seq} {kw}")
        if what == "update":
            keep.pop("u")
        elif any(got is d for d in named.values()):
            raise Violation(f"{what}: the result is an argument")
        for k, v in keep.items():
            if list(named[k].items()) != v:
                raise Violation(f"{what}: argument {k} was changed")
        ctx.step()
    ctx.outcome(str(got))
    ctx.trace()


def spaces(tier):
    q = tier == "quick"
    V5 = ("v", None, ("H", "<"), True, "")
    return [
        Space("single", f"{len(NAMES)} names x {len(VALUES)} values x 4 forms", single_cases,
              run_call),
        Space("forms", f"{len(FORMS)}^2 kinds of dict x {len(KIDS)} lists of other arguments",
              form_cases, run_form),
        Space("same", f"all sequences of up to {4 if q else 5} of 6 dict objects (repeated, equal, another "
              "tag's attributes, the tag's own)", same_cases(4 if q else 5), run_same, block=32),
        Space("values", "every value type", lambda: iter(range(len(NUMBERS))), run_value, block=1),
        Space("bad-values", "unsupported value types", lambda: iter(range(len(BADVALUES))),
              run_bad, block=1),
        Space("names", f"all names up to {5 if q else 7} over '_a-B'",
              lambda: name_cases(5 if q else 7), run_name, block=32),
        Space("functions", "every tag function", func_cases, run_func),
        Space("strings", "nasty strings, alone and merged", lambda: iter(NASTY), run_str),
        Space("sizes", "count and length ladders", size_cases, run_size, block=1),
        Space("replace", f"all pairs of {len(RVALS)} look-alike values and triples of 9, replaced "
              "in 6 ways", lambda: itertools.chain(replace_cases(2), replace_cases(3)), run_replace,
              block=64),
        Space("collisions", "all 3-sequences over 5 spellings x 5 values",
              lambda: collide_cases(3, ("x", "x_", "x__", "a_b", "a-b"), V5[:3]), run_call,
              block=32),
        Space("collisions-2", "all 2-sequences over 8 spellings x 8 values",
              lambda: collide_cases(2, ("x", "x_", "x__", "a_b", "a-b", "a_b_", "_x", "class_"),
                                    ("v", None, ("H", "<"), True, "", 0, False, " ")), run_call,
              block=32),
        Space("collisions-4", "all 4-sequences over 2 spellings x 4 values",
              lambda: collide_cases(4, ("x", "x_"), V5[:4]), run_call, block=32),
        Space("one-call", "3 colliding names in one dict / keywords / split, all orders",
              lambda: onecall_cases(("x", "x_", "a_b", "a-b"), V5[:3] if q else V5), run_call,
              block=32),
        Space("grid", "dict, dict, keywords of up to two entries each", lambda: grid_cases(q),
              run_call, block=64),
        Space("histories", f"all histories up to {3 if q else 4} of {len(HOPS)} operations from 3 "
              "initial maps", lambda: hist_cases(3 if q else 4), run_hist, block=64),
        Space("chars", "every Unicode scalar value in a name", lambda: chunks(256), run_chars,
              block=8),
    ]
