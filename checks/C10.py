"""C10: dependencies are validated, then resolved one per name to the highest version.

The model collects the dependency leaves of a tree in document order and resolves them with an
independent version comparison.  All dependency sequences and placements within the bound are
executed: get_dependencies() is compared by object identity, render() and HTMLDocument.render() by
a marker that each dependency object carries.  The constructor is checked on a complete grid of
valid and invalid source/script/stylesheet/meta arguments."""
import copy
import itertools

from htmltools import (HTML, HTMLDependency, HTMLDocument, Tag, TagList, head_content, svg, tags)
from packaging.version import Version
from mc import model as M
from mc import mutate
from mc import real
from mc.common import E, SIZES, T, nest
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "the order of versions is that of PEP 440 (packaging.version), written down as an explicit "
    "ladder; empty tuples and None as item values are not specified and not checked",
    "dependencies inside the head= content of another dependency are not part of the tree "
    "(see C11)")


class SubDep(HTMLDependency):
    pass


# Versions from low to high; versions in one row are equal.
LADDER = (("1.0.dev1", "1.dev1"), ("1.0.dev10",), ("1.0a1.dev1",), ("1.0a1", "1.0.alpha1"), ("1.0a2",), ("1.0b1",),
          ("1.0rc1", "1.0c1"), ("1.0rc2",), ("1", "1.0", "1.0.0", "v1.0"),
          ("1.0+a", "1+A"), ("1.0+a.1",), ("1.0+a.1.b",), ("1.0+b",), ("1.0+2", "1.0.0+2"), ("1.0+10",),
          ("1.0.post1.dev3",), ("1.0.post1", "1.0-1", "1.0.r1"), ("1.0.post1+z",), ("1.0.post2",),
          ("1.0.post10",), ("1.0.1.dev0",), ("1.0.1a1.dev1",),
          ("1.0.1",), ("1.0.2",), ("1.0.9",), ("1.0.10",), ("1.1", "1.1.0"), ("1.2",), ("1.9",),
          ("1.9.9",), ("1.9.10",), ("1.10", "1.10.0", "1.10.0.0"), ("1.10.1",), ("1.11",), ("1.99",),
          ("1.100",), ("2",), ("2.0.1",), ("9", "9.0"), ("9.9.9",), ("10", "10.0"), ("10.1",),
          ("11",), ("99.99",), ("100",), ("2024.1.9",), ("2024.1.10",), ("2024.10.1",),
          ("20240110",), ("1!0.1",), ("1!1.0+a",), ("2!0",))
LOW = (("0", "0.0"), ("0.0.1",), ("0.1",), ("0.9",), ("0.10",))
RANK = {v: i for i, row in enumerate(LOW + LADDER) for v in row}
ALL_VERSIONS = tuple(RANK)


def D(name, version, marker, extra=()):
    return ("D", (name, version, (("script", ("dict", ("src", marker))),) + tuple(extra)))


def mark(d):
    return d.script[0]["src"]


def doc_order(kids):
    return M.collect(kids, "D")


def expected(nodes):
    """indices of the resolved dependencies"""
    order, best = [], {}
    for i, (_, sp) in enumerate(nodes):
        n = sp[0]
        if n not in best:
            order.append(n)
            best[n] = i
        elif RANK[sp[1]] > RANK[nodes[best[n]][1][1]]:
            best[n] = i
    return [best[n] for n in order]


def same(got, want, what):
    if not isinstance(got, list) or len(got) != len(want) or any(
            g is not w for g, w in zip(got, want)):
        raise Violation(f"{what}:\n  got  {[(d, mark(d)) for d in got]}\n"
                        f"  want {[(d, mark(d)) for d in want]}")


def marks(got, want, what):
    if [mark(d) for d in got] != [mark(d) for d in want] or got != want:
        raise Violation(f"{what}:\n  got  {[(d, mark(d)) for d in got]}\n"
                        f"  want {[(d, mark(d)) for d in want]}")


def observe(tl, deps, want, ctx, docs=True):
    """deps: the real objects in document order; want: those that are resolved."""
    same(tl.get_dependencies(), want, "get_dependencies()")
    same(tl.get_dependencies(dedup=True), want, "get_dependencies(dedup=True)")
    same(tl.get_dependencies(dedup=False), deps, "get_dependencies(dedup=False)")
    same(TagList(*want).get_dependencies(), want, "resolving the resolved list again")
    marks(tl.render()["dependencies"], want, "render()['dependencies']")
    div = Tag("div", tl)
    same(div.get_dependencies(), want, "div(...).get_dependencies()")
    same(div.get_dependencies(dedup=False), deps, "div(...).get_dependencies(dedup=False)")
    same(div.get_dependencies(True), want, "div(...).get_dependencies(True)")
    marks(div.render()["dependencies"], want, "div(...).render()['dependencies']")
    ctx.step(8)
    if docs:
        marks(HTMLDocument(tl).render()["dependencies"], want, "HTMLDocument(...).render()")
        marks(HTMLDocument(Tag("html", Tag("head"), Tag("body", tl))).render()["dependencies"],
              want, "HTMLDocument(html(...)).render()")
        ctx.step(2)
    for d in deps:
        if len(d.script) != 1:
            raise Violation("a dependency changed")


def run_tree(kids, ctx, docs=True):
    objs = []
    tl = TagList(*real.kids(kids, objs.append))
    nodes = doc_order(kids)
    want = expected(nodes)
    observe(tl, objs, [objs[i] for i in want], ctx, docs)
    ctx.state(tuple((n[1][0], n[1][1]) for n in nodes))
    ctx.outcome(tuple(want))
    ctx.trace()


def number(kids, count=None):
    """Give every dependency a marker of its own."""
    count = itertools.count() if count is None else count
    out = []
    for x in kids:
        if x[0] == "D":
            x = D(x[1][0], x[1][1], f"m{next(count)}.js")
        elif x[0] == "E":
            x = x[:4] + (number(x[4], count),)
        out.append(x)
    return tuple(out)


# ---- flat sequences ------------------------------------------------------------------------

def seq_cases(alphabet, n, lo=1):
    for k in range(lo, n + 1):
        for s in itertools.product(alphabet, repeat=k):
            yield tuple(D(a, v, f"m{i}.js") for i, (a, v) in enumerate(s))


def run_flat(kids, ctx):
    objs = []
    tl = TagList(*real.kids(kids, objs.append))
    want = [objs[i] for i in expected(kids)]
    same(tl.get_dependencies(), want, "get_dependencies()")
    same(tl.get_dependencies(dedup=False), objs, "get_dependencies(dedup=False)")
    same(TagList(*want).get_dependencies(), want, "resolving the resolved list again")
    same(Tag("p", *objs).get_dependencies(), want, "p(...).get_dependencies()")
    marks(tl.render()["dependencies"], want, "render()['dependencies']")
    ctx.step(5)
    ctx.state(tuple((n[1][0], n[1][1]) for n in kids))
    ctx.outcome(tuple(map(mark, want)))
    ctx.trace()


def pair_cases():
    for a in ALL_VERSIONS:
        for b in ALL_VERSIONS:
            yield (D("x", a, "m0"), D("x", b, "m1"))


def triple_cases(vs):
    for t in itertools.product(vs, repeat=3):
        yield tuple(D("x", v, f"m{i}") for i, v in enumerate(t))


NAMES = ("a", "A", "b", "a-b", "a_b", "a b", "", "ab", "a1", "é", "None", "a.b", "aa", "a ", " a",
         "e\u0301", "react", "headcontent_0")


FIELDS = ((), (("all_files", True),), (("head", "<title>t</title>"),),
          (("source", ("dict", ("href", "https://h/p"))),),
          (("source", ("dict", ("subdir", "x/y"))), ("all_files", True)),
          (("source", ("dict", ("package", "htmltools"), ("subdir", "lib/react"))),),
          (("stylesheet", ("dict", ("href", "s.css"))), ("meta", ("dict", ("name", "n"), ("content", "c")))),
          (("head", ("taglist",)),), (("source", ("dict", ("href", ""))), ("head", "")))


def field_cases(n):
    """Dependencies that differ in everything but name and version."""
    def cases():
        heads = [(a, v, f) for a, v in (("a", "1.9"), ("a", "1.10"), ("b", "1")) for f in FIELDS]
        for s in itertools.product(heads, repeat=2):
            yield s
            for x in (("c", "1", ()), ("a", "1.10.0", FIELDS[1]), ("b", "0", FIELDS[4])):
                for p in range(3):
                    yield s[:p] + (x,) + s[p:]
        for f in itertools.product(FIELDS[:n], repeat=3):
            for vs in ((("a", "1"), ("b", "1"), ("a", "2")), (("b", "2"), ("a", "1"), ("a", "1.0")),
                       (("a", "2"), ("a", "1"), ("b", "1")), (("a", "1"), ("a", "2"), ("a", "9"))):
                yield tuple((a, v, x) for (a, v), x in zip(vs, f))
    return lambda: (tuple(D(a, v, f"m{i}.js", x) for i, (a, v, x) in enumerate(s)) for s in cases())


def name_cases():
    for a, b in itertools.product(NAMES, repeat=2):
        for v in itertools.product(("1.9", "1.10", "1.10.0"), repeat=3):
            yield (D(a, v[0], "m0"), D(b, v[1], "m1"), D(a, v[2], "m2"))
            yield (D(a, v[0], "m0"), D(b, v[1], "m1"), D(b, v[2], "m2"))
    for p in itertools.permutations(NAMES[:6]):
        yield tuple(D(n, "1", f"m{i}") for i, n in enumerate(p)) + (D(p[3], "2", "z"),
                                                                      D(p[0], "1", "y"))


# ---- placements ----------------------------------------------------------------------------

def forest_cases(n, leaves, elems):
    for f in M.Forests(leaves, elems).upto(n):
        if len(doc_order(f)) > 0:
            yield number(f)


L2 = (D("a", "1.9", ""), D("a", "1.10", ""), D("b", "1", ""))
EL = (M.elem("div", True), M.elem("span", False))


def where_cases():
    """Every element as a holder, at two depths, siblings on both sides."""
    for name in M.HTML_NAMES + ("g", "textPath", "x-y"):
        ws = name not in M.INLINE
        for vs in (("1.9", "1.10", "1.9"), ("1.10", "1.9", "1.10.0"), ("2", "10", "9")):
            a, b, c = (D("a", v, "") for v in vs)
            o = D("b", "1", "")
            for ctxs in ((a, ("E", name, ws, (), (o, b, T("x"))), c),
                         (("E", name, ws, (), (a, T("x"), ("E", name, not ws, (), (b, o)), c)),),
                         (("E", "div", True, (), (a, ("E", name, ws, (), (b,)), T("y"))), o, c)):
                yield number(ctxs)


def dist_cases():
    """k dependencies distributed over the levels of a chain of elements, before or after the
    nested element."""
    seqs = [s for s in itertools.product((("a", "1.9"), ("a", "1.10"), ("b", "1")), repeat=3)]
    for depth in (1, 2, 3):
        for s in seqs:
            for place in itertools.product(range(2 * depth + 2), repeat=3):
                levels = [[[], []] for _ in range(depth + 1)]
                for (n, v), p in zip(s, place):
                    levels[p // 2][p % 2].append(D(n, v, ""))
                kids = tuple(levels[depth][0] + levels[depth][1])
                for i in range(depth - 1, -1, -1):
                    kids = (*levels[i][0], ("E", ("div", "span")[i % 2], i % 2 == 0, (), kids),
                            *levels[i][1])
                yield number(kids)


# ---- the same object several times, subclasses, expansions, histories ----------------------

def alias_cases():
    for n in (2, 3, 4, 5):
        for s in itertools.product(range(3), repeat=n):
            for shape in range(4):
                yield (s, shape)


POOL = (("a", "1.9"), ("a", "1.10"), ("a", "1.10.0"))


def run_alias(case, ctx):
    s, shape = case
    cls = (HTMLDependency, SubDep)[shape % 2]
    pool = [cls(n, Version(v) if shape > 1 else v, script={"src": f"m{i}"})
            for i, (n, v) in enumerate(POOL)]
    other = HTMLDependency("b", "1", script={"src": "b"})
    seq = [pool[i] for i in s]
    best = seq[0]
    for d in seq:
        if RANK[POOL[pool.index(d)][1]] > RANK[POOL[pool.index(best)][1]]:
            best = d
    shared = Tag("i", *seq)
    for tl, deps in ((TagList(*seq), seq), (TagList(shared, other, shared), seq + [other] + seq),
                     (TagList(Tag("p", shared), [seq], other), seq + seq + [other]),
                     (TagList(other, other, *seq, other), [other, other] + seq + [other])):
        want = [best, other] if other in deps and deps[0] is not other else \
            [other, best] if other in deps else [best]
        observe(tl, deps, want, ctx, shape == 0)
    ctx.state(case)
    ctx.trace()


def expand_cases():
    ds = (("a", "1.9"), ("a", "1.10"), ("b", "1"))
    for s in itertools.product(ds, repeat=3):
        for kinds in itertools.product(("plain", "dep", "list", "tag", "nest"), repeat=3):
            if any(k != "plain" for k in kinds):
                yield (s, kinds)


def run_expand(case, ctx):
    s, kinds = case
    nodes = tuple(D(n, v, f"m{i}") for i, (n, v) in enumerate(s))
    kids = []
    for x, k in zip(nodes, kinds):
        kids.append({"plain": x, "dep": ("X", "one", (x,)), "list": ("X", "list", (T("t"), x)),
                     "tag": ("X", "one", (E("div", E("b", x)),)),
                     "nest": ("X", "list", (("X", "list", (x, T("t"))), T("u")))}[k])
    tl = TagList(*real.kids(kids))
    want = [nodes[i][1][2][0][1][1][1] for i in expected(nodes)]
    for what, r in (("render", tl.render()), ("div", Tag("div", tl).render()),
                    ("document", HTMLDocument(tl).render()),
                    ("tagify", {"dependencies": tl.tagify().get_dependencies()})):
        got = [mark(d) for d in r["dependencies"]]
        if got != want:
            raise Violation(f"{what}: dependencies {got!r}, want {want!r}")
        ctx.step()
    ctx.state(case)
    ctx.trace()


HISTORY = [("app", n, v) for n, v in (("a", "1.9"), ("a", "1.10"), ("b", "2"))] + \
    [("ins", n, v) for n, v in (("a", "1.9"), ("a", "1.10.0"), ("b", "10"))] + \
    [("pop",), ("nest",), ("ver", "2.0"), ("rev",)]


def run_history(ops, ctx):
    """Mutate a tree and ask again after every operation (no stale answers)."""
    t = Tag("div", Tag("p"))
    inner = t.children[0]
    seq = []        # (obj, version) in document order: those in `inner` first
    outer = []
    for n, op in enumerate(ops):
        if op[0] == "app":
            d = HTMLDependency(op[1], op[2], script={"src": f"m{n}"})
            t.append(d)
            outer.append([d, op[2]])
        elif op[0] == "ins":
            d = HTMLDependency(op[1], op[2], script={"src": f"m{n}"})
            inner.insert(0, d)
            seq.insert(0, [d, op[2]])
        elif op[0] == "pop":
            if outer:
                t.children.pop()
                outer.pop()
            elif seq:
                inner.children.pop()
                seq.pop()
        elif op[0] == "nest":
            d = HTMLDependency("a", "1.11", script={"src": f"m{n}"})
            inner.append(d)
            seq.append([d, "1.11"])
        elif op[0] == "rev":
            t.children[1:] = t.children[1:][::-1]
            outer.reverse()
        elif op[0] == "ver" and (seq or outer):
            e = (seq + outer)[-1]
            e[0].version = Version(op[1])
            e[1] = op[1]
        everything = seq + outer
        RANK.setdefault("2.0", RANK["2"])
        order, best = [], {}
        for d, v in everything:
            if d.name not in best:
                order.append(d.name)
                best[d.name] = (d, v)
            elif RANK[v] > RANK[best[d.name][1]]:
                best[d.name] = (d, v)
        want = [best[n][0] for n in order]
        same(t.get_dependencies(), want, f"after {ops[:n + 1]}")
        same(t.get_dependencies(dedup=False), [d for d, _ in everything],
             f"after {ops[:n + 1]}, dedup=False")
        marks(t.render()["dependencies"], want, f"render after {ops[:n + 1]}")
        got = t.get_dependencies()
        got.append(None)
        got.clear()
        ctx.step(4)
    ctx.state(tuple((d.name, v) for d, v in seq + outer))
    ctx.trace()


def size_cases():
    for n in SIZES:
        for kind in ("names", "rising", "falling", "same", "mod", "depth", "wide", "longver",
                     "last"):
            if kind != "depth" or n <= 257:
                yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    mk = lambda name, v: HTMLDependency(name, v, script={"src": "m"})
    if kind == "names":
        deps = [mk(f"n{(i * 7919) % 10007}", "1") for i in range(n)]
        want = deps
    elif kind == "rising":
        deps = [mk("a", f"1.{i}") for i in range(n)]
        want = deps[-1:]
    elif kind == "falling":
        deps = [mk("a", f"{n - i}") for i in range(n)]
        want = deps[:1]
    elif kind == "same":
        deps = [mk("a", ("1", "1.0", "1.0.0")[i % 3]) for i in range(n)]
        want = deps[:1]
    elif kind == "mod":
        deps = [mk(f"n{i % 5}", f"1.{i // 2}") for i in range(n)]
        want = [max((d for d in deps if d.name == f"n{k}"), key=lambda d: int(
            str(d.version)[2:])) for k in range(min(5, n))]
    elif kind == "depth":
        deps = [mk(f"n{i % 3}", f"{i}") for i in range(n)]
        t = TagList()
        for d in reversed(deps):
            t = TagList(d, Tag("div", t))
        want = [deps[max(i for i in range(n) if i % 3 == k)] for k in range(min(3, n))]
        same(t.get_dependencies(), want, f"{case}")
        same(t.get_dependencies(dedup=False), deps, f"{case}")
    elif kind == "wide":
        deps = [mk(f"n{i // 2}", "1") for i in range(n)]
        want = deps[::2]
        t = TagList(*[Tag("p", d, "x") for d in deps])
        same(t.get_dependencies(), want, f"{case}")
    elif kind == "longver":
        deps = [mk("a", "1" + ".0" * n), mk("a", "1"), mk("a", "1" + ".0" * n + ".1"),
                mk("a", "1." + "9" * n), mk("a", "1.1" + "0" * n), mk("b", "1" * n)]
        want = [deps[4], deps[5]]
    else:
        deps = [mk(f"n{i}", "1.9") for i in range(n)] + [mk(f"n{n // 2}", "1.10")]
        want = deps[:-1]
        want[n // 2] = deps[-1]
    same(TagList(*deps).get_dependencies(), want, f"{case}")
    same(TagList(*deps).get_dependencies(dedup=False), deps, f"{case}")
    ctx.step(2)
    ctx.state(case)
    ctx.trace()


# ---- constructor ---------------------------------------------------------------------------

KEYS = {"script": ("src",), "stylesheet": ("href",), "meta": ("name", "content")}
OK = {"script": ({"src": "a.js"}, {"src": "b.js", "async": ""}, {"type": "module", "src": "c d.js"},
                 {"src": ""}),
      "stylesheet": ({"href": "a.css"}, {"href": "b.css", "media": "print"},
                     {"href": "c.css", "rel": "preload"}),
      "meta": ({"name": "n", "content": "c"}, {"content": "", "name": ""},
               {"name": "viewport", "content": "w=1", "x": "y"})}
BAD = {"script": ({}, {"href": "a.js"}, {"Src": "a"}, {"type": "module"}, {"src ": "x"}),
       "stylesheet": ({}, {"src": "a.css"}, {"rel": "stylesheet"}, {"Href": "x"}),
       "meta": ({}, {"name": "n"}, {"content": "c"}, {"Name": "n", "content": "c"},
                {"name": "n", "Content": "c"}, {"property": "og", "content": "x"})}
NOTDICT = ("a.js", "", b"x", 5, 0, True, 1.5, ["src"], ("src",), ["src", "a.js"], (("src", "a"),),
           "src", HTML("src"), {"src"}, [[]], [None], [["src"]], [{"src": "a"}, "src"],
           object)
ITEMS_BAD = ("src", None, 5, ("src", "a.js"), [], ["src"], b"src", HTML("x"), [{"src": "a"}],
             {"src", "href"})


def mkdep(**kw):
    return HTMLDependency("n", "1.0", **copy.deepcopy(kw))


def rejected(what, **kw):
    try:
        d = mkdep(**kw)
    except Exception:
        return
    raise Violation(f"{what} accepted: HTMLDependency('n', '1.0', **{kw!r}) -> {d.as_dict()!r}")


def run_valid(field, ctx):
    for item in OK[field]:
        for n in range(0, 4):
            for rest in itertools.product(OK[field], repeat=n):
                items = [item, *rest] if n else [item]
                d = mkdep(**{field: items})
                want = [dict(x) for x in items]
                if field == "stylesheet":
                    want = [{"rel": "stylesheet", **x} for x in want]
                if getattr(d, field) != want:
                    raise Violation(f"{field}={items!r} stored as {getattr(d, field)!r}")
                ctx.step()
        for others in itertools.product((False, True), repeat=3):
            base = {f: [OK[f][1]] for f, o in zip(KEYS, others) if o and f != field}
            for src in (None, {"subdir": "x"}, {"href": "https://x/"}):
                a = mkdep(source=src, **base, **{field: item})
                b = mkdep(source=src, **base, **{field: [item]})
                if a != b or real.snap(a) != real.snap(b):
                    raise Violation(f"{field}={item!r}: single item and list differ: "
                                    f"{real.snap(a)!r} / {real.snap(b)!r}")
                for f in (lambda d: str(d.as_html_tags()), lambda d: d.as_dict(),
                          lambda d: str(d.serialize_to_script_json()), str,
                          lambda d: HTMLDocument(d).render()["html"]):
                    if f(a) != f(b):
                        raise Violation(f"{field}={item!r}: {f(a)!r} / {f(b)!r}")
                ctx.step(6)
    e = mkdep(**{field: []})
    if e != mkdep() or getattr(e, field) != [] or e != mkdep(**{field: None}):
        raise Violation(f"{field}=[] / None: {getattr(e, field)!r}")
    ctx.state(field)
    ctx.trace()


def bad_cases():
    for field in KEYS:
        for i in range(len(BAD[field])):
            yield ("key", field, i)
        for i in range(len(NOTDICT)):
            yield ("type", field, i)
        for i in range(len(ITEMS_BAD)):
            yield ("item", field, i)


def run_bad(case, ctx):
    kind, field, i = case
    good = list(OK[field])
    ctx.state(case)
    ctx.trace()
    for extra in ({}, {"source": {"subdir": "x"}}, {"source": {"href": "u"}}, {"head": "<x>"},
                  {"all_files": True}, {f: OK[f][0] for f in KEYS if f != field}):
        if kind == "type":
            v = NOTDICT[i]
            if v == ["src"] and field != "script":
                pass
            rejected(f"{field} of the wrong type", **{field: v}, **extra)
            ctx.step()
            continue
        bad = BAD[field][i] if kind == "key" else ITEMS_BAD[i]
        if kind == "key":
            rejected(f"single {field} without required key", **{field: bad}, **extra)
        for n in range(0, 5):
            for pos in range(n + 1):
                items = [good[k % len(good)] for k in range(n)]
                items.insert(pos, bad)
                rejected(f"bad {field} at position {pos} of {n + 1}", **{field: items}, **extra)
                ctx.step()
    if kind == "key":
        for n in (9, 10, 31, 32, 99, 100, 101):
            for pos in (0, n // 2, n):
                items = [good[k % len(good)] for k in range(n)]
                items.insert(pos, bad)
                rejected(f"bad {field} at position {pos} of {n + 1}", **{field: items})
                ctx.step()


SRC_OK = (None, {"subdir": "x"}, {"subdir": ""}, {"subdir": "a/b", "package": "htmltools"},
          {"href": "https://x.org/y"}, {"href": ""}, {"package": None, "subdir": "x"},
          {"href": "h", "subdir": "s"}, {"subdir": "x", "other": 1})
SRC_BAD = ({}, {"package": "htmltools"}, {"Href": "x"}, {"src": "x"}, {"dir": "x"}, {"file": "x"},
           {"href ": "x"}, {"": "x"}, {"subdirectory": "x"}, "", "subdir", "href", "a/b", [], (),
           ["subdir"], ("href",), [("subdir", "x")], {"subdir"}, 0, 1, False, True, 1.5, b"href",
           HTML("href"), object, [{"subdir": "x"}])


def run_source(i, ctx):
    ctx.state(i)
    ctx.trace()
    exs = [{}, {"script": OK["script"][0]}, {"all_files": True}, {"head": "<x>"},
           {"stylesheet": [OK["stylesheet"][0]], "meta": OK["meta"][0]}]
    if i < len(SRC_OK):
        for ex in exs:
            d = mkdep(source=SRC_OK[i], **ex)
            if d.source != SRC_OK[i]:
                raise Violation(f"source {SRC_OK[i]!r} stored as {d.source!r}")
            ctx.step()
    else:
        for ex in exs:
            rejected("bad source", source=SRC_BAD[i - len(SRC_OK)], **ex)
            ctx.step()


def run_headcontent(case, ctx):
    """head_content() items resolve like any dependency: equal content once, in order."""
    texts = ("a", "b", "<i>")
    deps = [head_content(texts[i]) for i in case]
    want = [deps[case.index(i)] for i in dict.fromkeys(case)]
    for tl in (TagList(*deps), TagList(*[Tag("p", d) for d in deps]), Tag("div", deps)):
        got = tl.get_dependencies()
        if len(got) != len(want) or any(g is not w for g, w in zip(got, want)):
            raise Violation(f"{case}: {got!r}, want {want!r}")
        ctx.step()
    ctx.state(case)
    ctx.trace()


MUT = [o for o in mutate.all_ops() if o[1][0] not in ("set", "update", "popattr", "clearattrs",
                                                       "class", "class0", "style", "ws")]


def run_mut(case, ctx):
    def pairs(ds):
        return [(d.name, str(d.version)) for d in ds]

    def look(root, kids, what, ctx):
        nodes = M.collect(kids, "D")
        every = [d[1][:2] for d in nodes]
        want = [d[1][:2] for d in M.resolve(nodes, lambda d: d[1][0], lambda d: d[1][1])]
        for w, got, exp in (("get_dependencies()", root.get_dependencies(), want),
                            ("get_dependencies(dedup=False)", root.get_dependencies(dedup=False),
                             every),
                            ("render()", root.render()["dependencies"], want)):
            if pairs(got) != exp:
                raise Violation(f"{what}: {w} is {pairs(got)}, want {exp}")
        ctx.outcome(tuple(want))
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    flat = lambda *a: (lambda: seq_cases(*a))
    some = tuple(v for row in (LOW + LADDER)[::2] for v in row[:1]) + ("1.10", "1.10.0", "1.9", "2")
    V8 = [(n, v) for n in "ab" for v in ("1.9", "1.10", "1.10.0", "2")]
    V6 = [("a", "1.9"), ("a", "1.10"), ("b", "1"), ("b", "1.0"), ("c", "1"), ("c", "10")]
    return [
        Space("mutations", f"all histories of 2 operations"
              f"{'' if q else ' and of 3 over a reduced set'} on {mutate.NSTARTS} documents, rendered "
              "after each", lambda: itertools.chain(
                  mutate.cases(2, MUT), () if q else mutate.cases(3, MUT[::2])), run_mut,
              block=64),
        Space("ctor-valid", "single item / list equivalence for the three item kinds",
              lambda: iter(KEYS), run_valid, block=1),
        Space("ctor-bad", "wrong types and missing keys at every position", bad_cases, run_bad,
              block=2),
        Space("ctor-source", "valid and invalid sources", lambda: iter(range(
            len(SRC_OK) + len(SRC_BAD))), run_source, block=1),
        Space("fields", f"2-4 dependencies x {len(FIELDS)} sets of other fields", field_cases(
            5 if q else 9), run_flat, block=64),
        Space("version-pairs", "all ordered pairs of the version ladder", pair_cases, run_flat),
        Space("version-triples", f"all triples of {len(some) if q else len(ALL_VERSIONS)} versions",
              lambda: triple_cases(some if q else ALL_VERSIONS), run_flat, block=64),
        Space("names", "pairs of similar names x versions; permutations of 6 names", name_cases,
              run_flat, block=64),
        Space("holders", "every element as holder x versions x 3 shapes", where_cases, run_tree,
              block=8),
        Space("levels", "3 dependencies over all levels of chains up to 3 deep", dist_cases,
              run_tree, block=32),
        Space("alias", "sequences up to 5 over 3 objects used repeatedly", alias_cases, run_alias),
        Space("expansions", "3 dependencies x 5 ways of coming from a tagifiable object",
              expand_cases, run_expand, block=32),
        Space("head-content", "all sequences up to 5 of 3 head_content() payloads", lambda: (
            c for n in range(1, 6) for c in itertools.product(range(3), repeat=n)),
            run_headcontent),
        Space("sizes", "numbers of dependencies, nesting depths, version lengths", size_cases,
              run_size, block=1),
        Space("histories", f"all histories up to {4 if q else 5} of {len(HISTORY)} mutations, "
              "asking after each", lambda: (h for n in range(1, (5 if q else 6)) for h in
                                            itertools.product(HISTORY, repeat=n)), run_history,
              block=64),
        Space("sequences", f"all sequences up to {5 if q else 6} over 2 names x 4 versions",
              flat(V8, 5 if q else 6), run_flat, block=128),
        Space("sequences-3", f"all sequences up to {5 if q else 7} over 3 names x 2 versions",
              flat(V6, 5 if q else 7), run_flat, block=128),
        Space("forests", f"all forests up to {5 if q else 6} nodes over 3 dependencies, div, span",
              lambda: forest_cases(5 if q else 6, L2, EL), run_tree, block=64),
        Space("forests-text", f"all forests up to {4 if q else 5} nodes with text and HTML()",
              lambda: forest_cases(4 if q else 5, L2 + (T("x"), ("H", "<b>"), D("b", "1.0", "")),
                                   EL), run_tree, block=64),
    ]
