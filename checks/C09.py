"""C09: tagifiable objects render as their expansion, spliced in place.

The model substitutes every tagifiable node of a tree by its expansion.  For all trees within the
bound the real rendering (render(), tagify(), HTMLDocument.render()) must be exactly that of the
substituted tree and match the reference layout, with the dependencies of the expansions reported;
asking for markup of a tree with an un-expanded object must raise."""
import itertools
import os
from collections import UserString

from htmltools import HTML, HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList, tags
from htmltools._jsx import jsx_tag_create
from mc import model as M
from mc import real, scratch
from mc.common import E, SIZES, T
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "what a user-defined tagify() returns is itself fully tagified, and a Tag, TagList, str, HTML "
    "or dependency",
    "how often and in which order tagify() is called is not checked",
    "asking for markup of an un-expanded object that is a Tag or a metadata node itself is not checked")


class Both:
    """Tagifiable and self-rendering."""

    def __init__(self, make, s):
        self.make, self.s = make, s

    def tagify(self):
        return self.make()

    def _repr_html_(self):
        return self.s


class TagSub(Tag):
    """A tag with a tagify() of its own."""

    def __init__(self, make):
        super().__init__("never")
        self.make = make

    def tagify(self):
        return self.make()


class Slots:
    __slots__ = ("make",)

    def __init__(self, make):
        self.make = make

    def tagify(self):
        return self.make()


class Iter:
    """Tagifiable and iterable, with a length and a truth value."""

    def __init__(self, make):
        self.make = make

    def tagify(self):
        return self.make()

    def __iter__(self):
        return iter(("wrong",))

    def __len__(self):
        return 0

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


class MetaX(MetadataNode):
    """A metadata node with tagify()."""

    def __init__(self, make):
        self.make = make

    def tagify(self):
        return self.make()

    def __copy__(self):
        return MetaX(self.make)


class DepX(HTMLDependency):
    """A dependency with a tagify() of its own, which replaces it."""

    def __init__(self, make):
        super().__init__("never", "1", head="never")
        self.make = make

    def tagify(self):
        return self.make()


class Call:
    """Has every other method that the library looks for or might look for."""
    name, add_ws, version, attrs, children = "br", True, "1", {"x": "y"}, ()

    def __init__(self, make):
        self.make = make

    def tagify(self):
        return self.make()

    def get_html_string(self, *a, **k):
        return "<wrong/>"

    def get_dependencies(self, *a, **k):
        return []

    def render(self):
        return {"dependencies": [], "html": "<wrong/>"}

    def __str__(self):
        return "<wrong/>"

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self

    def __call__(self, *a, **k):
        return self


class StrX(str):
    """A string with tagify()."""

    def __new__(cls, make):
        x = super().__new__(cls, "<wrong/>")
        x.make = make
        return x

    def tagify(self):
        return self.make()


class UStrX(UserString):
    """Not a str."""

    def __init__(self, make):
        super().__init__("<wrong/>")
        self.make = make

    def tagify(self):
        return self.make()


class BothStr(StrX):
    def _repr_html_(self):
        return "<wrong/>"


MAKERS = (real.Expand, Slots, TagSub, Iter, lambda f: Both(f, "<wrong/>"), real.Expand2, MetaX,
          DepX, Call, StrX, UStrX, BothStr)


def subst(kids):
    out = []
    for x in kids:
        if x[0] == "X":
            out += subst(x[2])
        elif x[0] == "E":
            out.append(x[:4] + (subst(x[4]),))
        else:
            out.append(x)
    return tuple(out)


def build(x, mk, depth=0, i=0):
    if x[0] == "X":
        return mk(lambda: real.expansion(x, depth, i))
    if x[0] == "E":
        t = Tag(x[1], *[build(c, mk, depth + 1, j) for j, c in enumerate(x[4])], _add_ws=x[2])
        for k, v in x[3]:
            t.attrs[k] = real.attr_value(v)
        return t
    return real.build(x, None, depth, i)


def dep_names(ds):
    return [(d.name, str(d.version)) for d in ds]


def want_deps(kids):
    nodes = M.resolve(M.collect(kids, "D"), lambda d: d[1][0], lambda d: d[1][1])
    return [(d[1][0], d[1][1]) for d in nodes]


def doc(kids, render, **kw):
    d = HTMLDocument(*kids, **kw)
    r = d.render(**render)
    return r["html"], [real.snap(x) for x in r["dependencies"]]


def run_tree(case, ctx, docs=True):
    kids, m = case if isinstance(case[-1], int) else (case, 0)
    mk = MAKERS[m]
    flat = subst(kids)
    tl = TagList(*[build(x, mk, 0, i) for i, x in enumerate(kids)])
    want = TagList(*real.kids(flat))
    html = want.get_html_string()
    if not M.same_markup(html, flat):
        raise Violation(f"the rendering of the substituted tree {flat!r} is {html!r}")
    deps = want_deps(flat)
    for n in (1, 2):
        r = tl.render()
        if r["html"] != html:
            raise Violation(f"render() #{n} is {r['html']!r}, want {html!r}")
        if dep_names(r["dependencies"]) != deps:
            raise Violation(f"render() #{n} reports {r['dependencies']!r}, want {deps!r}")
    if str(tl) != html or tl._repr_html_() != html:
        raise Violation(f"str() is {str(tl)!r}, want {html!r}")
    t = tl.tagify()
    if real.snap(t) != real.snap(want):
        raise Violation(f"tagify() is {real.snap(t)!r}, want {real.snap(want)!r}")
    t = t.tagify()
    if real.snap(t) != real.snap(want) or t.get_html_string(2, "\r\n") != \
            want.get_html_string(2, "\r\n"):
        raise Violation("tagify() of the tagified tree differs")
    div = Tag("div", tl, _add_ws=False)
    wdiv = Tag("div", want, _add_ws=False)
    r = div.render()
    if r["html"] != wdiv.get_html_string() or dep_names(r["dependencies"]) != deps:
        raise Violation(f"div(...).render() is {r!r}, want {wdiv.get_html_string()!r} {deps!r}")
    ctx.step(7)
    if docs:
        for kw, render in (({}, {}), ({"lang": "x"}, {"lib_prefix": None,
                                                      "include_version": False})):
            got, w = doc([tl], render, **kw), doc([want], render, **kw)
            if got != w:
                raise Violation(f"HTMLDocument: {got!r}, want {w!r}")
            h = Tag("html", Tag("head", tl), Tag("body", tl))
            wh = Tag("html", Tag("head", want), Tag("body", want))
            got, w = doc([h], render, **kw), doc([wh], render, **kw)
            if got != w:
                raise Violation(f"HTMLDocument(html(...)): {got!r}, want {w!r}")
            ctx.step(2)
    # markup of the un-expanded tree
    if kids != flat and m in (0, 1, 5, 8, 9, 10):
        for f in (tl.get_html_string, lambda: tl.get_html_string(1, ""), div.get_html_string,
                  lambda: Tag("p", div, "x").get_html_string(),
                  lambda: TagList("a", div, "b").get_html_string(0, "\n"),
                  lambda: TagList(*reversed(tl)).get_html_string()):
            try:
                s = f()
            except Exception:
                ctx.step()
                continue
            raise Violation(f"markup of an un-expanded tree: {s!r}")
    ctx.state(flat)
    ctx.outcome(html)
    ctx.trace()


def run_tree_nodoc(kids, ctx):
    run_tree(kids, ctx, docs=False)


D1 = ("D", ("d", "1"))
D2 = ("D", ("d", "1.10"))
D3 = ("D", ("e", "1", (("head", ("taglist", E("i"))),)))


def X(*kids):
    return ("X", "list", tuple(kids))


def X1(kid):
    return ("X", "one", (kid,))


XS = (X(), X(T("l")), X(E("div", T("q")), T("r")), X(E("b"), D1, E("p")), X1(E("div", T("s"), D2)),
      X1(E("span", T("t"))), X1(T("u<")), X1(T("")), X1(("H", "<v/>")), X1(D3),
      X(X(), X1(T("w")), E("i", X(T("x"), X())), D2))
PLAIN = (T("k"), E("hr"), D1)
EL = (M.elem("div", True), M.elem("span", False))


def has_x(kids):
    return any(x[0] == "X" for x in M.walk(kids))


def forest_cases(n, leaves, elems, lo=0):
    for f in M.Forests(leaves, elems).upto(n):
        if has_x(f) and len(f) >= 1:
            yield f


def list_cases(n, kinds):
    for k in range(1, n + 1):
        for s in itertools.product(kinds, repeat=k):
            if has_x(s):
                yield s


HOLDERS = tuple(n for n in M.HTML_NAMES) + ("g", "x-y")


def run_holder(name, ctx):
    ws = name not in M.INLINE
    for x in XS:
        if name in ("script", "style") and any(k[0] in "E" for k in M.walk(x[2])):
            continue
        for kids in ((x,), (x, x), (T("k"), x), (x, T("k")), (E("i"), x, E("div"))):
            if name in ("script", "style") and any(k[0] == "E" for k in kids):
                continue
            for w in (ws, not ws):
                run_tree_nodoc((("E", name, w, (), kids),), ctx)


def maker_cases():
    for m in range(len(MAKERS)):
        for x in XS:
            for y in XS + PLAIN:
                for kids in ((x, y), (y, x), (E("div", x, y),), (E("b", y, x), T("z"))):
                    yield (kids, m)


def run_maker(case, ctx):
    kids, m = case
    if MAKERS[m] is TagSub:
        # A Tag subclass: only as a child
        if any(k[0] == "X" for k in M.walk(subst(kids))):
            raise AssertionError
    run_tree(case, ctx)


# ---- the same object in several places; changing objects; mutation between renderings -------

def alias_cases():
    for i in range(len(XS)):
        for j in range(len(XS)):
            yield (i, j)


def run_alias(case, ctx):
    x, y = XS[case[0]], XS[case[1]]
    o, p = build(x, real.Expand), build(y, real.Expand)
    shared = Tag("i", o, "m", p, _add_ws=False)
    for objs, kids in (((o, o), (x, x)), ((o, p, o, p), (x, y, x, y)), ((shared, o, shared), (
            E("i", x, T("m"), y), x, E("i", x, T("m"), y))),
            ((Tag("div", o, Tag("div", o, p)), o), (E("div", x, E("div", x, y)), x)),
            (([o, (p, [o])], TagList(o, p)), (x, y, x, x, y))):
        flat = subst(kids)
        tl = TagList(*objs)
        want = TagList(*real.kids(flat))
        for n in (1, 2):
            r = tl.render()
            if r["html"] != want.get_html_string() or dep_names(r["dependencies"]) != \
                    want_deps(flat):
                raise Violation(f"{kids!r}: {r!r}, want {want.get_html_string()!r}")
        if doc([tl], {}) != doc([want], {}):
            raise Violation(f"{kids!r} in a document")
        ctx.step(3)
    ctx.state(case)
    ctx.trace()


HOPS = tuple((k, i) for k in ("append", "insert0", "insert1", "inner") for i in (0, 2, 3, 9)) + (
    ("pop", 0), ("change", 3), ("change", 0), ("text", 0), ("plus", 2))


def run_history(case, ctx):
    inner = Tag("p")
    tl = TagList(inner)
    kids, ikids = [None], []
    var = {"x": XS[6]}
    tl.append(real.Expand(lambda: real.expansion(var["x"])))
    kids.append("var")
    for n, (k, i) in enumerate(case):
        o = build(XS[i], real.Expand)
        if k == "append":
            tl.append(o)
            kids.append(XS[i])
        elif k == "insert0":
            tl.insert(0, o)
            kids.insert(0, XS[i])
        elif k == "insert1":
            tl.insert(1, o)
            kids.insert(1, XS[i])
        elif k == "inner":
            inner.append(o)
            ikids.append(XS[i])
        elif k == "pop" and kids and kids[-1] is not None:
            tl.pop()
            kids.pop()
        elif k == "change":
            var["x"] = XS[i]
        elif k == "text":
            tl.append("t")
            kids.append(T("t"))
        elif k == "plus":
            tl = tl + [o]
            kids.append(XS[i])
        spec = tuple(("E", "p", True, (), tuple(ikids)) if x is None else var["x"] if x == "var"
                     else x for x in kids)
        flat = subst(spec)
        want = TagList(*real.kids(flat))
        r = tl.render()
        if r["html"] != want.get_html_string() or dep_names(r["dependencies"]) != want_deps(flat):
            raise Violation(f"after {case[:n + 1]}: {r!r}, want {want.get_html_string()!r}")
        ctx.step()
    ctx.state(flat)
    ctx.trace()


# ---- documents -----------------------------------------------------------------------------

HTMLS = (E("html", E("head", E("title", T("T")), D3), E("body", T("b"), D1), attrs=(("id", "h"),)),
         E("html", E("body", T("b"))), E("html"), E("html", D1, E("body"), E("head", X(E("link")))),
         E("body", T("b"), D1, attrs=(("class", "c"),)), E("body", X(T("q"), D2), X()),
         E("head", E("title")), E("div", D1), T("t"), E("body"))
WRAPS = (lambda k: (X1(k),) if not has_x((k,)) else (X(k),), lambda k: (X(k),),
         lambda k: (X(), X(k)), lambda k: (X(k), X()), lambda k: (X(X(k)),), lambda k: (k, X()),
         lambda k: (X(T("s"), k),), lambda k: (X(k), T("s")), lambda k: (X(k, k),),
         lambda k: (X(D1, k),), lambda k: (D1, X(k)), lambda k: (E("div", X(k)),),
         lambda k: (X(k, D2), X(D3)))


def doc_cases():
    for i in range(len(HTMLS)):
        for j in range(len(WRAPS)):
            for how in ("args", "append", "list"):
                yield (i, j, how)


def run_doc(case, ctx):
    i, j, how = case
    kids = WRAPS[j](HTMLS[i])
    flat = subst(kids)
    for kw in ({}, {"lang": "en", "class_": "z"}):
        for render in ({}, {"lib_prefix": None}, {"include_version": False, "lib_prefix": "a/b"}):
            res = []
            for k in (kids, flat):
                objs = [build(x, real.Expand) for x in k]
                if how == "args":
                    d = HTMLDocument(*objs, **kw)
                elif how == "list":
                    d = HTMLDocument(TagList(*objs), **kw)
                else:
                    d = HTMLDocument(**kw)
                    for o in objs:
                        d.append(o)
                rs = [d.render(**render) for _ in range(2)]
                res.append([(r["html"], [real.snap(x) for x in r["dependencies"]]) for r in rs])
            if res[0][0] != res[1][0] or res[0][0] != res[0][1]:
                raise Violation(f"document of {kids!r}:\n  got  {res[0]!r}\n  want {res[1]!r}")
            names = [(d[2], d[3]) for d in res[0][0][1]]
            if [(n[2], v) for n, v in names] != want_deps(flat):
                raise Violation(f"document of {kids!r}: dependencies {names!r}")
            ctx.step(2)
    tmp = scratch.enter()
    try:
        for k, f in ((kids, "a.html"), (flat, "b.html")):
            HTMLDocument(*[build(x, real.Expand) for x in k]).save_html(os.path.join(tmp, f))
        a, b = (open(os.path.join(tmp, f)).read() for f in ("a.html", "b.html"))
        if a != b:
            raise Violation(f"save_html of {kids!r}: {a!r}, want {b!r}")
    finally:
        scratch.leave()
    ctx.state(case)
    ctx.trace()


# ---- un-expanded objects -------------------------------------------------------------------

def bare_cases():
    for n in HOLDERS:
        for pre in range(3):
            yield (n, pre)


def run_bare(case, ctx):
    name, pre = case
    ws = name not in M.INLINE
    before = ((), ("a",), (Tag("div"), "a", Tag("b", _add_ws=False)))[pre]
    for mk in MAKERS:
        o = mk(lambda: "never")
        if mk in (TagSub, MetaX, DepX):
            continue
        both = isinstance(o, (Both, BothStr))
        for w in (ws, not ws):
            for kids in ((*before, o), (*before, o, "z"), (*before, Tag("q", o)),
                         (*before, Tag("p", Tag("i", o), _add_ws=False))):
                t = Tag(name, *kids, _add_ws=w)
                for f in (t.get_html_string, lambda: t.get_html_string(2, ""),
                          lambda: TagList(t).get_html_string(),
                          lambda: TagList("x", Tag("div", t, _add_ws=False)).get_html_string()):
                    try:
                        s = f()
                    except Exception:
                        if both:
                            raise
                        ctx.step()
                        continue
                    if not both:
                        raise Violation(f"markup of an un-expanded object: {s!r}")
                    if s.count("<wrong/>") != 1:
                        raise Violation(f"self-rendering object: {s!r}")
                    ctx.step()
                if t.render()["html"].count("never") != 1:
                    raise Violation(f"render(): {t.render()['html']!r}")
    ctx.state(case)
    ctx.trace()


def size_cases():
    for n in SIZES:
        for kind in ("wide", "empties", "one", "deep", "nested", "mixed", "last", "deps"):
            if kind not in ("deep", "nested") or n <= 129:
                yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    ctx.state(case)
    if kind == "wide":
        kids = tuple(XS[i % len(XS)] for i in range(n))
    elif kind == "empties":
        kids = (X(),) * n + (T("a"),) + (X(),) * n
    elif kind == "one":
        kids = (T("a"), X(*[(T(str(i)), E("b"), D1)[i % 3] for i in range(n)]), T("z"))
    elif kind == "deep":
        kids = (X(T("a"), T("b")),)
        for i in range(n):
            kids = (X(), E(("div", "span")[i % 2], *kids), X1(T("c")))
    elif kind == "nested":
        kids = (T("a"),)
        for i in range(n):
            kids = (X(*kids, T("b")) if i % 2 else X(T("c"), *kids),)
    elif kind == "mixed":
        kids = tuple(X(*[T(f"{i}.{j}") for j in range((i * 7) % 4)]) if i % 3 else T(str(i))
                     for i in range(n))
    elif kind == "last":
        kids = tuple(T(str(i)) for i in range(n)) + (X(E("p"), E("p")),)
        run_tree_nodoc((X(E("p"), E("p")),) + kids[:-1], ctx)
    else:
        kids = tuple(X1(("D", (f"d{i % 9}", f"1.{i}"))) for i in range(n))
    run_tree_nodoc(kids, ctx)


def run_jsx(kids, ctx):
    """JSX components are tagifiable objects, too."""
    c = jsx_tag_create("Foo")
    comp = c(Tag("p"), real.build(D1), a=1)
    exp = comp.tagify()
    objs = [comp if x is None else build(x, real.Expand) for x in kids]
    want = TagList(*[exp if x is None else [real.build(y) for y in subst((x,))] for x in kids])
    tl = TagList(*objs)
    for a, b in ((tl, want), (Tag("div", tl), Tag("div", want))):
        r, w = a.render(), b.render()
        if r["html"] != w["html"] or dep_names(r["dependencies"]) != dep_names(w["dependencies"]):
            raise Violation(f"{kids!r}: {r!r}, want {w!r}")
        ctx.step()
    if doc([tl], {}) != doc([want], {}):
        raise Violation(f"{kids!r} in a document")
    if None not in kids:
        return
    ctx.state(kids)
    ctx.trace()


def spaces(tier):
    q = tier == "quick"
    some = (XS[0], XS[2], XS[3], XS[6])
    return [
        Space("documents", f"{len(HTMLS)} contents x {len(WRAPS)} expansion shapes x 3 ways x "
              "attributes x settings, saved and rendered", doc_cases, run_doc, block=4),
        Space("unexpanded", "un-expanded and self-rendering objects under every element",
              bare_cases, run_bare, block=2),
        Space("makers", f"{len(MAKERS)} kinds of object x pairs of expansions", maker_cases,
              run_maker),
        Space("alias", "all pairs of expansions, the same objects in several places", alias_cases,
              run_alias, block=2),
        Space("holders", "every element x expansions x 5 sibling lists", lambda: iter(HOLDERS),
              run_holder, block=1),
        Space("sizes", "numbers and lengths of expansions, nesting depths", size_cases, run_size,
              block=1),
        Space("jsx", "JSX components among the children", lambda: (
            k for n in (1, 2, 3) for k in itertools.product((None,) + XS[:4] + PLAIN[:2], repeat=n)
            if None in k), run_jsx),
        Space("histories", f"all histories up to {3 if q else 4} of {len(HOPS)} mutations, "
              "rendering after each", lambda: (h for n in range(1, 4 if q else 5)
                                               for h in itertools.product(HOPS, repeat=n)),
              run_history, block=64),
        Space("lists", f"all child lists up to 3 over {len(XS) + 3} kinds",
              lambda: list_cases(3, XS + PLAIN), run_tree, block=32),
        Space("lists-4", f"all child lists up to {5 if q else 6} over 5 kinds",
              lambda: list_cases(5 if q else 6, some + (T("k"),)), run_tree_nodoc, block=32),
        Space("forests", f"all forests up to {3 if q else 4} nodes over {len(XS) + 3} leaves",
              lambda: forest_cases(3 if q else 4, XS + PLAIN, EL),
              run_tree if q else run_tree_nodoc, block=32),
        Space("forests-4", f"all forests up to {4 if q else 5} nodes over 5 leaves",
              lambda: forest_cases(4 if q else 5, some + (T("k"),), EL), run_tree_nodoc, block=32),
    ]
