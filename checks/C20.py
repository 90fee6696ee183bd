"""C20: JSX components convert purely and surface all dependencies.

All component trees within the bound (components, HTML tags, strings, numbers, jsx() expressions,
tagifiable objects with fresh or held expansions, dependencies and metadata nodes, as children and
inside prop values) are converted by the real code.  The generated expression is parsed and
matched with the model of the component, and for part of the space executed with stub React
functions by a JavaScript engine; the metadata of the result is compared with what the model finds
in the tree; the whole object graph is compared before and after.  Histories of edits and
conversions, aliased objects, allow-lists and all characters of string literals are enumerated
as well."""
import itertools
import json
import math
import os
import re
import subprocess

import htmltools as ht
from htmltools import HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList, svg, tags
from htmltools._jsx import JSXTag, jsx, jsx_tag_create
from mc import jsmodel as J
from mc import model as M
from mc import real
from mc.common import NASTY, SIZES, E, T, chunks, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "HTML() and self-rendering objects as children of a component, prop values of other types "
    "(TagList, sets, ...), and strings with backslashes or line breaks are not specified",
    "a style prop given as text denotes the declarations of the text, as documented; None denotes "
    "null or no declarations",
    "a jsx() child (as opposed to a prop) is text, as the project's tests require",
    "the order of properties, layout, and the spelling of literals (escapes, 2 or 2.0) are free",
    "the first property names that differ only in a trailing or inner underscore: which value "
    "wins is free",
    "of jsx() the check requires the text to occur verbatim; it does not parse it",
)


# ---- building ------------------------------------------------------------------------------

class Held:
    """Tagifiable object that returns the same objects every time."""

    def __init__(self, r):
        self.r = r

    def tagify(self):
        return self.r


class Env:
    """Objects made while building, by spec position, so that sharing can be requested."""

    def __init__(self):
        self.held = []


def val(v, env):
    if not isinstance(v, tuple):
        return v
    k = v[0]
    if k == "j":
        return jsx(v[1])
    if k == "list":
        return [val(x, env) for x in v[1:]]
    if k == "tuple":
        return tuple(val(x, env) for x in v[1:])
    if k == "dict":
        return {a: val(b, env) for a, b in v[1:]}
    if k == "node":
        return mk(v[1], env)
    raise ValueError(v)


def expansion(x, env):
    return TagList(*[mk(y, env) for y in x[2]]) if x[1] == "list" else mk(x[2][0], env)


def mk(x, env):
    k = x[0]
    if k == "C":
        return JSXTag(x[1], *[mk(y, env) for y in x[3]], **{a: val(v, env) for a, v in x[2]})
    if k == "J":
        return jsx(x[1])
    if k == "X":
        return real.Expand(lambda: expansion(x, Env()))
    if k == "XH":
        r = expansion(x, env)
        env.held.append(r)
        return Held(r)
    if k == "E":
        return Tag(x[1], {a: v for a, v in x[3]}, *[mk(y, env) for y in x[4]], _add_ws=x[2])
    return real.build(x)


# ---- snapshots with identities -------------------------------------------------------------

def graph(x, seen=None):
    """Everything reachable, with the identity of every object."""
    seen = {} if seen is None else seen
    if id(x) in seen and not isinstance(x, (str, int, float)):
        return ("again", id(x))
    seen[id(x)] = x
    i = id(x)
    if isinstance(x, JSXTag):
        return (i, "JSX", x.name, id(x.attrs), id(x.children),
                tuple((k, graph(v, seen)) for k, v in x.attrs.items()),
                tuple(graph(c, seen) for c in x.children))
    if isinstance(x, TagList):
        return (i, "TagList", tuple(graph(c, seen) for c in x))
    if isinstance(x, Tag):
        return (i, type(x), x.name, x.add_ws, id(x.attrs), id(x.children), real.snap_attrs(x.attrs),
                tuple(graph(c, seen) for c in x.children))
    if isinstance(x, HTMLDependency):
        return (i,) + tuple(map(id, real.parts(x))) + real.snap(x)
    if isinstance(x, MetadataNode):
        return (i, real.snap(x))
    if isinstance(x, Held):
        return (i, "Held", graph(x.r, seen))
    if isinstance(x, dict):
        return (i, type(x), tuple((k, graph(v, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (i, type(x), tuple(graph(v, seen) for v in x))
    if isinstance(x, real.Expand):
        return (i, "Expand", id(x.make))
    return (i, type(x), repr(x))


# ---- the property --------------------------------------------------------------------------

def script_of(t, what):
    if not isinstance(t, Tag) or t.name != "script":
        raise Violation(f"{what}: not one <script> element: {t!r}")
    return "".join(str(c) for c in t.children if not isinstance(c, MetadataNode))


_FILES = {}


def lib_ok(d):
    """The dependency's script files exist."""
    key = (d.name, str(d.version), json.dumps([s["src"] for s in d.script]))
    if key not in _FILES:
        root = d.source_path_map()["source"]
        _FILES[key] = bool(d.script) and all(
            os.path.isfile(os.path.join(root, s["src"])) and
            os.path.getsize(os.path.join(root, s["src"])) > 100 for s in d.script)
    return _FILES[key]


def metas_of(t, what):
    """Metadata of the result, without react and react-dom (which are checked)."""
    got = [c for c in t.children if isinstance(c, MetadataNode)]
    rest = []
    libs = set()
    for d in got:
        if isinstance(d, HTMLDependency) and d.name in ("react", "react-dom") and \
                isinstance(d.source, dict) and d.source.get("package") == "htmltools":
            if not lib_ok(d):
                raise Violation(f"{what}: a script file of {d.name} doesn't exist: {d.script}")
            libs.add(d.name)
        else:
            rest.append(d)
    if libs != {"react", "react-dom"}:
        raise Violation(f"{what}: library dependencies {sorted(libs)}, want react and react-dom")
    return rest


def norm_meta(x):
    return real.snap(real.build(x))


NEEDLE = re.compile(r"</script", re.I)


def element_text(s, raw_ok, what):
    """The markup is one script element; -> its text."""
    m = re.match(r"\s*<script\b[^<>]*>", s)
    e = re.search(r"</script>\s*\Z", s)
    if not m or not e:
        raise Violation(f"{what}: markup is not one script element: {s!r}")
    body = s[m.end():e.start()]
    if not raw_ok:
        low = body.lower()
        if NEEDLE.search(body) or ("<!--" in low and "<script" in low[low.index("<!--"):]):
            raise Violation(f"{what}: the script element ends early or never: {s!r}")
    return body


def match(js, el, what):
    try:
        return J.match_script(js, el)
    except J.Mismatch as e:
        raise Violation(f"{what}: {e}\n  in {js}")


def verify(obj, spec, ctx, times=2, root=None, raw_ok=False, engine=None, held=()):
    """Converts `obj`, the component of `spec`, several times and checks everything."""
    metas = []
    (el,) = J.nodes([spec], metas)
    want = {norm_meta(m) for m in metas}
    before = graph([obj, root, list(held)])
    # graph() of the temporary list contains its id
    before = before[2]
    first = None
    for n in range(times):
        what = f"conversion {n + 1} of {spec!r}"
        t = obj.tagify()
        js = script_of(t, what)
        match(js, el, what)
        got = metas_of(t, what)
        gs = {real.snap(d) for d in got}
        if gs != want:
            raise Violation(f"{what}: metadata nodes\n  missing {sorted(map(str, want - gs))}\n"
                            f"  extra {sorted(map(str, gs - want))}")
        names = {d.name for d in t.get_dependencies()}
        wn = {"react", "react-dom"} | {m[1][0] for m in metas if m[0] == "D"}
        if names != wn:
            raise Violation(f"{what}: get_dependencies() gives {sorted(names)}, want {sorted(wn)}")
        s = str(obj)
        body = element_text(s, raw_ok, what)
        match(body, el, what + " (str)")
        if body.strip() != js.strip():
            raise Violation(f"{what}: str() differs from tagify():\n{body}\n---\n{js}")
        now = graph([obj, root, list(held)])[2]
        # the third element is a fresh list each time
        if now[:2] != before[:2] or now[2][1:] != before[2][1:]:
            raise Violation(f"{what}: changed the component\n  before {before!r}\n  after  {now!r}")
        sig = (js, tuple(real.snap(c) for c in t.children))
        if first is None:
            first = sig
        elif sig != first:
            raise Violation(f"{what}: differs from the first:\n{first}\n---\n{sig}")
        ctx.step(2)
    if engine:
        run_js(first[0], el, f"executing {spec!r}")
        ctx.step()
    ctx.outcome(first[0])
    ctx.trace()
    return first


def convert(spec, ctx, **kw):
    env = Env()
    obj = mk(spec, env)
    ctx.state(repr(spec))
    return verify(obj, spec, ctx, held=env.held, **kw)


# ---- JavaScript engine ---------------------------------------------------------------------

_NODE = {}


def node_up():
    _NODE["p"] = subprocess.Popen(
        ["node", os.path.join(os.path.dirname(J.__file__), "jsx_node.js")],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")


def node_down():
    p = _NODE.pop("p", None)
    if p:
        p.stdin.close()
        p.wait(10)
        p.stdout.close()


def run_js(js, el, what):
    p = _NODE["p"]
    p.stdin.write(json.dumps(js) + "\n")
    p.stdin.flush()
    got = json.loads(p.stdout.readline())
    want = [["render", J.plain(el), True], ["after", True], ["remove", "data-needs-render"]]
    if canon(got) != canon(want):
        raise Violation(f"{what} gave\n  {got}\n  want\n  {want}\n  for {js}")


def canon(v):
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, list):
        return [canon(x) for x in v]
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return (type(v).__name__, v)
    return ("num", float(v))


# ---- trees ---------------------------------------------------------------------------------

LEAF = ("T", "N", "J", "D", "M")
SMALL = ("T", "D")
SCALARS = (1, "s", None, True, ("j", "raw(7)"), 2.5, False, "q\"q", ("list", 1, ("tuple",)),
           ("dict", ("k", None)), -3)


class Shapes:
    """Structures of size n, without labels."""

    def __init__(self, leaves, wraps, scalars=True, exp=("one", "list", "h")):
        self.leaves, self.wraps, self.scalars, self.exp = leaves, wraps, scalars, exp
        self.memo = {}

    def node(self, n):
        if ("n", n) not in self.memo:
            r = list(self.leaves) if n == 1 else []
            r += self.comp(n)
            r += [("E", ks) for ks in self.seq(n - 1)]
            if n > 1:
                for y in self.node(n - 1):
                    if y[0] not in ("X", "XH"):
                        if "one" in self.exp and not isinstance(y, str) or y in ("T", "D"):
                            r.append(("X", "one", (y,)))
                        if "h" in self.exp and not isinstance(y, str):
                            r.append(("XH", "one", (y,)))
                if "list" in self.exp:
                    for ks in self.seq(n - 1):
                        if all(y[0] not in ("X", "XH") for y in ks):
                            r.append(("X", "list", ks))
                            if "h" in self.exp:
                                r.append(("XH", "list", ks))
            self.memo["n", n] = r
        return self.memo["n", n]

    def seq(self, n):
        if ("s", n) not in self.memo:
            r = [()] if n == 0 else []
            for k in range(1, n + 1):
                for y in self.node(k):
                    for rest in self.seq(n - k):
                        r.append((y,) + rest)
            self.memo["s", n] = r
        return self.memo["s", n]

    def prop(self, n):
        """Prop values of size n."""
        if ("p", n) not in self.memo:
            r = ["s"] if n == 1 and self.scalars else []
            for y in self.node(n):
                if isinstance(y, str):
                    continue
                if y[0] in ("X", "XH") and (y[1] == "list" or isinstance(y[2][0], str)):
                    continue
                r += [(w, y) for w in self.wraps]
            self.memo["p", n] = r
        return self.memo["p", n]

    def props(self, n):
        if ("ps", n) not in self.memo:
            r = [()] if n == 0 else []
            for k in range(1, n + 1):
                for y in self.prop(k):
                    for rest in self.props(n - k):
                        r.append((y,) + rest)
            self.memo["ps", n] = r
        return self.memo["ps", n]

    def comp(self, n):
        if ("c", n) not in self.memo:
            self.memo["c", n] = [("C", ps, ks) for k in range(n)
                                 for ps in self.props(k) for ks in self.seq(n - 1 - k)]
        return self.memo["c", n]


CNAMES = ("Foo", "Bar", "Foo.Bar", "Baz", "ns.Sub.Qux")
ENAMES = ("div", "span", "br", "script", "table")
PNAMES = ("p", "data_x", "class_", "aB", "key_", "x1", "on_change_")


def label(shape):
    """Labels every position differently, so that lost, repeated or swapped parts show."""
    c = itertools.count()

    def node(y):
        i = next(c)
        if isinstance(y, str):
            return {"T": ("T", f"t{i}"), "N": ("N", i), "J": ("J", f"raw({i})"),
                    "D": ("D", (f"d{i}", f"1.{i}")), "M": ("M", i)}[y]
        if y[0] == "E":
            at = (("id", f"i{i}"), ("style", "a:b"))[:i % 3]
            return ("E", ENAMES[i % 5], bool(i % 2), at, tuple(node(k) for k in y[1]))
        if y[0] == "C":
            ps = []
            for n, p in enumerate(y[1]):
                name = PNAMES[n % 7] if n < 7 else f"p{n}"
                ps.append((name, prop(p)))
            return ("C", CNAMES[i % 5], tuple(ps), tuple(node(k) for k in y[2]))
        return (y[0], y[1], tuple(node(k) for k in y[2]))

    def prop(p):
        if p == "s":
            return SCALARS[next(c) % len(SCALARS)]
        w, y = p
        n = ("node", node(y))
        return {"direct": n, "list": ("list", 1, n), "dict": ("dict", ("k", ("tuple", n, "z")))}[w]

    return node(shape)


def tree_cases(n, sh):
    def cases():
        for s in sh.comp(n):
            yield label(s)
    return cases


def run_tree(spec, ctx):
    convert(spec, ctx)


def run_tree_js(spec, ctx):
    convert(spec, ctx, engine=True)


# ---- values --------------------------------------------------------------------------------

ATOMS = (None, True, False, 0, 1, -1, 10**20, 2.0, -0.5, 1e300, 1e-7, "", "a", "null", "true", "1",
         'say "x"', "'", "a:b;c", "{", "[1]", "</div>", "é", "$&", ("j", "raw(1)"), ("j", "raw(2)"))
NODES = (("node", ("C", "Foo", (), ())), ("node", ("E", "div", True, (("id", "x"),), (("T", "t"),))),
         ("node", ("C", "Bar", (("p", ("list", None)),), (("D", ("dd", "1")), ("T", "k")))))


def value_cases(depth, width):
    def vals(d, width):
        yield from ATOMS
        yield from NODES
        if d:
            sub = list(vals(d - 1, 1))
            for k in range(width + 1):
                for c in itertools.product(sub, repeat=k):
                    yield ("list",) + c
                    if k < 2:
                        yield ("tuple",) + c
                    yield ("dict",) + tuple((f"k{i}", x) for i, x in enumerate(c))

    def cases():
        for v in vals(depth, width):
            yield ("C", "Foo", (("p", v),), ())
    return cases


def deep_values():
    for d in (1, 2, 3, 4, 5, 8, 13, 20, 40):
        for a in ATOMS[:3] + (("j", "raw(1)"),) + NODES:
            for pat in itertools.product(("list", "tuple", "dict"), repeat=min(d, 3)):
                v = a
                for i in range(d):
                    w = pat[i % len(pat)]
                    v = ("dict", ("x", v), ("y", i)) if w == "dict" else (w, i, v)
                yield ("C", "Foo", (("p", v), ("q", a)), ())


FLOATS = (float("inf"), float("-inf"), float("nan"))


class IntSub(int):
    def __str__(self):
        return "five"


class StrSub(str):
    pass


def odd_cases():
    yield from range(9)


def run_odd(i, ctx):
    """Values that have no literal form."""
    v, el = ((float("inf"), ("num", math.inf)), (float("-inf"), ("num", -math.inf)),
             (float("nan"), ("num", math.nan)), (StrSub("a"), ("str", "a")),
             (jsx("raw(1)") + jsx("+2"), ("raw", "raw(1)+2")),
             (jsx("raw(1)") + "x", ("str", "raw(1)x")), (jsx("[", "1]"), ("raw", "[\n1]")),
             ([float("inf"), {"a": float("nan")}], ("arr", [("num", math.inf),
                                                            ("obj", [("a", ("num", math.nan))])])),
             (10**400, ("num", 10**400)))[i]
    for make, want in ((lambda: JSXTag("Foo", p=v), {"p": el}),
                       (lambda: JSXTag("Foo", p=[v]), {"p": ("arr", [el])}),
                       (lambda: JSXTag("Foo", p={"k": v}), {"p": ("obj", [("k", el)])})):
        x = make()
        for _ in range(2):
            match(script_of(x.tagify(), "odd"), ("el", "Foo", want, []), f"prop {v!r}")
            match(str(x), ("el", "Foo", want, []), f"prop {v!r}")
            ctx.step(2)
    ctx.fresh_states()
    ctx.trace()


# ---- names ---------------------------------------------------------------------------------

def name_cases(n):
    def cases():
        for k in range(1, n + 1):
            for cs in itertools.product("aB_-1", repeat=k):
                yield "".join(cs)
        yield from ("aria_label", "data_foo_bar_", "className", "class_", "for_", "htmlFor", "None_",
                    "args", "self", "name", "allowedPropsX", "children", "attrs", "style_", "_",
                    "__", "on-click", 'a"b', "a b", "a.b", "a:b", "a'b", "é", "1", "", "key", "ref")
    return cases


def run_name(k, ctx):
    spec = ("C", "Foo", ((k, 1),), ())
    if J.norm(k) == "style":
        spec = ("C", "Foo", ((k, "a:b"),), ())
    v = spec[2][0][1]
    if k not in ("self", "_name", "allowedProps"):
        convert(spec, ctx, times=1)
    for how in range(3):
        x = JSXTag("Foo")
        if how == 0:
            x.attrs[k] = v
        elif how == 1:
            x.attrs.update({k: v})
        elif k not in ("self",):
            x.attrs.update(**{k: v})
        else:
            continue
        verify(x, spec, ctx, times=1)
    # each prop once, also when two spellings meet
    nk = J.norm(k)
    if nk != "style" and k not in ("self", "_name", "allowedProps"):
        for a, b in ((k, nk), (nk, k), (k, k + "_"), (nk + "_", nk)):
            if J.norm(a) != nk or J.norm(b) != nk or a == b or "self" in (a, b):
                continue
            for make in (lambda: JSXTag("Foo", **{a: 5, b: 5}),
                         lambda: upd(JSXTag("Foo", **{a: 4}), {b: 5}),
                         lambda: upd(JSXTag("Foo"), {a: 5, b: 5})):
                x = make()
                verify(x, ("C", "Foo", ((nk + "_" if nk.endswith("_") else nk, 5),), ()), ctx, times=1)


def upd(x, d):
    for k, v in d.items():
        x.attrs[k] = v
    return x


# ---- strings -------------------------------------------------------------------------------

def str_specs(s):
    yield ("C", "Foo", (("p", s), ("q", ("list", s, ("dict", ("k", s)))), ("r", ("dict", (s, 1)))),
           (("T", s), ("E", "div", True, (("id", s),), (("T", s), ("T", s))),
            ("C", "Bar", (("p", s),), (("T", s),))))


def run_chars(case, ctx):
    cs = [c for c in scalars(*case) if c not in "\\\n\r"]
    for i in range(0, len(cs), 256):
        s = "".join(cs[i:i + 256])
        for sp in str_specs(s):
            verify(mk(sp, Env()), sp, ctx, times=1)
        ctx.fresh_states(len(s))
    for c in cs[:64] if case[0] == 0 else cs[:1]:
        for s in (c, c * 2, "a" + c, c + "b", '"' + c, c + '"'):
            for sp in str_specs(s):
                verify(mk(sp, Env()), sp, ctx, times=1)


STR_TOKENS = ('"', "'", "a", " ", "<", "/", "</script>", "<!--", "<script", "-->", "SCRIPT", ">", "${",
              "`", "&quot;", "//", "/*", "*/", "</", "%s", "{", "}", "(", ",")


def str_cases(n):
    def cases():
        for s in NASTY:
            if not set(s) & set("\\\n\r"):
                yield s
        for k in range(1, n + 1):
            for ts in itertools.product(STR_TOKENS, repeat=k):
                yield "".join(ts)
    return cases


def run_str(s, ctx):
    for sp in str_specs(s):
        convert(sp, ctx, times=1)


def run_str_js(s, ctx):
    for sp in str_specs(s):
        convert(sp, ctx, times=1, engine=True)


# ---- style ---------------------------------------------------------------------------------

DECLS = ("color:red", "margin:0 1px", "background:url(a:b)", "--x:1", "font-family:'A', \"B\"", "",
         "a:b:c:d", " top : 1px ", "width:calc(1px + 2px)")


def style_cases(n):
    def cases():
        for k in range(n + 1):
            for ds in itertools.product(DECLS, repeat=k):
                yield ";".join(ds)
                if k:
                    yield ";".join(ds) + ";"
    return cases


def run_style(s, ctx):
    for sp in (("C", "Foo", (("style", s),), ()),
               ("C", "Foo", (("a", 1), ("style_", s), ("b", "x")),
                (("E", "p", True, (("style", s),) if s else (), ()),)),
               ("C", "Foo", (("p", ("node", ("C", "Bar", (("style", s),), ()))),), ())):
        convert(sp, ctx)


STYLE_VALUES = (None, ("dict",), ("dict", ("color", "red")), ("dict", ("a", 1), ("b", None)),
                ("dict", ("a", ("j", "raw(1)"))), ("dict", ("a", ("list", 1, "x"))), ("j", "raw(3)"),
                ("dict", ("a-b", "c:d;e"), ("q", True), ("w", 1.5)))


def style_value_cases():
    for v in STYLE_VALUES:
        yield ("C", "Foo", (("style", v),), ())
        yield ("C", "Foo", (("style", v), ("p", v)), (("C", "Bar", (("style_", v),), (("T", "t"),)),))
        yield ("C", "Foo", (("p", ("list", ("node", ("C", "Bar", (("style", v),), ())))),), ())


# ---- allow-lists ---------------------------------------------------------------------------

ALLOW = ("id", "idx", "i", "data", "aB", "name")


def allow_cases():
    for k in range(len(ALLOW) + 1):
        for al in itertools.combinations(ALLOW, k):
            yield al


def run_allow(al, ctx):
    make = jsx_tag_create("Foo", allowedProps=list(al))
    free = jsx_tag_create("Foo")
    none = jsx_tag_create("Foo", None)
    other = jsx_tag_create("Foo", allowedProps=["zzz"])
    for rnd in range(2):
        for k in range(4):
            for ps in itertools.permutations(ALLOW, k):
                kw = {p: i for i, p in enumerate(ps)}
                ok = set(ps) <= set(al)
                for f in (make, lambda *a, **b: JSXTag("Foo", *a, allowedProps=list(al), **b)):
                    try:
                        x = f("c", **kw)
                    except Exception as e:
                        if ok:
                            raise Violation(f"props {ps} rejected with allowedProps={al}: {e!r}")
                    else:
                        if not ok:
                            raise Violation(f"props {ps} accepted with allowedProps={al}")
                        verify(x, ("C", "Foo", tuple(kw.items()), (("T", "c"),)), ctx, times=1)
                    ctx.step()
                for f in (free, none):
                    verify(f(**kw), ("C", "Foo", tuple(kw.items()), ()), ctx, times=1)
                if kw:
                    try:
                        other(**kw)
                    except Exception:
                        pass
                    else:
                        raise Violation(f"props {ps} accepted with allowedProps=['zzz']")
    # a component with an allow-list converts like any other
    for p in al:
        for v in (None, ("list", 1), ("node", ("C", "Bar", (), (("D", ("d", "1")),)))):
            env = Env()
            x = make(**{p: val(v, env)})
            verify(x, ("C", "Foo", ((p, v),), ()), ctx, held=env.held)
    for bad in ({"zzz": None}, {"zzz": False}, {"zzz": []}, {"Id": 1}, {"ID": 1}, {"id2": 1}, {"dat": 1}):
        try:
            make(**bad)
        except Exception:
            ctx.step()
        else:
            raise Violation(f"props {bad} accepted with allowedProps={al}")
    ctx.fresh_states()


# ---- histories -----------------------------------------------------------------------------

KIDS = (("T", "t"), ("C", "Bar", (("b", 1),), ()), ("D", ("d", "1")), ("E", "p", True, (), (("T", "x"),)),
        ("X", "list", (("T", "e"), ("D", ("x", "2")), ("C", "Baz", (), ()))), ("M", 3), ("N", 4),
        ("XH", "one", (("E", "b", False, (), (("D", ("h", "1")), ("T", "y"))),)), ("J", "raw(1)"))
KIDS2 = (("T", ""), ("N", 0), ("T", ""), ("T", " "), ("T", "t"), ("T", "t"), ("N", 0), ("E", "br", True, (), ()),
         ("C", "Bar", (), ()), ("T", "0"), ("N", False), ("N", 0.0), ("T", "None"), ("C", "Bar", (), ()))
# equal ones in a row
KIDS3 = (("E", "br", True, (), ()), ("E", "br", True, (), ()), ("D", ("d", "1")), ("D", ("d", "1")),
         ("E", "p", True, (("x", "1"),), (("T", "x"),)), ("E", "br", True, (), ()), ("M", 3), ("T", "t"),
         ("T", "t"), ("E", "p", True, (("x", "1"),), (("T", "x"),)), ("J", "raw(1)"), ("J", "raw(1)"))
OPS = ("append1", "append2", "extend", "cappend", "cinsert", "cextend", "setattr", "update", "setnode",
       "delattr", "pop", "tagify", "str", "render", "inner", "html")


def hist_cases(n):
    def cases():
        for k in range(1, n + 1):
            for ops in itertools.product(range(len(OPS)), repeat=k):
                for start in (0, 1, 2, 3, 4) if k < n else (k % 2, 2, 3 + sum(ops) % 2):
                    yield (start, ops)
    return cases


def run_hist(case, ctx):
    start, ops = case
    env = Env()
    c = itertools.count()
    inner_spec = ["C", "Bar", [], []]

    def kid():
        if start == 2:
            return KIDS2[next(c) % len(KIDS2)]
        if start > 2:
            return KIDS3[next(c) % len(KIDS3)]
        return KIDS[(next(c) + start * 3) % len(KIDS)]

    made = {}

    def make(k):
        if start != 4:
            return mk(k, env)
        # one object for equal specifications
        if k not in made:
            made[k] = mk(k, env)
        return made[k]

    inner = JSXTag("Bar")
    hspec = ["E", "div", True, (), []]
    h = Tag("div")
    props, kids = {}, []
    if start:
        x = JSXTag("Foo", inner, h, p0=1)
        props["p0"] = 1
        kids += [inner_spec, hspec]
    else:
        x = JSXTag("Foo", "z", q=[inner], r={"k": h})
        kids.append(("T", "z"))
        props["q"] = ("list", ("node", inner_spec))
        props["r"] = ("dict", ("k", ("node", hspec)))

    def fz(v):
        if v is inner_spec:
            return ("C", "Bar", tuple(inner_spec[2]), tuple(inner_spec[3]))
        if v is hspec:
            return ("E", "div", True, (), tuple(hspec[4]))
        if isinstance(v, tuple):
            return tuple(fz(y) for y in v)
        return v

    def spec():
        return ("C", "Foo", tuple((k, fz(v)) for k, v in props.items()), tuple(fz(k) for k in kids))

    for o in ops:
        op = OPS[o]
        if op == "append1":
            k = kid()
            x.append(make(k))
            kids.append(k)
        elif op == "append2":
            k, l = kid(), kid()
            x.append(make(k), make(l))
            kids += [k, l]
        elif op == "extend":
            k, l = kid(), kid()
            x.extend([make(k), None, [make(l)]])
            kids += [k, l]
        elif op == "cappend":
            k = kid()
            x.children.append(make(k))
            kids.append(k)
        elif op == "cinsert":
            k = kid()
            x.children.insert(0, make(k))
            kids.insert(0, k)
        elif op == "cextend":
            k, l = kid(), kid()
            x.children.extend(TagList(make(k), make(l)))
            kids += [k, l]
        elif op == "setattr":
            i = next(c)
            v = SCALARS[i % len(SCALARS)]
            x.attrs[f"s_{i}"] = val(v, env)
            props[f"s-{i}"] = v
        elif op == "update":
            i = next(c)
            x.attrs.update({"u_": i}, w_w=[i])
            props["u"] = i
            props["w-w"] = ("list", i)
        elif op == "setnode":
            k = ("C", "Baz", (), (kid(),))
            x.attrs["n_"] = make(k)
            props["n"] = ("node", k)
        elif op == "delattr":
            if props:
                k = next(iter(props))
                del props[k]
                del x.attrs[k]
        elif op == "pop":
            if kids and isinstance(kids[-1], tuple) and kids[-1][0] not in ("XL",):
                kids.pop()
                x.children.pop()
        elif op == "inner":
            k = kid()
            inner.append(make(k))
            inner_spec[3].append(k)
            inner.attrs["z_"] = next(c)
            inner_spec[2][:] = [("z", inner.attrs["z"])]
        elif op == "html":
            k = kid()
            h.append(make(k))
            hspec[4].append(k)
        else:
            g = graph([x, inner, h])[2]
            if op == "tagify":
                x.tagify()
            elif op == "str":
                str(x)
            else:
                HTMLDocument(x).render()
            if graph([x, inner, h])[2] != g:
                raise Violation(f"{op} changed the component {spec()!r}")
        ctx.step()
    s = spec()
    ctx.state(repr(s))
    verify(x, s, ctx, times=2, held=env.held + [inner, h])


# ---- sharing -------------------------------------------------------------------------------

SHARED = (("C", "Bar", (("p", ("list", 1)),), (("T", "t"), ("D", ("d", "1")))),
          ("E", "div", True, (("id", "i"),), (("T", "t"), ("C", "Baz", (), (("M", 1),)))),
          ("X", "one", (("E", "b", False, (), (("D", ("d", "1")),)),)),
          ("XH", "one", (("C", "Baz", (("q", ("node", ("E", "i", False, (), (("D", ("e", "1")),)))),), ()),)),
          ("XH", "list", (("T", "t"), ("D", ("d", "1")), ("E", "b", False, (), (("M", 2),)))),
          ("D", ("d", "1", (("script", ("list", ("dict", ("src", "a.js")))),))), ("M", 1))
SLOTS = ("kid", "kid", "kidtag", "kidcomp", "prop", "proplist", "propdict", "proptag")


def share_cases(n):
    def cases():
        for i, s in enumerate(SHARED):
            for j in range(i, len(SHARED)):
                for k in range(2, n + 1):
                    for slots in itertools.product(range(1, len(SLOTS)), repeat=k):
                        for mask in range(2 ** k) if i != j else (0,):
                            if i != j and (mask in (0, 2 ** k - 1)):
                                continue
                            yield (i, j, slots, mask)
    return cases


def run_share(case, ctx):
    """One or two objects, each in several places of the same component."""
    i, j, slots, mask = case
    env = Env()
    objs = [mk(SHARED[i], env), mk(SHARED[j], env)]
    props, kids, pv, kv = [], [], {}, []
    for n, s in enumerate(slots):
        b = mask >> n & 1
        sp, o = SHARED[(i, j)[b]], objs[b]
        name = SLOTS[s]
        node_ok = sp[0] in "CE" or (sp[0] in ("X", "XH") and sp[1] == "one")
        if name.startswith("prop") and name != "proptag" and not node_ok:
            name = "proptag"
        if name == "kid":
            kids.append(sp)
            kv.append(o)
        elif name == "kidtag":
            kids.append(("E", "u", False, (), (sp, ("T", str(n)))))
            kv.append(Tag("u", o, str(n), _add_ws=False))
        elif name == "kidcomp":
            kids.append(("C", "Foo.Bar", (("n", n),), (sp,)))
            kv.append(JSXTag("Foo.Bar", o, n=n))
        elif name == "prop":
            props.append((f"p{n}", ("node", sp)))
            pv[f"p{n}"] = o
        elif name == "proplist":
            props.append((f"p{n}", ("list", ("node", sp), ("node", sp))))
            pv[f"p{n}"] = [o, o]
        elif name == "propdict":
            props.append((f"p{n}", ("dict", ("a", ("node", sp)), ("b", ("tuple", ("node", sp))))))
            pv[f"p{n}"] = {"a": o, "b": (o,)}
        else:
            props.append((f"p{n}", ("node", ("E", "p", True, (), (sp, sp)))))
            pv[f"p{n}"] = Tag("p", o, o)
    x = JSXTag("Foo", *kv, **pv)
    ctx.state(case)
    verify(x, ("C", "Foo", tuple(props), tuple(kids)), ctx, held=env.held + objs)
    # the shared containers of two components
    if SHARED[i][0] not in "CE":
        return
    d, l = {"a": objs[0]} if pv else {"a": 1}, [1, 2]
    y, z = JSXTag("Foo", p=d, q=l), JSXTag("Bar", p=l, q=d)
    g = graph([y, z, d, l])[2]
    a, b = str(y), str(z)
    if (str(y), str(z)) != (a, b) or graph([y, z, d, l])[2] != g:
        raise Violation(f"converting components that share prop values changed them: {case}")


# ---- in documents --------------------------------------------------------------------------

CTX = ("tag", "taglist", "doc", "docbody", "dochtml", "expand", "twice", "dep")


def embed_cases(n):
    sh = Shapes(SMALL, ("direct",), scalars=False, exp=("list", "h"))
    def cases():
        for k in range(1, n + 1):
            for s in sh.comp(k):
                for c in range(len(CTX)):
                    yield (c, label(s))
    return cases


def run_embed(case, ctx):
    """Rendered inside other content, the component's script and dependencies all appear."""
    c, spec = case
    metas = []
    (el,) = J.nodes([spec], metas)
    env = Env()
    x = mk(spec, env)
    n = 1
    kind = CTX[c]
    if kind == "tag":
        root = Tag("div", "a", Tag("p", x))
    elif kind == "taglist":
        root = TagList("a", x, "b")
    elif kind == "doc":
        root = HTMLDocument(x)
    elif kind == "docbody":
        root = HTMLDocument(Tag("body", x))
    elif kind == "dochtml":
        root = HTMLDocument(Tag("html", Tag("head"), Tag("body", Tag("div", x))))
    elif kind == "expand":
        root = Tag("div", Held(TagList("q", x.tagify())))
    elif kind == "twice":
        root, n = Tag("div", x, Tag("p", x)), 2
    else:
        root = Tag("div", x, HTMLDependency("mine", "3"), HTMLDependency("react", "0.1"))
    g = graph([x])[2]
    for _ in range(2):
        r = root.render()
        html = r["html"]
        parts = html.split("ReactDOM.render(")
        if len(parts) != n + 1:
            raise Violation(f"{len(parts) - 1} component scripts in {html!r}, want {n}")
        for p in parts[1:]:
            match("ReactDOM.render(" + p, el, f"{kind} {spec!r}")
        names = {d.name for d in r["dependencies"]}
        want = {m[1][0] for m in metas if m[0] == "D"} | {"react", "react-dom"} | (
            {"mine"} if kind == "dep" else set())
        if names != want:
            raise Violation(f"{kind} {spec!r}: dependencies {sorted(names)}, want {sorted(want)}")
        for d in r["dependencies"]:
            if d.name in ("react", "react-dom") and not lib_ok(d):
                raise Violation(f"script file of {d.name} doesn't exist")
        if graph([x])[2] != g:
            raise Violation(f"rendering {kind} {spec!r} changed the component")
        ctx.step()
    ctx.state((c, repr(spec)))
    ctx.trace()


# ---- catalogue and ladders -----------------------------------------------------------------

def cat_cases():
    for m, names in (("tags", M.TAGS_CATALOGUE), ("svg", M.SVG_CATALOGUE)):
        for n in names:
            yield (m, n)


def run_cat(case, ctx):
    m, n = case
    f = getattr({"tags": tags, "svg": svg}[m], n)
    t = f("t", JSXTag("Bar"), id="i")
    u = f()
    x = JSXTag("Foo", t, u, p=t, q=[u])
    e = ("E", n, True, (("id", "i"),), (("T", "t"), ("C", "Bar", (), ())))
    v = ("E", n, True, (), ())
    verify(x, ("C", "Foo", (("p", ("node", e)), ("q", ("list", ("node", v)))), (e, v)), ctx)
    ctx.state(case)


WIDE = ("kids", "props", "list", "dict", "nodes", "deps", "expand", "append", "tagkids")


def ladder_cases(sizes):
    def cases():
        for n in sizes:
            for w in WIDE:
                yield (w, n)
        for n in (1, 2, 3, 4, 5, 8, 10, 16, 20, 32, 50):
            for w in ("cdeep", "pdeep", "edeep", "mixdeep", "ldeep"):
                yield (w, n)
    return cases


def run_ladder(case, ctx):
    w, n = case
    D = lambda i: ("D", (f"d{i}", "1"))
    C = lambda i, *k: ("C", "Bar", (("n", i),), k)
    ps, ks = (), ()
    if w == "kids":
        ks = tuple(("T", f"t{i}") if i % 2 else C(i) for i in range(n))
    elif w == "props":
        ps = tuple((f"p{i}", i if i % 3 else ("node", C(i, D(i)))) for i in range(n))
    elif w == "list":
        ps = (("p", ("list",) + tuple(i if i % 5 else ("node", C(i, D(i))) for i in range(n))),)
    elif w == "dict":
        ps = (("p", ("dict",) + tuple((f"k{i}", str(i) if i % 5 else ("node", C(i, D(i))))
                                      for i in range(n))),)
    elif w == "nodes":
        ks = tuple(("E", "div", True, (), (D(i), C(i))) for i in range(n))
    elif w == "deps":
        ks = tuple(D(i) for i in range(n))
    elif w == "expand":
        ks = (("X", "list", tuple(D(i) if i % 2 else ("T", f"t{i}") for i in range(n))),
              ("XH", "list", tuple(C(i, ("M", i)) for i in range(n))))
    elif w == "append":
        x = JSXTag("Foo")
        for i in range(n):
            x.append(f"t{i}")
        verify(x, ("C", "Foo", (), tuple(("T", f"t{i}") for i in range(n))), ctx)
        return
    elif w == "tagkids":
        ks = (("E", "ul", True, tuple((f"a{i}", str(i)) for i in range(n)),
               tuple(("T", str(i)) for i in range(n))),)
    else:
        x = ("E", "p", True, (), (D("z"), ("T", "z")))
        for i in range(n):
            k = w if w != "mixdeep" else ("cdeep", "pdeep", "edeep", "ldeep")[i % 4]
            x = {"cdeep": lambda: C(i, x, D(i)), "edeep": lambda: ("E", "div", True, (), (x, D(i))),
                 "pdeep": lambda: ("C", "Bar", (("p", ("node", x)),), (D(i),)),
                 "ldeep": lambda: ("C", "Bar", (("p", ("list", ("dict", ("k", ("node", x))))),), (D(i),)),
                 }[k]()
        ks = (x,)
    spec = ("C", "Foo", ps, ks)
    env = Env()
    verify(mk(spec, env), spec, ctx, held=env.held)
    ctx.state(case)


def deepwide_cases(depths, widths):
    def cases():
        for d in depths:
            for n in widths:
                for w in ("cdeep", "pdeep", "edeep", "ldeep"):
                    for inner in ("kids", "props", "list", "dict", "style", "attrs"):
                        yield (d, n, w, inner)
    return cases


def run_deepwide(case, ctx):
    """Many parts, far down."""
    d, n, w, inner = case
    C = lambda ps, ks: ("C", "Bar", ps, ks)
    leaf = lambda i: (("T", f"t{i}"), ("J", f"raw({i})"), C((("n", i),), ()), ("D", (f"d{i}", "1")),
                      ("E", "b", False, (), (("T", f"e{i}"),)))[i % 5]
    x = {
        "kids": lambda: ("E", "ul", True, (), tuple(leaf(i) for i in range(n))),
        "props": lambda: C(tuple((f"p{i}", i if i % 3 else ("node", C((), (leaf(i),))))
                                 for i in range(n)), ()),
        "list": lambda: C((("p", ("list",) + tuple(i if i % 3 else ("node", C((), (leaf(i),)))
                                                   for i in range(n))),), ()),
        "dict": lambda: C((("p", ("dict",) + tuple((f"k{i}", str(i) if i % 3 else (
            "node", C((), (leaf(i),)))) for i in range(n))),), ()),
        "style": lambda: ("E", "p", True, (("style", ";".join(f"a{i}:b{i}" for i in range(n))),), ()),
        "attrs": lambda: ("E", "p", True, tuple((f"a{i}", f"v{i}") for i in range(n)), ()),
    }[inner]()
    for i in range(d):
        x = {"cdeep": lambda: C((("n", i),), (x, ("D", (f"z{i}", "1")))),
             "edeep": lambda: ("E", "div", True, (), (x, ("T", f"z{i}"))),
             "pdeep": lambda: C((("p", ("node", x)), ("z", i)), ()),
             "ldeep": lambda: C((("p", ("list", ("dict", ("k", ("node", x))), i)),), ()),
             }[w]()
    convert(("C", "Foo", (), (x,)), ctx)


# ---- one of another kind among many --------------------------------------------------------

AMONG = ATOMS + NODES + (("list",), ("list", 1, None), ("tuple",), ("tuple", "a"), ("dict",),
                         ("dict", ("k", None)))
AMONG_KIDS = (("T", ""), ("T", "a"), ("T", "null"), ("T", "1"), ("T", "Foo"), ("T", " "), ("T", 'q"'),
              ("J", "raw(1)"), ("D", ("d", "1")), ("M", 1), ("C", "Bar", (), ()),
              ("C", "Bar", (("b", None),), (("D", ("e", "1")),)), ("E", "br", True, (), ()),
              ("E", "p", True, (("id", "i"),), (("T", "x"), ("D", ("e", "1")))),
              ("E", "b", False, (), ()), ("X", "one", (("T", "x"),)), ("X", "list", ()),
              ("X", "list", (("D", ("f", "1")), ("C", "Baz", (), ()))),
              ("XH", "one", (("E", "i", False, (), (("D", ("g", "1")),)),)))
AMONG_WHERE = ("top", "child", "tag", "prop", "list")


def among_cases(sizes):
    def cases():
        for n in sizes:
            for at in sorted({0, n // 2, n - 1}):
                for where in AMONG_WHERE:
                    for fill in (0, 1, 2):
                        for w in ("props", "list", "tuple", "dict"):
                            for i in range(len(AMONG)):
                                yield (w, n, at, where, fill, i)
                        for w in ("kids", "tagkids"):
                            for i in range(len(AMONG_KIDS)):
                                yield (w, n, at, where, fill, i)
    return cases


def run_among(case, ctx):
    w, n, at, where, fill, i = case
    kids = w in ("kids", "tagkids")
    odd = (AMONG_KIDS if kids else AMONG)[i]
    other = odd if fill == 2 else ((("T", "f"), ("C", "Foo", (), ())) if kids else (7, "f"))[fill]
    vs = [other] * n
    vs[at] = odd
    x = {
        "props": lambda: ("C", "Bar", tuple((f"p{j}", v) for j, v in enumerate(vs)), ()),
        "list": lambda: ("C", "Bar", (("p", ("list", *vs)),), ()),
        "tuple": lambda: ("C", "Bar", (("p", ("tuple", *vs)),), ()),
        "dict": lambda: ("C", "Bar", (("p", ("dict",) + tuple((f"k{j}", v)
                                                              for j, v in enumerate(vs))),), ()),
        "kids": lambda: ("C", "Bar", (), tuple(vs)),
        "tagkids": lambda: ("E", "ul", True, (), tuple(vs)),
    }[w]()
    if where == "top" and w == "tagkids":
        where = "child"
    spec = {
        "top": lambda: x,
        "child": lambda: ("C", "Foo", (("a", 1),), (("T", "t"), x, ("D", ("z", "1")))),
        "tag": lambda: ("C", "Foo", (), (("E", "div", True, (), (x, ("T", "u"))),)),
        "prop": lambda: ("C", "Foo", (("n", ("node", x)), ("z", 1)), ()),
        "list": lambda: ("C", "Foo", (("l", ("list", ("dict", ("k", ("node", x))), None)),), ()),
    }[where]()
    convert(spec, ctx)


# ---- dependencies --------------------------------------------------------------------------

DNAMES = ("react", "react-dom", "React", "react-dom-server", "reactable", "preact", "react ", "", "d",
          "htmltools", "headcontent_0", "script", "key", "children", "a b", "é", "Foo", "p", "None", "0")
DFIELDS = (
    (), (("script", ("dict", ("src", "a.js"))),),
    (("source", ("dict", ("href", "https://h/p"))), ("script", ("dict", ("src", "a.js"))),
     ("stylesheet", ("list", ("dict", ("href", "s.css"))))),
    (("head", "<title>t</title>"),), (("meta", ("dict", ("name", "n"), ("content", "c"))),),
    (("source", ("dict", ("subdir", "x/y"))), ("all_files", True)),
    (("source", ("dict", ("package", "urllib"), ("subdir", "lib/other"))),
     ("script", ("dict", ("src", "react.production.min.js")))),
)
DPLACES = ("child", "tag", "prop", "proptag", "list", "dict", "expand", "held", "nested", "two")


def dep_cases(q):
    for n in DNAMES:
        for v in ("1.0", "0", "17.0.2", "999"):
            for f in DFIELDS:
                for w in DPLACES:
                    yield (((n, v, f),), w)
    for a, b in itertools.product(DNAMES if not q else DNAMES[:9], repeat=2):
        for v in ("1.0", "2"):
            for f, g in ((0, 0), (0, 1), (2, 3)):
                for w in DPLACES:
                    yield (((a, "1.0", DFIELDS[f]), (b, v, DFIELDS[g])), w)


def run_deps(case, ctx):
    ds, w = case
    d = tuple(("D", x) for x in ds)
    t = ("T", "t")
    tag = ("E", "div", True, (), (*d, t))
    ps, ks = {
        "child": ((), (*d, t)), "tag": ((), (tag,)),
        "prop": (tuple((f"p{i}", ("node", ("E", "i", False, (), (x,)))) for i, x in enumerate(d)), ()),
        "proptag": ((("p", ("node", tag)),), (t,)),
        "list": ((("p", ("list", 1, ("node", tag), ("node", ("C", "Bar", (), d)))),), ()),
        "dict": ((("p", ("dict", ("a", ("node", ("C", "Bar", (), d))))),), ()),
        "expand": ((), (("X", "list", (*d, t)), ("X", "one", (tag,)))),
        "held": ((), (("XH", "list", (t, *d)), ("XH", "one", (d[0],)))),
        "nested": ((("q", ("node", ("C", "Bar", (("p", ("node", tag)),), d))),),
                   (("C", "Baz", (), (("C", "Bar", (), d),)),)),
        "two": ((("p", ("node", tag)),), (*d, ("E", "b", False, (), d[::-1]))),
    }[w]
    convert(("C", "Foo", ps, ks), ctx)


def run_bad_name(name, ctx):
    """(project rule) names that are not components are rejected."""
    try:
        x = JSXTag(name)
    except Exception:
        ctx.step()
        return
    raise Violation(f"JSXTag({name!r}) accepted: {x}")


PARTS = ("A", "b", "Cc", "dE", "_f", "g1")


def name_parts(n):
    for k in range(1, n + 1):
        for ps in itertools.product(range(len(PARTS)), repeat=k - 1) if k < 5 else (
                [i % len(PARTS) for i in range(m, m + k - 1)] for m in range(len(PARTS))):
            for last in ("Foo", "X", "Foo2"):
                yield ".".join([PARTS[i] for i in ps] + [last])
    for k in (10, 100, 1000):
        yield "N" * k
        yield "N." * k + "N"
    # components named like things of the library
    yield from ("React", "React.Fragment", "Object", "String", "JSXTag", "Script", "Div", "HTML", "None",
                "True", "Array.A", "React.createElement.X", "Tag", "Foo.Foo", "Foo.Foo.Foo")


def run_good_name(name, ctx):
    """The name appears as it is given, also nested and next to one sharing its parts."""
    other = ".".join(reversed(name.split(".")[-2:] + name.split(".")[:-2])) if "." in name else name + "z"
    if other.split(".")[-1][:1] != other.split(".")[-1][:1].upper():
        other = name + "z"
    kid = ("C", name, (("a", 1),), ())
    for spec in (("C", name, (), ()), ("C", name, (("p", ("node", kid)),), (
            ("C", other, (), (kid,)), kid, ("E", "div", True, (), (kid, ("D", ("d", "1"))))))):
        env = Env()
        verify(mk(spec, env), spec, ctx, held=env.held)
    make = jsx_tag_create(name)
    verify(make(kid and "x", p=1), ("C", name, (("p", 1),), (("T", "x"),)), ctx)
    ctx.state(name)


def spaces(tier):
    q = tier == "quick"
    W3 = ("direct", "list", "dict")
    full, mid, small = (Shapes(LEAF, W3), Shapes(SMALL, W3, exp=("one", "list")),
                        Shapes(SMALL, ("direct",), scalars=False, exp=("h",)))
    out = []
    for n in (1, 2, 3, 4) + (() if q else (5,)):
        out.append(Space(f"trees-{n}", f"all components with {n} nodes, 5 leaf kinds, 3 prop wrappers, "
                         "4 expansions", tree_cases(n, full), run_tree_js if n < 4 else run_tree,
                         setup=node_up, teardown=node_down, block=64))
    for n in (5,) + (() if q else (6,)):
        out.append(Space(f"trees-mid-{n}", f"{n} nodes, 2 leaf kinds, 3 wrappers, fresh expansions",
                         tree_cases(n, mid), run_tree, block=64))
    for n in (6,):
        out.append(Space(f"trees-small-{n}", f"{n} nodes, 2 leaf kinds, held expansions",
                         tree_cases(n, small), run_tree, block=64))
    return out + [
        Space("values", "prop values of depth 1, width 2", value_cases(1, 2), run_tree_js, block=64,
              setup=node_up, teardown=node_down),
        Space("values-2", "prop values of depth 2, width 2" if q else "depth 3, width 2",
              value_cases(2 if q else 3, 2), run_tree_js, block=64, setup=node_up, teardown=node_down),
        Space("values-deep", "nesting up to 40", deep_values, run_tree),
        Space("values-odd", "infinite numbers, subclasses, joined jsx()", odd_cases, run_odd, block=1),
        Space("names", "all prop names up to length 4 (thorough 5) over 5 characters, and a list",
              name_cases(4 if q else 5), run_name, block=32),
        Space("chars", "every Unicode scalar value", lambda: chunks(4096), run_chars, block=1,
              timeout=120),
        Space("strings", f"strings of up to {2 if q else 3} tokens", str_cases(2 if q else 3),
              run_str_js, block=32, setup=node_up, teardown=node_down),
        Space("style", "style texts of up to 3 declarations", style_cases(3 if q else 4), run_style,
              block=32),
        Space("style-values", "other style values", style_value_cases, run_tree, block=2),
        Space("allow", "all subsets of 6 names x all argument lists up to 3", allow_cases, run_allow,
              block=1, timeout=60),
        Space("histories", f"all sequences of up to {3 if q else 4} of 16 operations",
              hist_cases(3 if q else 4), run_hist, block=64),
        Space("sharing", f"1-2 objects in {2 if q else 3} places", share_cases(2 if q else 3), run_share,
              block=16),
        Space("embedded", "components in documents, tags and lists", embed_cases(3 if q else 4),
              run_embed, block=64),
        Space("catalogue", "every HTML and SVG function", cat_cases, run_cat),
        Space("ladder", "sizes up to 1025, depths up to 50",
              ladder_cases(SIZES[:40] if q else SIZES), run_ladder, block=1, timeout=120),
        Space("deep-wide", "many children, props, items, style declarations or attributes far down",
              deepwide_cases(range(1, 25) if q else range(1, 41),
                             (2, 9, 11, 17, 21, 33, 65, 101) if q else range(1, 131)), run_deepwide,
              block=8, timeout=120),
        Space("among", f"one of {len(AMONG)} values or {len(AMONG_KIDS)} children first, in the middle or "
              f"last among many, in {len(AMONG_WHERE)} places",
              among_cases((2, 3, 5, 8, 11, 17) if q else tuple(range(2, 20)) + (33, 65)), run_among,
              block=64),
        Space("deps", f"{len(DNAMES)} dependency names (react among them) x fields x {len(DPLACES)} "
              "places, and pairs", lambda: dep_cases(q), run_deps, block=32),
        Space("good-names", f"component names of up to {7 if q else 9} parts, long ones, well-known ones",
              lambda: name_parts(7 if q else 9), run_good_name, block=16),
        Space("bad-names", "component names", lambda: iter(("foo", "foo.bar", "Foo.bar", "a.b.c")),
              run_bad_name, block=1),
    ]
