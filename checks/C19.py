"""C19: every tag function creates its own element with the documented default.

The catalogue (113 HTML functions, 66 SVG functions, 17 shortcuts) and the inline/block
classification are frozen in the model.  For every function the complete grid of argument lists
within the bound is executed and the result compared with what the model says (name, whitespace
flag) and with what the Tag constructor makes of the same arguments; every ordered pair of
functions is executed to expose shared state."""
import copy
import inspect
import itertools

import htmltools
from htmltools import HTML, HTMLDependency, Tag, TagList, svg, tags
from mc import model as M
from mc import real
from mc.common import SIZES
from mc.engine import Space, Violation

ASSUMPTIONS = ("the project's classification is the set _INLINE_TAG_NAMES of "
               "scripts/generate_tags.py as of the pinned commit, frozen in mc/model.py; it also "
               "applies to SVG functions",)

ALL = tuple(("tags", n) for n in M.TAGS_CATALOGUE) + tuple(("svg", n) for n in M.SVG_CATALOGUE) + \
    tuple(("top", n) for n in M.SHORTCUTS)
MODS = {"tags": tags, "svg": svg, "top": htmltools}


def fn(f):
    r = getattr(MODS[f[0]], f[1], None)
    if r is None:
        raise Violation(f"there is no function {f}")
    return r


def default_ws(name):
    return name not in M.INLINE


class Key(dict):
    pass


KID = Tag("k", "z")
DEP = HTMLDependency("d", "1")
POS = ("x & y", {"id": "i"}, Tag("b", "t"), None, ["l", [1, Tag("i")]], HTML("<h>"), DEP, 5,
       {"id": "j", "class_": "c", "n": None}, TagList("q", Tag("u")), (), Key(a_b=True))
KW = ({}, {"id": "k"}, {"class_": "c d", "data_x": 1}, {"for_": True, "id": False},
      {"style": HTML("a&b")}, {"name": "n", "type": "t", "args": "a", "children": "c",
                               "attrs": "b", "kwargs": "k", "add_ws": "w", "tag": "t"})
WS = ((), (True,), (False,))


def outcome(f):
    try:
        return f()
    except (TypeError, ValueError, KeyError, AttributeError) as e:
        return type(e)


def compare(f, t, name, ws, want, what):
    if type(t) is not Tag:
        raise Violation(f"{what} returned {t!r} of type {type(t).__name__}")
    if t.name != name or type(t.name) is not str:
        raise Violation(f"{what} made <{t.name}>, not <{name}>")
    if t.add_ws is not ws:
        raise Violation(f"{what} has add_ws={t.add_ws!r}, want {ws!r}")
    if list(t.attrs.items()) != list(want.attrs.items()) or any(
            type(a) is not type(b) for a, b in zip(t.attrs.values(), want.attrs.values())):
        raise Violation(f"{what} has attributes {dict(t.attrs)!r}, want {dict(want.attrs)!r}")
    if len(t.children) != len(want.children) or any(
            a is not b and (type(a) is not str or a != b)
            for a, b in zip(t.children, want.children)):
        raise Violation(f"{what} has children {list(t.children)!r}, want {list(want.children)!r}")
    if t != want or str(t) != str(want):
        raise Violation(f"{what} renders {str(t)!r}, want {str(want)!r}")


def call(f, pos, kw, ws, ctx):
    g, name = fn(f), f[1]
    extra = {"_add_ws": ws[0]} if ws else {}
    w = ws[0] if ws else default_ws(name)
    what = f"{f[0]}.{name}(*{pos!r}, **{dict(kw, **extra)!r})"
    want = Tag(name, *pos, _add_ws=w, **kw)
    compare(f, g(*pos, **kw, **extra), name, w, want, what)
    ctx.step()
    ctx.outcome(str(want))


def args_cases(n, lo=0):
    for f in ALL:
        for first in range(len(POS) if lo > 1 else 1):
            yield (f, n, lo, first)


def run_args(case, ctx):
    f, n, lo, first = case
    for k in range(lo, n + 1):
        for pos in itertools.product(range(len(POS)), repeat=k):
            if lo > 1 and pos[0] != first:
                continue
            p = [POS[i] for i in pos]
            for j, kw in enumerate(KW if lo < 3 else KW[:3]):
                for ws in WS if lo < 3 else WS[:2]:
                    call(f, p, kw, ws, ctx)
            ctx.fresh_states()
            ctx.trace()


BADWS = (0, 1, None, "True", "", "auto", [], (), {}, 1.0, object(), HTML(""), b"", Tag("i"), "block",
         "inline", {True})


def run_flag(f, ctx):
    g, name = fn(f), f[1]
    for v in BADWS:
        for pos in ((), ("x",), (Tag("i"), {"a": "b"})):
            for kw in ({}, {"id": "i"}):
                try:
                    r = g(*pos, _add_ws=v, **kw)
                except Exception:
                    ctx.step()
                    continue
                raise Violation(f"{f[0]}.{name}(_add_ws={v!r}) accepted: {r!r}")
    bad = [set(), object(), b"x", 1j]
    for b in bad:
        for mk in (lambda h: h(b), lambda h: h("a", b), lambda h: h(x=b), lambda h: h({"x": b}),
                   lambda h: h([[b]])):
            o = outcome(lambda: mk(g))
            w = outcome(lambda: mk(lambda *a, **k: Tag(name, *a, **k)))
            if isinstance(o, Tag) or isinstance(w, Tag) or o is not w:
                raise Violation(f"{f[0]}.{name} with bad argument {b!r}: {o!r}, Tag: {w!r}")
            ctx.step()
    ctx.state(f)
    ctx.trace()


def run_basic(f, ctx):
    """Defaults; fresh objects; argument objects unchanged; keyword and positional spellings."""
    g, name = fn(f), f[1]
    w = default_ws(name)
    t, u = g(), g()
    compare(f, t, name, w, Tag(name, _add_ws=w), f"{f}()")
    if t is u or t.attrs is u.attrs or t.children is u.children:
        raise Violation(f"{f}: two calls share objects")
    t.add_class("x").append("y", Tag("b"))
    t.attrs["id"] = "1"
    t.name += "-"
    t.add_ws = not w
    compare(f, g(), name, w, Tag(name, _add_ws=w), f"{f}() after another tag was changed")
    d = {"id": "i", "class_": "c"}
    lst = ["a", Tag("b"), None]
    keep = (dict(d), list(lst))
    t = g(d, lst, *lst, **d)
    compare(f, t, name, w, Tag(name, d, lst, *lst, _add_ws=w, **d), f"{f}({d}, {lst})")
    if (d, lst) != keep:
        raise Violation(f"{f}: arguments were changed")
    t.attrs["id"] = "2"
    t.append("z")
    if (d, lst) != keep:
        raise Violation(f"{f}: the tag shares its arguments' containers")
    if f[0] == "top" and fn(("tags", name)) is not g:
        v = fn(("tags", name))(d, lst, q="x")
        compare(f, g(d, lst, q="x"), name, w, v, f"{f} against tags.{name}")
    for ind, eol in ((0, "\n"), (2, "\r\n"), (1, "")):
        for kids in ((), ("t",), (Tag("div"),), (Tag("i", _add_ws=False), "t")):
            a, b = g(*kids), Tag(name, *kids, _add_ws=w)
            if a.get_html_string(ind, eol) != b.get_html_string(ind, eol):
                raise Violation(f"{f}: {a.get_html_string(ind, eol)!r}")
            ctx.step()
    ctx.state(f)
    ctx.trace()


def run_size(case, ctx):
    f, n = case
    pos = [x for i in range(n) for x in (str(i), {f"p{i % 7}": i})]
    kw = {f"k_{i}": i for i in range(n)}
    call(f, pos, kw, (), ctx)
    call(f, ["t" * n, {"a" * n: "v" * n}], {"b" * n: "w"}, (False,), ctx)
    ctx.state(case)
    ctx.trace()


# Every attribute of HTML, and the common ones of SVG and ARIA, in Python spelling.
VOCABULARY = tuple("""
abbr accept accept_charset accesskey action align allow allowfullscreen alpha alt archive as_ async_
autocapitalize autocomplete autocorrect autofocus autoplay axis background bgcolor blocking border
bordercolor capture cellpadding cellspacing char charoff charset checked cite class_ classid clear
code codebase codetype color cols colspan compact content contenteditable controls coords
crossorigin data datetime declare decoding default defer dir dirname disabled download draggable
enctype enterkeyhint face fetchpriority for_ form formaction formenctype formmethod formnovalidate
formtarget frame frameborder headers height hidden high href hreflang hspace http_equiv id imagesizes
imagesrcset inert inputmode integrity is_ ismap itemid itemprop itemref itemscope itemtype kind label
lang language link list_ loading longdesc loop low marginheight marginwidth max_ maxlength media
method min_ minlength multiple muted name nohref nomodule nonce noresize noshade novalidate nowrap
object open_ optimum part pattern ping placeholder playsinline popover popovertarget poster prefetch
preload profile prompt property readonly referrerpolicy rel required rev reversed_ role rows rowspan
rules sandbox scheme scope scrolling selected shadowrootmode shape size sizes slot span spellcheck
src srcdoc srclang srcset standby start step style summary tabindex target text title translate type
type_ typemust_match usemap valign value valuetype version vlink vspace width wrap writingsuggestions
onclick onload onchange oninput aria_label aria_hidden data_x data_toggle data_
viewBox preserveAspectRatio x y x1 x2 y1 y2 cx cy r rx ry d points transform fill fill_rule
fill_opacity stroke stroke_width stroke_linecap opacity xmlns xlink_href font_family font_size
text_anchor offset stop_color gradientUnits in_ in2 stdDeviation values mode operator dx dy
args kwargs children attrs _name tag_ _ self cls indent eol add_ws
""".split())
VALUES = ("v", "", True, False, None, 0, 1, -2, 1.5, HTML("<h>"), "a b", "true", "false", "none")


def run_words(f, ctx):
    """Every attribute name with values of every type reaches the tag, under every function."""
    g, name = fn(f), f[1]
    w = default_ws(name)
    for i, a in enumerate(VOCABULARY):
        for v in VALUES:
            for pos, kw in (((), {a: v}), (({a: v},), {"k": "v"}), (("c", {"k": "v"}), {a: v})):
                if a == "_name" and kw.get(a, pos) is not pos:
                    continue  # the constructor's own parameter
                if a == "self" and a in kw:
                    continue
                t, want = g(*pos, **kw), Tag(name, *pos, _add_ws=w, **kw)
                if list(t.attrs.items()) != list(want.attrs.items()) or \
                        list(t.children) != list(want.children) or t.add_ws is not w:
                    raise Violation(f"{f}(*{pos!r}, **{kw!r}) is {t!r}, want {want!r}")
        b = VOCABULARY[i - 1]
        kw = {"data_a": 1, b: "p"} if b not in ("_name", "self") else {}
        pos = ({a: "x", b: HTML("y")}, "c", {b: True})
        compare(f, g(*pos, **kw), name, w, Tag(name, *pos, _add_ws=w, **kw), f"{f}({pos}, {kw})")
        ctx.step(3 * len(VALUES) + 1)
        ctx.fresh_states()
    # ... and values spelled like something special, for all at once
    kw = {a: "x" for a in VOCABULARY if a not in ("_name", "self")}
    compare(f, g(**kw), name, w, Tag(name, _add_ws=w, **kw), f"{f}(all attributes)")
    ctx.trace()


TEXTS = ("", " ", "\n", "x", "<", "&amp;", "None", "true", "#", "http://x/?a&b", "a.js", "text/css",
         "javascript:x", "utf-8", "_blank", "en", "checkbox", "hidden", "submit", "0", "\u00e9")


def run_texts(f, ctx):
    """Texts of all kinds as child and as the value of the attributes that go by them."""
    g, name = fn(f), f[1]
    w = default_ws(name)
    for s in TEXTS:
        for pos, kw in (((s,), {}), ((s, s), {}), ((HTML(s),), {}), (([s],), {}), ((None, s), {}),
                        ((s, Tag("b"), s), {}), ((real.Meta(1), s), {}), ((s, DEP), {}),
                        ((), {"href": s}), ((), {"src": s}), ((), {"type": s}), ((), {"rel": s}),
                        ((), {"target": s, "href": s}), ((), {"lang": s}), ((), {"charset": s}),
                        ((), {"id": s, "name": s}), ((), {"class_": s, "style": s}),
                        ((s,), {"title": s, "value": s}), ((s,), {"data_x": s, "for_": s}),
                        (({"href": s}, s, {"href": s}), {"href": s})):
            compare(f, g(*pos, **kw), name, w, Tag(name, *pos, _add_ws=w, **kw),
                    f"{f}(*{pos!r}, **{kw!r})")
            ctx.step()
    ctx.state((f, "texts"))
    ctx.trace()


def run_pair(f, ctx):
    """f(g()), g after f, for every g."""
    a, na = fn(f), f[1]
    wa = default_ws(na)
    for h in ALL:
        b, nb = fn(h), h[1]
        wb = default_ws(nb)
        t = a("t", b("u", id="2"), id="1")
        want = Tag(na, "t", Tag(nb, "u", id="2", _add_ws=wb), id="1", _add_ws=wa)
        if t.name != na or t.children[1].name != nb or t != want or str(t) != str(want):
            raise Violation(f"{f}({h}()) is {str(t)!r}, want {str(want)!r}")
        r, s, r2 = a(), b(), a()
        if (r.name, r.add_ws, s.name, s.add_ws, r2.name, r2.add_ws) != (na, wa, nb, wb, na, wa):
            raise Violation(f"{f}, {h}, {f}: {r!r} {s!r} {r2!r}")
        ctx.step(4)
        ctx.fresh_states()
    ctx.trace()


def run_catalogue(_, ctx):
    """Nothing is missing; whatever else is exported makes its own element, too."""
    for f in ALL:
        fn(f)
    for m in ("tags", "svg"):
        for k, v in vars(MODS[m]).items():
            if inspect.isfunction(v) and not k.startswith("_") and (m, k) not in ALL and (
                    v.__module__ == MODS[m].__name__):
                t = v()
                if isinstance(t, Tag) and t.name not in (k, k.rstrip("_"), k.replace("_", "-")):
                    raise Violation(f"{m}.{k} makes <{t.name}>")
            ctx.step()
    ctx.state(0)
    ctx.trace()


def spaces(tier):
    q = tier == "quick"
    it = lambda xs: (lambda: iter(xs))
    return [
        Space("catalogue", "all exported functions", it([0]), run_catalogue, block=1),
        Space("basic", "every function: default, freshness, rendering", it(ALL), run_basic, block=1),
        Space("flag", f"every function x {len(BADWS)} non-boolean flags and bad arguments", it(ALL),
              run_flag, block=1),
        Space("pairs", "every ordered pair of functions, nested and in sequence", it(ALL), run_pair,
              block=1),
        Space("words", f"every function x {len(VOCABULARY)} attribute names x {len(VALUES)} values, as "
              "keyword and in a dict", it(ALL), run_words, block=1),
        Space("texts", f"every function x {len(TEXTS)} texts x 20 places", it(ALL), run_texts, block=1),
        Space("args", f"every function x all argument lists up to 2 of {len(POS)} shapes x "
              f"{len(KW)} keyword sets x 3 flags", lambda: args_cases(2), run_args, block=1),
        Space("sizes", "every function x argument counts and lengths",
              lambda: ((f, n) for f in ALL for n in (SIZES[::4] if q else SIZES)), run_size,
              block=4),
    ] + ([Space("args-3", "every function x all argument lists of length 3 x 3 keyword sets x 2 "
                "flags", lambda: args_cases(3, 3), run_args, block=1)] if not q else [])
