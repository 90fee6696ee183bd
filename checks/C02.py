"""C02: plain-text children are inert data.

A plain string (or number) is put in every child position, by every way of adding a child; the
whole output must be the markup of the model tree with exactly that text escaped character by
character (each & < > as some character reference that decodes to it, all else unchanged; layout
whitespace between nodes is left to C05/C06)."""
import enum
import html
import itertools
import sys

import htmltools
from htmltools import HTML, HTMLDocument, Tag, TagList, head_content, html_escape, tags
from mc import model as M
from mc import mutate
from mc import real, receivers
from mc.common import BIG_SIZES, E, NASTY, SIZES, T, chunks, nest, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = ("strings contain Unicode scalar values only (no lone surrogates)",
               "text of str subclasses is their string content")


class Str(str):
    pass


class NoisyInt(int):
    def __str__(self):
        return "<i>&"


class NoisyFloat(float):
    def __str__(self):
        return "<f>&"


class Color(enum.IntEnum):
    RED = 1


NUMBERS = (0, 1, -1, 10**30, True, False, 0.0, -0.0, 1.5, 1e100, 1e-7, float("inf"),
           float("-inf"), float("nan"), NoisyInt(3), NoisyFloat(2.5), Color.RED)


def good(out, kids, what, ind=0, eol="\n"):
    if not M.same_markup(out, kids, ind, eol):
        raise Violation(f"{what}:\n  got  {out[:700]!r}\n"
                        f"  want {''.join(t for t, _ in M.atoms(kids))[:700]!r} (up to layout)")


def ways(s, t):
    """(what, html thunk, model kids) for a child `s` whose text is `t`."""
    c = T(t)
    b = ("E", "b", False, (), ())

    def tag(f, *a, ws=True):
        x = Tag("div", *a, _add_ws=ws)
        f(x)
        return x.get_html_string()

    def viahook(x):
        old = sys.displayhook
        sys.displayhook = lambda v: None
        try:
            with x:
                sys.displayhook(s)
                sys.displayhook(s)
        finally:
            sys.displayhook = old
        return x.get_html_string()

    def doc(d):
        return d.render()["html"]

    head = lambda *k: "<!DOCTYPE html>\n"  # noqa
    D = lambda *k: (E("div", *k),)  # noqa
    S = lambda *k: (E("span", *k),)  # noqa
    m = real.Meta()
    yield "Tag(s)", lambda: Tag("div", s).get_html_string(), D(c)
    yield "inline Tag(s)", lambda: Tag("span", s, _add_ws=False).get_html_string(), S(c)
    yield "TagList(s)", lambda: TagList(s).get_html_string(), (c,)
    yield "TagList(s,s)", lambda: str(TagList(s, s)), (c, c)
    yield "TagList(s, div, s)", lambda: str(TagList(s, Tag("div"), s)), (c, E("div"), c)
    yield "first of two", lambda: Tag("div", s, "x").get_html_string(), D(c, T("x"))
    yield "second of two", lambda: Tag("div", "x", s).get_html_string(), D(T("x"), c)
    yield "inline, first", lambda: str(Tag("span", s, Tag("b", _add_ws=False), _add_ws=False)), \
        S(c, b)
    yield "inline, last", lambda: str(Tag("span", Tag("b", _add_ws=False), s, _add_ws=False)), \
        S(b, c)
    yield "after block", lambda: str(Tag("div", Tag("p"), s)), D(E("p"), c)
    yield "before block", lambda: str(Tag("div", s, Tag("p"))), D(c, E("p"))
    yield "after HTML", lambda: str(Tag("div", HTML("&"), s)), D(("H", "&"), c)
    yield "before HTML", lambda: str(Tag("div", s, HTML("&"))), D(c, ("H", "&"))
    yield "after repr", lambda: str(Tag("div", real.ReprObj("<r>"), s)), D(("R", "<r>"), c)
    yield "metadata first", lambda: Tag("div", m, s).get_html_string(), D(c)
    yield "metadata last", lambda: Tag("div", s, m).get_html_string(), D(c)
    yield "metadata between", lambda: Tag("div", s, m, s).get_html_string(), D(c, c)
    yield "list", lambda: str(Tag("div", [s])), D(c)
    yield "nested lists", lambda: str(Tag("div", [[s, None], (s, TagList(s))], None)), D(c, c, c)
    yield "append", lambda: tag(lambda x: x.append(s)), D(c)
    yield "append two", lambda: tag(lambda x: x.append(s, s), ws=False), \
        (E("div", c, c, ws=False),)
    yield "extend", lambda: tag(lambda x: x.extend([s, s])), D(c, c)
    yield "insert", lambda: tag(lambda x: x.insert(0, s), "x"), D(c, T("x"))
    yield "insert list", lambda: tag(lambda x: x.insert(1, [s, [s]]), "x", "y"), \
        D(T("x"), c, c, T("y"))
    yield "children.append", lambda: tag(lambda x: x.children.append(s)), D(c)
    yield "children +", lambda: str(Tag("div", TagList("x") + [s])), D(T("x"), c)
    yield "+ children", lambda: str(Tag("div", [s] + TagList("x"))), D(c, T("x"))
    yield "in script", lambda: str(Tag("script", Tag("div", s))), (E("script", D(c)[0]),)
    yield "after script", lambda: str(Tag("div", Tag("script", "<&"), s)), \
        D(E("script", T("<&")), c)
    yield "after style", lambda: str(TagList(Tag("style", "<&", "<"), s)), \
        (E("style", T("<&"), T("<")), c)
    yield "void with child", lambda: str(Tag("br", s, _add_ws=False)), (E("br", c),)
    yield "deep", lambda: str(Tag("div", Tag("p", Tag("ul", Tag("li", s, Tag("i", s)))))), \
        D(E("p", E("ul", E("li", c, E("i", c, ws=True)))))
    yield "indented", lambda: Tag("div", s, Tag("p", s)).get_html_string(3, "\r\n"), \
        D(c, E("p", c))
    yield "expansion to str", lambda: str(Tag("div", real.Expand(lambda: s))), D(T(t)) \
        if isinstance(s, str) else D(T(t))
    yield "expansion to list", \
        lambda: str(Tag("div", "x", real.Expand(lambda: TagList(s, Tag("b", s))))), \
        D(T("x"), c, E("b", c, ws=True))
    yield "expansion to tag", lambda: str(TagList(real.Expand(lambda: Tag("p", s, s)), s)), \
        (E("p", c, c), c)
    yield "displayed", lambda: viahook(Tag("div")), D(c, c)
    yield "html attrs", lambda: str(Tag("div", s, {"class": "k"}, id="i")), \
        (E("div", c, attrs=(("class", "k"), ("id", "i"))),)
    yield "document", lambda: doc(HTMLDocument(s, Tag("p", s))).split("<body>")[1] \
        .split("</body>")[0], (c, E("p", c))
    yield "document append", lambda: (lambda d: (d.append(s), doc(d))[1])(HTMLDocument("x")) \
        .split("<body>")[1].split("</body>")[0], (T("x"), c)
    yield "document html/body", lambda: doc(HTMLDocument(Tag("html", Tag("body", Tag("p", s, s))))) \
        .split("<body>")[1].split("</body>")[0], (E("p", c, c),)
    yield "head_content", lambda: head_content(Tag("title", s)).as_html_tags()[0] \
        .get_html_string(), (E("title", c),)
    for ind, eol in ((1, "\r\n"), (2, ""), (0, "\n\n"), (0, "\t")):
        yield (ind, eol), lambda: TagList(
            Tag("div", s, "x", Tag("p", s)), s, Tag("b", s, s, _add_ws=False)
        ).get_html_string(ind, eol), (E("div", c, T("x"), E("p", c)), c, E("b", c, c))
    yield "copy", lambda: str(Tag("div", s, s).tagify()), D(c, c)


def run_ways(case, ctx):
    s = case
    ctx.state(s)
    for v in (s, Str(s)):
        for what, f, kids in ways(v, s):
            good(f(), kids, what, *((3, "\r\n") if what == "indented" else
                                    what if isinstance(what, tuple) else ()))
            ctx.step()
    if html.unescape(html_escape(s)) != html.unescape(M.esc(s)):
        raise Violation(f"html_escape({s!r}) = {html_escape(s)!r}")
    if not M.is_escaped(html_escape(s), s):
        raise Violation(f"html_escape({s!r}) = {html_escape(s)!r}")
    ctx.outcome(html_escape(s))
    ctx.trace()


def run_number(i, ctx):
    n = NUMBERS[i]
    ctx.state(i)
    for what, f, kids in ways(n, str(n)):
        if what == "expansion to str":
            continue  # tagify() may not return a number
        good(f(), kids, f"{what} of number {n!r}", *((3, "\r\n") if what == "indented" else
                                    what if isinstance(what, tuple) else ()))
        ctx.step()
    ctx.trace()


FAST = ("Tag(s)", "TagList(s,s)", "second of two", "inline, first", "after block", "after HTML",
        "in script", "metadata first", "indented")


def run_short(s, ctx):
    ctx.state(s)
    if not M.is_escaped(html_escape(s), s):
        raise Violation(f"html_escape({s!r}) = {html_escape(s)!r}")
    x = T(s)
    b = Tag("b", s, _add_ws=False)
    kids = (E("div", x), x, E("b", x), x, E("div", E("p", x, E("b", x)), x))
    tl = TagList(Tag("div", s), s, b, s, Tag("div", Tag("p", s, b), s))
    good(str(tl), kids, "text in five positions")
    ctx.step(2)
    ctx.trace()


def run_chars(r, ctx):
    for ch in scalars(*r):
        e = M.esc(ch)
        for s, w in ((ch, e), ("a" + ch + "<", "a" + e + "&lt;")):
            o = html_escape(s)
            if o != w and not M.is_escaped(o, s):
                raise Violation(f"html_escape({s!r}) = {o!r}")
            o = Tag("p", s).get_html_string()
            if o != f"<p>{w}</p>":
                good(o, (E("p", T(s)),), f"only child {s!r}")
            o = Tag("b", s, HTML("&"), s, _add_ws=False).get_html_string()
            if o != f"<b>{w}&{w}</b>":
                good(o, (E("b", T(s), ("H", "&"), T(s)),), f"children {s!r}")
    ctx.fresh_states(r[1] - r[0])
    ctx.step(6 * (r[1] - r[0]))
    ctx.trace(r[1] - r[0])


def ladder_cases(big):
    for n in SIZES + BIG_SIZES:
        for kind in ("rep&", "rep<", "rep>", "rep&lt;", "rep<>&", "first", "last", "middle",
                     "plain", "ends", "second"):
            yield (kind, n)
        if n <= 1025:
            yield ("sibs", n)
        if n <= 150:
            yield ("deep", n)


def run_ladder(case, ctx):
    kind, n = case
    ctx.state(case)
    if kind == "sibs":
        ss = [("<&>" if i % 3 == 0 else f"a{i}&") for i in range(n)]
        good(str(Tag("div", *ss)), (E("div", *map(T, ss)),), "many text siblings")
        good(str(Tag("div", *[Tag("p", s, s) for s in ss])),
             (E("div", *[E("p", T(s), T(s)) for s in ss]),), "many siblings")
        ctx.step(2)
        ctx.trace()
        return
    if kind == "deep":
        s = "<&>"
        k = nest([("div", True)] * n, (T(s), T("x"), T(s)))
        good(str(real.build(k[0])), k, "deep text")
        k = nest([("b", False)] * n, (T(s), T("x"), T(s)))
        good(str(real.build(k[0])), k, "deep inline text")
        ctx.step(2)
        ctx.trace()
        return
    if kind.startswith("rep"):
        r = kind[3:]
        s = r * n if n < 5000 else (r * n)[:n]
    elif kind == "first":
        s = "<" + "x" * (n - 1)
    elif kind == "last":
        s = "x" * (n - 1) + "&"
    elif kind == "second":
        s = "x&" + "y" * n
    elif kind == "middle":
        s = "x" * (n // 2) + ">" + "y" * (n - n // 2)
    elif kind == "plain":
        s = "x" * n
    else:
        s = "&" + "x" * n + "<"
    run_short(s, ctx)


def hist_cases(n):
    """Histories of renderings of the same content as plain text, HTML() and attribute value."""
    i = 0
    for s in ("&", "<b>", "a&lt;", ">", "x", "a & \"b\" 'c' <d>\n", '"', "<" + "y" * 300 + '"'):
        for ops in itertools.product("phaHreA", repeat=n):
            i += 1
            yield (f"{s}{i}", "".join(ops))  # each history has a string of its own


def run_hist(case, ctx):
    s, ops = case
    ctx.state(case)
    for i, op in enumerate(ops):
        if op == "p":
            good(str(Tag("p", s)), (E("p", T(s)),), f"step {i}: plain child")
            good(str(Tag("p", s, "z")), (E("p", T(s), T("z")),), f"step {i}: plain child")
        elif op == "h":
            good(str(Tag("p", HTML(s))), (E("p", ("H", s)),), f"step {i}: HTML child")
        elif op == "a":
            str(Tag("p", HTML(s), title=s))
        elif op == "A":
            str(Tag("p", {"class": HTML("&")}, Tag("script", s), title=s, class_=s))
        elif op == "H":
            str(Tag("p", title=HTML(s)))
            _ = HTML(s) + s
        elif op == "r":
            good(str(TagList(real.ReprObj(s), s)), (("R", s), T(s)), f"step {i}: plain child")
        elif op == "e":
            if not M.is_escaped(html_escape(s), s):
                raise Violation(f"step {i}: html_escape({s!r}) = {html_escape(s)!r}")
            html_escape(s, True)
    ctx.step(len(ops))
    ctx.trace()


RECEIVED = tuple(map(T, ("<b>", "&", "#60;", "&#60;", "", " ", ";", "a>", "</p>", "-->", "\n", "lt;", "x",
                          "<!--", "\"'")))


def name_cases():
    for n in M.HTML_NAMES + ("command", "x-y", "textPath", "foreignObject", "scripts", "styled",
                             "g", "text", "tspan", "svg", "desc", "title", "script-x", "style-x", "x-script",
                             "x-style", "stylesheet", "styl", "scrip", "svg:style", "svg:script",
                             "script:x", "style.x", "noscript", "raw", "html-raw", "cdata", "xmp", "pre-x",
                             "textarea-x", "markdown", "template", "plaintext", "listing", "math",
                             "annotation-xml", "Div", "P"):
        if n not in M.NO_ESCAPE:
            yield n


def run_name(n, ctx):
    """Every ordinary element name, both whitespace flags."""
    ctx.state(n)
    s = "a<b>&c"
    for ws in (True, False):
        for kids in ((T(s),), (T(s), T(s)), (E("b"), T(s)), (T(s), E("p"), T(s)),
                     (("M", 1), T(s)), (E("script", T("<")), T(s))):
            x = (E(n, *kids, ws=ws),)
            good(str(TagList(*real.kids(x))), x, n)
            x = (E("div", x[0], T(s)), E("script", x[0]), E("span", x[0], T(s)))
            good(str(TagList(*real.kids(x))), x, n)
            ctx.step(2)
    for mod in (htmltools.tags, htmltools.svg):
        fn = getattr(mod, n, None)
        if fn is None or mod is htmltools.svg and n in ("title", "a"):
            continue
        x = fn(s)
        good(str(x), (E(n, T(s), ws=x.add_ws),), f"{n}()")
        x = fn(s, tags.b(s))
        good(str(x), (E(n, T(s), E("b", T(s)), ws=x.add_ws),), f"{n}()")
        ctx.step(2)
    ctx.trace()


def tree_cases(n):
    return lambda: M.Forests(
        (T("<\n&"), ("H", "<&"), ("M", 0), ("N", 1)),
        (M.elem("div", True), M.elem("b", False), M.elem("script", True))).upto(n)


def run_tree(kids, ctx):
    if not any(x == T("<\n&") for x in M.walk(kids)):
        return
    ctx.state(kids)
    tl = TagList(*real.kids(kids))
    out = tl.get_html_string()
    good(out, kids, "tree")
    good(tl.get_html_string(1, "\r\n"), kids, "tree, other layout", 1, "\r\n")
    ctx.step(2)
    ctx.outcome(out)
    ctx.trace()


ALPHA = ("<", ">", "&", ";", "a", "#", '"', "'", "\n", " ", "/")


MUT = [o for o in mutate.all_ops() if o[1][1:2] not in (("d",), ("d2",))]


def run_mut(case, ctx):
    def look(root, kids, what, ctx):
        good(str(root), kids, what)
        good(root.get_html_string(1, "\r\n"), kids, what + ", indented", 1, "\r\n")
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    k = 4 if q else 5
    return [
        Space("mutations", f"all histories of 2 operations"
              f"{'' if q else ' and of 3 over a reduced set'} on {mutate.NSTARTS} documents, rendered "
              "after each", lambda: itertools.chain(
                  mutate.cases(2, MUT), () if q else mutate.cases(3, mutate.few_ops())), run_mut,
              block=64),
        Space("ways", f"{len(NASTY)} strings x every way/position of adding a child",
              lambda: iter(NASTY), run_ways, block=1),
        Space("short-ways", "all strings up to 2 over 11 metacharacters x every way/position",
              lambda: M.words(ALPHA, 2), run_ways, block=1),
        Space("receivers", f"{len(RECEIVED)} strings x every way of adding a child x all lists of up "
              f"to 3 siblings of {len(receivers.KINDS)} kinds" + (" (3: 3 of them)" if q else ""),
              lambda: receivers.cases(RECEIVED, q), receivers.run, block=8),
        Space("numbers", "number types x every way/position",
              lambda: iter(range(len(NUMBERS))), run_number, block=1),
        Space("names", "every ordinary element name x flag x 18 contexts", name_cases, run_name,
              block=2),
        Space("history", "all histories up to 4 of plain/HTML/attr/repr/escape renderings",
              lambda: hist_cases(4), run_hist, block=64),
        Space("ladders", "length, repetition, position, sibling and depth ladders",
              lambda: ladder_cases(not q), run_ladder, block=2),
        Space("short", f"all strings up to {k} over 11 metacharacters in five positions",
              lambda: M.words(ALPHA, k), run_short, block=64),
        Space("chars", "every Unicode scalar value, alone and before '<', 3 paths",
              lambda: chunks(256), run_chars, block=8),
        Space("trees", f"all forests up to {5 if q else 6} nodes with plain text, HTML(), numbers,"
              " metadata, script", tree_cases(5 if q else 6), run_tree, block=128),
    ]
