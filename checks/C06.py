"""C06: block layout follows the documented line and indentation rules.

All trees in which inline tags contain no block tags are rendered with several indent/eol
arguments and compared, byte for byte, with a line-structured reference renderer."""
import itertools

from htmltools import HTMLDocument, Tag, TagList, svg, tags
from mc import model as M
from mc import mutate
from mc import real
from mc.common import BIG_SIZES, E, SIZES, T, nest
from mc.engine import Space, Violation

ASSUMPTIONS = ("get_html_string(add_ws=False) is only checked with indent=0, where the first line "
               "has no indentation either way",)

CONFIG = ((0, "\n"), (1, "\n"), (2, "\r\n"), (3, ""), (5, "|"), (0, "<br>\n"))


def eq(out, want, what):
    if out != want:
        raise Violation(f"{what}:\n  got  {out[:900]!r}\n  want {want[:900]!r}")


def check(kids, ctx, configs=CONFIG):
    objs = real.kids(kids)
    tl = TagList(*objs)
    lines = M.layout_lines(kids, 0)
    single = len(kids) == 1 and kids[0][0] == "E"
    for ind, eol in configs:
        want = eol.join("  " * (d + ind) + t for d, t in lines)
        eq(tl.get_html_string(ind, eol), want, f"TagList.get_html_string({ind}, {eol!r})")
        ctx.step()
        if single:
            eq(objs[0].get_html_string(ind, eol), want, f"Tag.get_html_string({ind}, {eol!r})")
            ctx.step()
    want = "\n".join("  " * d + t for d, t in lines)
    eq(str(tl), want, "str(TagList)")
    eq(tl.render()["html"], want, "TagList.render()")
    if single:
        eq(str(objs[0]), want, "str(Tag)")
        eq(objs[0].render()["html"], want, "Tag.render()")
    ctx.step(2)
    ctx.outcome(want)
    ctx.trace()


def run_tree(kids, ctx):
    if not all(map(M.valid_nesting, kids)):
        return
    ctx.state(kids)
    check(kids, ctx, CONFIG[:3])


def run_full(kids, ctx):
    if not all(map(M.valid_nesting, kids)):
        return
    ctx.state(kids)
    check(kids, ctx)


def cases(n, ls, es):
    return lambda: M.Forests(ls, es).upto(n)


L1 = (T("t"), ("H", "<h>"), ("R", "<r>"), ("M", 0))
E1 = (M.elem("div", True), M.elem("b", False), M.elem("br", False), M.elem("hr", True))
L2 = (T("t"),)
E2 = (M.elem("div", True), M.elem("b", False))
L3 = (T("l1\nl2"), T(""), T(" s "), T("\n"), ("H", "a\n  b\n"), ("R", ""), ("R", "x\ny"),
      ("N", 7))
E3 = (M.elem("div", True), M.elem("b", False))
L4 = (T("<&"), ("H", ""), ("D", ("d", "1.0")), ("M", 1))
E4 = (M.elem("div", True, (("k", "v\n"),)), M.elem("script", True), M.elem("img", True),
      M.elem("pre", False), M.elem("span", True), M.elem("div", False))

NAMES = tuple(dict.fromkeys(M.HTML_NAMES + ("command", "x-y", "svg", "path", "g", "textPath")))


def run_name(n, ctx):
    ctx.state(n)
    t, b, p = T("t"), E("b", T("u")), E("p", T("v"))
    for ws in (False, True):
        x = E(n, ws=ws)
        xt = E(n, T("c"), ws=ws)
        xh = E(n, ("H", "<c>"), ws=ws)
        xr = E(n, ("R", "<c>"), ws=ws)
        x2 = E(n, T("c"), T("d"), ws=ws)
        xi = E(n, b, ws=ws)
        xm = E(n, ("M", 0), ws=ws)
        xtm = E(n, ("M", 0), T("c"), ("D", ("d", "1")), ws=ws)
        xb = E(n, p, T("c"), ws=ws)
        xbb = E(n, p, p, ws=ws)
        for kids in ((x,), (xt,), (xh,), (xr,), (x2,), (xi,), (xm,), (xtm,), (xb,), (xbb,),
                     (t, x, t), (x, x), (xt, xt), (xi, t, xi), (E("div", x),),
                     (E("div", xt, xt),), (E("div", t, xi, t),), (E("div", xb, t, x2),),
                     (E("div", x, p, x),), (p, x, p), (E(n, xi, t, ws=ws),),
                     (E("div", E("div", xbb, xr), xh),), (E("span", x, t),),
                     (E("div", xm, xtm),)):
            if all(map(M.valid_nesting, kids)):
                check(kids, ctx, CONFIG[:3])
    for mod in (tags, svg):
        fn = getattr(mod, n, None)
        if fn is None:
            continue
        kids = (E("div", E("p", T("v")), E(n, E("b", T("u")), T("c"), ws=fn().add_ws), T("t")),)
        o = tags.div(tags.p("v"), fn(tags.b("u"), "c"), "t")
        eq(str(o), M.layout(kids), f"{n}()")
        ctx.step()


def config_cases():
    base = (E("div", T("a"), E("b", T("c")), E("p", E("p"), T("x\ny"), ("R", "r")), E("br"),
              E("hr")), T("t"), E("p", T("u")), ("M", 0), E("i"))
    for ind in tuple(range(0, 34)) + (40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 256, 1000):
        for eol in ("\n", "\r\n", "\r", "", " ", "\t", "|", "<br>", "\n\n", "\u2028", "eol", "  ",
                    "\\n", "%s", "\0"):
            for form in (base, base[:1], base[1:2], base[1:], (E("div"), E("div")),
                         (E("b"), T("x")), ()):
                yield (form, ind, eol)


def run_config(case, ctx):
    kids, ind, eol = case
    ctx.state(case)
    tl = TagList(*real.kids(kids))
    want = M.layout(kids, ind, eol)
    eq(tl.get_html_string(ind, eol), want, f"positional ({ind}, {eol!r})")
    eq(tl.get_html_string(indent=ind, eol=eol), want, "keywords")
    eq(tl.get_html_string(indent=ind), M.layout(kids, ind), "indent only")
    eq(tl.get_html_string(eol=eol), M.layout(kids, 0, eol), "eol only")
    eq(tl.get_html_string(0, eol, add_ws=False), M.layout(kids, 0, eol), "add_ws=False, indent 0")
    eq(tl.get_html_string(ind, eol, add_ws=True), want, "add_ws=True")
    ctx.step(6)
    if len(kids) == 1 and kids[0][0] == "E":
        eq(tl[0].get_html_string(ind, eol), want, "Tag positional")
        eq(tl[0].get_html_string(indent=ind, eol=eol), want, "Tag keywords")
        ctx.step(2)
    ctx.trace()


def ladder_cases():
    for n in BIG_SIZES:
        yield ("textlen", n)
    for n in SIZES:
        for kind in ("textlen", "fan", "run", "mix", "lines", "attrs", "longtext", "toplevel", "meta", "voids"):
            yield (kind, n)
        if n <= 220:
            for kind in ("deep", "deepmix", "deepinl", "comb", "list", "kinds"):
                yield (kind, n)


def ladder(kind, n):
    b, p = E("b", T("x")), E("p", T("y"))
    if kind == "fan":
        return (E("div", *[E("p", T(str(i))) for i in range(n)]),)
    if kind == "run":
        return (E("div", E("p"), *[(T("t"), b, ("R", "r"), ("H", "h"))[i % 4] for i in range(n)],
                  E("p")),)
    if kind == "mix":
        return (E("div", *[(b, p, T("t"), E("hr"), ("M", 0), E("br"), p)[i % 7]
                           for i in range(n)]),)
    if kind == "lines":
        return (E("div", T("l\n" * n), E("p", T("m\n" * n)), T("\nk" * n)),)
    if kind == "attrs":
        return (E("div", p, b, attrs=tuple((f"a{i}", str(i)) for i in range(n))),)
    if kind == "longtext":
        return (E("div", T("w " * n)), E("div", T("w " * n), p), E("div", E("b", T("w" * n)), p),
                T("w" * n), E("w" * n, p, ws=True))
    if kind == "textlen":
        t = "w" * n
        return (E("div", T(t)), E("p", p, T(t), p), E("div", E("b", T(t)), T(t)), E("p", ("H", t)), T(t),
                E("div", ("R", t)), E("p", attrs=(("k", t),)), E("b", T(t), ws=False), p)
    if kind == "toplevel":
        return tuple((T("t"), p, b, p, p, b, b)[i % 7] for i in range(n))
    if kind == "meta":
        return (E("div", *[("M", i) for i in range(n)]),
                E("p", *[("M", i) for i in range(n)], T("x"), *[("M", i) for i in range(n)]),
                E("p", p, *[("M", i) for i in range(n)], T("x")))
    if kind == "voids":
        return (E("div", *[E(sorted(M.VOID)[i % 16], ws=True) for i in range(n)]),)
    if kind == "deep":
        return nest([("div", True)] * n, (T("x"), p))
    if kind == "deepmix":
        return nest([("div", True)] * (n // 2) + [("b", False)] * (n - n // 2), (T("x"), b)) + (p,)
    if kind == "deepinl":
        return (E("div", *nest([("b", False)] * n, (T("x"), b)), p),)
    kids = (T("x"),)
    if kind == "kinds":
        # every kind of node at the beginning, middle and end of every level
        ks = (("R", "r"), ("H", "h"), T("t"), b, E("br"), E("p"), ("N", 1), ("M", 0), E("p", T("q")))
        for i in range(n):
            kids = (ks[i % 9], p, ks[(i + 4) % 9], E("div", *kids), ks[(i + 2) % 9],
                    E("hr"), ks[(i + 7) % 9])
        return kids
    for i in range(n):
        kids = (T("l"), E("div", *kids), b, p) if kind == "comb" else \
            (E("ul", E("li", *kids)), E("ul", E("li", b)))
    return kids


def run_ladder(case, ctx):
    ctx.state(case)
    check(ladder(*case), ctx, CONFIG[:3] if case[1] <= 130 else CONFIG[:1])


def path_cases(n):
    return lambda: M.Forests((T("t"), ("R", "r"), ("M", 0)),
                             (M.elem("div", True), M.elem("b", False))).upto(n)


def run_path(kids, ctx):
    """Layout of the body of documents (content one level below <body>), expansions, copies."""
    if not all(map(M.valid_nesting, kids)):
        return
    ctx.state(kids)
    body = E("body", *kids)
    want = M.layout((E("html", E("head", E("meta", attrs=(("charset", "utf-8"),))), body),))
    want = "<!DOCTYPE html>\n" + want
    mk = lambda: real.kids(kids)  # noqa
    eq(HTMLDocument(*mk()).render()["html"], want, "HTMLDocument(...)")
    eq(HTMLDocument(Tag("body", *mk())).render()["html"], want, "HTMLDocument(body)")
    eq(HTMLDocument(TagList(*mk())).render()["html"], want, "HTMLDocument(TagList)")
    w = M.layout((E("div", *kids),))
    eq(str(Tag("div", real.Expand(lambda: TagList(*mk())))), w, "expansion to a list")
    eq(str(Tag("div", *mk()).tagify()), w, "tagify()")
    t = Tag("div")
    for k in mk():
        t.append(k)
    eq(str(t), w, "appended")
    ctx.step(6)
    ctx.trace()


def run_mut(case, ctx):
    def look(root, kids, what, ctx):
        if not all(map(M.valid_nesting, kids)):
            return
        for ind, eol in CONFIG[:3]:
            eq(root.get_html_string(ind, eol), M.layout(kids, ind, eol), what)
        eq(str(root), M.layout(kids), what)
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("mutations", f"all histories of 2 operations"
              f"{'' if q else ' and of 3 over a reduced set'} on {mutate.NSTARTS} documents, rendered "
              "after each", lambda: itertools.chain(
                  mutate.cases(2), () if q else mutate.cases(3, mutate.few_ops())), run_mut,
              block=64),
        Space("config", "46 indents x 15 eols x 7 trees", config_cases, run_config, block=32),
        Space("names", "every element name x flag x 24 contexts", lambda: iter(NAMES), run_name,
              block=2),
        Space("ladders", "fan-out, depth, run-length, line-count ladders", ladder_cases,
              run_ladder, block=1),
        Space("multiline", f"all forests up to {4 if q else 5} nodes, content with newlines, "
              "blanks, empty", cases(4 if q else 5, L3, E3), run_full, block=64),
        Space("script-etc", f"all forests up to {4 if q else 5} nodes with script, img, pre, "
              "whitespace-enabled span, inline div, attributes, dependencies",
              cases(4 if q else 5, L4, E4), run_tree, block=64),
        Space("paths", f"all forests up to {5 if q else 6} nodes through documents, expansions, "
              "copies", path_cases(5 if q else 6), run_path, block=64),
        Space("trees", f"all validly nested forests up to {5 if q else 6} nodes over 4 elements, "
              "text, HTML(), self-rendering, metadata", cases(5 if q else 6, L1, E1), run_tree,
              block=256),
        Space("trees-deep", f"all validly nested forests up to {7 if q else 8} nodes over block, "
              "inline, text", cases(7 if q else 8, L2, E2), run_tree, block=256),
    ]
