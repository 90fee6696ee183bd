"""C05: no whitespace is ever injected into inline content.

All trees, valid or not as HTML, are rendered; the output must be the tree's tokens in order with
layout (eol, spaces) only in the gaps next to a whitespace-enabled tag's own open/close/void tag.
An all-inline subtree therefore has to appear as one exact contiguous string."""
import itertools

from htmltools import HTMLDocument, Tag, TagList, svg, tags
from mc import model as M
from mc import mutate
from mc import real
from mc.common import E, SIZES, T, nest
from mc.engine import Space, Violation

ASSUMPTIONS = ("layout at the very beginning of output rendered with indent > 0 is allowed",)

CONFIG = ((0, "\n"), (2, "\r\n"), (1, "|"), (3, ""))


def check1(out, kids, ind, eol, what, rx=False):
    r = (M.gap_match_re if rx else M.gap_match)(out, M.atoms(kids), eol, ind)
    if r:
        raise Violation(f"{what}: {r}\n  got  {out[:700]!r}\n  atoms "
                        f"{[a for a, _ in M.atoms(kids)][:60]!r}")


def check(kids, ctx, configs=CONFIG, rx=False):
    objs = real.kids(kids)
    tl = TagList(*objs)
    for ind, eol in configs:
        out = tl.get_html_string(ind, eol)
        check1(out, kids, ind, eol, f"TagList.get_html_string({ind}, {eol!r})", rx)
        ctx.step()
        ctx.outcome(out)
        if len(kids) == 1 and kids[0][0] == "E":
            out = objs[0].get_html_string(ind, eol)
            check1(out, kids, ind, eol, f"Tag.get_html_string({ind}, {eol!r})", rx)
            ctx.step()
    out = tl.get_html_string(add_ws=False)
    check1(out, kids, 0, "\n", "TagList.get_html_string(add_ws=False)", rx)
    ctx.step()
    ctx.trace()


def run_tree(kids, ctx):
    ctx.state(kids)
    check(kids, ctx)


def run_tree2(kids, ctx):
    ctx.state(kids)
    check(kids, ctx, CONFIG[:2])


def run_ws(kids, ctx):
    ctx.state(kids)
    check(kids, ctx, CONFIG[:2], rx=True)


L1 = (T("t"), ("H", "<h>"), ("R", "<r>"), ("M", 0))
E1 = (M.elem("div", True), M.elem("b", False), M.elem("br", False), M.elem("hr", True))
L2 = (T("t"),)
E2 = (M.elem("div", True), M.elem("b", False))
L3 = (T(" t "), T("\n"), T(""), ("H", " "), ("R", "\n r\n"), ("H", ""))
E3 = (M.elem("div", True), M.elem("b", False))
L4 = (T("t"), ("N", 1), ("D", ("d", "1.0")))
E4 = (M.elem("b", False), M.elem("script", True), M.elem("pre", False), M.elem("textarea", True),
      M.elem("script", False))


def cases(n, ls, es):
    return lambda: M.Forests(ls, es).upto(n)


NAMES = tuple(dict.fromkeys(M.HTML_NAMES + ("command", "x-y", "svg", "path", "g", "textPath")))


def name_cases():
    for n in NAMES:
        yield n


def run_name(n, ctx):
    """Every element name, both flags, among inline neighbours."""
    ctx.state(n)
    t, b, p = T("t"), E("b", T("u")), E("p", T("v"))
    for ws in (False, True):
        x = E(n, ws=ws)
        xt = E(n, T("c"), ws=ws)
        xi = E(n, b, T("c"), ws=ws)
        xb = E(n, p, T("c"), ws=ws)
        for kids in ((t, x, t), (b, x, b), (t, xt, t), (b, xi, b), (x, x), (xi, xi), (xt, t),
                     (E("span", t, xi, t),), (E("span", x, b),), (E("div", b, xi, t),),
                     (E("div", x),), (E("span", x),), (xb, t), (E("span", xb, b),),
                     (E("div", x, t, x),), (E("b", E("i", xi), t), xt), (E(n, xi, ws=ws), t),
                     (p, x, t), (t, x, p), (E("div", p, xi, t),), (("M", 1), x, ("M", 1), t),
                     (("R", "r"), x, ("R", "r")), (("H", "h"), xi, ("H", "h"))):
            check(kids, ctx, CONFIG[:2])
    for mod in (tags, svg):
        fn = getattr(mod, n, None)
        if fn is None:
            continue
        x = fn(tags.b("u"), "c")
        check1(str(TagList("t", x, "t")), (t, E(n, b, T("c"), ws=x.add_ws), t), 0, "\n", f"{n}()")
        ctx.step()


def sub_cases(n):
    """Inline-only subtrees embedded in every surrounding with blocks."""
    inl = [f for k in range(1, n + 1)
           for f in M.Forests((T("t"), ("H", "<h>"), ("R", "<r>")),
                              (M.elem("b", False), M.elem("img", False))).forests(k)]
    for f in inl:
        yield f


def surroundings(x):
    d, s = (lambda *k: E("div", *k)), (lambda *k: E("span", *k))
    t, p = T("t"), E("p")
    yield x
    yield (d(*x),)
    yield (s(*x),)
    yield (p,) + x
    yield x + (p,)
    yield (p,) + x + (p,)
    yield (d(p, *x),)
    yield (d(*x, p),)
    yield (d(d(t), *x, d(t)),)
    yield (s(p, *x),)
    yield (s(*x, p),)
    yield (s(d(*x), *x),)
    yield (s(s(*x), p, *x),)
    yield (d(s(p, *x), *x),)
    yield (d(("M", 0), *x, ("M", 0)),)
    yield (d(d(d(*x), *x), *x),)
    yield (s(s(p), *x),)
    yield (E("ul", E("li", *x), E("li", *x, E("ul", E("li", *x)))),)
    yield (E("pre", *x, ws=False), p)
    yield (d(s(d(s(d(s(*x))))), *x),)


def run_sub(f, ctx):
    ctx.state(f)
    text = "".join(map(M.inline_text, f))
    for kids in surroundings(f):
        check(kids, ctx, CONFIG[:3])
        tl = TagList(*real.kids(kids))
        for ind, eol in ((0, "\n"), (4, "\r\n")):
            if text not in tl.get_html_string(ind, eol):
                raise Violation(f"inline subtree not contiguous: want {text!r} in "
                                f"{tl.get_html_string(ind, eol)!r}")
        for out in (HTMLDocument(tl).render()["html"], str(tl.tagify()), tl.render()["html"],
                    str(TagList(real.Expand(lambda: tl)))):
            if text not in out:
                raise Violation(f"inline subtree not contiguous: want {text!r} in {out!r}")
            ctx.step()
    ctx.trace()


def ladder_cases():
    for n in SIZES:
        for kind in ("inl", "txt", "mix", "afterblock", "html", "longtext", "voids"):
            yield (kind, n)
        if n <= 200:
            for kind in ("deepinl", "deepmix", "deepblock", "alt"):
                yield (kind, n)


def run_ladder(case, ctx):
    kind, n = case
    ctx.state(case)
    b = E("b", T("x"))
    kids = {
        "inl": lambda: (E("span", *[b] * n),),
        "txt": lambda: (E("div", *[T("x")] * n), T("y")),
        "mix": lambda: (E("div", *[(b, T("t"), E("br"), ("R", "r"), E("p"), ("M", 0))[i % 6]
                                   for i in range(n)]),),
        "afterblock": lambda: (E("p"),) + (b,) * n,
        "html": lambda: (E("div", E("p"), *[(("H", "<h>"), b)[i % 2] for i in range(n)]),),
        "longtext": lambda: (E("div", T("x" * n), E("b", T("y" * n)), T("z" * n)), E("b"),
                             T("w" * n)),
        "voids": lambda: (E("div", *[(E("br"), E("img"), E("hr"), E("input"))[i % 4]
                                     for i in range(n)]),),
        "deepinl": lambda: nest([("b", False)] * n, (T("x"), b)) + (T("y"),),
        "deepmix": lambda: nest([("div", True)] * (n // 2) + [("b", False)] * (n - n // 2),
                                (T("x"), b, E("p"), T("z"), b)),
        "deepblock": lambda: nest([("div", True)] * n, (T("x"), b, T("y"))) + (b, T("y")),
        "alt": lambda: nest([("div", True), ("b", False), ("i", False)] * (n // 3),
                            (T("x"), b, T("y"))) + (b,),
    }[kind]()
    check(kids, ctx, CONFIG if n < 200 else CONFIG[:1])


def run_mut(case, ctx):
    def look(root, kids, what, ctx):
        for ind, eol in CONFIG[:2]:
            check1(root.get_html_string(ind, eol), kids, ind, eol, what)
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("names", "every element name x flag x 23 contexts", name_cases, run_name, block=2),
        Space("mutations", f"all histories of 2 operations"
              f"{'' if q else ' and of 3 over a reduced set'} on {mutate.NSTARTS} documents, rendered "
              "after each", lambda: itertools.chain(
                  mutate.cases(2), () if q else mutate.cases(3, mutate.few_ops())), run_mut,
              block=64),
        Space("ladders", "fan-out, depth and length ladders", ladder_cases, run_ladder, block=1),
        Space("inline-subtrees", f"all inline forests up to {3 if q else 4} nodes in 20 "
              "surroundings and 4 rendering paths", lambda: sub_cases(3 if q else 4), run_sub,
              block=4),
        Space("ws-content", f"all forests up to {4 if q else 5} nodes whose content is itself "
              "white space or empty", cases(4 if q else 5, L3, E3), run_ws, block=64),
        Space("script-etc", f"all forests up to {4 if q else 5} nodes with script/pre/textarea, "
              "numbers, dependencies", cases(4 if q else 5, L4, E4), run_tree2, block=64),
        Space("trees", f"all forests up to {5 if q else 6} nodes over 4 elements, text, HTML(), "
              "self-rendering, metadata", cases(5 if q else 6, L1, E1),
              run_tree2, block=256),
        Space("trees-deep", f"all forests up to {7 if q else 8} nodes over block, inline, text",
              cases(7 if q else 8, L2, E2), run_tree2, block=256),
    ]
