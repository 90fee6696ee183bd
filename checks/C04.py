"""C04: trusted markup is emitted verbatim and escaping happens exactly once.

Positions: HTML(), _repr_html_() results and script/style text are put in every position and on
every rendering path; the output must be the model tree's markup with exactly those bytes.
Concatenation: all expression trees over + (and += chains) of str/HTML/other operands are
evaluated on the real objects; the result must be HTML() and render like the operands as separate
adjacent children."""
import itertools
import sys

import htmltools
from htmltools import (HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList,
                       head_content, tags)
from htmltools._jsx import jsx
from mc import model as M
from mc import mutate
from mc import real, receivers
from mc.common import BIG_SIZES, E, NASTY, SIZES, T, chunks, nest, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = ("text below an element nested in <script>/<style> is not 'text inside <script>' "
               "(not checked here)",)


def good(out, kids, what, ind=0, eol="\n"):
    if not M.same_markup(out, kids, ind, eol):
        raise Violation(f"{what}:\n  got  {out[:700]!r}\n"
                        f"  want {''.join(t for t, _ in M.atoms(kids))[:700]!r} (up to layout)")


class ReprStr(str):
    """A str subclass returned by _repr_html_()."""


class ReprTag:
    """Self-rendering and expanding object that is rendered without tagify()."""

    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        return self.s

    def tagify(self):
        return HTML(self.s)


class ReprString(str):
    """A string that is self-rendering."""

    def __new__(cls, s):
        x = super().__new__(cls, "<wrong>")
        x.s = s
        return x

    def _repr_html_(self):
        return self.s


class MyHTML(HTML):
    pass


def trusted(s):
    yield "HTML", lambda: HTML(s), ("H", s)
    yield "repr", lambda: real.ReprObj(s), ("R", s)
    yield "repr returning HTML", lambda: real.ReprObj(HTML(s)), ("R", s)
    yield "repr returning str subclass", lambda: real.ReprObj(ReprStr(s)), ("R", s)
    yield "self-rendering string", lambda: ReprString(s), ("R", s)
    yield "HTML subclass", lambda: MyHTML(s), ("H", s)
    yield "HTML of HTML", lambda: HTML(HTML(s)), ("H", s)
    yield "repr + tagify", lambda: ReprTag(s), ("R", s)


def paths(mk, c):
    """(what, rendering thunk, model kids)."""
    b = ("E", "b", False, (), ())
    D = lambda *k: (E("div", *k),)  # noqa
    S = lambda *k: (E("span", *k),)  # noqa
    span = lambda *a: Tag("span", *a, _add_ws=False)  # noqa
    B = lambda: Tag("b", _add_ws=False)  # noqa
    t = T("<&")
    m = real.Meta()

    def tag(f, *a):
        x = Tag("div", *a)
        f(x)
        return str(x)

    def hook():
        x = Tag("div")
        old = sys.displayhook
        sys.displayhook = lambda v: None
        try:
            with x:
                sys.displayhook(mk())
                sys.displayhook("<&")
                sys.displayhook(mk())
        finally:
            sys.displayhook = old
        return str(x)

    def body(d):
        return d.render()["html"].split("<body>", 1)[1].rsplit("</body>", 1)[0]

    def jsonmode(x):
        htmltools.html_dependency_render_mode = "json"
        try:
            return str(x)
        finally:
            htmltools.html_dependency_render_mode = "invisible"

    yield "only child", lambda: Tag("div", mk()).get_html_string(), D(c)
    yield "only child inline", lambda: str(span(mk())), S(c)
    yield "TagList", lambda: TagList(mk()).get_html_string(), (c,)
    yield "TagList indented", lambda: TagList(mk(), mk()).get_html_string(2), (c, c)
    yield "str(TagList)", lambda: str(TagList(mk())), (c,)
    yield "first", lambda: str(Tag("div", mk(), "<&")), D(c, t)
    yield "second", lambda: str(Tag("div", "<&", mk())), D(t, c)
    yield "between", lambda: str(Tag("div", "<&", mk(), "<&")), D(t, c, t)
    yield "twice", lambda: str(Tag("div", mk(), mk())), D(c, c)
    yield "inline first", lambda: str(span(mk(), B())), S(c, b)
    yield "inline last", lambda: str(span(B(), mk())), S(b, c)
    yield "after block", lambda: str(Tag("div", Tag("p"), mk())), D(E("p"), c)
    yield "before block", lambda: str(Tag("div", mk(), Tag("p"))), D(c, E("p"))
    yield "between blocks", lambda: str(TagList(Tag("p"), mk(), Tag("p"))), (E("p"), c, E("p"))
    yield "metadata first", lambda: Tag("div", m, mk()).get_html_string(), D(c)
    yield "metadata last", lambda: Tag("div", mk(), m).get_html_string(), D(c)
    yield "in script", lambda: str(Tag("script", mk())), (E("script", c),)
    yield "in script, multi", lambda: str(Tag("script", "<&", mk(), "<&")), \
        (E("script", t, c, t),)
    yield "in style", lambda: str(Tag("style", mk(), mk())), (E("style", c, c),)
    yield "after script", lambda: str(Tag("div", Tag("script", "<"), mk())), \
        D(E("script", T("<")), c)
    yield "in void", lambda: str(Tag("hr", mk())), (E("hr", c),)
    yield "deep", lambda: str(Tag("div", Tag("ul", Tag("li", mk(), Tag("p", mk())), mk()))), \
        D(E("ul", E("li", c, E("p", c)), c))
    yield "deep inline", lambda: str(Tag("div", span(span(mk(), "x"), mk()))), \
        D(E("span", E("span", c, T("x")), c))
    yield "indented crlf", lambda: Tag("div", mk(), Tag("p", mk())).get_html_string(3, "\r\n"), \
        D(c, E("p", c))
    for ind, eol in CONFIG:
        yield (ind, eol), lambda: TagList(
            Tag("div", mk(), "<&", Tag("p", mk())), mk(), B(), Tag("script", mk(), mk())
        ).get_html_string(ind, eol), (E("div", c, t, E("p", c)), c, b, E("script", c, c))
    yield "no eol", lambda: Tag("div", mk(), Tag("p", mk())).get_html_string(0, ""), \
        D(c, E("p", c))
    yield "list", lambda: str(Tag("div", [mk(), [None, mk()]])), D(c, c)
    yield "append", lambda: tag(lambda x: x.append(mk())), D(c)
    yield "append two", lambda: tag(lambda x: x.append("<&", mk())), D(t, c)
    yield "extend", lambda: tag(lambda x: x.extend([mk(), "<&"])), D(c, t)
    yield "insert", lambda: tag(lambda x: x.insert(0, mk()), "<&"), D(c, t)
    yield "TagList +", lambda: str(TagList("<&") + [mk()]), (t, c)
    yield "+ TagList", lambda: str([mk()] + TagList("<&")), (c, t)
    yield "TagList +=", lambda: str(iadd(TagList("<&"), [mk()])), (t, c)
    yield "expansion", lambda: str(Tag("div", real.Expand(lambda: TagList(mk(), "<&")))), D(c, t)
    yield "expansion to tag", lambda: str(TagList(real.Expand(lambda: Tag("p", mk())))), \
        (E("p", c),)
    yield "render()", lambda: Tag("div", mk(), "<&").render()["html"], D(c, t)
    yield "tagify()", lambda: Tag("div", mk(), "<&").tagify().get_html_string(), D(c, t)
    yield "_repr_html_", lambda: TagList(mk(), "<&")._repr_html_(), (c, t)
    yield "displayed", hook, D(c, t, c)
    yield "json mode", lambda: jsonmode(Tag("div", mk(), "<&")), D(c, t)
    yield "document", lambda: body(HTMLDocument(mk(), Tag("p", mk()))), (c, E("p", c))
    yield "document append", lambda: (lambda d: (d.append(mk()), body(d))[1])(
        HTMLDocument("<&")), (t, c)
    yield "document html", lambda: body(HTMLDocument(Tag("html", Tag("body", mk(), "<&")))), \
        (c, t)
    yield "head_content", lambda: head_content(mk(), "<&").as_html_tags().get_html_string(), \
        (c, t)
    yield "head= taglist", lambda: HTMLDependency("n", "1", head=TagList("<&", mk())) \
        .as_html_tags().get_html_string(), (t, c)
    yield "saved list of lists", lambda: str(TagList([["<&"], (mk(),)], TagList(mk()))), (t, c, c)


def iadd(a, b):
    a += b
    return a


def run_paths(s, ctx):
    ctx.state(s)
    for kind, mk, c in trusted(s):
        for what, f, kids in paths(mk, c):
            out = f()
            if what == "displayed":
                pass  # _repr_html_ objects are kept as HTML
            good(out, kids, f"{kind}, {what}", *((3, "\r\n") if what == "indented crlf" else
                                                 (0, "") if what == "no eol" else
                                                 what if isinstance(what, tuple) else ()))
            ctx.step()
            ctx.outcome(out)
    # exact bytes where no layout is involved
    for out, want in ((str(Tag("p", HTML(s))), f"<p>{s}</p>"),
                      (str(TagList(HTML(s), "x", HTML(s))), f"{s}x{s}"),
                      (str(Tag("b", real.ReprObj(s), _add_ws=False)), f"<b>{s}</b>"),
                      (str(Tag("b", "x", real.ReprObj(s), "x", _add_ws=False)), f"<b>x{s}x</b>"),
                      (str(Tag("script", s)), f"<script>{s}</script>"),
                      (str(Tag("style", s)), f"<style>{s}</style>"),
                      (str(Tag("script", s, s, _add_ws=False)), f"<script>{s}{s}</script>"),
                      (str(HTML(s)), s), (HTML(s).as_string(), s), (HTML(s)._repr_html_(), s),
                      (HTMLDependency("n", "1", head=s).as_html_tags().get_html_string(), s)):
        if out != want:
            raise Violation(f"got {out!r}, want {want!r}")
        ctx.step()
    # attribute values
    a = HTML(s)
    for out, want in ((str(Tag("p", x=a)), f'<p x="{s}"></p>'),
                      (str(Tag("p", {"x": a}, y="1")), f'<p x="{s}" y="1"></p>'),
                      (str(Tag("br", y="1", x=a)), f'<br y="1" x="{s}"/>'),
                      (str(Tag("p", {"x": a}, x=a)), f'<p x="{s} {s}"></p>'),
                      (str(Tag("p", {"x": a}, x="k")), f'<p x="{s} k"></p>'),
                      (str(Tag("p", {"x": "k"}, x=a)), f'<p x="k {s}"></p>'),
                      (str(Tag("p", {"x": "<"}, {"x": a}, x="<")),
                       f'<p x="&lt; {s} &lt;"></p>'),
                      (str(Tag("p").add_class(a)), f'<p class="{s}"></p>'),
                      (str(Tag("p", class_="k").add_class(a)), f'<p class="k {s}"></p>'),
                      (str(Tag("p", x=MyHTML(s))), f'<p x="{s}"></p>'),
                      (str(Tag("p", _add_ws=True, x=a).tagify()), f'<p x="{s}"></p>')):
        if out != want:
            raise Violation(f"attribute: got {out!r}, want {want!r}")
        ctx.step()
    t = Tag("p")
    t.attrs["x"] = a
    t.attrs.update(y=a)
    if str(t) != f'<p x="{s}" y="{s}"></p>':
        raise Violation(f"attribute: got {str(t)!r}")
    out = HTMLDocument("x", lang=a).render()["html"]
    if f'<html lang="{s}">' not in out:
        raise Violation(f"HTMLDocument attribute: got {out!r}")
    ctx.step(2)
    ctx.trace()


# ---- script / style text -------------------------------------------------------------------

CONFIG = ((0, "\n"), (1, "\r\n"), (2, ""), (0, "\n\n"))
SCRIPT_TEXT = ("a<b", "&&", "x", '"<\'>', "\n", "a\n  b", "")


def script_cases(n):
    for name in ("script", "style"):
        for ws in (True, False):
            for k in range(1, n + 1):
                for ks in itertools.product(SCRIPT_TEXT + (("M",), ("D",), ("H",), ("R",), ("N",)),
                                            repeat=k):
                    yield (name, ws, ks)


def run_script(case, ctx):
    name, ws, ks = case
    spec = tuple(T(k) if isinstance(k, str) else
                 {"M": ("M", 0), "D": ("D", ("d", "1.0")), "H": ("H", "&h<"), "R": ("R", "&r<"),
                  "N": ("N", 5)}[k[0]] for k in ks)
    ctx.state(case)
    x = E(name, *spec, ws=ws)
    for kids in ((x,), (T("<"), x, T("<")), (E("div", x, x),), (E("span", T("<"), x),)):
        tl = TagList(*real.kids(kids))
        for ind, eol in CONFIG:
            good(tl.get_html_string(ind, eol), kids, f"script/style text, ({ind}, {eol!r})", ind,
                 eol)
        good(str(tl), kids, "script/style text")
        ctx.step(2)
    for mod in (tags, htmltools.svg):
        fn = getattr(mod, name, None)
        if fn:
            o = fn(*real.kids(spec))
            good(str(o), (E(name, *spec, ws=o.add_ws),), f"{name}()")
    ctx.trace()


# ---- trees ---------------------------------------------------------------------------------

def tree_cases(n):
    return lambda: M.Forests(
        (T("<&\n"), ("H", "<h>\n&"), ("R", "<r>&\n")),
        (M.elem("div", True), M.elem("b", False), M.elem("script", True))).upto(n)


def run_tree(kids, ctx):
    def ok(ks, script):
        return all(k[0] != "E" or (not script and ok(k[4], k[1] == "script")) for k in ks)
    if not ok(kids, False):
        return
    ctx.state(kids)
    tl = TagList(*real.kids(kids))
    for ind, eol in ((0, "\n"), (2, "\r\n")):
        out = tl.get_html_string(ind, eol)
        good(out, kids, f"tree, indent={ind} eol={eol!r}", ind, eol)
        ctx.step()
    ctx.outcome(out)
    ctx.trace()


# ---- concatenation -------------------------------------------------------------------------

class Obj:
    def __str__(self):
        return "<o>&"


class SubStr(str):
    pass


OPERANDS = (("T", "<&\""), ("H", "<b>&amp;"), ("H", "&"), ("T", "&lt;"), ("N", 1), ("O", ""),
            ("HH", "<s>"), ("T", ""), ("H", ""), ("TS", "<"), ("N", 0),
            ("N", True), ("J", "<j>&"))
SMALL = (("T", "<&"), ("H", "<b>&"), ("N", 1.5), ("T", "&amp;"), ("H", "&lt;"))
TINY = (("T", "&"), ("H", "<b>"))


def operand(o):
    k, v = o
    return {"T": lambda: v, "H": lambda: HTML(v), "N": lambda: v, "O": Obj,
            "HH": lambda: MyHTML(v), "TS": lambda: SubStr(v), "J": lambda: jsx(v)}[k]()


def opspec(o):
    """What the operand is as a child."""
    k, v = o
    if k in ("H", "HH"):
        return ("H", v)
    return ("T", "<o>&" if k == "O" else str(v))


def groupings(n):
    """All binary trees with n leaves, as nested pairs of leaf indices."""
    def build(i, j):
        if j - i == 1:
            yield i
            return
        for k in range(i + 1, j):
            for a in build(i, k):
                for b in build(k, j):
                    yield (a, b)
    return tuple(build(0, n))


GROUP = {n: groupings(n) for n in range(1, 8)}


def concat_cases(n, ops):
    def gen():
        for k in range(2, n + 1):
            for t in itertools.product(ops, repeat=k):
                if any(o[0] in ("H", "HH") for o in t):
                    yield t
    return gen


class Undefined(Exception):
    pass


def ev(g, ops, plus):
    if isinstance(g, int):
        return operand(ops[g])
    a, b = ev(g[0], ops, plus), ev(g[1], ops, plus)
    ah, bh = isinstance(a, HTML), isinstance(b, HTML)
    if not ah and not bh and not (isinstance(a, str) and isinstance(b, str)):
        raise Undefined  # neither operand is HTML(): not this library's operator
    r = plus(a, b)
    if (ah or bh) and not isinstance(r, HTML):
        raise Violation(f"{a!r} + {b!r} is a {type(r).__name__}, not HTML")
    return r


def run_concat(ops, ctx):
    ctx.state(ops)
    want = "".join(M.content_text(opspec(o)) for o in ops)
    kids = tuple(map(opspec, ops))
    o = Tag("span", *[operand(o) if o[0] != "O" else str(operand(o)) for o in ops],
            _add_ws=False).get_html_string()
    good(o, (E("span", *kids),), "operands as adjacent children")
    forms = []
    for g in GROUP[len(ops)]:
        for nm, plus in (("+", lambda a, b: a + b), ("+=", iadd)):
            try:
                forms.append((f"{nm} {g}", ev(g, ops, plus)))
            except Undefined:
                pass
    for what, r in forms:
        if not isinstance(r, HTML):
            raise Violation(f"{ops!r} {what}: result is {type(r).__name__}")
        out = Tag("span", r, _add_ws=False).get_html_string()
        if out != f"<span>{want}</span>" or out != o:
            good(out, (E("span", *kids),), f"{ops!r} {what} as a child")
            if out != o:
                raise Violation(f"{ops!r} {what}: as a child {out!r}, operands as children {o!r}")
        if str(Tag("i", "x", r, "x", _add_ws=False)) != f"<i>x{r.as_string()}x</i>":
            raise Violation(f"{ops!r} {what}: not verbatim between text")
        if str(Tag("i", x=r)) != f'<i x="{r.as_string()}"></i>':
            raise Violation(f"{ops!r} {what}: not verbatim as attribute")
        ctx.step(3)
    ctx.outcome(want)
    ctx.trace(len(forms))


def chain_cases():
    for n in SIZES[:60]:
        for pat in ("HT", "TH", "HTT", "TTH", "HHT", "TN" + "H"):
            yield (n, pat)


def run_chain(case, ctx):
    """Long += chains, and operands unchanged by being concatenated."""
    n, pat = case
    ctx.state(case)
    mk = {"H": ("H", "<b>&"), "T": ("T", "<&"), "N": ("N", 1)}
    ops = [mk[pat[i % len(pat)]] for i in range(n)]
    acc, html0 = HTML(""), HTML("")
    back = HTML("")
    for o in ops:
        acc += operand(o)
    for o in reversed(ops):
        back = operand(o) + back
    want = "".join(M.content_text(opspec(o)) for o in ops)
    for r in (acc, back):
        if not isinstance(r, HTML):
            raise Violation(f"chain of {n} {pat}: {type(r).__name__}")
        good(str(Tag("b", r, _add_ws=False)), (E("b", *map(opspec, ops)),), f"chain {n} {pat}")
        if str(r) != want:
            raise Violation(f"chain of {n}: {str(r)[:200]!r}")
    if str(html0) != "":
        raise Violation("operand of += was modified in place")
    ctx.step(2 * n)
    ctx.trace(2)


def run_alias(case, ctx):
    """+ and += never change their operands."""
    a, b = case
    ctx.state(case)
    x, y = operand(a), operand(b)
    keep, sx, sy = x, str(x), str(y)
    z = x + y
    w = x
    w += y
    v = y + z if not isinstance(y, Obj) else z
    u = z + x
    if str(keep) != sx or str(y) != sy or not isinstance(z, HTML):
        raise Violation(f"operands changed: {sx!r}->{keep!s}, {sy!r}->{y!s}")
    tz, ty, tx = (M.content_text(opspec(o)) for o in (a, b, a))
    for r, want in ((z, tz + ty), (w, tz + ty), (u, tz + ty + tx)):
        if not isinstance(r, HTML) or str(r) != want:
            raise Violation(f"got {r!r}, want {want!r}")
    del v
    ctx.step(4)
    ctx.trace()


def alias_cases():
    for a in OPERANDS:
        for b in OPERANDS:
            if a[0] in ("H", "HH") or b[0] in ("H", "HH"):
                yield (a, b)


def run_chars(r, ctx):
    s = "".join(scalars(*r))
    if not s:
        return
    for out, want in ((str(Tag("b", HTML(s), _add_ws=False)), f"<b>{s}</b>"),
                      (str(Tag("b", "x", HTML(s), "x", _add_ws=False)), f"<b>x{s}x</b>"),
                      (str(Tag("b", real.ReprObj(s), _add_ws=False)), f"<b>{s}</b>"),
                      (str(Tag("b", x=HTML(s))), f'<b x="{s}"></b>'),
                      (str(Tag("script", s)), f"<script>{s}</script>"),
                      (str(Tag("style", s, s, _add_ws=False)), f"<style>{s}{s}</style>"),
                      (str(HTML(s) + s), s + M.esc(s)), (str(s + HTML(s)), M.esc(s) + s)):
        if out != want:
            raise Violation(f"got {out!r}, want {want!r}")
    ctx.fresh_states(len(s))
    ctx.step(8)
    ctx.trace()


def ladder_cases(big):
    for n in SIZES + BIG_SIZES:
        for kind in ("rep<", "rep&amp;", "nl", "sp", "first", "last", "middle"):
            yield (kind, n)
        if n <= 257:
            yield ("sibs", n)
        if n <= 130:
            yield ("deep", n)


def run_ladder(case, ctx):
    kind, n = case
    if kind in ("sibs", "deep"):
        ctx.state(case)
        if kind == "sibs":
            ks = tuple((("H", f"<{i}>"), T("<"), ("R", f"&{i};"), E("p", ("H", "&")))[i % 4]
                       for i in range(n))
            good(str(TagList(*real.kids(ks))), ks, "siblings")
            good(str(Tag("div", *real.kids(ks))), (E("div", *ks),), "siblings")
            ks = tuple((("H", f"<{i}>"), T("<"))[i % 2] for i in range(n))
            good(str(Tag("script", *real.kids(ks))), (E("script", *ks),), "siblings in script")
        else:
            for nm, ws in (("div", True), ("b", False)):
                k = nest([(nm, ws)] * n, (("H", "<&>"), T("<"), ("R", "&"),
                                          E("script", T("<"), T("&"))))
                good(str(real.build(k[0])), k, "deep")
        ctx.step(2)
        ctx.trace()
        return
    if kind in ("first", "last", "middle"):
        i = {"first": 0, "last": n, "middle": n // 2}[kind]
        s = "x" * i + "<&'\">" + "x" * (n - i)
    else:
        s = {"rep<": "<", "rep&amp;": "&amp;", "nl": "a\n", "sp": " <"}[kind] * (n // 2 + 1)
    ctx.state(case)
    for out, want in ((str(Tag("b", HTML(s))), f"<b>{s}</b>"),
                      (str(Tag("b", "x", HTML(s), "x", _add_ws=False)), f"<b>x{s}x</b>"),
                      (str(Tag("b", real.ReprObj(s), _add_ws=False)), f"<b>{s}</b>"),
                      (str(Tag("b", x=HTML(s))), f'<b x="{s}"></b>'),
                      (str(Tag("script", s)), f"<script>{s}</script>"),
                      (str(HTML(s) + s), s + M.esc(s)), (str(s + HTML(s)), M.esc(s) + s)):
        if out != want:
            raise Violation(f"{case}: got {out[:300]!r}, want {want[:300]!r}")
    ctx.step(7)
    ctx.trace()


RECEIVED = tuple((k, v) for k in "HR" for v in ("<b>", "&", "", " ", "\n", "</p>", "&lt;", "<!--", "x"))
ALPHA = ("<", ">", "&", '"', "'", "\n", ";", "a", " ", "\r")


def run_mut(case, ctx):
    def look(root, kids, what, ctx):
        good(str(root), kids, what)
        good(root.get_html_string(2, ""), kids, what + ", indented", 2, "")
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("receivers", f"{len(RECEIVED)} pieces of markup x every way of adding a child x all lists "
              f"of up to 3 siblings of {len(receivers.KINDS)} kinds" + (" (3: 3 of them)" if q else ""),
              lambda: receivers.cases(RECEIVED, q), receivers.run, block=8),
        Space("mutations", f"all histories of 2 operations (and of a script element, to depth {3 if q else 4})"
              f"{'' if q else ' and of 3 over a reduced set'} on {mutate.NSTARTS} documents, rendered "
              "after each", lambda: itertools.chain(
                  mutate.cases(3 if q else 4, mutate.script_ops(), (0, 1)),
                  mutate.cases(2), () if q else mutate.cases(3, mutate.few_ops())), run_mut,
              block=64),
        Space("paths", "nasty markup strings x 7 kinds of trusted content x every path/position",
              lambda: iter(NASTY), run_paths, block=1),
        Space("paths-short", f"all strings up to {2 if q else 3} over 10 characters x the same",
              lambda: M.words(ALPHA, 2 if q else 3), run_paths, block=1),
        Space("script", f"all child lists up to {3 if q else 4} of <script>/<style> over 12 kinds",
              lambda: script_cases(3 if q else 4), run_script, block=16),
        Space("alias", "all operand pairs: operands unchanged", alias_cases, run_alias),
        Space("concat", f"all + and += expression trees up to 3 operands of {len(OPERANDS)}",
              concat_cases(3, OPERANDS), run_concat, block=16),
        Space("concat-small", f"... up to {4 if q else 5} operands of {len(SMALL)}",
              concat_cases(4 if q else 5, SMALL), run_concat, block=16),
        Space("concat-tiny", f"... up to {6 if q else 7} operands of {len(TINY)}",
              concat_cases(6 if q else 7, TINY), run_concat, block=4),
        Space("chains", "+= and reflected + chains to length 1000", chain_cases, run_chain,
              block=1),
        Space("ladders", "length, sibling and depth ladders", lambda: ladder_cases(not q),
              run_ladder, block=2),
        Space("chars", "every Unicode scalar value", lambda: chunks(64), run_chars, block=64),
        Space("trees", f"all forests up to {5 if q else 6} nodes with HTML(), self-rendering "
              "objects, text and script", tree_cases(5 if q else 6), run_tree, block=128),
    ]
