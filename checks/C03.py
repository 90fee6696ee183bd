"""C03: attribute values are inert, single-line, and decode to the original.

Model of an attribute: the ordered list of the parts given for it, each plain or HTML().  The
opening tag must be  <name k1="..." k2="...">  with the parts joined by one space, every plain part
escaped exactly once (any correct character references), every HTML() part verbatim."""
import enum
import itertools
import re

from htmltools import HTML, HTMLDependency, HTMLDocument, Tag, TagList, html_escape, svg, tags
from mc import model as M
from mc import real
from mc.common import BIG_SIZES, NASTY, SIZES, chunks, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = ("strings contain Unicode scalar values only (no lone surrogates)",
               "assigning None/False to an existing attribute is not specified and not checked")


class Str(str):
    pass


class NoisyInt(int):
    def __str__(self):
        return '"<i>&\n'


class Color(enum.IntEnum):
    RED = 1


def canon(v):
    """Parts -> model value."""
    return ("P",) + tuple(v)


def open_ok(out, name, attrs, what):
    """out starts with the opening tag of `name` with exactly these attributes
    (attrs: [(key, parts)])."""
    x = ("E", name, True, tuple((k, canon(p)) for k, p in attrs), ())
    text = M.open_text(x)
    if out.startswith(text) and out[len(text):len(text) + 1] in (">", "/"):
        return out[len(text):]
    m = re.match(M.open_regex(x), out)
    if m and out[m.end():m.end() + 1] in (">", "/"):
        return out[m.end():]
    raise Violation(f"{what}:\n  got  {out[:600]!r}\n  want {text[:600]!r}")


def exact(out, name, attrs, what, tail=None):
    rest = open_ok(out, name, attrs, what)
    if tail is not None and rest != tail:
        raise Violation(f"{what}: after the opening tag got {rest!r}, want {tail!r}")


# ---- a value alone, in every position and by every way of supplying it ---------------------

def alone(s, ctx):
    ctx.state(s)
    tail = "></a>"
    P = [("x", [s])]
    mk = lambda *a, **k: Tag("a", *a, _add_ws=False, **k)  # noqa

    def upd(f, **k):
        t = mk(**k)
        f(t)
        return t

    def dic(t):
        t.attrs["x"] = s

    plain_style = s.endswith(";")
    A = [("p", ["1"])]
    cases = [
        ("keyword", mk(x=s), P), ("dict", mk({"x": s}), P),
        ("second dict", mk({"p": "1"}, {"x": s}), A + P),
        ("dict + keyword", mk({"p": "1"}, x=s), A + P),
        ("first of two", mk(x=s, p="1"), P + A),
        ("middle", mk(p="1", x=s, q="2"), A + P + [("q", ["2"])]),
        ("update(dict)", upd(lambda t: t.attrs.update({"x": s})), P),
        ("update(kw)", upd(lambda t: t.attrs.update(x=s), p="1"), A + P),
        ("update replaces", upd(lambda t: t.attrs.update(x=s), x=HTML("&")), P),
        ("setitem", upd(dic), P), ("setitem replaces", upd(dic, x=HTML("&"), p="1"), P + A),
        ("add_class", mk().add_class(s), [("class", [s])]),
        ("add_class to", mk(class_="k").add_class(s), [("class", ["k", s])]),
        ("add_class prepend", mk(class_="k").add_class(s, prepend=True), [("class", [s, "k"])]),
        ("add_class to HTML", mk(class_=HTML("&")).add_class(s),
         [("class", [("H", "&"), s])]),
        ("add_class prepend HTML", mk(class_=HTML("&")).add_class(s, prepend=True),
         [("class", [s, ("H", "&")])]),
        ("two values", mk({"x": s}, x=s), [("x", [s, s])]),
        ("three values", mk({"x": s}, {"x": "m"}, x=s), [("x", [s, "m", s])]),
        ("plain HTML", mk({"x": s}, x=HTML("<&")), [("x", [s, ("H", "<&")])]),
        ("HTML plain", mk({"x": HTML("<&")}, x=s), [("x", [("H", "<&"), s])]),
        ("plain HTML plain", mk({"x": s}, {"x": HTML("&amp;")}, x=s),
         [("x", [s, ("H", "&amp;"), s])]),
        ("plain plain HTML", mk({"x": s}, {"x": s}, x=HTML("&")), [("x", [s, s, ("H", "&")])]),
        ("HTML plain plain", mk({"x": HTML("&")}, {"x": s}, x=s), [("x", [("H", "&"), s, s])]),
        ("HTML plain HTML", mk({"x": HTML("&")}, {"x": s}, {"x": HTML("<")}),
         [("x", [("H", "&"), s, ("H", "<")])]),
        ("plain, empty HTML", mk({"x": s}, x=HTML("")), [("x", [s, ("H", "")])]),
        ("same text HTML", mk({"x": s}, x=HTML(s)), [("x", [s, ("H", s)])]),
        ("HTML same text", mk({"x": HTML(s)}, x=s), [("x", [("H", s), s])]),
        ("with True", mk({"x": True}, x=s), [("x", ["", s])]),
        ("with None", mk({"x": None}, x=s), P),
        ("two attributes", mk(x=s, y=s, class_=s), [("x", [s]), ("y", [s]), ("class", [s])]),
        ("str subclass", mk(x=Str(s)), P),
        ("copy", mk(x=s).tagify(), P),
        ("dict of another tag", mk(mk(x=s).attrs), P),
        ("dict with HTML of another", mk(mk({"x": HTML("<&")}, x=s).attrs, p="1"),
         [("x", [("H", "<&"), s])] + A),
    ]
    if plain_style:
        cases += [
            ("add_style", mk().add_style(s), [("style", [s])]),
            ("add_style to", mk(style="a:b;").add_style(s), [("style", ["a:b;", s])]),
            ("add_style prepend", mk(style="a:b;").add_style(s, prepend=True),
             [("style", [s, "a:b;"])]),
            ("add_style to HTML", mk(style=HTML("&")).add_style(s), [("style", [("H", "&"), s])]),
            ("HTML add_style", mk(style=s).add_style(HTML("&;")), [("style", [s, ("H", "&;")])]),
        ]
    for what, t, want in cases:
        exact(t.get_html_string(), "a", want, what, tail)
        ctx.step()
    # positions
    for what, t, name in (("block", Tag("div", x=s), "div"),
                          ("void", Tag("br", x=s), "br"),
                          ("void inline", Tag("img", x=s, _add_ws=False), "img"),
                          ("script", Tag("script", "1<2", x=s), "script"),
                          ("style", Tag("style", x=s), "style"),
                          ("with text", Tag("p", "t", x=s), "p"),
                          ("with kids", Tag("p", "t", Tag("b"), x=s), "p")):
        for out in (t.get_html_string(), str(t), TagList(t).get_html_string(0, "\r\n"),
                    t.render()["html"]):
            exact(out, name, P, what)
            ctx.step()
        for wrap, pre in ((Tag("u", t, _add_ws=False), "<u>"),
                          (Tag("u", "t", t, "t", _add_ws=False), "<u>t")):
            out = wrap.get_html_string()
            exact(out[len(pre):].lstrip(), name, P, what + " nested")
            ctx.step()
    out = HTMLDocument(Tag("p"), x=s).render()["html"]
    exact(out[out.index("<html"):], "html", P, "HTMLDocument attribute", None)
    out = HTMLDocument(Tag("html", x="o"), x=s).render()["html"]
    exact(out[out.index("<html"):], "html", P, "HTMLDocument attribute over <html>")
    out = HTMLDocument(Tag("body", x=s)).render()["html"]
    exact(out[out.index("<body"):], "body", P, "body attribute")
    d = HTMLDependency("n", "1", script={"src": "f.js", "x": s}, meta={"name": "n", "content": s},
                       stylesheet={"href": "f.css", "x": s}, source={"href": "u"})
    ts = d.as_html_tags()
    exact(ts[0].get_html_string(), "meta", [("name", ["n"]), ("content", [s])], "dependency meta")
    exact(ts[1].get_html_string(), "link",
          [("href", ["u/f.css"]), ("x", [s]), ("rel", ["stylesheet"])], "dependency link")
    exact(ts[2].get_html_string(), "script", [("src", ["u/f.js"]), ("x", [s])],
          "dependency script")
    o = html_escape(s, attr=True)
    if not M.is_escaped(o, s, True):
        raise Violation(f"html_escape({s!r}, attr=True) = {o!r}")
    ctx.outcome(o)
    ctx.trace()


# ---- sequences of values for one call -------------------------------------------------------

VALS = ("", "v", '"', "'&<>", "a\nb\r", ("H", "<&\"'"), ("H", ""), ("H", "h"), True, False, None,
        0, 1.5)


def part(v):
    """-> model part, or None if the value gives none."""
    if v is None or v is False:
        return None
    if v is True:
        return ""
    if isinstance(v, (int, float)):
        return str(v)
    return v


def seq_cases(n):
    for k in range(1, n + 1):
        for vals in itertools.product(VALS, repeat=k):
            yield vals


SPELL = ("x", "x_")


def run_seq(vals, ctx):
    ctx.state(vals)
    r = [real.attr_value(v) for v in vals]
    parts = [p for p in map(part, vals) if p is not None]
    want = [("x", parts)] if parts else []
    ds = [{"x": v} for v in r]
    outs = [("dicts", Tag("b", *ds)), ("dicts+kw", Tag("b", *ds[:-1], x=r[-1]))]
    t = Tag("b", x=HTML("old"), y="1")
    t.attrs.update(*ds)
    outs.append(("update(dicts)", t))
    if len(r) == 2:
        outs += [("one dict, two spellings", Tag("b", {"x": r[0], "x_": r[1]})),
                 ("kw, two spellings", Tag("b", x=r[0], x_=r[1]))]
    for what, t in outs:
        w = want
        if what == "update(dicts)":
            w = [("x", parts or [("H", "old")]), ("y", ["1"])]
        exact(t.get_html_string(), "b", w, f"{what} {vals!r}", "></b>")
        ctx.step()
    if len(r) == 3:
        for a in (Tag("b", {"x": r[0], "x_": r[1]}, x=r[2]), Tag("b", {"x": r[0]},
                                                                 {"x_": r[1], "x": r[2]})):
            exact(a.get_html_string(), "b", want, f"mixed {vals!r}", "></b>")
            ctx.step()
    ctx.outcome(tuple(parts))
    ctx.trace()


# ---- two attributes interleaved ------------------------------------------------------------

def inter_cases():
    vs = ("<", ("H", "<"), "", None, "'")
    for seq in itertools.product(itertools.product(("x", "y"), vs), repeat=4):
        yield seq


def run_inter(seq, ctx):
    ctx.state(seq)
    want = {}
    for k, v in seq:
        p = part(v)
        if p is not None:
            want.setdefault(k, []).append(p)
    t = Tag("b", *[{k: real.attr_value(v)} for k, v in seq])
    exact(t.get_html_string(), "b", list(want.items()), f"{seq!r}", "></b>")
    ctx.step()
    ctx.trace()


# ---- histories of mutations ----------------------------------------------------------------

HV = ("<'", ("H", "&\""), "\n", "k")
# values that must not be tidied up
SPACED = ("a  b", " a", "a ", "a\tb", "a a", "a a  b", "", " ", "a\n b", "a,b", "A a", ("H", "a  b"),
          ("H", " a "), "a\u00a0b", "\u3000", "a;  b ;", ";;", "x:  y", ("H", "a a"))
OPS = ([("set", v) for v in HV] + [("upd", v) for v in HV] + [("upd2", "\"", ("H", "<"))] +
       [("updkw", v) for v in HV[:2]] +
       [("addc", v, p) for v in HV[:3] for p in (False, True)] +
       [("adds", v, p) for v in ("&';", ("H", "&\";")) for p in (False, True)])


def hist_cases(n):
    for init in ((), ("<'",), (("H", "&\""),), ("\n", ("H", "<"))):
        for k in range(1, n + 1):
            for ops in itertools.product(OPS, repeat=k):
                yield (init, ops)


def spaced_cases(n):
    ways = [("addc", v, p) for v in SPACED for p in (False, True)] + [
        ("adds", v if isinstance(v, tuple) else v + ";", p) for v in SPACED if not isinstance(v, tuple)
        for p in (False, True)]
    for init in SPACED:
        for k in range(1, n + 1):
            for ops in itertools.product(ways, repeat=k):
                yield ((init,), ops)


def run_hist(case, ctx):
    init, ops = case
    t = Tag("b", *[{"class": real.attr_value(v)} for v in init], style="s;")
    m = {}
    if init:
        m["class"] = list(init)
    m["style"] = ["s;"]
    for op in ops:
        v = real.attr_value(op[1])
        if op[0] == "set":
            t.attrs["class"] = v
            m["class"] = [op[1]]
        elif op[0] == "upd":
            t.attrs.update({"class": v})
            m["class"] = [op[1]]
        elif op[0] == "updkw":
            t.attrs.update(class_=v, z="'")
            m["class"] = [op[1]]
            m["z"] = ["'"]
        elif op[0] == "upd2":
            t.attrs.update({"class": v}, class_=real.attr_value(op[2]))
            m["class"] = [op[1], op[2]]
        elif op[0] == "addc":
            t.add_class(v, prepend=op[2])
            m["class"] = [op[1]] + m.get("class", []) if op[2] else m.get("class", []) + [op[1]]
        else:
            t.add_style(v, prepend=op[2])
            m["style"] = [op[1]] + m["style"] if op[2] else m["style"] + [op[1]]
        ctx.step()
    exact(t.get_html_string(), "b", list(m.items()), f"{case!r}", "></b>")
    ctx.state(tuple((k, tuple(v)) for k, v in m.items()))
    ctx.trace()


# ---- names, numbers, sizes, characters -----------------------------------------------------

ATTR_NAMES = (
    "accept accept-charset accesskey action align allow alt async autocomplete autofocus autoplay "
    "bgcolor border charset checked cite class color cols colspan content contenteditable "
    "controls coords crossorigin csp data data-x data-html data-html-dependency datetime decoding "
    "default defer dir dirname disabled download draggable enctype for form formaction headers "
    "height hidden high href hreflang http-equiv icon id integrity ismap itemprop kind label "
    "lang list loop low max maxlength media method min minlength multiple muted name nonce "
    "novalidate onclick onload onerror oninput onsubmit open optimum pattern ping placeholder "
    "poster preload readonly referrerpolicy rel required reversed role rows rowspan sandbox scope "
    "selected shape size sizes slot span spellcheck src srcdoc srclang srcset start step style "
    "summary tabindex target title translate type usemap value width wrap xmlns xlink:href "
    "viewBox aria-label aria-hidden d fill points transform x y @click :bind v-on:click "
    "data-shiny data-url").split()
HOSTILE = '"\'<>&\r\n; x="y'


def names_cases():
    for a in ATTR_NAMES:
        yield ("attr", a)
    for n in M.HTML_NAMES + ("command", "x-y", "path", "textPath", "svg"):
        yield ("tag", n)
    for mod in ("tags", "svg"):
        for f in sorted(k for k in vars(tags if mod == "tags" else svg)
                        if not k.startswith("_")):
            yield (mod, f)


def run_names(case, ctx):
    kind, n = case
    ctx.state(case)
    if kind == "attr":
        for el in ("a", "div", "input", "iframe", "script", "meta", "svg", "form"):
            exact(Tag(el, {n: HOSTILE}).get_html_string(), el, [(n, [HOSTILE])], n)
            exact(Tag(el, {n: HOSTILE}, {n: HTML("&")}).get_html_string(), el,
                  [(n, [HOSTILE, ("H", "&")])], n)
            exact(Tag(el, {n: HTML(HOSTILE)}).get_html_string(), el, [(n, [("H", HOSTILE)])], n)
            exact(Tag(el, {"a": "1", n + "-": HOSTILE}, k="'").get_html_string(), el,
                  [("a", ["1"]), (n + "-", [HOSTILE]), ("k", ["'"])], n)
            ctx.step(4)
    elif kind == "tag":
        for kids in ((), ("t",), ("t", Tag("b"))):
            for ws in (True, False):
                t = Tag(n, *kids, x=HOSTILE, href=HOSTILE, _add_ws=ws)
                exact(t.get_html_string(), n, [("x", [HOSTILE]), ("href", [HOSTILE])], n)
                out = Tag("u", "t", t, _add_ws=False).get_html_string()
                exact(out[4:].lstrip(), n, [("x", [HOSTILE]), ("href", [HOSTILE])], n)
                ctx.step(2)
    else:
        fn = getattr(tags if kind == "tags" else svg, n)
        if isinstance(fn, type) or not hasattr(fn, "__code__"):
            return
        try:
            t = fn({"y": HOSTILE}, x=HOSTILE, class_=HOSTILE)
        except TypeError:
            return
        if not isinstance(t, Tag):
            return
        exact(t.get_html_string(), t.name,
              [("y", [HOSTILE]), ("x", [HOSTILE]), ("class", [HOSTILE])], n)
        ctx.step()
    ctx.trace()


NUMBERS = (0, 1, -1, 10**25, 0.0, -0.0, 1.5, 1e100, float("inf"), float("nan"), NoisyInt(3),
           Color.RED)


def run_number(i, ctx):
    n = NUMBERS[i]
    ctx.state(i)
    s = str(n)
    for what, t, want in (
            ("kw", Tag("b", x=n), [("x", [s])]), ("dict", Tag("b", {"x": n}), [("x", [s])]),
            ("with HTML", Tag("b", {"x": n}, x=HTML("&")), [("x", [s, ("H", "&")])]),
            ("HTML with", Tag("b", {"x": HTML("&")}, x=n), [("x", [("H", "&"), s])]),
            ("with plain", Tag("b", {"x": "'"}, x=n), [("x", ["'", s])]),
            ("twice", Tag("b", {"x": n}, x=n), [("x", [s, s])])):
        exact(t.get_html_string(), "b", want, f"{what} {n!r}", "></b>")
        ctx.step()
    t = Tag("b")
    t.attrs["x"] = n
    t.attrs.update(y=n)
    exact(t.get_html_string(), "b", [("x", [s]), ("y", [s])], f"set {n!r}", "></b>")
    ctx.trace()


def run_short(s, ctx):
    ctx.state(s)
    o = html_escape(s, attr=True)
    if not M.is_escaped(o, s, True):
        raise Violation(f"html_escape({s!r}, True) = {o!r}")
    t = Tag("b", {"x": s, "y": HTML("&")}, {"z": s, "y": s}, z=HTML("<"))
    exact(t.get_html_string(), "b", [("x", [s]), ("y", [("H", "&"), s]), ("z", [s, ("H", "<")])],
          f"{s!r}", "></b>")
    ctx.step(2)
    ctx.trace()


def run_chars(r, ctx):
    for ch in scalars(*r):
        e = M.esc_attr(ch)
        o = Tag("b", x=ch, y="a" + ch + '"').get_html_string()
        if o != f'<b x="{e}" y="a{e}&quot;"></b>':
            exact(o, "b", [("x", [ch]), ("y", ["a" + ch + '"'])], f"character {ch!r}", "></b>")
        o = Tag("b", {"x": ch, "y": HTML("<")}, x=HTML("<"), y=ch).get_html_string()
        if o != f'<b x="{e} <" y="< {e}"></b>':
            exact(o, "b", [("x", [ch, ("H", "<")]), ("y", [("H", "<"), ch])],
                  f"character {ch!r} merged with HTML()", "></b>")
        o = html_escape(ch, True)
        if o != e and not M.is_escaped(o, ch, True):
            raise Violation(f"html_escape({ch!r}, True) = {o!r}")
    n = r[1] - r[0]
    ctx.fresh_states(n)
    ctx.step(3 * n)
    ctx.trace(n)


def ladder_cases(big):
    for n in SIZES + BIG_SIZES:
        for kind in ('"', "'", "<", ">", "&", "\n", "\r", "\r\n", "&quot;", "first", "last", "middle", "plain",
                     "ends"):
            yield (kind, n)
        if n <= 1025:
            yield ("attrs", n)
            yield ("values", n)
        if n <= 150:
            yield ("deep", n)


def run_ladder(case, ctx):
    kind, n = case
    ctx.state(case)
    if kind == "attrs":
        ks = [(f"a{i}", ["<\"'&"[i % 4] * (1 + i % 3)]) for i in range(n)]
        exact(Tag("b", {k: v[0] for k, v in ks}).get_html_string(), "b", ks, "many", "></b>")
        exact(Tag("b", *[{k: v[0]} for k, v in ks]).get_html_string(), "b", ks, "many", "></b>")
    elif kind == "values":
        vs = [("H", "&") if i % 5 == 2 else "\"'<&\n"[i % 5] for i in range(n)]
        exact(Tag("b", *[{"x": real.attr_value(v)} for v in vs]).get_html_string(), "b",
              [("x", vs)], "many values for one name", "></b>")
        vs = ["\"'<&\n"[i % 5] for i in range(n)] + [("H", "&")]
        exact(Tag("b", *[{"x": real.attr_value(v)} for v in vs]).get_html_string(), "b",
              [("x", vs)], "many values, HTML last", "></b>")
        vs = vs[::-1]
        exact(Tag("b", *[{"x": real.attr_value(v)} for v in vs]).get_html_string(), "b",
              [("x", vs)], "many values, HTML first", "></b>")
    elif kind == "deep":
        for ws in (True, False):
            t = Tag("a", x='"<\n')
            for _ in range(n):
                t = Tag("b", t, _add_ws=ws)
            out = t.get_html_string()
            i = out.index("<a")
            exact(out[i:], "a", [("x", ['"<\n'])], "deep")
    else:
        if len(kind) <= 2 or kind == "&quot;":
            s = (kind * n)[:max(n, 6)]
        else:
            s = {"first": '"' + "x" * (n - 1), "last": "x" * (n - 1) + "\n",
                 "middle": "x" * (n // 2) + "<" + "y" * (n - n // 2), "plain": "x" * n,
                 "ends": "'" + "x" * n + "&"}[kind]
        run_short(s, ctx)
        exact(Tag("p", "t", a="1", x=s, b="2").get_html_string(), "p",
              [("a", ["1"]), ("x", [s]), ("b", ["2"])], "long", ">t</p>")
        return
    ctx.step(2)
    ctx.trace()


def cache_cases(n):
    """Each history has a string of its own: what came before it in the process never used it."""
    i = 0
    for s in ("&", '"', "<b>", "&quot;", "a & \"b\" 'c' <d>\n", "'", "\r", "<" + "y" * 300 + '"'):
        for ops in itertools.product("pPhHtTsm", repeat=n):
            i += 1
            yield (f"{s}{i}", "".join(ops))


def run_cache(case, ctx):
    """Histories of the same content as plain/HTML attribute, text, merged."""
    s, ops = case
    ctx.state(case)
    for i, op in enumerate(ops):
        if op == "p":
            exact(Tag("b", x=s).get_html_string(), "b", [("x", [s])], f"step {i}", "></b>")
        elif op == "P":
            exact(Tag("b", y="1", x=s).get_html_string(), "b", [("y", ["1"]), ("x", [s])],
                  f"step {i}", "></b>")
        elif op == "h":
            exact(Tag("b", x=HTML(s)).get_html_string(), "b", [("x", [("H", s)])], f"step {i}",
                  "></b>")
        elif op == "H":
            str(Tag("b", HTML(s), x=HTML(s), _add_ws=False))
        elif op == "t":
            str(Tag("b", s))
        elif op == "T":
            html_escape(s)
        elif op == "s":
            str(Tag("script", s, "x"))
        else:
            exact(Tag("b", {"x": HTML(s)}, x=s).get_html_string(), "b",
                  [("x", [("H", s), s])], f"step {i}", "></b>")
    ctx.step(len(ops))
    ctx.trace()


ALPHA = ("<", ">", "&", '"', "'", "\r", "\n", ";", "a", "=", " ", "#")
STYLES = tuple(s + ";" for s in NASTY)


def spaces(tier):
    q = tier == "quick"
    k = 4 if q else 5
    return [
        Space("alone", "every nasty string x every way/position", lambda: iter(NASTY + STYLES),
              alone, block=1),
        Space("alone-short", "all strings up to 2 over 12 metacharacters x every way/position",
              lambda: M.words(ALPHA, 2), alone, block=1),
        Space("sequences", f"all sequences up to {3 if q else 4} of 13 values for one name",
              lambda: seq_cases(3 if q else 4), run_seq, block=32),
        Space("interleaved", "all 4-sequences over two names x 5 values", inter_cases, run_inter,
              block=64),
        Space("numbers", "number types", lambda: iter(range(len(NUMBERS))), run_number, block=1),
        Space("names", "every attribute name x 8 elements; every element name; every tag function",
              names_cases, run_names, block=4),
        Space("history", f"all mutation histories up to {3 if q else 4} over {len(OPS)} "
              "operations, 4 initial values", lambda: hist_cases(3 if q else 4), run_hist,
              block=128),
        Space("spaced", f"all sequences of up to {2 if q else 3} add_class()/add_style() calls with "
              f"{len(SPACED)} values that have odd whitespace or repetitions",
              lambda: spaced_cases(2 if q else 3), run_hist, block=128),
        Space("cache", "all histories up to 4 of renderings of one content in different roles",
              lambda: cache_cases(4), run_cache, block=64),
        Space("ladders", "length, repetition, attribute/value-count and depth ladders",
              lambda: ladder_cases(not q), run_ladder, block=2),
        Space("short", f"all strings up to {k} over 12 metacharacters, alone and merged",
              lambda: M.words(ALPHA, k), run_short, block=64),
        Space("chars", "every Unicode scalar value, alone and merged with HTML() on either side",
              lambda: chunks(256), run_chars, block=8),
    ]
