"""C16: class/style helpers and css() act as token-set and declaration algebra.

The model of a class attribute is a list of tokens, that of a style attribute a list of declaration
strings.  All histories of add_class / remove_class / has_class / add_style (and direct attribute
assignment in between) within the bound are executed on real tags and compared after every step;
css() is compared with a model over all argument grids and every code point."""
import copy
import itertools
import re

from htmltools import HTML, Tag, css, tags
from checks.C15 import expect
from mc import model as M
from mc import real
from mc.common import NASTY, SIZES, chunks, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "add_class with a string that contains inner white space, remove_class on an empty class "
    "attribute, and has_class with surrounding white space are not specified and not checked",
    "white space is what str.isspace() says; tokens contain none",
    "css(): property names have only ASCII upper-case letters; values are str, numbers or None")


class MyTag(Tag):
    pass


class Str(str):
    pass


# ---- class tokens --------------------------------------------------------------------------
# Model state: (is_html, [token, ...]) or None; a token that was written as HTML stays as it is,
# and a plain token in an HTML value is stored escaped.

def cls_tokens(value):
    """Tokens of an initial value: (html?, [token])."""
    v = value[1] if isinstance(value, tuple) else value
    return (isinstance(value, tuple), v.split())


class Model:
    def __init__(self, init):
        self.html, self.toks = (False, None) if init is None else cls_tokens(init)

    def add(self, tok, prepend, html=False):
        new = [tok.strip()]
        self.html |= html
        self.toks = new + (self.toks or []) if prepend else (self.toks or []) + new

    def remove(self, tok):
        if self.toks is None:
            return
        keep = [t for t in self.toks if t != tok.strip()]
        if self.toks:
            self.toks = keep or None
            if self.toks is None:
                self.html = False

    def has(self, tok):
        return tok in (self.toks or ())


def check_class(t, m, probe, what):
    v = t.attrs.get("class")
    if m.toks is None:
        if "class" in t.attrs:
            raise Violation(f"{what}: class is {str(v)!r}, want no class attribute")
    else:
        if v is None:
            raise Violation(f"{what}: no class attribute, want tokens {m.toks!r}")
        got = re.sub('&#1[03];', ' ', str(v)).split() if m.html else str(v).split()
        if isinstance(v, HTML) or m.html:
            ok = len(got) == len(m.toks) and all(
                g == w or M.is_escaped(g, w, True) for g, w in zip(got, m.toks))
            ok = ok and isinstance(v, HTML)
        else:
            ok = got == m.toks
        if not ok:
            raise Violation(f"{what}: class is {type(v).__name__} {str(v)!r}, want {m.toks!r}")
    for p in probe:
        h = t.has_class(p)
        if h is not m.has(p):
            raise Violation(f"{what}: has_class({p!r}) is {h!r}; tokens {m.toks!r}")


def apply_class(t, m, op):
    """op: ("add"|"pre"|"addh"|"rm"|"set"|"del"|"upd"|"copy", token)"""
    k, tok = op
    if k in ("add", "pre"):
        r = t.add_class(tok, prepend=True) if k == "pre" else t.add_class(tok)
        m.add(tok, k == "pre")
    elif k == "addh":
        r = t.add_class(HTML(tok))
        m.add(tok, False, True)
    elif k == "rm":
        r = t.remove_class(tok)
        m.remove(tok)
    else:
        r = t
        if k == "set":
            t.attrs["class"] = real.attr_value(tok)
            m.html, m.toks = cls_tokens(tok)
        elif k == "upd":
            t.attrs.update(class_=real.attr_value(tok))
            m.html, m.toks = cls_tokens(tok)
        elif k == "del":
            t.attrs.pop("class", None)
            m.html, m.toks = False, None
        elif k == "copy":
            r = t = copy.copy(t)
        elif k == "tagify":
            r = t = t.tagify()
    if r is not t:
        raise Violation(f"{op} returned {r!r}, not the tag")
    return t


def run_class(case, ctx):
    init, ops, probe = case
    kid = Tag("i")
    t = Tag("p", kid, "x", id="i", class_=None if init is None else real.attr_value(init), z="&")
    m = Model(init)
    check_class(t, m, probe, f"start {init!r}")
    for n, op in enumerate(ops):
        t = apply_class(t, m, op)
        if n == len(ops) - 1 or n == 0:
            check_class(t, m, probe, f"{init!r} then {ops[:n + 1]}")
        ctx.step()
    rest = {k: v for k, v in t.attrs.items() if k != "class"}
    if rest != {"id": "i", "z": "&"} or len(t.children) != 2 or (
            t.children[1] != "x") or t.name != "p" or t.add_ws is not True:
        raise Violation(f"{init!r} then {ops}: another part of the tag changed: {t!r}")
    ctx.state((m.html, tuple(m.toks) if m.toks is not None else None))
    ctx.outcome(str(t))
    ctx.trace()


WORDS = ("none", "class", "id", "style", "true", "p", "a")


def neighbour_cases(n):
    for other in WORDS:
        for name in ("p", "a", "class"):
            for init in (None, "none", "class p", "id none id", "a true"):
                for k in range(1, n + 1):
                    for ops in itertools.product([(o, w) for o in ("add", "pre", "rm") for w in WORDS],
                                                 repeat=k):
                        yield (other, name, init, ops)


def run_neighbour(case, ctx):
    """Attributes, tags and values named like the class tokens."""
    other, name, init, ops = case
    rest = {"title": "none", "data-class": "a class", "p": "p"}
    if other not in ("class",):
        rest[other] = "class a none"
    t = Tag(name, "none", rest, class_=init)
    m = Model(init)
    for op in ops:
        t = apply_class(t, m, op)
    check_class(t, m, WORDS, f"{case!r}")
    if {k: v for k, v in t.attrs.items() if k != "class"} != rest or (t.name, list(t.children)) != (
            name, ["none"]):
        raise Violation(f"{case!r}: another part of the tag changed: {t!r}")
    ctx.step(len(ops))
    ctx.state((other, name, tuple(m.toks or ())))
    ctx.trace()


def class_cases(depth, toks, kinds, inits, extra=()):
    ops = [(k, x) for k in kinds for x in toks] + list(extra)
    probe = tuple(toks) + tuple(x[:-1] for x in toks if x[:-1]) + ("zz",)
    for init in inits:
        for n in range(1, depth + 1):
            for h in itertools.product(ops, repeat=n):
                yield (init, h, probe)


TOKS = ("foo", "foobar", "foo-x", "o")
INITS = (None, "", "foo", "foobar foo", " foo  foo-x\tfoo\n", "o foo o foobar o",
         ("H", "foo o"), ("H", "foo  foo-x foo"))
ODD = ("a&b", "a<b", 'a"b', "a'b", "a>b", "a;", "&", "md:hover", "w-1/2", "[&>p]:x", "a.b", "a*",
       "a+", "(a)", "^a", "a$", "\\d", "É", "e\u0301", "ß", "ı", "0", "None", "True", "A", "a", "aa",
       "-a", "a-", "_a", "a_", "{a}", "%s", ".")


def odd_cases():
    for x in ODD:
        yield (None, (("add", x), ("add", "zz"), ("pre", x), ("rm", "zz"), ("rm", x)), ODD)
        for y in ODD:
            yield (None, (("add", x), ("add", y)), ODD)
            yield (f"{x} {y} k {x}", (("rm", x),), ODD + ("k",))
            yield (f"{x} k {y} {x}", (("rm", x), ("rm", y)), ODD + ("k",))
            yield (("H", "k"), (("add", x), ("pre", y), ("rm", x)), ("k",) + ODD)
            yield (("H", "k"), (("add", x), ("add", x), ("rm", y)), ("k",) + ODD)
            yield (f"{x} {y}", (("addh", "k"), ("rm", x)), ("k",) + ODD)


WSP = (" ", "\t", "\n", "\r", "\f", "  ", " \n ", "\r\n")


def ws_cases():
    for w in WSP:
        for w2 in WSP:
            for init in (None, f"foo{w}bar", f"{w}foo{w2}bar{w}", f"bar{w}foo{w2}foo"):
                for op in ("add", "pre", "rm"):
                    for tok in (w + "foo", "foo" + w2, w + "foo" + w2, "foo", w + "fo"):
                        yield (init, ((op, tok),), ("foo", "bar", "fo", "oo"))
                        yield (init, (("add", "zz"), (op, tok), ("rm", "zz")), ("foo", "bar", "fo"))


def run_chars(r, ctx):
    """Every character that can be in a token: membership is exact (no case or Unicode folding)."""
    for c in scalars(*r):
        if c.isspace():
            continue
        tok = "x" + c
        t = Tag("p", class_="x")
        t.add_class(tok)
        near = {c.lower(), c.upper(), c.casefold(), "", c + c} - {c}
        if t.has_class(tok) is not True or t.has_class(c) and c != "x" or not t.has_class("x"):
            raise Violation(f"token {tok!r} after add_class: {t.attrs['class']!r}")
        for n in near:
            if "x" + n != "x" and t.has_class("x" + n) and not any(map(str.isspace, n)):
                raise Violation(f"has_class({'x' + n!r}) on {t.attrs['class']!r}")
            t.remove_class("x" + n) if n and not any(map(str.isspace, n)) else None
        if t.attrs["class"].split() != ["x", tok]:
            raise Violation(f"class {t.attrs['class']!r}, want {['x', tok]!r}")
        t.remove_class(tok)
        if dict(t.attrs) != {"class": "x"}:
            raise Violation(f"after remove_class({tok!r}): {dict(t.attrs)!r}")
        ctx.step(4)
    ctx.fresh_states(r[1] - r[0])
    ctx.trace()


def size_cases():
    for n in SIZES:
        for kind in ("distinct", "same", "two", "long", "prepend", "style", "css", "csslong", "ws",
                     "alternate"):
            yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    ctx.state(case)
    ctx.trace()
    t = Tag("p")
    if kind in ("distinct", "prepend"):
        for i in range(n):
            t.add_class(f"c{i}", prepend=kind == "prepend")
        want = [f"c{i}" for i in range(n)]
        if kind == "prepend":
            want.reverse()
        if t.attrs["class"].split() != want:
            raise Violation(f"{n} add_class: {t.attrs['class'][:80]!r}...")
        mid = want[n // 2]
        t.remove_class(mid)
        want.remove(mid)
        if t.attrs.get("class", "").split() != want or t.has_class(mid):
            raise Violation(f"{n} tokens, remove {mid}")
        t.remove_class("c").remove_class("c00")
        if t.attrs.get("class", "").split() != want or any(not t.has_class(w) for w in want):
            raise Violation(f"{n} tokens, remove a token that is not there")
    elif kind in ("same", "two", "ws", "alternate"):
        v = {"same": "a " * n, "two": "a " * n + "aa " + "a " * n, "alternate": "a b " * n,
             "ws": "a" + " " * n + "aa" + "\n" * n + "a"}[kind]
        t = Tag("p", class_=v)
        want = [x for x in v.split() if x != "a"]
        if not t.has_class("a"):
            raise Violation("has_class")
        t.remove_class("a")
        if t.attrs.get("class", "").split() != want or ("class" in t.attrs) != bool(want) or (
                t.has_class("a")):
            raise Violation(f"remove_class('a') from {v!r}: {dict(t.attrs)!r}")
    elif kind == "long":
        x = "x" * n
        t.add_class(x).add_class(x + "y").remove_class(x)
        if t.attrs["class"] != x + "y" or t.has_class(x) or not t.has_class(x + "y"):
            raise Violation("long tokens")
    elif kind == "style":
        for i in range(n):
            t.add_style(f"p{i}:{i};", prepend=i % 2 == 1)
        want = [f"p{i}:{i};" for i in range(n)][1::2][::-1] + [f"p{i}:{i};" for i in range(n)][::2]
        if t.attrs["style"] != " ".join(want):
            raise Violation(f"{n} add_style: {t.attrs['style']!r}")
    elif kind == "css":
        got = css(**{f"p{i}": i for i in range(n)})
        if got != "".join(f"p{i}:{i};" for i in range(n)):
            raise Violation(f"css with {n} arguments: {got!r}")
        t.add_style(got)
    else:
        got = css(**{"a_B" * n: "v" * n})
        if got != "a--b" * n + ":" + "v" * n + ";":
            raise Violation(f"css with long name: {got!r}")
    ctx.step()


# ---- style ---------------------------------------------------------------------------------

STYLES = ("a:1;", "b:2;", 'c:"&";', ("H", "d:&;"), "e:5", "f:6; ", "", ("H", "g:7"), None, ";",
          ("H", ";"))
SINITS = (None, "x:0;", "x:0", ("H", "y:&;"), "")


def run_style(case, ctx):
    init, ops = case
    t = Tag("p", "k", style=None if init is None else real.attr_value(init), id="i")
    parts = None if init is None else [init]
    for n, (s, pre) in enumerate(ops):
        before = real.snap(t)
        text = s[1] if isinstance(s, tuple) else s
        what = f"{init!r} then {ops[:n + 1]}"
        try:
            r = t.add_style(real.attr_value(s), prepend=pre) if pre else \
                t.add_style(real.attr_value(s))
        except (ValueError, TypeError):
            if text is None or text.endswith(";"):
                raise Violation(f"{what}: a declaration ending in ';' (or None) is rejected")
            if real.snap(t) != before:
                raise Violation(f"{what}: rejected, but the tag changed")
            ctx.step()
            continue
        if text is not None and not text.endswith(";"):
            raise Violation(f"{what}: accepted a string that does not end in ';'")
        if r is not t:
            raise Violation(f"{what}: returned {r!r}, not the tag")
        if s is not None:
            parts = [s] + (parts or []) if pre else (parts or []) + [s]
        ctx.step()
    model = {} if parts is None else {"style": parts}
    expect({k: v for k, v in t.attrs.items() if k == "style"}, model, f"{init!r} then {ops}")
    if t.attrs.get("id") != "i" or len(t.attrs) != 1 + len(model) or list(t.children) != ["k"]:
        raise Violation(f"{init!r} then {ops}: another part of the tag changed")
    ctx.state((tuple(parts) if parts is not None else None))
    ctx.outcome(str(t))
    ctx.trace()


def style_cases(depth, styles):
    ops = [(s, p) for s in styles for p in (False, True)]
    for init in SINITS:
        for n in range(1, depth + 1):
            for h in itertools.product(ops, repeat=n):
                yield (init, h)


def run_mixed(case, ctx):
    """Class and style helpers on one tag, chained, on several kinds of tag."""
    kind, ops = case
    t = {"Tag": lambda: Tag("p", class_="k", style="s:0;"), "My": lambda: MyTag("p", class_="k",
         style="s:0;"), "div": lambda: tags.div(class_="k", style="s:0;"),
         "html": lambda: tags.html(class_="k", style="s:0;")}[kind]()
    other = Tag("p", t.attrs)
    keep = real.snap(other)
    m, st = Model("k"), ["s:0;"]
    r = t
    for op in ops:
        if op[0] == "style":
            r = r.add_style(op[1])
            st.append(op[1])
        elif op[0] == "pstyle":
            r = r.add_style(op[1], prepend=True)
            st.insert(0, op[1])
        else:
            r = apply_class(r, m, op)
        ctx.step()
    if r is not t or t.attrs.get("style") != " ".join(st):
        raise Violation(f"{case}: {t!r}")
    check_class(t, m, ("k", "a", "kk"), f"{case}")
    if real.snap(other) != keep:
        raise Violation(f"{case}: a tag built from this one's attributes changed")
    ctx.state((tuple(m.toks or ()), tuple(st)))
    ctx.trace()


def mixed_cases(depth):
    ops = [("style", "a:1;"), ("pstyle", "b:2;"), ("add", "a"), ("pre", "kk"), ("rm", "k"),
           ("rm", "a")]
    for kind in ("Tag", "My", "div", "html"):
        for h in itertools.product(ops, repeat=depth):
            yield (kind, h)


# ---- css() ---------------------------------------------------------------------------------

def css_name(k):
    out = ""
    for c in k:
        out += "-" + c.lower() if "A" <= c <= "Z" else "-" if c == "_" else c
    return out


def run_css(case, ctx):
    kw = {k: real.attr_value(v) for k, v in case}
    decls = [css_name(k) + ":" + str(v) + ";" for k, v in kw.items() if v is not None]
    got = css(**kw)
    want = "".join(decls) if decls else None
    if got != want or type(got) is not type(want):
        raise Violation(f"css(**{kw!r}) is {got!r}, want {want!r}")
    t = Tag("p", style="s:0;")
    if t.add_style(got) is not t or t.attrs["style"] != "s:0;" + (" " + want if want else ""):
        raise Violation(f"add_style(css(**{kw!r})): {dict(t.attrs)!r}")
    t = Tag("p", "c").add_style(got, prepend=True)
    if dict(t.attrs) != ({"style": want} if want else {}):
        raise Violation(f"add_style(css(**{kw!r}), prepend=True): {dict(t.attrs)!r}")
    for sep in ("\n", " ", "; ", "--"):
        g = css(sep, **kw)
        if g not in ((sep.join(decls), sep.join(decls) + sep) if decls else (None,)):
            raise Violation(f"css({sep!r}, **{kw!r}) is {g!r}")
        if css(collapse_=sep, **kw) != g:
            raise Violation(f"css(collapse_={sep!r}) differs")
    if css(**{}) is not None or css("\n") is not None:
        raise Violation("css() is not None")
    ctx.step(6)
    ctx.state(case)
    ctx.outcome(got)
    ctx.trace()


CNAMES = ("color", "font_size", "fontSize", "backgroundColor", "WebkitTransition", "_x", "x_",
          "aBC", "a__b", "a_B", "__", "X", "margin0", "--v", "__my_var", "grid-area", "z1_2Z", "é",
          "sVG", "msTransform")
CVALUES = ("red", "", None, 0, 0.0, 1, -1.5, " ", ";", "a;", "url(a:b)", ("H", "<h>"), "'\"&", "\n",
           "None", False, True, 1e100)


def css_cases():
    yield ()
    for k in CNAMES:
        for v in CVALUES:
            yield ((k, v),)
            for k2 in CNAMES:
                if k2 != k:
                    yield ((k, v), (k2, "w"))
                    yield ((k2, None), (k, v))
    for vs in itertools.product(("1", None, "", 0, "a:b;"), repeat=4):
        yield tuple(zip(("a", "fontSize", "font_size", "Z"), vs))


def css_name_cases(n):
    for w in M.words("_aB-", n, 1):
        yield ((w, "v"),)


def run_css_chars(r, ctx):
    for c in scalars(*r):
        if c.isupper() or c.istitle() or c.lower() != c:
            if not "A" <= c <= "Z":
                continue
        got = css(**{"a" + c + "b": c})
        if got != css_name("a" + c + "b") + ":" + c + ";":
            raise Violation(f"css with character {c!r}: {got!r}")
        if css("", x=c) != f"x:{c};":
            raise Violation(f"css value {c!r}")
    ctx.fresh_states(r[1] - r[0])
    ctx.step(r[1] - r[0])
    ctx.trace()


def spaces(tier):
    q = tier == "quick"
    d = 4 if q else 5
    return [
        Space("class-odd", "tokens with special characters: all pairs, plain and HTML() values",
              odd_cases, run_class),
        Space("class-neighbours", f"all histories up to {2 if q else 3} of 3 operations with tokens that are "
              "also names of attributes and tags", lambda: neighbour_cases(2 if q else 3), run_neighbour,
              block=128),
        Space("class-ws", "tokens and values with surrounding white space", ws_cases, run_class),
        Space("styles", f"all histories up to {3 if q else 4} of {2 * len(STYLES)} add_style calls "
              f"from {len(SINITS)} initial values",
              lambda: style_cases(3 if q else 4, STYLES), run_style, block=64),
        Space("css", "names x values, pairs, and all 4-tuples of values", css_cases, run_css),
        Space("css-names", f"all names up to {6 if q else 8} over '_aB-'",
              lambda: css_name_cases(6 if q else 8), run_css),
        Space("sizes", "numbers of tokens, declarations and properties; lengths", size_cases,
              run_size, block=1),
        Space("classes-2", "all histories up to 2 of all operations",
              lambda: class_cases(2, TOKS, ("add", "pre", "addh", "rm", "set", "upd"), INITS,
                                  (("del", ""), ("copy", ""), ("tagify", ""),
                                   ("set", ("H", "foo o")))), run_class, block=64),
        Space("classes", f"all histories up to {d} of add/prepend/remove over {len(TOKS)} "
              f"overlapping tokens from {len(INITS)} initial values",
              lambda: class_cases(d, TOKS, ("add", "pre", "rm"), INITS), run_class, block=256),
        Space("classes-deep", f"all histories up to {d + 2} over 2 tokens",
              lambda: class_cases(d + 2, ("a", "aa"), ("add", "pre", "rm"), (None, "a aa a")),
              run_class, block=256),
        Space("classes-state", "all histories up to 4 with attribute changes and copies in between",
              lambda: class_cases(4, ("a",), ("add", "rm", "addh"), (None, "a", ("H", "a b")),
                                  (("set", "b"), ("set", ("H", "a")), ("upd", "a a"),
                                   ("del", ""), ("copy", ""), ("tagify", ""))), run_class,
              block=256),
        Space("mixed", f"all class/style call chains of length {d} on 4 kinds of tag",
              lambda: mixed_cases(d), run_mixed, block=64),
        Space("chars", "every Unicode scalar value in a token", lambda: chunks(256), run_chars,
              block=8),
        Space("css-chars", "every Unicode scalar value in a property name and a value",
              lambda: chunks(256), run_css_chars, block=8),
    ]
