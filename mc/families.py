"""Families of values that look alike, and operations that turn one value into text.

An implementation that remembers results under a key that does not determine them prints, for two
values with the same key, what it printed for the one that came first; executing a family in one
process forwards, and in another one backwards, makes that visible."""
from __future__ import annotations

import itertools
import unicodedata

import htmltools as ht
from htmltools import HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList, head_content, tags
from htmltools._jsx import jsx, jsx_tag_create

from . import real
from .common import METACHARS, NASTY

SRC = {"href": "https://h/p"}


def show(r):
    return r["html"] + "\n" + ";".join(repr(real.snap(d)) for d in r["dependencies"])


def urls(d):
    return "".join(repr(d.as_dict(lib_prefix=p, include_version=i)) for p in ("lib", None)
                   for i in (True, False))


def klass(v):
    t = tags.p(class_="a b").add_class(v).add_class("c", prepend=True)
    return str(t) + str(t.has_class(v)) + str(t.has_class("a")) + str(t.remove_class(v))


def setting(v):
    t = tags.p(x="0")
    t.attrs["x"] = v
    t.attrs.update({v: "1"}, y=v)
    return str(t) + repr(list(t.attrs.items()))


def local(v, **kw):
    return HTMLDependency("n", "1", source={"subdir": "s"}, **kw)


OPS = {
    "child": lambda v: str(tags.p(v)) + str(tags.p("a", v, tags.b(v))),
    "list": lambda v: str(TagList(v, v)) + TagList(v).get_html_string(2, "\r"),
    "html": lambda v: str(HTML(v)) + str(HTML(v) + v) + str(v + HTML(v)) + str(tags.p(HTML(v))),
    "attr": lambda v: str(tags.p(x=v)) + str(Tag("p", {"x": v}, {"x": HTML(v)})),
    "attr-name": lambda v: str(Tag("p", {v: "1", "k": "2"})) + repr(ht.consolidate_attrs({v: 1})),
    "attr-set": setting,
    "tag-name": lambda v: str(Tag(v, "a", tags.b())) + str(Tag(v)),
    "class": klass,
    "style": lambda v: str(tags.p(style="a:b;").add_style(v + ";", prepend=True)),
    "css": lambda v: str(ht.css(a=v)) + str(ht.css(**{v or "k": "1"})) + str(ht.css(v, a=1)),
    "escape": lambda v: ht.html_escape(v) + ht.html_escape(v, True),
    "script": lambda v: str(tags.script(v)) + str(tags.style(v, v)),
    "head": lambda v: head_content(v).name + head_content(HTML(v)).name,
    "doc": lambda v: show(HTMLDocument(v, lang=v, **{"class": v}).render()),
    "doc-head": lambda v: show(HTMLDocument(tags.html(tags.head(v), tags.body(v, x=v)), head_content(v)
                                            ).render()),
    "prefix": lambda v: show(HTMLDocument(local(v, script={"src": "a"})).render(lib_prefix=v)),
    "dep-name": lambda v: urls(HTMLDependency(v, "1", source={"subdir": "s"}, script={"src": "a"})) + show(
        HTMLDocument(HTMLDependency(v, "1"), HTMLDependency("a", "2")).render()),
    "dep-version": lambda v: urls(HTMLDependency("n", v, source={"subdir": "s"}, script={"src": "a"})),
    "dep-src": lambda v: urls(local(v, script={"src": v})),
    "dep-href": lambda v: urls(local(v, stylesheet={"href": v})),
    "dep-url": lambda v: urls(HTMLDependency("n", "1", source={"href": v}, script={"src": "a"})),
    "dep-url-src": lambda v: urls(HTMLDependency("n", "1", source=SRC, script={"src": v},
                                                 stylesheet={"href": v})),
    "dep-subdir": lambda v: urls(HTMLDependency("n", "1", source={"subdir": v}, script={"src": "a"})) +
    HTMLDependency("n", "1", source={"subdir": "/" + v}).source_path_map()["source"],
    "dep-meta": lambda v: str(HTMLDependency("n", "1", meta={"name": v, "content": v})),
    "dep-attr": lambda v: str(HTMLDependency("n", "1", source=SRC, script={"src": "a", "x": v},
                                             stylesheet={"href": "b", "media": v})),
    "dep-head": lambda v: str(HTMLDependency("n", "1", head=v).as_html_tags()),
    "dep-json": lambda v: str(HTMLDependency("n" + v, "1", head=v, meta={"name": v, "content": ""}
                                             ).serialize_to_script_json()),
    "text": lambda v: show(HTMLTextDocument("a<P>" + v + "<P>", [HTMLDependency("n", "1", head=v)],
                                            "<P>").render()),
    "text-deps": lambda v: show(HTMLTextDocument("<P>" + str(HTMLDependency(
        "n" + v, "1", meta={"name": v, "content": ""}).serialize_to_script_json()) + "z",
        deps_replace_pattern="<P>").render()),
    "eol": lambda v: tags.p(tags.i(), tags.div("x")).get_html_string(1, v),
    "jsx": lambda v: str(jsx_tag_create("C")(jsx(v), p=jsx(v))),
    "jsx-child": lambda v: str(jsx_tag_create("C")(v, tags.i(v, x=v))),
    "jsx-prop": lambda v: str(jsx_tag_create("C")(a=v, b=[v, {"k": v}], c={v: 1})),
    "jsx-name": lambda v: str(jsx_tag_create("C" + v)(v)),
    "jsx-prop-name": lambda v: str(jsx_tag_create("C")(**{v or "k": 1})),
    "jsx-style": lambda v: str(jsx_tag_create("C")(style="a:" + v)),
    "expand": lambda v: str(TagList(real.Expand(lambda: tags.i(v)))),
    "repr": lambda v: repr(HTML(v)) + repr(tags.p(v, x=v)) + TagList(v)._repr_html_(),
}


def distinct(xs):
    return list(dict.fromkeys(xs))


def strings(kind):
    if kind == "nasty":
        return distinct(NASTY)
    if kind == "suffixes":
        sf = ("", "?v=1", "?v=2", "#a", "#b", "&x", ";a", ";b", " b", " c", "/c", "/d", ".d", ".e", "-e",
              "-f", "_f", "_g", "=1", "=2", ":1", ":2", ",x", ",y", "<", ">", '"', "'", "\n", "\r", "\0",
              "é", "A", "B", "@1", "@2", "!", "$", "*", "+", "(1)", "[1]", "{x}", "|", "\\", "^", "`", "~",
              "%20", "%2F", "_", "__", "-", "--")
        return distinct(b + s for b in ("a", "a.js", "a/b", "") for s in sf) + distinct(
            s + b for b in ("b", "B") for s in sf)
    if kind == "case":
        out = ["".join(p) for p in itertools.product("aA", "bB", "cC")]
        out += ["ß", "ss", "SS", "ẞ", "ı", "i", "I", "İ", "K", "k", "K", "ſ", "s", "S", "ǅ", "ǆ", "Ǆ",
                "É", "é", "Σ", "σ", "ς", "fontSize", "fontsize", "FONTSIZE", "font-size", "font_size",
                "font size", "Div", "DIV", "div", "data-X", "data-x"]
        return out
    if kind == "space":
        sp = (" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x1c", "\x85", "\xa0", "\u2003", "\u2028", "\u3000",
              "\u200b", "\ufeff", "  ", " \n", "")
        return distinct(t for s in sp for t in ("a" + s + "b", s + "a", "a" + s, s + "a" + s, s, s + s))
    if kind == "unicode":
        base = ("é", "e\u0301", "Å", "\u212b", "ﬁ", "fi", "①", "1", "１", "½", "1⁄2", "한", "漢", "Ω",
                "\u2126", "\U0001f600", "\U0001f601", "\u200d", "a\u200db", "ab", "\u00ad", "Ａ", "A", "Α", "А",
                "\ud7ff", "\ue000", "\uffff", "\U0010ffff", "\x7f", "\x80", "a\u0308\u0323", "a\u0323\u0308")
        return distinct(f for b in base for f in (b, *(unicodedata.normalize(n, b) for n in (
            "NFC", "NFD", "NFKC", "NFKD")), "x" + b, b + "x"))
    if kind == "escapes":
        e = ("&", "<", ">", '"', "'", "\n", "/", " ", "\\")
        r = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;", "\n": "&#10;",
             "/": "%2F", " ": "%20", "\\": "\\\\"}
        out = []
        for a, b in itertools.product(e, repeat=2):
            out += [a + b, r[a] + b, a + r[b], r[a] + r[b], r[a].upper() + b, r[a].replace("&", "&amp;") + b,
                    f"&#{ord(a)};" + b, f"&#x{ord(a):x};" + b, f"\\u{ord(a):04x}" + b, f"%{ord(a):02X}" + b]
        return distinct(out)
    if kind == "numbers":
        return ["0", "1", "1.0", "1.0.0", "01", "1e0", "+1", "-1", "1.", ".1", "1_0", "10", "1,0", "0x1",
                "True", "true", "False", "None", "null", "nan", "NaN", "inf", "1+0j", "１", "¹", "1.10", "1.1",
                "1.01", "1.0a1", "1.0+a", "1.0+b", "1.0.post1", "1!1.0", "1.0rc1", "v1.0", "1.0-1", "1.9"]
    if kind == "versions":
        return ["".join(p) for p in itertools.product(("", "1!"), ("1", "1.0", "1.0.0", "01.1", "1.10", "1.1"), (
            "", "a1", "a0", "rc1"), ("", ".post1"), ("", ".dev0"), ("", "+a", "+b"))]
    if kind == "orders":
        return distinct("".join(p) for n in (1, 2, 3, 4) for p in itertools.product("ab ", repeat=n)) + \
            distinct("".join(p) for p in itertools.permutations("abcd"))
    if kind == "tails":
        out = []
        for n in (7, 8, 9, 10, 12, 15, 16, 19, 20, 24, 30, 31, 32, 40, 50, 60, 63, 64, 79, 80, 99, 100, 120, 127,
                  128, 199, 200, 255, 256, 300, 499, 500, 511, 512, 999, 1000, 1023, 1024, 2047, 2048, 4096):
            for c in ("a", "b", "<", ""):
                out += ["x" * n + c, c + "x" * n, "x" * (n // 2) + c + "x" * (n // 2)]
        return distinct(out)
    if kind == "urls":
        return distinct(s + p + t for s in ("", "/", "//", "./", "../", "http://h/", "https://h/", "file:///")
                        for p in ("", "a", "a/b", "A", "a//b", "a/./b", "b/../a") for t in ("", "/", "/."))
    if kind == "words2":
        return distinct("".join(p) for n in (0, 1, 2) for p in itertools.product(METACHARS, repeat=n))
    return distinct("".join(p) for n in (0, 1, 2, 3) for p in itertools.product(METACHARS, repeat=n))


FAMILIES = ("nasty", "suffixes", "case", "space", "unicode", "escapes", "numbers", "orders", "tails", "urls",
            "words2", "versions")


# ---- structured values: all combinations of field values ------------------------------------

def dep_ops():
    srcs = (None, {"subdir": "s"}, {"subdir": "t"}, {"href": "u"}, {"href": "u/"})
    items = ({}, {"src": "a"}, {"src": "b"}, {"src": "a", "x": "1"})
    for name, ver, src, sc, st, me, af, hd in itertools.product(
            ("n", "m"), ("1", "1.0"), srcs, items, (None, "c"), (None, "m"), (False, True), (None, "h", "<i>")):
        def make():
            return HTMLDependency(name, ver, source=src, script=[sc] if sc else [],
                                  stylesheet={"href": st} if st else [], all_files=af,
                                  meta={"name": me, "content": me} if me else [], head=hd)
        yield lambda make=make: urls(make()) if make().source else str(make())
        yield lambda make=make: str(make()) + repr(make()) + str(make().serialize_to_script_json())
        yield lambda make=make: show(HTMLDocument(make()).render(lib_prefix=None))
        yield lambda make=make: show(TagList(make(), "x").render())


def tag_ops():
    kids = ((), ("a",), ("b",), (HTML("a"),), ("a", "b"), ("ab",), (tags.i("a"),), (tags.p("a"),), (
        tags.i(), tags.i()), (HTMLDependency("d", "1"),), (1,), ("1",), ("", ""), (None, "a"))
    at = ({}, {"x": ""}, {"x": "a"}, {"y": "a"}, {"x": "a", "y": "a"}, {"y": "a", "x": "a"}, {"x": HTML("<")},
          {"x": "<"})
    for name, ws, a, k in itertools.product(("div", "b", "br", "script", "x-y"), (True, False), at, kids):
        def make():
            return Tag(name, a, *k, _add_ws=ws)
        yield lambda make=make: str(make())
        yield lambda make=make: make().get_html_string(1, "\n") + make().get_html_string(0, "")
        yield lambda make=make: str(Tag("p", "t", make(), make()))
        yield lambda make=make: show(HTMLDocument(make(), make()).render())
        yield lambda make=make: repr(make()) + str(make() == Tag("div", "a", _add_ws=True))


def doc_ops():
    bodies = (("a",), ("b",), (tags.p("a"),), (tags.body("a"),), (tags.html(tags.body("a")),), (
        tags.html(tags.head(tags.title("t")), tags.body("a")),), (head_content("h"), "a"), (
            head_content("g"), "a"), (HTMLDependency("d", "1", source={"subdir": "s"}, script={"src": "a"}),),
        (HTMLDependency("d", "2", source={"subdir": "s"}, script={"src": "a"}),), ())
    for b, kw, lp, iv in itertools.product(bodies, ({}, {"lang": "a"}, {"lang": "b"}, {"class_": "a"}), (
            "lib", "x", None), (True, False)):
        yield lambda b=b, kw=kw, lp=lp, iv=iv: show(HTMLDocument(*b, **kw).render(
            lib_prefix=lp, include_version=iv))
        yield lambda b=b, kw=kw: show(HTMLDocument(HTMLDocument(*b, **kw).render()["html"]).render())


def jsx_ops():
    ps = ({}, {"a": 1}, {"a": "1"}, {"a": 1.0}, {"a": True}, {"a": None}, {"a": [1]}, {"a": ("1",)},
          {"a": {"k": 1}}, {"a": jsx("1")}, {"b": 1}, {"a": 1, "b": 1}, {"b": 1, "a": 1}, {"style": "a:b"},
          {"style": {"a": "b"}}, {"a": tags.i("1")}, {"class_": "1"}, {"className": "1"})
    ks = ((), ("1",), (1,), (jsx("1"),), (tags.i("1"),), ("1", "1"), ("11",), (None,), (HTMLDependency(
        "d", "1"),), (HTMLDependency("d", "2"),))
    for n, p, k in itertools.product(("A", "B", "A.B"), ps, ks):
        yield lambda n=n, p=p, k=k: show(TagList(jsx_tag_create(n)(*k, **p)).render())
        yield lambda n=n, p=p, k=k: str(jsx_tag_create(n)(*k, jsx_tag_create("C")(*k, **p), **p))


def resolve_ops():
    one = [HTMLDependency(n, v, script={"src": f"{n}{v}.js"}) for n in "ab" for v in ("1.9", "1.10", "1.10.0",
                                                                                    "2")]
    for t in itertools.product(range(len(one)), repeat=3):
        yield lambda t=t: show(HTMLDocument(*[one[i] for i in t]).render())
        yield lambda t=t: repr([real.snap(d) for d in tags.p(*[one[i] for i in t]).get_dependencies()])


def css_ops():
    kv = (("a", "1"), ("a_b", "1"), ("aB", "1"), ("b", "1"), ("a", "2"), ("a", 1), ("a", None), ("b", HTML("1")))
    for t in itertools.product(kv, repeat=2):
        for sep in ("", "\n", ";"):
            yield lambda t=t, sep=sep: str(ht.css(sep, **dict(t)))
    toks = ("", "a", "b", "a b", "b a", "ab", "A", "a-b", "a  b")
    for x, y, z in itertools.product(toks, repeat=3):
        def run(x=x, y=y, z=z):
            t = tags.p(class_=x)
            t.add_class(y, prepend=z > "a")
            r = str(t) + str(t.has_class(z))
            return r + str(t.remove_class(z))
        yield run


STRUCTS = {"resolution": resolve_ops, "helpers": css_ops, "dependencies": dep_ops, "tags": tag_ops, "documents": doc_ops, "components": jsx_ops}


# ---- orders --------------------------------------------------------------------------------

def order(n, how):
    """Indices 0..n-1 in some order."""
    r = list(range(n))
    if how == "backward":
        r.reverse()
    elif how == "doubled":
        r = [i for j in r for i in (j, j)]
    elif how == "spread":
        step = next(s for s in (7919, 104729, 1299709) if n % s)
        r = [(i * step + n // 3) % n for i in r]
        r += [i for i in range(n) if i not in set(r)]
    elif how == "rotated":
        r = r[n // 2:] + r[:n // 2]
    return r


ORDERS = ("forward", "backward", "doubled", "spread", "rotated")
