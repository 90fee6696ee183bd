"""A fixed battery of constructions and renderings.  Each task builds everything it needs and returns
text.  Run as a script, prints {task: text} as JSON (used in processes with other hash seeds)."""
from __future__ import annotations

import functools
import hashlib
import json
import sys

import htmltools as ht
from htmltools import HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList, head_content, tags
from htmltools._jsx import jsx, jsx_tag_create

from . import model as M
from . import real

WORDS = [f"w{i}" for i in range(24)]


def show(r):
    return r["html"] + "\n" + ";".join(repr(real.snap(d)) for d in r["dependencies"])


def dep(name, version="1.0", **kw):
    return HTMLDependency(name, version, source={"href": "https://h/" + name},
                          script={"src": name + ".js"}, **kw)


def many(n, m=5):
    return [dep(f"d{i * 7 % m}", f"1.{i * 11 % 13}") for i in range(n)]


def tree(*extra):
    return tags.div({"class": "a b"}, tags.span("x", HTML("<i>")), *extra, tags.p("y", tags.b("z")),
                    id="i", class_="c")


def hc(n):
    return [head_content(tags.title(f"t{i % 7}"), f"s{i}") for i in range(n)]


def component(*kids, **props):
    return jsx_tag_create("Foo.Bar")(*kids, **props)


def json_mode(f):
    old = ht.html_dependency_render_mode
    ht.html_dependency_render_mode = "json"
    try:
        return f()
    finally:
        ht.html_dependency_render_mode = old


def text_document():
    ds = many(12)
    t = "".join(f"<p>{d.serialize_to_script_json()}</p>" for d in ds + ds[::2])
    return show(HTMLTextDocument("<PH>" + t, deps=[dep("first")], deps_replace_pattern="<PH>").render())


def classes():
    t = tags.div(class_=" ".join(WORDS))
    for w in WORDS[::2]:
        t.add_class(w.upper(), prepend=w in ("w4", "w8"))
    for w in WORDS[::3]:
        t.remove_class(w)
    t.add_style("a: b;").add_style("c: d;", prepend=True)
    return str(t) + str([t.has_class(w) for w in WORDS])


def shared():
    s = tags.i("s", dep("s"))
    a, b = tags.div(s, s), tags.p(s, dep("s", "2"))
    return show(TagList(a, b, a).render()) + show(HTMLDocument(b, a).render())


def attrs():
    d = {f"k{i}": f"v{i}" for i in range(30)}
    a, kids = ht.consolidate_attrs({"class": "x"}, "c", d, class_="y", **{f"data_{i}": str(i) for i in
                                                                         range(20)})
    return str(Tag("div", d, *kids, a, style="x:y")) + repr(dict(a))


def with_blocks():
    got = []
    keep, sys.displayhook = sys.displayhook, got.append
    try:
        with tags.div() as _:
            sys.displayhook("a")
            with tags.span():
                sys.displayhook(dep("w"))
    finally:
        sys.displayhook = keep
    return show(TagList(*got).render())


def forest(n, leaves, elems):
    out = []
    for f in M.Forests(leaves, elems).upto(n):
        out.append(show(HTMLDocument(*real.kids(f)).render()))
    return "\n".join(out)


DL = [("D", (c, v)) for c in "xyz" for v in ("1", "2")]

TASKS = {
    "tree": lambda: str(tree()),
    "tree-indent": lambda: str(tree().get_html_string(3, "\r\n")),
    "taglist": lambda: str(TagList(tree(), "t", 1, HTML("&"), [tags.br(), None])),
    "tree-deps": lambda: show(tree(*many(20)).render()),
    "doc": lambda: show(HTMLDocument(tree()).render()),
    "doc-attrs": lambda: show(HTMLDocument("x", lang="en", class_="k").render()),
    "doc-deps": lambda: show(HTMLDocument(tree(*many(25)), many(4, 2)).render()),
    "doc-deps-rev": lambda: show(HTMLDocument(tree(*many(25)[::-1])).render()),
    "doc-noversion": lambda: show(HTMLDocument(tree(*many(5))).render(lib_prefix=None,
                                                                      include_version=False)),
    "doc-html": lambda: show(HTMLDocument(tags.html(tags.head(tags.title("t"), *many(3)), tags.body(
        tree(dep("k"))), lang="x"), lang="y").render()),
    "doc-body": lambda: show(HTMLDocument(tags.body(tree(dep("k")))).render()),
    "doc-hc": lambda: show(HTMLDocument(*hc(20)).render()),
    "doc-hc-rev": lambda: show(HTMLDocument(*hc(20)[::-1], tree()).render()),
    "hc-names": lambda: " ".join(d.name for d in hc(40)),
    "hc-same": lambda: head_content("a").name + head_content(TagList("a")).name + head_content(
        HTML("a")).name,
    "deps-nodedup": lambda: repr([real.snap(d) for d in tree(*many(20)).get_dependencies(
        dedup=False)]),
    "deps": lambda: repr([real.snap(d) for d in tree(*many(40, 17)).get_dependencies()]),
    "dep-str": lambda: str(dep("q", meta={"name": "n", "content": "c"}, head=tags.i("h"))),
    "dep-json": lambda: str(dep("q", meta=[{"name": "n", "content": "</script>"}], head=tags.i("h")
                                ).serialize_to_script_json(indent=2)),
    "dep-dict": lambda: repr(dep("q", stylesheet={"href": "a b.css", "media": "m"}).as_dict()),
    "dep-version-1.0": lambda: str(HTMLDependency("v", "1.0", head="x").version) + show(
        HTMLDocument(HTMLDependency("v", "1.0")).render()),
    "dep-version-1.0.0": lambda: show(HTMLDocument(HTMLDependency("v", "1.0.0")).render()),
    "json-mode": lambda: json_mode(lambda: str(tree(*many(20))) + str(TagList(*many(3)))),
    "json-mode-error": lambda: json_mode_error(),
    "text-document": text_document,
    "text-document-plain": lambda: show(HTMLTextDocument("a<PH>b", deps_replace_pattern="<PH>").render(
        )),
    "jsx": lambda: show(TagList(component(
        "k", tags.i(1, dep("in")), component("n", dep("in2")), a=1, b=True, c=[1, "x", None],
        d={"k": 1.5}, style={"a": "b"}, e=jsx("f()"), t=tags.b(dep("prop")))).render()),
    "jsx-deps": lambda: show(TagList(component(*many(20), x=tags.i(*many(3)))).render()),
    "jsx-allowed": lambda: str(jsx_tag_create("A", allowedProps=WORDS)(**{w: 1 for w in WORDS})),
    "jsx-error": lambda: error(lambda: jsx_tag_create("A", allowedProps=WORDS)(nope=1)),
    "classes": classes,
    "attrs": attrs,
    "shared": shared,
    "expand": lambda: show(TagList(real.Expand(lambda: TagList(tags.i(dep("e")), dep("f")))).render()),
    "with": with_blocks,
    "repr": lambda: repr(HTML("a")) + repr(dep("a")) + tree()._repr_html_(),
    "escape": lambda: str(tags.p("<&>\"'", "plain", title="<&>\"'\n", data_x=HTML("<&>"))),
    "script": lambda: str(tags.script("a<b")) + str(tags.style("a>b", "c")) + str(tags.p("a<b")),
    "svg": lambda: str(ht.svg.svg(ht.svg.circle(cx=1, cy=2.5), ht.svg.g(True), viewBox="0 0 1 1")),
    "css": lambda: str(ht.css(**{f"a{i}_b": i for i in range(20)})),
    "eq": lambda: str([tree() == tree(), tree(dep("a")) == tree(dep("a")), TagList("a") == TagList(
        HTML("b")), dep("a") == dep("a", "2")]),
    "catalogue": lambda: "".join(str(getattr(tags, n)("t", class_="c")) for n in M.TAGS_CATALOGUE),
    "forests": lambda: forest(3, DL[:4] + [("T", "t")], (M.elem("div", True), M.elem("span", False))),
    "forest-deps": lambda: forest(3, DL, ()),
    "error-render": lambda: error(lambda: real.Expand(lambda: 1) and TagList(real.Expand(
        lambda: tags.i())).get_html_string()),
    "error-attr": lambda: error(lambda: tags.div(class_=object())) + error(lambda: tags.div({1})),
}


SIZED = {
    "head": lambda n: head_content("x" * n).name + head_content(*["y"] * min(n, 2000)).name,
    "text": lambda n: str(tags.p("<a" * n, "b" * n)),
    "attr": lambda n: str(tags.p(title="<a\"" * n, **{"k" * n: "1"})),
    "attrs": lambda n: str(tags.p({f"a{i}": i for i in range(min(n, 3000))})),
    "classes": lambda n: str(tags.p(class_=" ".join(f"c{i % 97}" for i in range(n))).add_class(
        "q").remove_class("c3")),
    "kids": lambda n: str(TagList(*[(f"t{i}", tags.b(i))[i % 2] for i in range(min(n, 2000))])),
    "deps": lambda n: show(HTMLDocument(*[HTMLDependency(f"d{i * 7 % 61}-{'z' * (n % 50)}", f"{i}")
                                          for i in range(min(n, 600))]).render()),
    "name": lambda n: show(HTMLDocument(dep("n" * n), head_content("h" * n)).render()),
    "json": lambda n: str(dep("q", head="<h>" * n).serialize_to_script_json()),
    "jsx": lambda n: str(TagList(component("s" * n, p=["x" * n], **{"p" * n: 1}))),
    "css": lambda n: str(ht.css(**{"k" * n: "v" * n})),
    "version": lambda n: show(HTMLDocument(HTMLDependency("v", "1" * n), HTMLDependency(
        "v", "1" * n + ".0")).render()),
}


def sized(kind):
    from .common import BIG_SIZES, SIZES
    out = []
    for n in SIZES + BIG_SIZES[:15]:
        if n > 3000 and kind in ("version", "classes", "attrs", "kids", "deps"):
            break
        s = outcome(SIZED[kind], n)
        out.append(f"{n}:{hashlib.md5(s.encode()).hexdigest()}")
    return " ".join(out)


def characters():
    from .common import chunks, scalars
    out = []
    for a, b in chunks(256):
        s = "".join(scalars(a, b))
        if s:
            r = str(tags.p(s, title=s)) + head_content(s).name + str(jsx(s))
            out.append(f"{a}:{hashlib.md5(r.encode()).hexdigest()[:12]}")
    return " ".join(out)


def saved():
    """The files that saving writes, byte by byte."""
    import os
    import tempfile
    out = []
    keep = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(d + "/src")
        for n in ("a.js", "b c.css", "%.css"):
            with open(f"{d}/src/{n}", "wb") as f:
                f.write(n.encode() + b"\r\n\xff")
        x = HTMLDependency("n", "1", source={"subdir": d + "/src"}, script={"src": "a.js"},
                           stylesheet=[{"href": "b c.css"}, {"href": "%.css"}])
        os.chdir(d)
        try:
            for i, c in enumerate((tags.p("\u00e9\u4e2d\U0001f600", x, title="\u00e4"), TagList("a", x),
                                   HTMLDocument("\u20ac", x, head_content(tags.title("\u0416"))))):
                c.save_html(f"{i}.html", libdir=f"lib{i}")
            for r, ds, fs in sorted(os.walk("."), key=lambda e: e[0]):
                for n in sorted(fs):
                    with open(os.path.join(r, n), "rb") as f:
                        out.append(f"{r}/{n}:{f.read().hex()}")
        finally:
            os.chdir(keep)
    return "\n".join(out)


TASKS["characters"] = characters
TASKS["saved"] = saved
for _k in SIZED:
    TASKS["sized-" + _k] = functools.partial(sized, _k)


def error(f):
    try:
        return "no error: " + str(f())
    except Exception as e:
        return type(e).__name__


def json_mode_error():
    return json_mode(lambda: error(lambda: str(TagList(Broken()))))


class Broken:
    def tagify(self):
        raise KeyError("x")


# ---- operations on values that compare equal although they are different --------------------

VALS = {"'1'": lambda: "1", "HTML('1')": lambda: HTML("1"), "1": lambda: 1, "1.0": lambda: 1.0,
        "True": lambda: True, "False": lambda: False, "0": lambda: 0, "'True'": lambda: "True",
        "HTML('<1>')": lambda: HTML("<1>"), "'<1>'": lambda: "<1>", "None": lambda: None,
        "''": lambda: "", "HTML('')": lambda: HTML(""), "2": lambda: 2, "StrSub": lambda: Sub("<1>"),
        "'1 '": lambda: "1 "}


class Sub(str):
    pass


VERS = ("1.0", "1.0.0", "1", "v1.0", "1.0a0", "1.1")
OPS = {
    "child": lambda v: str(tags.div(v)),
    "list": lambda v: str(TagList(v, tags.b(v))),
    "attr": lambda v: str(tags.div(x=v)),
    "attr-dict": lambda v: str(tags.div({"x": v}, {"x": v}, y="z")),
    "class": lambda v: str(tags.div(class_=v).add_class("q")),
    "attrs-update": lambda v: upd(v),
    "css": lambda v: str(ht.css(a=v, b=1)),
    "prop": lambda v: str(TagList(component(v, a=v, b=[v, {"k": v}]))),
    "prop-style": lambda v: str(TagList(component(style={"a": v}))),
    "head": lambda v: head_content(v).name + str(HTMLDocument(head_content(v), v, x=v).render()["html"]),
    "dep-attr": lambda v: str(HTMLDependency("n", "1", script={"src": "a", "x": v})),
    "dep-head": lambda v: str(HTMLDependency("n", "1", head=v)),
    "escape": lambda v: str(tags.p(v, title=v)) + str(tags.script(v)),
    "html": lambda v: str(HTML(v) + "<") + str(HTML("<") + (v if isinstance(v, str) else str(v))),
    "jsx": lambda v: str(TagList(component(jsx(str(v)), str(v)))),
    "add_ws": lambda v: str(Tag("div", "a", tags.p(), _add_ws=v is not None and bool(v))),
    "expand": lambda v: str(TagList(real.Expand(lambda: TagList(v)))),
    "doc": lambda v: show(HTMLDocument(tags.body(v, x=v), y=v).render()),
    "text": lambda v: show(HTMLTextDocument(f"<P>{v}", deps=[dep(str(v))], deps_replace_pattern="<P>"
                                            ).render()),
    "eq": lambda v: str([tags.i(v) == tags.i("1"), tags.i(x=v) == tags.i(x="1")]),
}


def upd(v):
    t = tags.div(x="0")
    t.attrs.update(x=v)
    t.attrs.update({"y": v}, z=v)
    return str(t)


def op(case):
    kind, v = case
    if kind == "version":
        d = HTMLDependency("v", v, script={"src": "a"})
        return show(HTMLDocument(d, HTMLDependency("v", "0.9")).render()) + str(
            d.serialize_to_script_json())
    return OPS[kind](VALS[v]())


def op_values(kind):
    return VERS if kind == "version" else tuple(VALS)


def outcome(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return f"{type(e).__name__}"


def main():
    order = sys.argv[1:]
    names = list(TASKS)
    if order == ["reversed"]:
        names.reverse()
    out = {}
    for n in names:
        out[n] = outcome(TASKS[n])
    for k in (*OPS, "version"):
        for v in op_values(k):
            out[f"{k}:{v}"] = outcome(op, (k, v))
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
