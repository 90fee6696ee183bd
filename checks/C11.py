"""C11: HTMLDocument builds one head/body and hoists every dependency into head.

The model assembles the complete document as a tree: html/body selection, attributes, head
position, charset, user head content, listing script and the markup of every resolved dependency.
For all contents within the bound (given at construction or appended), settings and attributes the
real document must be that tree's markup, and the returned dependencies the resolved ones."""
import itertools
import posixpath
import re

from htmltools import HTMLDocument, TagList, head_content, tags
from mc import model as M
from mc import mutate
from mc import real
from mc.common import E, NASTY, SIZES, T
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "contents whose meaning is not specified are left out: a lone <html> or <body> next to "
    "metadata nodes only, an <html> with two <head> children",
    "file names and names need no URL or script escaping here (see C12, C13)",
    "layout white space and the spelling of character references are not this property's business")

KEY = "dependency-in-dependency-head"


# ---- model ---------------------------------------------------------------------------------

def items(v):
    if v is None:
        return []
    return [dict(x[1:]) for x in ([v] if v[0] == "dict" else v[1:])]


def dep_nodes(spec, lib_prefix, include_version):
    name, version = spec[0], spec[1]
    kw = dict(spec[2]) if len(spec) > 2 else {}
    src = dict(kw["source"][1:]) if "source" in kw else None
    if src is None:
        base = ""
    elif "href" in src:
        base = src["href"]
    else:
        base = name + (f"-{version}" if include_version else "")
        if lib_prefix:
            base = posixpath.join(lib_prefix, base)
    out = []
    for m in items(kw.get("meta")):
        out.append(E("meta", attrs=tuple(m.items())))
    for s in items(kw.get("stylesheet")):
        s = dict(s, href=posixpath.join(base, s["href"]))
        s.setdefault("rel", "stylesheet")
        out.append(E("link", attrs=tuple(s.items())))
    for s in items(kw.get("script")):
        s = dict(s, src=posixpath.join(base, s["src"]))
        out.append(E("script", attrs=tuple(s.items())))
    h = kw.get("head")
    if isinstance(h, str):
        out.append(("H", h))
    elif h is not None:
        out += {"taglist": h[1:], "html": (h,), "node": h[1:]}[h[0]] if h[0] != "html" else (
            ("H", h[1]),)
    return out


def resolved(kids):
    return M.resolve(M.collect(kids, "D"), lambda d: d[1][0], lambda d: d[1][1])


def assemble(content, attrs, lib_prefix="lib", include_version=True):
    """-> (html spec, resolved dependency nodes)"""
    if len(content) == 1 and content[0][0] == "E" and content[0][1] == "html":
        h = content[0]
        a = dict(h[3])
        a.update(attrs)
        kids = list(h[4])
        html = ("E", "html", h[2], tuple(a.items()))
    else:
        if len(content) == 1 and content[0][0] == "E" and content[0][1] == "body":
            body = content[0]
        else:
            body = E("body", *content)
        kids = [E("head"), body]
        html = ("E", "html", True, tuple(attrs.items()))
    deps = resolved(kids)
    i = next((i for i, k in enumerate(kids) if k[0] == "E" and k[1] == "head"), None)
    if i is None:
        kids.insert(0, E("head"))
        i = 0
    head = kids[i]
    new = [E("meta", attrs=(("charset", "utf-8"),)), *head[4]]
    if deps:
        new.append(E("script", T(";".join(f"{d[1][0]}[{d[1][1]}]" for d in deps)),
                     attrs=(("type", "application/html-dependencies"),)))
    for d in deps:
        new += dep_nodes(d[1], lib_prefix, include_version)
    kids[i] = head[:4] + (tuple(new),)
    return html + (tuple(kids),), deps


def specified(content):
    roots = [k for k in content if k[0] != "D" and k[0] != "M"]
    if len(content) > 1 and len(roots) == 1 and roots[0][0] == "E" and roots[0][1] in ("html",
                                                                                        "body"):
        return False
    if len(content) == 1 and content[0][0] == "E" and content[0][1] == "html":
        if sum(k[0] == "E" and k[1] == "head" for k in content[0][4]) > 1:
            return False
    return True


ATTRS = ((), (("lang", "en"),), (("class_", "k & \"q\""), ("data_x", "1"), ("lang", "de")),
         (("data_x", "a<"), ("lang", None), ("data-x", 2), ("hidden", True), ("id", False),
          ("data_x_", "c"), ("hidden_", "d")))


def merged(kw):
    """The attributes that keyword arguments denote."""
    out = {}
    for k, v in kw:
        if v is None or v is False:
            continue
        k, v = M.norm_name(k), "" if v is True else str(v)
        out[k] = f"{out[k]} {v}" if k in out else v
    return out
SETTINGS = ((), (("lib_prefix", None),), (("lib_prefix", "a/b"), ("include_version", False)),
            (("lib_prefix", ""), ("include_version", True)), (("include_version", False),))


def split_html(html, what):
    m = re.match(r"<!DOCTYPE html>\s*", html)
    if not m:
        raise Violation(f"{what}: does not start with the doctype: {html[:60]!r}")
    return html[m.end():]


def compare(d, content, objs, kw, settings, what, ctx, nested=False):
    """d: the real document; objs: real dependency objects in document order."""
    attrs = merged(kw)
    st = dict(settings)
    spec, deps = assemble(content, attrs, **st)
    r = d.render(**st)
    if set(r) != {"html", "dependencies"}:
        raise Violation(f"{what}: render() returned keys {sorted(r)!r}")
    out = split_html(r["html"], what)
    if not M.same_markup(out, (spec,)):
        raise Violation(f"{what}: document is\n{r['html']}\nwant\n{M.layout((spec,))}")
    nodes = M.collect(content, "D")
    want = [objs[next(i for i, n in enumerate(nodes) if n is x)] for x in deps]
    got = [real.snap(x) for x in r["dependencies"]]
    want = [real.snap(x) for x in want]
    if got != want:
        raise Violation(f"{what}: returned dependencies\n  {got!r}\nwant\n  {want!r}")
    ctx.step()
    return r["html"]


def uniq(kids):
    """Distinct node objects, so that positions can be told apart by identity."""
    out = []
    for x in kids:
        if x[0] == "D":
            x = ("D", tuple(x[1]), object())[:2]
        elif x[0] == "E":
            x = x[:4] + (uniq(x[4]),)
        else:
            x = tuple(x)
        out.append(x)
    return tuple(out)


def make(content, kw, split=None):
    """Real document; split: number of nodes given to the constructor, the rest appended."""
    objs = []
    nodes = real.kids(content, objs.append)
    attrs = dict(kw)
    if split is None:
        return HTMLDocument(*nodes, **attrs), objs
    d = HTMLDocument(*nodes[:split], **attrs)
    if split % 2 and nodes[split:]:
        d.append(*nodes[split:])
    else:
        for n in nodes[split:]:
            d.append(n)
    return d, objs


def run_doc(content, ctx, attrs=ATTRS[:2], settings=SETTINGS[:3]):
    content = uniq(content)
    first = None
    for kw in attrs:
        for st in settings:
            d, objs = make(content, kw)
            h = compare(d, content, objs, kw, st, f"{content!r} {dict(kw)} {dict(st)}", ctx)
            first = first or h
        # the same document rendered with several settings
        for st in reversed(settings):
            compare(d, content, objs, kw, st, f"{content!r} again", ctx)
    for n in range(len(content) + 1):
        d, objs = make(content, attrs[0], n)
        h = compare(d, content, objs, attrs[0], (), f"{content!r}, {n} at construction", ctx)
        if h != first:
            raise Violation(f"{content!r}: appending gives another document: {h!r} / {first!r}")
    objs = []
    d = HTMLDocument([real.kids(content, objs.append), None], TagList(), **dict(attrs[0]))
    if compare(d, content, objs, attrs[0], (), f"{content!r} as list", ctx) != first:
        raise Violation(f"{content!r}: given as a list, another document")
    ctx.state(content)
    ctx.outcome(first)
    ctx.trace()


def run_full(content, ctx):
    run_doc(content, ctx, ATTRS, SETTINGS)


# ---- contents ------------------------------------------------------------------------------

JS = ("script", ("dict", ("src", "a.js")))
D1 = ("D", ("d", "1.9", (("source", ("dict", ("subdir", "s"))), JS)))
D2 = ("D", ("d", "1.10", (("source", ("dict", ("subdir", "s"))), ("stylesheet", ("dict", (
    "href", "b.css"))), ("meta", ("dict", ("name", "n"), ("content", "c"))), JS)))
DE = ("D", ("e", "1", (("source", ("dict", ("href", "https://h/p"))),
                       ("script", ("list", ("dict", ("src", "x.js")), ("dict", ("src", "y/z.js"),
                                                                       ("async", "")))),
                       ("head", ("taglist", E("link"), T("h<"), ("H", "<!--c-->"))))))
DH = ("D", ("h", "0.0", (("head", "<style>p>q</style>"),)))
DB = ("D", ("bare", "2"))
TXT = T("t & u")
H, B, P, S = (M.elem(n, n != "span") for n in ("head", "body", "div", "span"))
HTML_ = M.elem("html", True, (("id", "i"),))
BODY_ = M.elem("body", True, (("class", "b"),))


def forest_cases(n, leaves, elems):
    for f in M.Forests(leaves, elems).upto(n):
        if specified(f):
            yield f


def html_cases(n, inner):
    """A lone <html> with all child lists up to n."""
    heads = [H(k) for j in range(3) for k in itertools.product(inner, repeat=j)]
    kinds = heads + [B(()), B((TXT, D2)), P((D1, S((TXT,)))), D1, DE, TXT]
    for k in range(0, n + 1):
        for kids in itertools.product(kinds if k < 3 else kinds[:2] + kinds[-6:], repeat=k):
            c = (HTML_(kids),)
            if specified(c):
                yield c


KWS = {
    "source": (None, ("dict", ("subdir", "s")), ("dict", ("href", "https://h/p/"))),
    "script": (None, ("dict", ("src", "a.js")), ("list",), ("list", ("dict", ("src", "a.js"), (
        "defer", "")), ("dict", ("type", "module"), ("src", "d/b.js")), ("dict", ("src", "a.js")))),
    "stylesheet": (None, ("dict", ("href", "a.css"), ("media", "p\"q")), ("list", ("dict", (
        "href", "a.css")), ("dict", ("href", "b.css")))),
    "meta": (None, ("dict", ("name", "n"), ("content", "a & 'b'")), ("list", ("dict", (
        "content", ""), ("name", "x")), ("dict", ("name", "x"), ("content", "<y>")))),
    "head": (None, "<x>&</x>", ("taglist", E("i"), T("a<b")), ("html", "<h/>"),
             ("node", E("title", T("t"))), ("taglist",), ("taglist", T("only")),
             ("taglist", E("script", T("a<b")), E("div", E("p", E("b"))), T("x")))}


def def_cases():
    for vals in itertools.product(*KWS.values()):
        yield tuple((k, v) for k, v in zip(KWS, vals) if v is not None)


def run_def(kw, ctx):
    """Every combination of dependency fields, in body, head and next to a second dependency."""
    d = ("D", ("q", "1.2.3", kw))
    for content in ((d,), (E("div", d, T("x")),), (HTML_((H((E("title"), d)), B((D1, d)))),),
                    (D2, E("p", d), T("z"), DH)):
        run_doc(content, ctx, ATTRS[:1], SETTINGS[:3])


def twin_cases(q):
    """Two dependencies of different names, with every equal / different / absent choice of fields."""
    cut = {"source": 2, "meta": 2} if q else {}
    half = [tuple((k, v) for k, v in zip(KWS, vals) if v is not None)
            for vals in itertools.product(*[v[:cut.get(k, 3)] for k, v in KWS.items()])]
    for a in half:
        for b in half:
            yield (a, b)


def run_twins(case, ctx):
    a, b = case
    content = uniq((("D", ("q", "1", a)), E("p", T("x"), ("D", ("r", "1", b)))))
    d, objs = make(content, ())
    compare(d, content, objs, (), (), f"{content!r}", ctx)
    ctx.state(case)
    ctx.trace()


def place_cases(n):
    """All sequences of up to n dependencies x places in an html tree."""
    pool = (D1, D2, DE, DH)
    for k in range(1, n + 1):
        for s in itertools.product(range(len(pool)), repeat=k):
            for places in itertools.product(range(5), repeat=k):
                slots = [[] for _ in range(5)]
                for i, p in zip(s, places):
                    slots[p].append(pool[i])
                yield (s, tuple(tuple(x) for x in slots))


def run_place(case, ctx):
    """Slots: html before head, in head, html between, in body, nested in body."""
    _, (a, b, c, d, e) = case
    head, body = E("head", E("title", T("T")), *b, E("style")), E("body", *d, E("p", T("x"), *e))
    content = (HTML_((*a, head, *c, body)),)
    run_doc(content, ctx, ATTRS[:1], SETTINGS[:2])
    if not a and not c:
        run_doc((E("body", *b, *d, E("p", *e)),), ctx, ATTRS[:1], SETTINGS[:1])
        run_doc((*b, T("t"), *d, E("p", E("b", *e))), ctx, ATTRS[:1], SETTINGS[:1])


def holder_cases():
    for name in M.HTML_NAMES:
        yield name


def run_holder(name, ctx):
    """Every element as (a part of) the content."""
    ws = name not in M.INLINE
    el = lambda *k: ("E", name, ws, (), k)
    for content in ((el(),), (el(D1),), (el(T("x"), D2), el(D1)), (HTML_((el(D1),)),),
                    (HTML_((H((el(D1), el())), B((el(D2),)))),), (B((el(D1),)),)):
        if specified(content):
            run_doc(content, ctx, ATTRS[:1], SETTINGS[:2])


DEP_NAMES = (
    "a", "A", "jquery", "@scope/pkg", "a/b", "b", "x.y", "x-y", "x_y", "x y", "1", "0", "-", "a;b",
    "a[1]", "a,b", "a:b", "a\\b", "a'b", 'a"b', "a&b", "a>b", "a=b", "é", "\u4e2d", "\U0001f600", "{n}",
    "%s", "\\1", "None", "head", "script", "a" * 100, " a", "a ", "a+b", "a#b", "a?b", "#", "..", ".")
DEP_VERSIONS = ("0", "1", "1.0", "1.0.0", "1.2rc1", "1.2.post3", "1.2.dev4", "2!1.0", "1.0+local.1",
                "2024.1.15", "10.0.0.0.1")


def depname_cases():
    for n in DEP_NAMES:
        for v in DEP_VERSIONS if n in ("a", "@scope/pkg") else DEP_VERSIONS[2:5:2]:
            for kind in ("subdir", "href", "bare"):
                yield (n, v, kind)
    for a in DEP_NAMES:
        for b in DEP_NAMES:
            if a != b:
                yield (a, "1.0", "subdir", b)


def run_depname(case, ctx):
    """Names and versions are listed as they are, also next to a similar name."""
    n, v, kind = case[:3]
    kw = (JS,) if kind == "bare" else (
        ("source", ("dict", (kind, "s" if kind == "subdir" else "https://h/p"))), JS)
    ds = (("D", (n, v, kw)),) + tuple(("D", (m, v, kw)) for m in case[3:])
    run_doc((*ds, T("x")), ctx, ATTRS[:1], SETTINGS[:3] if len(case) == 3 else SETTINGS[:1])
    run_doc((HTML_((H((E("title"), *ds)), B((E("p", *ds),)))),), ctx, ATTRS[:1], SETTINGS[:1])


HEAD_ATTRS = ((), (("charset", "utf-8"),), (("charset", "latin1"),), (("name", "viewport"), (
    "content", "x")), (("http-equiv", "Content-Type"), ("content", "text/html; charset=utf-8")),
    (("type", "application/html-dependencies"),), (("src", "a.js"), ("charset", "utf-8")),
    (("rel", "stylesheet"), ("href", "lib/d-1.9/a.js")), (("id", "head"),), (("data-x", ""),))
HEAD_ELEMS = ("meta", "script", "link", "title", "style", "base", "template", "noscript", "div",
              "head", "html", "body", "custom-el")


def head_cases():
    one = []
    for el in HEAD_ELEMS:
        for a in HEAD_ATTRS:
            for kid in ((), (T("d[1.9]"),)):
                one.append(("E", el, True, a, kid))
    for x in one:
        for k in range(3):
            yield (x, k)


def run_head(case, ctx):
    """The user's head content, whatever it is, stays behind the charset and before the hoisted."""
    x, k = case
    kids = ((x,), (E("title", T("t")), x, D1), (T("a"), D2, x, x))[k]
    run_doc((HTML_((H(kids), B((T("y"), D2)))),), ctx, ATTRS[:1], SETTINGS[:1])
    run_doc((HTML_((T("z"), H(kids))),), ctx, ATTRS[:1], SETTINGS[:1])
    run_doc((B(kids),), ctx, ATTRS[:1], SETTINGS[:1])


HTML_ATTRS = (("id", "a"), ("lang", "en"), ("class_", "c d"), ("style", "x:y;"), ("dir", "rtl"),
              ("data_id", "i"), ("hidden", True), ("title", None), ("html", "h"), ("xmlns", "http://w"))


def html_attr_cases(n):
    for k in range(1, n + 1):
        for names in itertools.permutations(range(len(HTML_ATTRS)), k):
            yield names


def run_html_attrs(names, ctx):
    """Attributes of the document in every order, also next to those of the user's own tags."""
    kw = tuple(HTML_ATTRS[i] for i in names)
    own = tuple((M.norm_name(k), v if isinstance(v, str) else "") for k, v in kw if v is not None)
    for content in ((T("t"), D1), (E("body", T("x"), attrs=own[::-1]),),
                    (E("html", E("body", T("x")), attrs=own[::-1]),),
                    (E("html", E("head", D1, attrs=own), E("body", attrs=own[1:]), attrs=own[:1]),)):
        content = uniq(content)
        d, objs = make(content, kw)
        compare(d, content, objs, kw, (), f"{content!r} {kw!r}", ctx)
    ctx.state(names)
    ctx.trace()


def inline_cases(n):
    elems = (M.elem("i", False), M.elem("head", False), M.elem("body", False), M.elem("b", False))
    for f in M.Forests((T("t"), ("H", "<u>"), D1), elems).upto(n):
        yield f


def run_inline(kids, ctx):
    """Inline content is found in the document as it is rendered on its own, whatever tag holds it."""
    for name in ("body", "div", "html", "head"):
        for attrs in ((), (("id", "i"), ("class", "c"))):
            spec = E(name, *kids, ws=False, attrs=attrs)
            for hold in (lambda x: (x,), lambda x: (x, "y"), lambda x: (tags.html(x),),
                         lambda x: (tags.body(x),), lambda x: (tags.body("z", x, _add_ws=False),)):
                x = real.build(spec)
                doc = HTMLDocument(*hold(x)).render()["html"]
                if name == "html" and hold(x) != (x,) or name == "head":
                    # becomes (or might become) the document's own
                    want = [str(c) for c in x.children if hasattr(c, "add_ws")] if name == "html" else []
                elif name == "html":
                    want = [str(c) for c in x.children if hasattr(c, "add_ws") and c.name != "head"]
                else:
                    want = [str(x)]
                for w in want:
                    if w not in doc:
                        raise Violation(f"{spec!r}: {w!r} does not appear in\n{doc}")
                ctx.step()
    ctx.state(kids)
    ctx.trace()


# ---- histories -----------------------------------------------------------------------------

HIST = ("append:dep", "append:div", "append:html", "append:body", "append:none", "append:list",
        "render", "render2", "tag+dep", "tag+text", "tag+head", "head+", "copy")
STARTS = ("div", "html", "body", "")


def run_history(case, ctx):
    """Append to the document, change the user's own tags, render in between."""
    start, ops = case
    objs = []
    tag = real.build(E(start or "div", T("u")))
    d = HTMLDocument(*[tag] if start else [], lang="x")
    content = [("u",)] if start else []
    ukids = [T("u")]
    n = 0
    for op in ops:
        n += 1
        what = op[7:]
        if op == "append:none":
            d.append(None, [])
        elif op.startswith("append:"):
            specs = {"dep": [("D", (f"n{n % 2}", f"1.{n}", (JS,)))], "div": [E("div", E("b"), T("x"))],
                     "html": [E("html", E("head"), E("body", T("y")))], "body": [E("body", T("y"))],
                     "list": [T("a"), ("D", ("l", f"1.{n}")), E("i")]}[what]
            nodes = [real.build(s) for s in specs]
            d.append(nodes if what == "list" else nodes[0])
            content += specs
            objs += zip(specs, nodes)
        elif op == "tag+dep":
            s = ("D", ("t", f"{n}", (JS,)))
            o = real.build(s)
            tag.append(o)
            ukids.append(s)
            objs.append((s, o))
        elif op == "tag+text":
            tag.insert(0, f"v{n}")
            ukids.insert(0, T(f"v{n}"))
        elif op == "tag+head":
            s = E("head", T(f"h{n}"))
            tag.append(real.build(s))
            ukids.append(s)
        elif op == "head+":
            s = ("D", ("hc", "0.1", (("head", ("taglist", E("meta"))),)))
            o = real.build(s)
            d.append(o)
            content.append(s)
            objs.append((s, o))
        elif op == "copy":
            import copy
            d = copy.copy(d)
        real_content = tuple(E(start, *ukids) if c == ("u",) else c for c in content)
        if not specified(real_content):
            continue
        if op.startswith("render") or n == len(ops):
            st = (("lib_prefix", None),) if op == "render2" else ()
            nodes = M.collect(real_content, "D")
            os_ = [next(o for s, o in objs if s is x) for x in nodes]
            compare(d, real_content, os_, (("lang", "x"),), st, f"after {ops[:n]}", ctx)
    ctx.state(real_content)
    ctx.trace()


def size_cases():
    for n in SIZES:
        for kind in ("deps", "deep", "wide", "head", "scripts", "metas", "same", "attrs", "append",
                     "longname"):
            if kind != "deep" or n <= 129:
                yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    kw = ()
    dn = lambda i, v="1": ("D", (f"d{i}", v, (JS, ("source", ("dict", ("subdir", "s"))))))
    if kind == "deps":
        content = tuple(dn((i * 7) % 1009) for i in range(n))
    elif kind == "deep":
        content = (D1,)
        for i in range(n):
            content = (E("div", dn(i), *content),)
    elif kind == "wide":
        content = tuple(E("p", T(str(i)), dn(i % 3, f"{i}")) for i in range(n))
    elif kind == "head":
        content = (HTML_((H(tuple(E("meta", attrs=(("n", str(i)),)) for i in range(n)) + (D1,)),
                          B((D2,)))),)
    elif kind == "scripts":
        content = (("D", ("q", "1", (("script", ("list",) + tuple(
            ("dict", ("src", f"{i}.js")) for i in range(n))),))),)
    elif kind == "metas":
        content = (("D", ("q", "1", (("meta", ("list",) + tuple(
            ("dict", ("name", f"{i}"), ("content", "c")) for i in range(n))), ("stylesheet", (
                "list",) + tuple(("dict", ("href", f"{i}.css")) for i in range(n)))))),)
    elif kind == "same":
        content = (D1,) * n + (D2,) * n + (DH,) * n
    elif kind == "attrs":
        content = (T("x"),)
        kw = tuple((f"a{i}", str(i)) for i in range(n))
    elif kind == "longname":
        content = (("D", ("n" * n, "1." + "0" * 0 + "9", (("head", "<x>" * n),))), T("y" * n))
    else:
        content = uniq(tuple(T(str(i)) if i % 2 else dn(i) for i in range(n)))
        d, objs = make(content, (), 0)
        compare(d, content, objs, (), (), f"{case}", ctx)
        ctx.state(case)
        ctx.trace()
        return
    content = uniq(content)
    d, objs = make(content, kw)
    compare(d, content, objs, kw, (), f"{case}", ctx)
    ctx.state(case)
    ctx.trace()


# ---- head_content --------------------------------------------------------------------------

HC = (("a",), (E("title", T("x & y")),), (("H", "<m>"),), (E("i"), E("b")), (), ("a<", "b"),
      (E("script", T("a<b")),))


def run_hc(case, ctx):
    """head_content() payloads: each different content once, in order of first occurrence, after
    the listing; the body is not affected."""
    def obj(i):
        return head_content(*[x if isinstance(x, str) else real.build(x) for x in HC[i]])

    def nodes(i):
        return [T(x) if isinstance(x, str) else x for x in HC[i]]

    ds = [obj(i) for i in case]
    order = list(dict.fromkeys(case))
    names = [ds[case.index(i)].name + "[" + str(ds[case.index(i)].version) + "]" for i in order]
    listing = [E("script", T(";".join(names)), attrs=(("type", "application/html-dependencies"),))]
    meta = E("meta", attrs=(("charset", "utf-8"),))
    heads = [n for i in order for n in nodes(i)]
    for content, spec in (
            ([*ds], E("html", E("head", meta, *listing, *heads), E("body"))),
            ([real.build(E("p", T("z"))), *ds], E("html", E("head", meta, *listing, *heads), E(
                "body", E("p", T("z"))))),
            ([TagList(*[[d, "t"] for d in ds])], E("html", E("head", meta, *listing, *heads), E(
                "body", *[T("t") for _ in ds])))):
        out = split_html(HTMLDocument(*content).render()["html"], f"{case}")
        if not M.same_markup(out, (spec,)):
            raise Violation(f"{case}: document is\n{out}\nwant\n{M.layout((spec,))}")
        ctx.step()
    ctx.state(case)
    ctx.trace()


# ---- dependencies nested in a dependency's head (known finding) ----------------------------

def nested_cases():
    inner = (D1, D2, DB, DE)
    for i in range(len(inner)):
        for outer in ("first", "alone", "two", "deep"):
            for also in (False, True):
                yield (i, outer, also)


def run_nested(case, ctx):
    """A dependency inside the head of another one: the returned list, the listing and the markup
    must agree on it."""
    i, outer, also = case
    node = (D1, D2, DB, DE)[i]
    inner = real.build(node)
    payload = {"first": [inner, real.build(E("i"))], "alone": [inner], "two": [
        real.build(E("i")), inner, real.build(DH)], "deep": [real.build(E("p"))]}[
            outer]
    if outer == "deep":
        payload[0].append("x", inner)
    od = real.dep(("outer", "1"))
    od.head = TagList(*payload)
    d = HTMLDocument(od, "t", *([real.build(node)] if also else []))
    r = d.render()
    returned = [f"{x.name}[{x.version}]" for x in r["dependencies"]]
    m = re.search(r'<script type="application/html-dependencies">(.*?)</script>', r["html"])
    listed = m.group(1).split(";") if m else []
    ctx.step()
    ctx.state(case)
    if returned != listed:
        # The known finding is exactly this: the nested ones are not listed, and they are returned
        # as if they had been placed in the document's head.
        label = lambda ns: [f"{n[1][0]}[{n[1][1]}]" for n in M.resolve(
            ns, lambda d: d[1][0], lambda d: d[1][1])]
        nested = [node, DH] if outer == "two" else [node]
        own = [("D", ("outer", "1"))] + ([node] if also else [])
        known = listed == label(own) and returned == label(nested + own)
        raise Violation(f"{case}: returned {returned!r}, listed {listed!r}",
                        key=KEY if known else None)
    ctx.trace()


MUT = [o for o in mutate.all_ops() if o[1][0] not in ("ws", "class0", "update", "insert-1")] + [
    ("R", ("name", "html")), ("R", ("name", "body")), ("A", ("name", "head")),
    ("A", ("name", "body")), ("B", ("name", "html"))]


def run_mut(case, ctx):
    docs = {}

    def look(root, kids, what, ctx):
        kids = uniq(kids)
        if not specified(kids):
            return
        fresh = HTMLDocument(*root) if isinstance(root, TagList) else HTMLDocument(root)
        kept = []
        if not isinstance(root, TagList):
            kept = [docs.setdefault(id(root), (root, fresh))[1]]
        for d in [fresh] + kept[:kept != [fresh]]:
            compare(d, kids, root.get_dependencies(dedup=False), (), (), what, ctx)
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    mixed = (D1, D2, TXT, DH)
    return [
        Space("mutations", f"all histories of 2 operations"
              f"{'' if q else ' and of 3 over a reduced set'} on 2-4 documents, rendered "
              "after each", lambda: itertools.chain(
                  mutate.cases(2, MUT, (0, 1) if q else range(mutate.NSTARTS)), () if q else mutate.cases(3, mutate.few_ops())), run_mut,
              block=64),
        Space("nested", "a dependency inside the head of another dependency, 4 positions",
              nested_cases, run_nested),
        Space("definitions", "every combination of dependency fields x 4 contents", def_cases,
              run_def, block=2),
        Space("twins", "two dependencies x every choice of fields for either", lambda: twin_cases(q),
              run_twins, block=128),
        Space("dep-names", f"{len(DEP_NAMES)} names x versions x sources; all pairs of names",
              depname_cases, run_depname, block=4),
        Space("heads", f"{len(HEAD_ELEMS)} elements x {len(HEAD_ATTRS)} attribute sets in the user's "
              "head and body", head_cases, run_head, block=4),
        Space("html-attrs", f"all sequences of up to {3 if q else 4} of {len(HTML_ATTRS)} attributes x 4 "
              "contents", lambda: html_attr_cases(3 if q else 4), run_html_attrs, block=16),
        Space("inline", f"all inline contents of up to {3 if q else 4} nodes x 4 tags x 5 places",
              lambda: inline_cases(3 if q else 4), run_inline, block=16),
        Space("head-content", "all sequences up to 3 of 7 head_content() payloads", lambda: (
            c for n in (1, 2, 3) for c in itertools.product(range(len(HC)), repeat=n)), run_hc),
        Space("elements", "every element in 6 contents", holder_cases, run_holder, block=1),
        Space("sizes", "numbers of dependencies, items, attributes, appended nodes; depths",
              size_cases, run_size, block=1),
        Space("roots", "small contents x all attributes x all settings x all splits",
              lambda: forest_cases(2, (D1, DE, TXT, ("H", "<b>"), DH),
                                   (HTML_, BODY_, H, P, S)), run_full, block=2),
        Space("html", f"a lone <html> with all child lists up to {2 if q else 3} (heads with up to "
              "2 children)", lambda: html_cases(2 if q else 3, (TXT, D2, E("title"), DE)), run_doc,
              block=8),
        Space("places", f"all sequences up to {2 if q else 3} of 4 dependencies x 5 places",
              lambda: place_cases(2 if q else 3), run_place, block=8),
        Space("histories", f"all histories up to {3 if q else 4} of {len(HIST)} operations on 4 "
              "documents", lambda: ((s, h) for n in range(1, 4 if q else 5) for s in STARTS
                                    for h in itertools.product(HIST, repeat=n)),
              run_history, block=32),
        Space("forests", f"all forests up to {3 if q else 4} nodes over 3 leaves, html, body, head, "
              "div", lambda: forest_cases(3 if q else 4, (D1, D2, TXT), (HTML_, B, H, P)),
              run_doc, block=8),
        Space("forests-div", f"all forests up to {4 if q else 5} nodes in the body",
              lambda: forest_cases(4 if q else 5, (D1, D2, TXT), (P, S)),
              run_doc, block=8),
        Space("strings", "text and attribute values", lambda: iter(NASTY), lambda s, ctx: run_doc(
            (E("p", T(s), D1, attrs=(("x", s),)),), ctx, ((("lang", s),),), SETTINGS[:1])),
    ]
