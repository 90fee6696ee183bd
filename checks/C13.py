"""C13: serialised dependencies round-trip through HTML text.

The model knows, for a text made of fragments and serialised dependencies, which dependencies must be
recovered, what the text without them is and where the first placeholder is.  All strings over the
alphabet in every field, all fragment sequences, placeholders and contents within the bounds are
executed with the real serialiser, HTMLTextDocument and JSON mode, and compared with it."""
import copy
import itertools
import re
import sys
import types

import htmltools
from htmltools import HTML, HTMLDocument, HTMLTextDocument, TagList, div, tags
from checks.C11 import assemble, dep_nodes, split_html
from mc import model as M
from mc import real
from mc.common import BIG_SIZES, E, NASTY, SIZES, T, chunks
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "surrounding text contains no opening tag of a serialised dependency that is not one",
    "the first occurrence of the placeholder does not straddle a removed script",
    "names of attributes and dependencies that do not denote themselves in HTML are only checked for "
    "the round trip, not for the markup they are rendered to",
    "where the dependency markup is put in, layout white space is not compared",
    "an explicit placeholder is given, and dependencies hold no other dependencies in their head")

FIELDS = ("name", "source", "script", "stylesheet", "meta", "all_files")


# ---- model ---------------------------------------------------------------------------------

def fields(d):
    return tuple(real.freeze(getattr(d, f)) for f in FIELDS) + (
        str(d.version), None if d.head is None else str(TagList(d.head).get_html_string()))


END = re.compile(r"</script", re.I | re.A)
OPEN = re.compile(r"<script[^>]*>")


def serialised(d, indent, what):
    """The element's markup, after checking that nothing ends it early."""
    s = str(d.serialize_to_script_json(indent=indent).get_html_string())
    m = OPEN.match(s)
    if not m or not s.endswith("</script>"):
        raise Violation(f"{what}: serialised to {s!r}")
    if END.search(s[m.end():-len("</script>")]):
        raise Violation(f"{what}: an end tag inside the serialised element: {s!r}")
    return s


def recovered(doc, what):
    r = doc.render()
    if set(r) != {"html", "dependencies"}:
        raise Violation(f"{what}: render() returned keys {sorted(r)!r}")
    return r


def nodes_for(specs, lib_prefix="lib", include_version=True):
    out = []
    if specs:
        out.append(E("script", T(";".join(f"{s[0]}[{s[1]}]" for s in specs)),
                     attrs=(("type", "application/html-dependencies"),)))
    for s in specs:
        out += dep_nodes(s, lib_prefix, include_version)
    return tuple(out)


def check_text(out, before, after, nodes, what):
    """out must be before + markup of nodes + after, exactly for the text."""
    if not (out.startswith(before) and out.endswith(after) and len(out) >= len(before) + len(after)):
        raise Violation(f"{what}: text changed: {out!r}, want {before!r} ... {after!r}")
    got = out[len(before):len(out) - len(after)]
    if not nodes:
        if got != "":
            raise Violation(f"{what}: {got!r} put in without any dependency")
    elif not M.same_markup(got, nodes):
        raise Violation(f"{what}: put in\n{got}\nwant\n{M.layout(nodes)}")


# ---- strings in fields ---------------------------------------------------------------------

TOKENS = ("</script>", "</SCRIPT", "</ScRiPt >", "</", "script", ">", "<!--", "<script>", "-->", '"',
          "\\", "\n", "\r", "'", "é", "\u2028", "&", "/", "<", "\x00", "a", "{", "]", "<\\/script>",
          '<script type="application/json" data-html-dependency="">', "<PH>", "\ud800", "$1", "\\1",
          "&lt;", "\\u003c", "</scripT\n>", "\U0001f600")
PLACES = ("name", "subdir", "package", "href", "src", "attr", "key", "css", "cssattr", "metaname",
          "meta", "head", "headhtml", "headtext", "headattr", "all")


def dep_with(place, s):
    kw = dict(source={"subdir": "x"}, script=[{"src": "a.js"}], stylesheet=[{"href": "a.css"}],
              meta=[{"name": "n", "content": "c"}])
    name = "d"
    if place in ("name", "all"):
        name = s
    if place == "subdir":
        kw["source"] = {"subdir": s}
    if place in ("package", "all"):
        kw["source"] = {"package": s, "subdir": s}
    if place == "href":
        kw["source"] = {"href": s}
    if place in ("src", "all"):
        kw["script"] = [{"src": s}, {"src": "b.js"}]
    if place in ("attr", "all"):
        kw["script"] = kw["script"] + [{"src": "c.js", "integrity": s, "async": ""}]
    if place in ("key", "all"):
        kw["script"] = kw["script"] + [{"src": "c.js", s: s}]
    if place in ("css", "all"):
        kw["stylesheet"] = [{"href": "b.css"}, {"href": s}]
    if place in ("cssattr", "all"):
        kw["stylesheet"] = kw["stylesheet"] + [{"href": "c.css", "media": s, "rel": s}]
    if place in ("metaname", "all"):
        kw["meta"] = [{"name": s, "content": ""}]
    if place in ("meta", "all"):
        kw["meta"] = kw["meta"] + [{"name": "", "content": s, "charset": s}]
    if place == "head":
        kw["head"] = s
    if place == "headhtml":
        kw["head"] = TagList(HTML(s), tags.script(s))
    if place == "headtext":
        kw["head"] = TagList(s, tags.title(s))
    if place in ("headattr", "all"):
        kw["head"] = tags.style(HTML(s), title=s)
    return htmltools.HTMLDependency(name, "1.2", all_files=place == "all", **kw)


# what the parts of a definition may be; any combination of two of them
PARTS = (
    ("source", {"package": None, "subdir": "x"}), ("source", {"subdir": "x", "package": None}),
    ("source", {"href": "https://h/", "subdir": "x"}), ("source", {"href": "h", "package": None}),
    ("source", {"subdir": ""}), ("source", {"href": ""}), ("source", {"subdir": "x", "extra": [1, None]}),
    ("source", {"subdir": "x", "n": 0, "t": True}), ("source", None), ("source", {"subdir": "./x/../y/"}),
    ("source", {"package": "urllib", "subdir": "x"}), ("source", {"href": "//h/p?q#f"}),
    ("script", None), ("script", []), ("script", {"src": "a.js"}), ("script", [{"src": "a.js"}] * 2),
    ("script", {"src": "a.js", "async": True}), ("script", {"src": "a.js", "defer": None}),
    ("script", {"src": "a.js", "async": False, "n": 0}), ("script", {"type": "module", "src": "a.js"}),
    ("script", {"src": ""}), ("script", [{"src": "b.js", "x": 1.5}, {"src": "a.js", "x": ""}]),
    ("stylesheet", []), ("stylesheet", {"href": "a.css", "rel": "preload"}),
    ("stylesheet", {"rel": "x", "href": "a.css", "media": None}), ("stylesheet", [{"href": "a"}, {"href": "a"}]),
    ("meta", []), ("meta", {"name": "n", "content": None}), ("meta", {"content": 1, "name": "n"}),
    ("meta", [{"name": "", "content": ""}] * 2), ("meta", {"name": "n", "content": "c", "charset": True}),
    ("all_files", True), ("all_files", False),
    ("head", ""), ("head", None), ("head", "<x>"), ("head", HTML("")), ("head", HTML("&")), ("head", "a\n"),
    ("version", "1"), ("version", "1.0.0.0"), ("version", "1!2.0rc1.post2.dev3+local.4"), ("version", "0"),
    ("name", "a b"), ("name", "1"), ("name", "é"),
)


def part_cases():
    for i, j in itertools.product(range(-1, len(PARTS)), repeat=2):
        if i < j and (i < 0 or PARTS[i][0] != PARTS[j][0]):
            yield (i, j)


def run_parts(case, ctx):
    """Whatever values the definition holds come back, for every pair of them."""
    def make():
        kw = {"name": "d", "version": "1.2"}
        kw.update(copy.deepcopy([PARTS[i] for i in case if i >= 0]))
        return htmltools.HTMLDependency(**kw)
    d = make()
    before = fields(d)
    for indent in (None, 0, 3):
        j = str(make().serialize_to_script_json(indent))
        r = HTMLTextDocument(f"<P>{j}-{j}", deps_replace_pattern="<P>").render()
        got = r["dependencies"]
        if [fields(x) for x in got] != [before]:
            raise Violation(f"{[PARTS[i] for i in case]}, indent {indent}: recovered "
                            f"{[fields(x) for x in got]!r}, want {before!r}")
        if got[0] != d and d.head is None:
            raise Violation(f"{[PARTS[i] for i in case]}: the recovered dependency is not equal")
        if not r["html"].endswith("-"):
            raise Violation(f"{[PARTS[i] for i in case]}: text left: {r['html']!r}")
        ctx.step()
    ctx.state(case)
    ctx.trace()


def renderable(place, s):
    """Rendering needs URLs and source directories to be encodable."""
    if any("\ud800" <= c <= "\udfff" for c in s) and place in ("subdir", "package", "src", "css", "all"):
        return False
    return not ("\0" in s and place in ("subdir", "package", "all")
                or s == "" and place in ("package", "all"))


class FakePackage:
    """Makes package_dir() work for any package name."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.had = self.name in sys.modules
        if not self.had:
            m = sys.modules[self.name] = types.ModuleType("fake")
            m.__file__ = "/nowhere/fake/__init__.py"

    def __exit__(self, *exc):
        if not self.had:
            del sys.modules[self.name]


def run_string(s, ctx):
    for place in PLACES:
        for indent in (None, 2) if renderable(place, s) else ():
            d = dep_with(place, s)
            what = f"{s!r} as {place}, indent={indent}"
            before = fields(d)
            j = serialised(d, indent, what)
            text = f"<html><PH>\r\n{j}x{j}</script>\\1"
            doc = HTMLTextDocument(text, deps_replace_pattern="<PH>")
            with FakePackage(s):
                got = extracted(doc, d, place, s)
            if [fields(x) for x in got] != [before]:
                raise Violation(f"{what}: recovered\n {[fields(x) for x in got]!r}\nwant\n "
                                f"{before!r}")
            if fields(d) != before:
                raise Violation(f"{what}: serialising changed the dependency")
            ctx.step()
    ctx.state(s)
    ctx.trace()


def extracted(doc, d, place, s):
    """The recovered dependencies; text = <html><PH>CRLF + 2 copies (with x between) + tail."""
    r = doc.render()
    if not (r["html"].startswith("<html>") and r["html"].endswith("\r\nx</script>\\1")):
        raise Violation(f"{s!r} as {place}: text changed: {r['html']!r}")
    want = HTMLDocument(div(d)).render()["html"]
    a, b = want.index("application/html-dependencies"), want.rindex("</head>")
    want = [x.strip() for x in want[want.rindex("<script", 0, a):b].splitlines()]
    got = [x.strip() for x in r["html"][6:-len("\r\nx</script>\\1")].splitlines()]
    if [x for x in want if x] != [x for x in got if x]:
        raise Violation(f"{s!r} as {place}: put in {got!r}, HTMLDocument has {want!r}")
    return r["dependencies"]


def token_cases(n):
    for k in range(1, n + 1):
        for c in itertools.product(TOKENS, repeat=k):
            yield "".join(c)
    if n == 1:
        yield from NASTY


# ---- every character -----------------------------------------------------------------------

def run_chars(chunk, ctx):
    """Every code point, surrogates included, in the fields, one dependency per chunk."""
    for i in range(*chunk, 256):
        s = "".join(chr(c) for c in range(i, min(i + 256, chunk[1])))
        for place in ("name", "attr", "metaname", "meta", "head", "headtext", "headattr", "subdir"):
            if not renderable(place, s):
                continue
            d = dep_with(place, s)
            j = serialised(d, None, f"{s!r}")
            doc = HTMLTextDocument(f"a{j}b<PH>", deps_replace_pattern="<PH>")
            got = [fields(x) for x in doc.render()["dependencies"]]
            if got != [fields(d)]:
                raise Violation(f"U+{i:04X}.. as {place}: recovered {got!r}")
            ctx.step()
        ctx.fresh_states(len(s))
    ctx.trace()


# ---- field combinations --------------------------------------------------------------------

def def_cases():
    from checks.C11 import KWS

    for vals in itertools.product(*KWS.values()):
        for af in (False, True):
            yield tuple((k, v) for k, v in zip(KWS, vals) if v is not None) + (
                (("all_files", True),) if af else ())


VERSIONS = ("1.2.3", "1.0", "0", "1.0rc1", "2!1.0+a.b", "1.0.post1.dev2")


def run_def(kw, ctx, versions=VERSIONS[:2], indents=(None, 0, 2)):
    for v in versions:
        for indent in indents:
            spec = ("q", v, kw)
            d = real.dep(spec)
            what = f"{spec!r} indent={indent}"
            j = serialised(d, indent, what)
            for st in ({}, {"lib_prefix": None}, {"lib_prefix": "p/q", "include_version": False}):
                doc = HTMLTextDocument(f"<head>\n  <PH>\n<PH></head>{j}\n&amp;\r{j}",
                                       deps_replace_pattern="<PH>")
                r = doc.render(**st)
                if [fields(x) for x in r["dependencies"]] != [fields(d)]:
                    raise Violation(f"{what}: recovered {[fields(x) for x in r['dependencies']]!r} "
                                    f"want {fields(d)!r}")
                check_text(r["html"], "<head>\n  ", "\n<PH></head>\n&amp;\r",
                           nodes_for([spec], **st), f"{what} {st}")
                if doc.render(**st) != r:
                    raise Violation(f"{what}: rendering again differs")
                ctx.step()
    ctx.state(kw)
    ctx.trace()


def run_indent(case, ctx):
    indent, kw = case
    run_def(kw, ctx, VERSIONS, (indent,))


# ---- fragment sequences --------------------------------------------------------------------

SA = ("a", "1.0", (("source", ("dict", ("subdir", "s"))), ("script", ("dict", ("src", "a.js")))))
SA2 = ("a", "2.0", SA[2])
SB = ("b", "1", (("head", "<style>a>b{}</style></script><PH>"), ("meta", ("dict", ("name", "<PH>"), (
    "content", "\\1 </SCRIPT>")))))
FRAG = {
    "A": (SA, None), "A2": (SA2, None), "A_": (SA, 2), "B": (SB, None), "B_": (SB, 4),
    "t": "text", "n": "\n", "ph": "<PH>", "s": "<script>if (a</b/) {}</script>", "e": "</script>",
    "j": '<script type="application/json">{"a": "<PH"}</script>', "c": "<!-- \\1 -->\r\n",
}
S = {}


def frag_setup():
    for k, v in FRAG.items():
        S[k] = v if isinstance(v, str) else serialised(real.dep(v[0]), v[1], k)


def frag_cases(n):
    for k in range(0, n + 1):
        yield from itertools.product(FRAG, repeat=k)


DEPSARG = (None, (), (SB,), (SA, SA2, SA))


def run_frags(seq, ctx, depsargs=DEPSARG[:3], ph="<PH>"):
    text = "".join(S[k] for k in seq)
    specs, seen = [], set()
    for k in seq:
        if not isinstance(FRAG[k], str) and k not in seen:
            seen.add(k)
            specs.append(FRAG[k][0])
    parts = [""]
    for k in seq:
        if isinstance(FRAG[k], str):
            parts[-1] += FRAG[k]
        else:
            parts.append("")
    plain = "".join(parts)
    i = plain.find(ph)
    if i >= 0:
        ends = list(itertools.accumulate(map(len, parts)))
        if any(i < e < i + len(ph) for e in ends):
            return  # straddles a removed script
    for da in depsargs:
        what = f"{seq!r} deps={da!r} placeholder={ph!r}"
        kw = {} if da is None else {"deps": [real.dep(s) for s in da]}
        allspecs = [*(da or ()), *specs]
        doc = HTMLTextDocument(text, deps_replace_pattern=ph, **kw)
        r = recovered(doc, what)
        want = [fields(real.dep(s)) for s in allspecs]
        if [fields(x) for x in r["dependencies"]] != want:
            raise Violation(f"{what}: recovered {[str(fields(x)) for x in r['dependencies']]!r}, want"
                            f" {want!r}")
        if i < 0:
            if r["html"] != plain:
                raise Violation(f"{what}: {r['html']!r}, want {plain!r}")
        else:
            check_text(r["html"], plain[:i], plain[i + len(ph):], nodes_for(allspecs), what)
        ctx.step()
    ctx.state(seq)
    ctx.trace()


PLACEHOLDERS = ("<PH>", "t", "text", ".", "^", "$", ".*", "\\1", "(", "[a", "{0}", "</script>", "<!--",
                "\n", " ", "\r\n", "e", "&", "</head>", "<meta data-foo=\"\">", "\\", "script", "/", ">")


# ---- JSON mode -----------------------------------------------------------------------------

def in_json_mode(f):
    old = htmltools.html_dependency_render_mode
    htmltools.html_dependency_render_mode = "json"
    try:
        return f()
    finally:
        htmltools.html_dependency_render_mode = old


DA = ("D", SA)
DA2 = ("D", SA2)
DB = ("D", ("b", "1", (("head", ("taglist", E("style", T("a>b</script x")), E("i", T("k & l")))), (
    "meta", ("dict", ("name", "n"), ("content", "</SCRIPT>"))))))
DH = ("D", ("h", "0.0", (("head", "<x>&</x><!--"),)))


def run_json(kids, ctx):
    """A page rendered in JSON mode and post-processed is the page rendered directly."""
    for ph in ("<meta name='ph'/>", "%head%"):
        user = (E("meta", attrs=(("charset", "utf-8"),)), E("title", T("T")))
        page = E("html", E("head", *user, ("H", ph)), E("body", *kids))
        direct = E("html", E("head", user[1]), E("body", *kids))
        want, deps = assemble((direct,), {})
        tag = real.build(page)
        for how, f in (("tag", lambda: str(tag)), ("list", lambda: str(TagList(tag))),
                       ("repr_html", lambda: tag._repr_html_()), ("HTML", lambda: str(HTML(tag))),
                       ("explicit", lambda: None)):
            if how == "explicit":
                # by hand: each dependency serialised where it occurs
                text = "".join([str(x.serialize_to_script_json()) for x in tag.get_dependencies()]
                               ) + tag.render()["html"]
                if str(tag) != tag.render()["html"]:
                    raise Violation(f"{kids!r}: str() shows dependencies although not in JSON mode")
            else:
                text = in_json_mode(f)
            r = HTMLTextDocument(text, deps_replace_pattern=ph).render()
            what = f"{kids!r} via {how}"
            if not M.same_markup(r["html"], (want,)):
                raise Violation(f"{what}:\n{r['html']}\nwant\n{M.layout((want,))}")
            d = HTMLDocument(real.build(direct)).render()
            got = [fields(x) for x in r["dependencies"]]
            if got != [fields(x) for x in d["dependencies"]] or len(got) != len(deps):
                raise Violation(f"{what}: recovered {got!r}")
            if not M.same_markup(split_html(d["html"], what), (want,)):
                raise Violation(f"{what}: rendered directly: {d['html']}")
            ctx.step()
    ctx.state(kids)
    ctx.outcome(r["html"])
    ctx.trace()


def run_embed(case, ctx):
    """The serialised element as a tag in a tree, at any depth, or as HTML() of it."""
    names, how, indent = case
    d = real.dep(DB[1])
    t = d.serialize_to_script_json(indent=indent)
    x = {"tag": t, "html": HTML(t), "string": HTML(t.get_html_string(3, "\r\n")), "list": TagList(t)}[
        how]
    for n in names:
        x = htmltools.Tag(n, "x", x, tags.b(), x)
    s = str(TagList(x, HTML("<PH>")))
    r = HTMLTextDocument(s, deps_replace_pattern="<PH>").render()
    if [fields(y) for y in r["dependencies"]] != [fields(d)]:
        raise Violation(f"{case}: recovered {[fields(y) for y in r['dependencies']]!r} from {s!r}")
    if "data-html-dependency" in r["html"]:
        raise Violation(f"{case}: a serialised dependency is left in {r['html']!r}")
    ctx.step()
    ctx.state(case)
    ctx.trace()


# ---- sizes ---------------------------------------------------------------------------------

def size_cases(q):
    for n in SIZES + BIG_SIZES[:-4]:
        for kind in ("text", "string", "head", "newlines", "ends", "tail"):
            if kind == "tail" or n <= (10001 if q else 131072):
                yield (kind, n)
        if n <= 1025:
            for kind in ("copies", "deps", "given", "items", "placeholders", "indent"):
                yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    sp = [("d", "1.0", (("script", ("dict", ("src", "a.js"))),))]
    pre, mid, post, da, indent = "", "", "", (), None
    if kind == "text":
        pre, mid, post = "p" * n + "\r", "m\n" * n, "<q>" * n
    elif kind == "tail":
        post = "x" * n + "\\<&>"
        sp = [("d", "1", (("head", "x" * n + "</script><!-- \\\n"), ("meta", ("dict", (
            "name", "y" * n + "<\\"), ("content", "c")))))]
    elif kind == "string":
        sp = [("n" * n, "1", (("meta", ("dict", ("name", "\\" * n), ("content", "é" * n))),))]
    elif kind == "head":
        sp = [("d", "1", (("head", "<b>x</b>\n" * n),))]
    elif kind == "newlines":
        sp = [("d", "1", (("meta", ("dict", ("name", "n"), ("content", "\n\\\"" * n))),))]
    elif kind == "ends":
        sp = [("d", "1", (("meta", ("dict", ("name", "n"), ("content", "</scRIPT>" * n))),))]
    elif kind == "deps":
        sp = [(f"d{i * 7 % n}_{i}", f"{i}.0", sp[0][2]) for i in range(n)]
    elif kind == "copies":
        sp = sp * n
    elif kind == "given":
        da = tuple((f"g{i % 5}", f"{i}", sp[0][2]) for i in range(n))
    elif kind == "items":
        sp = [("d", "1", (("script", ("list",) + tuple(("dict", ("src", f"{i}.js")) for i in range(
            n))),))]
    elif kind == "indent":
        indent = n
    elif kind == "placeholders":
        post = "<PH>" * n
    js = [serialised(real.dep(s), indent, f"{case}") for s in sp]
    doc = HTMLTextDocument(pre + mid.join(js) + "<PH>" + post, [real.dep(s) for s in da], "<PH>")
    r = doc.render()
    uniq = [*da, *dict.fromkeys(sp)]
    if [fields(x) for x in r["dependencies"]] != [fields(real.dep(s)) for s in uniq]:
        raise Violation(f"{case}: {len(r['dependencies'])} dependencies recovered, or wrong ones")
    check_text(r["html"], pre + mid * (len(js) - 1), post, nodes_for(uniq), f"{case}")
    ctx.step()
    ctx.state(case)
    ctx.trace()


def run_history(ops, ctx):
    """Documents do not influence each other or the dependencies given to them."""
    given = [real.dep(SA), real.dep(SB)]
    keep = [fields(d) for d in given]
    docs = {}
    for k, op in enumerate(ops):
        what = f"{ops[:k + 1]}"
        if op[0] == "new":
            t = S["B_"] + "<PH>" + S["A2"] if op[1] else S["A2"] + "x<PH>"
            sp = [SB, SA2] if op[1] else [SA2]
            docs[op[1]] = (HTMLTextDocument(t, given, "<PH>"), [SA, SB, *sp], "" if op[1] else "x")
        elif op[1] in docs:
            doc, sp, pre = docs[op[1]]
            st = {} if op[0] == "render" else {"lib_prefix": None, "include_version": False}
            r = doc.render(**st)
            if [fields(x) for x in r["dependencies"]] != [fields(real.dep(s)) for s in sp]:
                raise Violation(f"{what}: wrong dependencies {r['dependencies']!r}")
            check_text(r["html"], pre, "", nodes_for(sp, **st), what)
            if op[0] == "spoil":
                for x in r["dependencies"]:
                    x.name = "spoilt"
                    x.script.append({"src": "spoilt"})
                r["dependencies"].clear()
            ctx.step()
        if [fields(d) for d in given] != keep or len(given) != 2:
            raise Violation(f"{what}: the given dependencies changed")
    ctx.state(ops)
    ctx.trace()


OPS = tuple((o, i) for o in ("new", "render", "render2", "spoil") for i in (0, 1))


def spaces(tier):
    q = tier == "quick"
    fr = dict(setup=frag_setup)
    names = ("div", "span", "pre", "script", "p")
    return [
        Space("strings-1", f"each of {len(TOKENS)} tokens and {len(NASTY)} strings in {len(PLACES)} "
              "fields", lambda: token_cases(1), run_string),
        Space("parts", f"every pair of {len(PARTS)} values of dependency fields", part_cases, run_parts,
              block=32),
        Space("definitions", "every combination of dependency fields", def_cases, run_def),
        Space("indents", "indent arguments x 12 definitions", lambda: (
            (i, k) for i in (None, 0, 1, 2, 3, 4, 7, 8, 16) for k in itertools.islice(
                def_cases(), 0, None, 144)), run_indent),
        Space("fragments", f"all sequences of up to {3 if q else 4} of {len(FRAG)} fragments x 3 "
              "given dependency lists", lambda: frag_cases(3 if q else 4), run_frags, **fr),
        Space("placeholders", f"{len(PLACEHOLDERS)} placeholders x all sequences up to 3 fragments",
              lambda: ((p, f) for p in PLACEHOLDERS for f in frag_cases(2 if q else 3)),
              lambda c, ctx: run_frags(c[1], ctx, DEPSARG[1::2], c[0]), **fr),
        Space("json-mode", f"all page bodies up to {3 if q else 4} nodes", lambda: M.Forests(
            (DA, DA2, DB, DH, T("t<")), (M.elem("div", True), M.elem("span", False))).upto(
                3 if q else 4), run_json, block=8),
        Space("embedded", "the serialised element within all nestings up to 3 of 5 elements",
              lambda: ((c, h, i) for n in range(4) for c in itertools.product(names[:3], repeat=n)
                       for h in ("tag", "html", "string", "list") for i in (None, 1)), run_embed),
        Space("histories", f"all histories up to {4 if q else 5} of {len(OPS)} operations on two "
              "documents", lambda: (h for n in range(1, 5 if q else 6) for h in itertools.product(
                  OPS, repeat=n)), run_history, **fr),
        Space("chars", "every code point in the fields", lambda: chunks(2048), run_chars, block=2),
        Space("sizes", "lengths of texts and fields, numbers of copies, dependencies, placeholders",
              lambda: size_cases(q), run_size, block=1),
        Space("strings", f"all sequences of {2 if q else 3} tokens in {len(PLACES)} fields", lambda: (
            "".join(c) for c in itertools.product(TOKENS, repeat=2 if q else 3)), run_string),
    ]
