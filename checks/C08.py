"""C08: rendering and tagify are pure and consistent; tagify returns an independent copy.

Worlds are object graphs (trees, lists, documents, dependencies).  All sequences of read-only
operations up to the bound are executed on each world; after every operation everything reachable
must have its original structure and the result must equal that of the same operation on a fresh
world.  All single mutations of every part of a tagified copy (and of the original) are executed
and must not show up on the other side.  Equality is compared with structural equality of the
specs over all pairs of a universe of trees."""
import copy
import itertools
import os
import shutil
import tempfile

import htmltools
from htmltools import (HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList,
                       head_content, tags)
from packaging.version import Version
from checks.C13 import PARTS
from mc import model as M
from mc import real, scratch
from mc.common import E, SIZES, T
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "equality is not checked between values that differ only in being str or HTML(), between maps "
    "that differ only in attribute order, between a class and its subclass, for plain "
    "MetadataNode objects, and between version spellings that denote the same version",
    "tagify() of user-defined objects returns fully tagified results")

S = {}


def setup():
    BASE.clear()
    S["dir"] = scratch.enter()
    src = os.path.join(S["dir"], "src")
    os.mkdir(src)
    for f in ("a.js", "b.css", "s 1.js", "t é.css"):
        with open(os.path.join(src, f), "w") as fh:
            fh.write(f)


def teardown():
    scratch.leave()


def src():
    return os.path.join(S["dir"], "src")


# ---- worlds --------------------------------------------------------------------------------

def dep1(name="d", version="1.9", **kw):
    return HTMLDependency(name, version, source={"subdir": src()}, script={"src": "a.js"},
                          stylesheet=[{"href": "b.css", "media": "x"}],
                          meta={"name": "n", "content": "c & d"}, **kw)


def dep2():
    return HTMLDependency("u", "2", source={"href": "https://x.org/"}, script=[{"src": "u 1.js"}],
                          head=TagList(Tag("base", href="/"), HTML("<!-- & -->"), "t<",
                                       Tag("i", Tag("b"))))


def rich():
    return [Tag("div", "a & b", Tag("span", HTML("<b>"), 1, id="s"), dep1(), class_="c"),
            "x<y", None, [Tag("p"), dep2()], real.ReprObj("<r/>"), real.Meta(1)]


def W_list():
    x = TagList(*rich())
    return x, [x]


def W_div():
    x = Tag("div", {"class": "a", "q": HTML("&")}, *rich(), style="s:1;")
    return x, [x]


def W_inline():
    x = tags.span(tags.b("t", dep1(head="<x>")), tags.div(tags.i()), dep1("d", "1.10"))
    return x, [x]


def W_html():
    h = Tag("head", Tag("title", "T"), dep2())
    b = Tag("body", Tag("p", "x"), dep1(), class_="b")
    x = Tag("html", h, b, lang="de")
    return x, [x, h, b]


def W_html_nohead():
    x = Tag("html", dep1(), Tag("body", "x", dep1("d", "1.10")))
    return x, [x]


def W_html_headlate():
    x = Tag("html", "t", Tag("body"), Tag("head", Tag("meta", charset="x")), id="i", class_="k")
    return x, [x]


def W_body():
    x = Tag("body", Tag("div", dep1(), head_content(Tag("title", "t"))), id="b")
    return x, [x]


def W_head():
    x = Tag("head", Tag("title", "x"), dep1())
    return x, [x]


def W_shared():
    i = Tag("i", "k", dep1())
    x = TagList(i, Tag("div", i, i), i)
    return x, [x, i]


def W_sharedlist():
    a = {"id": "i"}
    k = [Tag("b"), "t"]
    x = Tag("div", Tag("p", a, k), Tag("p", a, k), k, a)
    return x, [x, *k]


def W_script():
    x = TagList(tags.script("a < b && c", HTML("<!-- -->"), dep1()), tags.style("p > q"), tags.br(),
                tags.img(dep2(), alt="'"))
    return x, [x]


def W_expand():
    held = Tag("em", "held", dep1())
    heldlist = TagList("l", Tag("u"), dep2())
    x = Tag("div", real.Expand(lambda: held), "s", real.Expand(lambda: heldlist),
            Tag("p", real.Expand(lambda: TagList())), real.Expand(lambda: "txt<"))
    return x, [x, held, heldlist]


def W_expand_html():
    held = Tag("html", Tag("head", Tag("title")), Tag("body", dep1()), lang="x")
    x = TagList(real.Expand(lambda: held))
    return x, [x, held]


def W_expand_body():
    held = Tag("body", dep1(), "b", id="x")
    x = TagList(real.Expand(lambda: TagList(held)))
    return x, [x, held]


def W_expand_dep():
    held = dep2()
    x = TagList("a", real.Expand(lambda: held), held)
    return x, [x, held]


def W_empty():
    x = TagList()
    return x, [x]


def W_text():
    x = TagList("a<b", HTML("<h>"), "", 5)
    return x, [x]


def W_deps():
    ds = [dep1(), dep1("d", "1.10"), dep2(), dep1("e", "1"), dep1()]
    x = TagList(*ds, Tag("div", ds))
    return x, [x, *ds]


def W_void():
    x = Tag("div", Tag("br", dep1()), Tag("input", value="'\"\n"), Tag("hr", "x"), _add_ws=False)
    return x, [x]


def W_nested():
    inner = TagList("q", Tag("i", Tag("b", dep1())))
    x = TagList("a", [inner, (inner, [None, [inner]])])
    return x, [x, inner]


TREES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("W_")}


def result(v):
    """Comparable form of the result of an operation."""
    if isinstance(v, dict) and set(v) == {"dependencies", "html"}:
        return ("rendered", v["html"], tuple(real.snap(d) for d in v["dependencies"]))
    if isinstance(v, list):
        return ("list",) + tuple(result(x) for x in v)
    return real.freeze(v)


def attempt(f):
    try:
        return result(f())
    except Exception as e:
        return ("raises", type(e).__name__)


def json_mode(x):
    old = htmltools.html_dependency_render_mode
    htmltools.html_dependency_render_mode = "json"
    try:
        return str(x)
    finally:
        htmltools.html_dependency_render_mode = old


def wreck(x):
    """Change every mutable part of a tree."""
    for p in real.parts(x):
        if isinstance(p, Tag):
            p.name += "-w"
            p.add_ws = not p.add_ws
        elif isinstance(p, TagList):
            p.append("wrecked")
        elif isinstance(p, HTMLDependency):
            p.name += "w"
            p.version = Version("99")
            p.all_files = not p.all_files
        elif isinstance(p, real.Meta):
            p.ident = "w"
        elif isinstance(p, dict):
            p["w"] = "1"
        elif isinstance(p, list):
            p.append({"src": "w", "href": "w", "name": "w", "content": "w"})
    return x


def listing(d):
    out = []
    for root, dirs, files in sorted(os.walk(d)):
        for f in sorted(files):
            with open(os.path.join(root, f), "rb") as fh:
                out.append((os.path.relpath(os.path.join(root, f), d), fh.read()))
    return tuple(out)


def save(x, **kw):
    d = tempfile.mkdtemp(dir=S["dir"])
    try:
        p = x.save_html(os.path.join(d, "o.html"), **kw)
        return (os.path.relpath(p, d), listing(d))
    finally:
        shutil.rmtree(d)


def wreck_tagify(x):
    r = x.tagify()
    before = result(r)
    wreck(r)
    return before[1:] and ("t", repr(before))


TREE_OPS = {
    "tagify": lambda x: x.tagify(),
    "tagify+change": wreck_tagify,
    "render": lambda x: x.render(),
    "render+change": lambda x: ("r", (lambda r: [result(r), [wreck(d) for d in r["dependencies"]],
                                                 r.clear()][0])(x.render())),
    "str": str,
    "repr": repr,
    "_repr_html_": lambda x: x._repr_html_(),
    "get_html_string": lambda x: x.get_html_string(),
    "get_html_string(2)": lambda x: x.get_html_string(2, "\r\n"),
    "get_dependencies": lambda x: x.get_dependencies(),
    "get_dependencies(all)": lambda x: x.get_dependencies(dedup=False),
    "copy": lambda x: copy.copy(x),
    "json": json_mode,
    "document": lambda x: HTMLDocument(x).render(),
    "document(attrs)": lambda x: HTMLDocument(x, lang="en", class_="z", id=None).render(
        lib_prefix=None, include_version=False),
    "document(lib)": lambda x: HTMLDocument("pre", x, data_x=1).render(lib_prefix="l/m"),
    "head_content": lambda x: (lambda d: [str(d.as_html_tags()), str(d)])(head_content(x)),
    "==": lambda x: x == 5 or x == copy.copy(x),
    "save": lambda x: save(x),
    "save(nolib)": lambda x: save(x, libdir=None, include_version=False),
}


def check_world(held, snaps, what):
    for h, s in zip(held, snaps):
        if real.snap(h) != s:
            raise Violation(f"{what}: an object reachable from the receiver changed:\n"
                            f"  before {s!r}\n  after  {real.snap(h)!r}")


BASE = {}


def idfree(v):
    """Results of worlds with opaque objects contain ids; compare them without."""
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[1], int) and v[0] in ("Expand",):
            return (v[0],)
        return tuple(idfree(x) for x in v)
    return v


def run_ops(case, ctx):
    world, ops = case
    x, held = TREES[world]()
    doc = None
    snaps = [real.snap(h) for h in held]
    for n, op in enumerate(ops):
        if op.startswith("doc:"):
            if doc is None:
                doc = HTMLDocument(x, lang="en")
            r = attempt(lambda: DOC_OPS[op[4:]](doc))
        else:
            r = attempt(lambda: TREE_OPS[op](x))
        r = idfree(r)
        check_world(held, snaps, f"{world}: after {ops[:n + 1]}")
        key = (world, op)
        if key not in BASE:
            y, _ = TREES[world]()
            f = DOC_OPS[op[4:]] if op.startswith("doc:") else TREE_OPS[op]
            y = HTMLDocument(y, lang="en") if op.startswith("doc:") else y
            BASE[key] = idfree(attempt(lambda: f(y)))
        if r != BASE[key]:
            raise Violation(f"{world}: {op} after {ops[:n]} gives another result:\n  got  {r!r}\n"
                            f"  want {BASE[key]!r}")
        ctx.step()
    ctx.state((world, tuple(sorted(set(ops)))))
    ctx.outcome(repr(r))
    ctx.trace()


DOC_OPS = {
    "render": lambda d: d.render(),
    "render(nolib)": lambda d: d.render(lib_prefix=None, include_version=False),
    "copy": lambda d: copy.copy(d).render(),
    "copy+append": lambda d: [(lambda c: (c.append("more", Tag("u")), c.render())[1])(
        copy.copy(d))],
    "save": lambda d: save(d),
    "save(lib2)": lambda d: save(d, libdir="x/y"),
    "render+change": lambda d: ("r", (lambda r: [result(r), [wreck(x) for x in r["dependencies"]],
                                                 r.clear()][0])(d.render())),
}
SAVES = ("save", "save(nolib)", "doc:save", "doc:save(lib2)")
ALL_OPS = tuple(TREE_OPS) + tuple("doc:" + k for k in DOC_OPS)


def op_cases(n, worlds, ops):
    for w in worlds:
        for s in itertools.product(ops, repeat=n):
            if not ("expand" in w and any("+change" in o for o in s)):
                # (where the result of tagify() is an object of the world itself)
                yield (w, s)


# ---- dependencies --------------------------------------------------------------------------

DEPS = {
    "files": lambda: dep1(),
    "url": lambda: dep2(),
    "head": lambda: head_content(Tag("title", "x & y"), "t<", dep1()),
    "all": lambda: dep1(all_files=True, head="<script>&</script>"),
    "bare": lambda: HTMLDependency("b", "0"),
    "pkg": lambda: HTMLDependency("p", "1", source={"package": "htmltools", "subdir": "lib/react"},
                                  script={"src": "react.production.min.js"}),
    "many": lambda: HTMLDependency(
        "m", "1", source={"subdir": src()}, script=[{"src": "a.js", "async": ""}, {"src": "é %.js"}],
        stylesheet=[{"href": "b.css"}, {"href": "d/c.css", "rel": "preload"}],
        meta=[{"name": "a", "content": "b"}, {"name": "c", "content": "d", "http-equiv": "e"}],
        head=[Tag("link"), "x", [HTML("<y>")]]),
    "hrefnoslash": lambda: HTMLDependency("h", "1", source={"href": "/x/y"}, script={"src": "a b"},
                                          stylesheet={"href": "c#d"}),
}
DEP_OPS = {
    "as_html_tags": lambda d: d.as_html_tags(),
    "as_html_tags(None)": lambda d: d.as_html_tags(lib_prefix=None, include_version=False),
    "as_html_tags(l/m)": lambda d: str(d.as_html_tags(lib_prefix="l/m")),
    "as_dict": lambda d: d.as_dict(),
    "as_dict(x)": lambda d: d.as_dict(lib_prefix="x", include_version=False),
    "as_dict+change": lambda d: ("r", (lambda r: [result(r), [x.update(src="w", href="w") for x in
                                       r["script"] + r["stylesheet"]], r.clear()][0])(d.as_dict())),
    "source_path_map": lambda d: d.source_path_map(),
    "source_path_map(x)": lambda d: d.source_path_map(lib_prefix="", include_version=False),
    "serialize": lambda d: str(d.serialize_to_script_json()),
    "serialize(2)": lambda d: str(d.serialize_to_script_json(indent=2)),
    "str": str,
    "repr": repr,
    "copy": lambda d: copy.copy(d),
    "copy+change": lambda d: (lambda c: [real.snap(c), wreck(c)][0])(copy.copy(d)),
    "==": lambda d: [d == copy.copy(d), d == 5, d == "d"],
    "in list": lambda d: TagList(d, Tag("p", d)).render(),
    "in document": lambda d: HTMLDocument(Tag("p", d), d).render(),
    "in text": lambda d: HTMLTextDocument("<x>", [d], "<x>").render(),
    "from text": lambda d: HTMLTextDocument(str(d.serialize_to_script_json()) + "<x>", [d],
                                            "<x>").render(),
    "copy_to": lambda d: (lambda p: [d.copy_to(p), listing(p), shutil.rmtree(p)][1])(
        tempfile.mkdtemp(dir=S["dir"])),
}


SHAPE = (
    ("none", "subdir", "href", "package"),
    (None, ("s 1.js",), ("a.js", "s 1.js")),
    (None, ("t é.css",), ("b.css", "t é.css")),
    (None, 1, 2),
    (False, True),
    (None, "<b>&</b>", "tags"),
)


def shape_dep(source, script, sheet, meta, all_files, head):
    """Every item has only its required keys in the first place, and extra ones in the second."""
    src_ = {"none": None, "subdir": {"subdir": src()}, "href": {"href": "https://h/a b"},
            "package": {"package": "htmltools", "subdir": "lib/react"}}[source]
    js = [{"src": f, **({"async": "", "type": "m&"} if i else {})} for i, f in
          enumerate(script or ())]
    css = [{"href": f, **({"media": "x", "title": "&"} if i else {})} for i, f in
           enumerate(sheet or ())]
    ms = [{"name": f"n{i}", "content": "<&"} for i in range(meta or 0)]
    return HTMLDependency(
        "s", "1.02", source=src_, script=js or None, stylesheet=css or None, meta=ms or None,
        all_files=all_files, head=[Tag("i", "k", x="<"), "t&", HTML("<&")] if head == "tags" else head)


def make_dep(name):
    return shape_dep(*name) if isinstance(name, tuple) else DEPS[name]()


def shape_cases():
    for s in itertools.product(*SHAPE):
        for o in DEP_OPS:
            yield (s, (o,) if o == "copy_to" else (o, o))


def run_dep(case, ctx):
    name, ops = case
    d = make_dep(name)
    before = real.snap(d)
    for n, op in enumerate(ops):
        r = attempt(lambda: DEP_OPS[op](d))
        if real.snap(d) != before:
            raise Violation(f"{name}: {op} after {ops[:n]} changed the dependency:\n  before "
                            f"{before!r}\n  after  {real.snap(d)!r}")
        key = (name, op)
        if key not in BASE:
            BASE[key] = attempt(lambda: DEP_OPS[op](make_dep(name)))
        if r != BASE[key]:
            raise Violation(f"{name}: {op} after {ops[:n]} gives another result:\n  got  {r!r}\n"
                            f"  want {BASE[key]!r}")
        ctx.step()
    ctx.state((name, tuple(sorted(set(ops)))))
    ctx.trace()


SOURCES = ("~/x", "~", "./x", "x/", "x/../y", "../x", "", ".", "$HOME/x", "%41", "x//y", "/tmp/../x", "a b", "é",
           "https://h/p", "file:///x", "C:\\x", "x?y#z", "*")


def part_cases():
    for i, j in itertools.product(range(-1, len(PARTS)), repeat=2):
        if i < j and (i < 0 or PARTS[i][0] != PARTS[j][0]):
            yield ("parts", i, j)
    for k in ("subdir", "href"):
        for s in SOURCES:
            yield ("source", k, s)


def part_dep(case):
    kw = {"name": "d", "version": "1.2", "script": [{"src": "a.js"}]}
    if case[0] == "source":
        kw["source"] = {case[1]: case[2]}
    else:
        kw.update(copy.deepcopy([PARTS[i] for i in case[1:] if i >= 0]))
    return HTMLDependency(**kw)


def run_part(case, ctx):
    """Every operation (that copies no files) twice on one dependency, whatever its definition."""
    d = part_dep(case)
    before = real.snap(d)
    first = {}
    for n, op in enumerate([*DEP_OPS, *reversed(DEP_OPS)]):
        if op == "copy_to":
            continue
        r = attempt(lambda: DEP_OPS[op](d))
        if real.snap(d) != before:
            raise Violation(f"{case}: {op} changed the dependency:\n  before {before!r}\n  after  "
                            f"{real.snap(d)!r}")
        if first.setdefault(op, r) != r:
            raise Violation(f"{case}: {op} gives another result the second time:\n  {first[op]!r}\n"
                            f"  {r!r}")
        ctx.step()
    twin = part_dep(case)
    if not (d == twin and twin == d) and d.head is None:
        raise Violation(f"{case}: two structurally identical dependencies are not equal")
    ctx.state(case)
    ctx.trace()


def dep_cases(n):
    for d in DEPS:
        for s in itertools.product(DEP_OPS, repeat=n):
            if sum(o == "copy_to" for o in s) < 2:
                yield (d, s)


# ---- copies --------------------------------------------------------------------------------

def mutations(p):
    """All mutations of one part, by index."""
    if isinstance(p, Tag):
        return [lambda: setattr(p, "name", p.name + "x"), lambda: setattr(p, "add_ws", not p.add_ws),
                lambda: p.append("m"), lambda: p.insert(0, Tag("m")), lambda: p.extend(["m"]),
                lambda: p.add_class("m"), lambda: p.add_class("m", prepend=True),
                lambda: p.add_style("m:1;"), lambda: p.attrs.update(m="1"),
                lambda: setattr(p, "children", TagList("m")), lambda: p.remove_class("c")]
    if isinstance(p, TagList):
        return [lambda: p.append("m"), lambda: p.insert(0, "m"), lambda: p.extend([Tag("m")]),
                lambda: p.clear(), lambda: p.reverse(), lambda: p.__iadd__(["m"]),
                lambda: p.pop() if p else None, lambda: p.__setitem__(0, "m") if p else None,
                lambda: p.__delitem__(slice(None))]
    if isinstance(p, HTMLDependency):
        return [lambda: setattr(p, "name", "m"), lambda: setattr(p, "version", Version("77")),
                lambda: setattr(p, "all_files", not p.all_files),
                lambda: setattr(p, "head", TagList("m")), lambda: setattr(p, "script", [])]
    if isinstance(p, real.Meta):
        return [lambda: setattr(p, "ident", "m")]
    if isinstance(p, dict):
        return [lambda: p.__setitem__("m", "1"), lambda: p.clear(), lambda: p.update({"id": "m"}),
                lambda: p.pop(next(iter(p))) if p else None]
    return [lambda: p.append({"src": "m", "href": "m", "name": "m", "content": "m"}),
            lambda: p.clear()]


def independent(make, ctx, what):
    """make() -> fresh object with tagify()."""
    x = make()
    c = x.tagify()
    xp, cp = real.parts(x), real.parts(c)
    if type(c) is not type(x):
        raise Violation(f"{what}: tagify() returned a {type(c).__name__}")
    shared = {id(p) for p in xp} & {id(p) for p in cp}
    if shared:
        raise Violation(f"{what}: tagify() shares {[p for p in xp if id(p) in shared]!r} with the "
                        "original")
    if real.snap(c) != real.snap(x):
        raise Violation(f"{what}: tagify() of a tree with nothing to expand differs:\n  "
                        f"{real.snap(x)!r}\n  {real.snap(c)!r}")
    meta = any(isinstance(p, real.Meta) for p in xp)
    opaque = meta or "('Repr'" in repr(real.snap(x))  # compared by identity
    if not meta and not (c == x and x == c and not c != x):
        raise Violation(f"{what}: tagify() does not equal the original")
    cc = c.tagify()
    if real.snap(cc) != real.snap(c):
        raise Violation(f"{what}: tagify() is not a fixed point")
    if {id(p) for p in real.parts(cc)} & {id(p) for p in cp + xp}:
        raise Violation(f"{what}: tagify() of a tagified tree shares parts")
    ctx.step(3)
    n = len(cp)
    if n != len(xp):
        raise Violation(f"{what}: {n} parts, original has {len(xp)}")
    hx, dx = str(x), attempt(lambda: x.get_dependencies())
    for i in range(n):
        for k in range(len(mutations(cp[i]))):
            for side in (0, 1):
                a = make()
                b = a.tagify()
                target, other = (b, a) if side == 0 else (a, b)
                keep = real.snap(other)
                part = real.parts(target)[i]
                before = real.snap(target)
                mutations(part)[k]()
                if real.snap(other) != keep or str(other) != hx or \
                        attempt(lambda: other.get_dependencies()) != dx:
                    raise Violation(f"{what}: mutation {k} of part {i} ({type(part).__name__}) of "
                                    f"the {('copy', 'original')[side]} shows up in the "
                                    f"{('original', 'copy')[side]}:\n  before {keep!r}\n"
                                    f"  after  {real.snap(other)!r}")
                if not opaque and (a == b) != (real.snap(target) == before):
                    raise Violation(f"{what}: after mutation {k} of part {i} "
                                    f"({type(part).__name__}), == is {a == b}")
                ctx.step()
    ctx.trace()


def run_world_copy(w, ctx):
    independent(lambda: TREES[w]()[0], ctx, w)
    x = TREES[w]()[0]
    independent(lambda: TagList(TREES[w]()[0]), ctx, w + " in a list")
    independent(lambda: Tag("div", TREES[w]()[0]).tagify(), ctx, w + " tagified before")
    ctx.state((w, len(real.parts(x))))


DD = ("D", ("d", "1", (("script", ("dict", ("src", "a"))), ("head", ("taglist", E("i", T("k")))))))
FLEAVES = (T("a"), ("H", "<b>"), DD, ("M", 1), ("R", "<r>"))
FELEMS = (M.elem("div", True, (("class", "c"),)), M.elem("span", False))


def run_forest_copy(kids, ctx):
    independent(lambda: TagList(*real.kids(kids, depth=None)), ctx, repr(kids))
    if len(kids) == 1 and kids[0][0] == "E":
        independent(lambda: real.build(kids[0], depth=None), ctx, repr(kids))
    ctx.state(kids)


# ---- the four renderings agree -------------------------------------------------------------

def run_strings(kids, ctx):
    objs = [TagList(*real.kids(kids, depth=None))]
    if len(kids) == 1 and kids[0][0] == "E":
        objs.append(real.build(kids[0], depth=None))
    for x in objs:
        a = str(x)
        b, c, d, e = repr(x), x._repr_html_(), x.render()["html"], f"{x}"
        if not a == b == c == d == e or type(a) is not str:
            raise Violation(f"{kids!r}: str {a!r}, repr {b!r}, _repr_html_ {c!r}, render {d!r}")
        if type(d) is not str or x.tagify().get_html_string() != a or str(x) != a:
            raise Violation(f"{kids!r}: {a!r} / {x.tagify().get_html_string()!r}")
        ctx.step(6)
        ctx.outcome(a)
    ctx.state(kids)
    ctx.trace()


XL = (T("a<"), ("H", "<b>"), DD, ("X", "list", ()), ("X", "list", (T("q"), E("b", DD))),
      ("X", "one", (E("div", T("e")),)), ("R", "<r>"), ("N", 5))


# ---- equality ------------------------------------------------------------------------------

EQ_ELEMS = (("div", True, ()), ("span", True, ()), ("div", False, ()), ("div", True, (("a", "1"),)),
            ("div", True, (("a", "2"),)), ("div", True, (("a", ""),)), ("div", True, (("b", "1"),)),
            ("div", True, (("a", "1"), ("b", "1"))), ("div", True, (("a", ("H", "x&")),)),
            ("Div", True, ()), ("div", True, (("A", "1"),)))
EQ_LEAVES = (T("a"), T("b"), T(""), T("ab"), T("div"), T("<div></div>"), T("A"), T("a "), T("1"),
             ("H", "<h>"), ("D", ("d", "1")), ("D", ("d", "2")), ("D", ("e", "1")),
             ("D", ("d", "1", (("script", ("dict", ("src", "a"))),))),
             ("D", ("d", "1", (("script", ("dict", ("src", "b"))),))),
             ("D", ("d", "1", (("script", ("list", ("dict", ("src", "a")), ("dict", ("src", "a")))),
                               ))),
             ("D", ("d", "1", (("script", ("dict", ("src", "a"), ("async", ""))),))),
             ("D", ("d", "1", (("stylesheet", ("dict", ("href", "a"))),))),
             ("D", ("d", "1", (("meta", ("dict", ("name", "a"), ("content", "b"))),))),
             ("D", ("d", "1", (("source", ("dict", ("subdir", "a"))),))),
             ("D", ("d", "1", (("source", ("dict", ("href", "a"))),))),
             ("D", ("d", "1", (("all_files", True),))),
             ("D", ("d", "1", (("head", ("taglist", T("a"))),))),
             ("D", ("d", "1", (("head", ("taglist", E("i"))),))),
             ("D", ("d", "1", (("head", ("taglist", E("i", T("x")))),))))


def universe(full):
    elems = [lambda k, e=e: ("E", e[0], e[1], e[2], tuple(k)) for e in EQ_ELEMS]
    u = [()]
    for n in (1, 2):
        u += list(M.Forests(EQ_LEAVES, elems).upto(n))[1 if n == 1 else
                                                       1 + len(EQ_LEAVES) + len(elems):]
    small = [lambda k, e=e: ("E", e[0], e[1], e[2], tuple(k)) for e in EQ_ELEMS[:3]]
    u += [f for f in M.Forests((T("a"), ("D", ("d", "1"))), small).upto(4 if full else 3)
          if sum(1 for _ in M.walk(f)) >= 3]
    return u


U = {}


def eq_setup(full):
    U["specs"] = universe(full)
    U["lists"] = [TagList(*real.kids(k, depth=None)) for k in U["specs"]]
    U["singles"] = [(k[0], real.build(k[0], depth=None)) for k in U["specs"] if len(k) == 1 and
                    k[0][0] in "ED"]


def run_eq(i, ctx):
    """One TagList against the whole universe, both directions; a lone tag or dependency too."""
    k = U["specs"][i]
    x = TagList(*real.kids(k, depth=None))
    for k2, y in zip(U["specs"], U["lists"]):
        want = k == k2
        if (x == y) is not want or (y == x) is not want or (x != y) is want:
            raise Violation(f"TagList == is {x == y}/{y == x} for\n  {k!r}\n  {k2!r}")
    ctx.step(3 * len(U["specs"]))
    if len(k) == 1 and k[0][0] in "ED":
        x1 = real.build(k[0], depth=None)
        for k2, y in U["singles"]:
            want = k[0] == k2
            if (x1 == y) is not want or (y == x1) is not want or (x1 != y) is want:
                raise Violation(f"== is {x1 == y}/{y == x1} for\n  {k[0]!r}\n  {k2!r}")
        ctx.step(3 * len(U["singles"]))
        for z in (x, str(x1), None, 5, [x1], (x1,), HTML(str(x1)), {"a": 1}, list(x), object(), True):
            if x1 == z or z == x1 or not x1 != z:
                raise Violation(f"{k[0]!r} equals {z!r} of another kind")
            ctx.step()
        if x1 != copy.copy(x1) or x1 != x1:
            raise Violation(f"{k[0]!r} differs from its copy")
    for z in (str(x), None, 5, list(x) or 0, tuple(x), Tag("div", x), HTML(str(x)), {}, x.data
              if hasattr(x, "data") and False else "", HTMLDocument(x)):
        if x == z or z == x or not x != z:
            raise Violation(f"TagList {k!r} equals {z!r} of another kind")
        ctx.step()
    ctx.state(k)
    ctx.trace()


def run_eq_size(case, ctx):
    """One difference in a large tree."""
    kind, n = case

    def make(pos=None, how="text"):
        f = {"text": lambda: "y", "tag": lambda: Tag("b"), "attr": lambda: Tag("i", id="2"),
             "ws": lambda: Tag("i", _add_ws=False), "dep": lambda: HTMLDependency("d", "1")}[how]
        if kind == "wide":
            return TagList(*[f() if i == pos else Tag("i") for i in range(n)])
        if kind == "attrs":
            return Tag("p", {f"a{i}": "2" if i == pos else "1" for i in range(n)})
        if kind == "long":
            return TagList("x" * n) if pos is None else TagList("x" * pos + "y" + "x" * (n - pos - 1))
        if kind == "deep":
            t = Tag("i") if pos is None else f()
            for i in range(n):
                t = Tag("div", t)
            return t
        return TagList(HTMLDependency("d", "1", script=[
            {"src": "b" if i == pos else "a"} for i in range(n)]))

    a, b = make(), make()
    if not (a == b and b == a) or a != b:
        raise Violation(f"{case}: identical trees differ")
    hows = ("text", "tag", "attr", "ws", "dep") if kind in ("wide", "deep") else ("text",)
    for how in hows:
        for pos in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))) if kind != "deep" else (0,):
            c = make(pos, how)
            if a == c or c == a or not a != c:
                raise Violation(f"{case}: trees that differ at {pos} ({how}) are equal")
            ctx.step()
    ctx.state(case)
    ctx.trace()


def run_eq_history(case, ctx):
    """Structurally identical trees are equal whatever was done with them before."""
    w, op = case
    a, b = TREES[w]()[0], TREES[w]()[0]
    if any(isinstance(p, (real.Meta, real.ReprObj)) for p in real.parts(a)) or "expand" in w or \
            w in ("list", "div"):
        return
    attempt(lambda: TREE_OPS[op](a))
    if not (a == b and b == a):
        raise Violation(f"{w}: after {op} on one of two identical trees, == is {a == b}/{b == a}")
    if isinstance(a, Tag):
        import sys
        old, sys.displayhook = sys.displayhook, lambda v: None
        try:
            with a:
                pass
        finally:
            sys.displayhook = old
        if not (a == b and b == a):
            raise Violation(f"{w}: after a with block, == is {a == b}/{b == a}")
    ctx.step(2)
    ctx.state(case)
    ctx.trace()


def sizes(q):
    for n in SIZES:
        for kind in ("wide", "attrs", "long", "deep", "dep"):
            if kind != "deep" or n <= 129:
                yield (kind, n)


def spaces(tier):
    q = tier == "quick"
    fast = tuple(o for o in ALL_OPS if o not in SAVES)
    core = ("tagify+change", "render", "document(attrs)", "document", "get_html_string(2)",
            "json", "doc:render", "doc:copy+append", "get_dependencies", "head_content")
    dirs = dict(setup=setup, teardown=teardown)
    u = len(universe(not q))
    eqs = dict(setup=lambda: eq_setup(not q))
    forests = lambda n, l, e: (lambda: M.Forests(l, e).upto(n))
    return [
        Space("worlds-1", f"every operation alone on {len(TREES)} worlds",
              lambda: op_cases(1, TREES, ALL_OPS), run_ops, **dirs),
        Space("deps-1", "every dependency operation", lambda: dep_cases(1), run_dep, **dirs),
        Space("deps-shapes", "source x script x stylesheet x meta x all_files x head: every "
              "operation, twice", shape_cases, run_dep, block=20, **dirs),
        Space("deps-parts", f"every pair of {len(PARTS)} values of dependency fields, {2 * len(SOURCES)} "
              "sources: all operations, twice", part_cases, run_part, block=16, **dirs),
        Space("copies", f"every single mutation of every part, copy and original, of {len(TREES)} "
              "worlds", lambda: (w for w in TREES if "expand" not in w), run_world_copy, block=1,
              **dirs),
        Space("copies-forests", f"... of all forests up to {3 if q else 4} nodes",
              forests(3 if q else 4, FLEAVES, FELEMS), run_forest_copy, block=8, **dirs),
        Space("strings", f"str = repr = _repr_html_ = render()['html'], all forests up to "
              f"{4 if q else 5} nodes", forests(4 if q else 5, XL, FELEMS), run_strings, block=64,
              **dirs),
        Space("equal-sizes", "one difference in large trees", lambda: sizes(q), run_eq_size, block=1),
        Space("equal-history", "equality after each operation",
              lambda: ((w, o) for w in TREES for o in TREE_OPS), run_eq_history, **dirs),
        Space("equal", f"all pairs of a universe of {u} lists (and its lone tags, dependencies)",
              lambda: iter(range(u)), run_eq, block=2, **eqs),
        Space("deps-2", "all pairs of dependency operations", lambda: dep_cases(2), run_dep, **dirs),
        Space("worlds-2", "all pairs of operations",
              lambda: op_cases(2, TREES, fast if q else ALL_OPS), run_ops, block=32, **dirs),
        Space("worlds-save", "save_html before and after every operation",
              lambda: (c for w in TREES for a in SAVES for b in ALL_OPS
                       for c in ((w, (a, b)), (w, (b, a)))
                       if not ("expand" in w and "+change" in b)), run_ops, block=32, **dirs),
        Space("worlds-3", f"all triples of {len(core) if q else len(fast)} operations",
              lambda: op_cases(3, TREES, core if q else fast), run_ops, block=64, **dirs),
    ] + ([] if q else [
        Space("deps-3", "all triples of dependency operations", lambda: dep_cases(3), run_dep,
              block=64, **dirs)])
