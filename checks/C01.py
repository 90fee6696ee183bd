"""C01: rendered markup tokenizes back to exactly the element tree.

Every case is an element tree; the real tree is built, rendered with several indent/eol
arguments, tokenized by a strict independent tokenizer and compared with the tree's own token
sequence (names, nesting, self-closing form, attributes in order with decoded values, text runs up
to whitespace at their ends)."""
import itertools

from mc import model as M
from mc import mutate
from mc import real
from mc.common import E, METACHARS, NASTY, SIZES, BIG_SIZES, T, chunks, nest, scalars
from mc.engine import Space, Violation
from htmltools import HTML, Tag, TagList, svg, tags

ASSUMPTIONS = ("eol arguments are whitespace; tag and attribute names are syntactically valid and "
               "distinct; <script>/<style> are not ordinary elements",)

CONFIG = ((0, "\n"), (1, "\r\n"), (3, ""), (2, "\t"))


def compare(out, kids, what):
    try:
        got = M.norm_tokens(M.tokenize(out))
    except M.Bad as e:
        raise Violation(f"{what}: output does not tokenize: {e}\n  output {out[:600]!r}")
    want = M.norm_tokens(M.tree_tokens(kids))
    if got != want:
        for i, (g, w) in enumerate(itertools.zip_longest(got, want)):
            if g != w:
                break
        raise Violation(f"{what}: token {i} is {g!r}, the tree has {w!r}\n  output {out[:600]!r}")


def check(kids, ctx, configs=CONFIG):
    objs = real.kids(kids)
    tl = TagList(*objs)
    outs = {}
    for ind, eol in configs:
        o = tl.get_html_string(ind, eol)
        if o not in outs:
            outs[o] = (ind, eol)
            compare(o, kids, f"TagList.get_html_string({ind}, {eol!r})")
        ctx.step()
        ctx.outcome(o)
        if len(kids) == 1 and kids[0][0] == "E":
            o = objs[0].get_html_string(ind, eol)
            if o not in outs:
                outs[o] = 1
                compare(o, kids, f"Tag.get_html_string({ind}, {eol!r})")
            ctx.step()
    o = str(tl)
    if o not in outs:
        compare(o, kids, "str()")
    o = tl.render()["html"]
    if o not in outs:
        compare(o, kids, "render()")
    if len(kids) == 1 and kids[0][0] == "E":
        for o, w in ((str(objs[0]), "str(tag)"), (objs[0].render()["html"], "tag.render()"),
                     (objs[0]._repr_html_(), "tag._repr_html_()")):
            if o not in outs:
                compare(o, kids, w)
    ctx.step(2)
    ctx.trace()


def run_tree(kids, ctx):
    ctx.state(kids)
    check(kids, ctx, CONFIG[:3])


def tree_cases(n, leaves, elems):
    return lambda: M.Forests(leaves, elems).upto(n)


A = (("a", "1"),)
LEAVES = (T("t"), T("<&"), ("N", 2))
ELEMS = (M.elem("div", True), M.elem("span", False), M.elem("hr", True), M.elem("br", False))
LEAVES2 = (T("t"), T(" s "), T(""), T(" "), T("\n"))
ELEMS2 = (M.elem("x-y", True, A), M.elem("b", False), M.elem("img", False, A),
          M.elem("div", False), M.elem("span", True))

NAMES = tuple(n for n in M.HTML_NAMES if n not in M.NO_ESCAPE) + ("command",)
CUSTOM = ("x-y", "my-element", "H1", "foreignObject", "svg:rect", "a1", "custom-\u00e9", "x.y",
          "brx", "hrx", "scripts", "styles", "inputs", "x_y", "linkx", "metadata", "BR", "Img")


def name_cases():
    t = T("a<b")
    for n in NAMES + CUSTOM:
        for ws in (True, False):
            x = E(n, ws=ws)
            xa = E(n, ws=ws, attrs=A)
            xt = E(n, t, ws=ws)
            xd = E(n, ("D", ("d", "1.0")), ws=ws)
            for kids in ((x,), (xa,), (xt,), (xd,), (x, x), (x, t, xt), (t, x, t), (xt, x),
                         (E("div", x),), (E("span", x, xt),), (E(n, x, ws=ws),),
                         (E(n, xt, t, ws=ws),), (E(n, ("N", 3), ws=ws), t),
                         (E(n, T(""), ws=ws), t), (E(n, t, T(" "), t, ws=ws), t, T("\t"), t), (E(n, t, E("div", t), t, ws=ws),),
                         (E(n, E("b", t), E("i"), ws=ws), t)):
                yield kids


def pair_cases():
    ns = NAMES + CUSTOM
    for a in ns:
        for b in ns:
            yield (a, b)


def run_pair(case, ctx):
    a, b = case
    for wa, wb in ((True, False), (False, True)):
        kids = (E(a, E(b, ws=wb), T("x"), ws=wa), E(b, E(a, T("y"), ws=wa), ws=wb))
        ctx.state(kids)
        check(kids, ctx, CONFIG[:1])


def func_cases():
    for mod in ("tags", "svg"):
        for f in sorted(k for k in vars(tags if mod == "tags" else svg)
                        if not k.startswith("_")):
            yield (mod, f)


def run_func(case, ctx):
    """Tag functions with their default whitespace flag, in small contexts."""
    mod, f = case
    fn = getattr(tags if mod == "tags" else svg, f)
    if not callable(fn) or not hasattr(fn, "__wrapped__") and not hasattr(fn, "__code__"):
        return
    if f in M.NO_ESCAPE or isinstance(fn, type):
        return
    try:
        x0 = fn()
    except TypeError:
        return
    name, ws = x0.name, x0.add_ws
    kids = (E(name, ws=ws), T("&"), E(name, T("<x>"), E("b", T("y")), ws=ws, attrs=A))
    ctx.state(case)
    tl = TagList(fn(), "&", fn("<x>", tags.b("y"), a="1"))
    for ind, eol in CONFIG:
        compare(tl.get_html_string(ind, eol), kids, f"{mod}.{f} get_html_string({ind},{eol!r})")
        ctx.step()
    ctx.trace()


ATTRN = ("id", "class", "data-x", "x:y", "viewBox", "@click", "aria-label", "a", "_", "z" * 30)
ATTRV = ("", "v", '"', "'", "&", "<>", "a\nb", "&quot;", "\r", "é")


def attr_cases():
    for n in range(0, 4):
        for names in itertools.permutations(ATTRN[:6] if n == 3 else ATTRN, n):
            for vals in itertools.product(ATTRV if n < 3 else ATTRV[:5], repeat=n):
                yield tuple(zip(names, vals))
    for n in SIZES[:45]:
        yield tuple((f"a{i}", ATTRV[i % len(ATTRV)]) for i in range(n))
        yield tuple((f"a{n - i}", "x" * i) for i in range(n))


def run_attr(attrs, ctx):
    ctx.state(attrs)
    # "_" is normalised to "" by the library, which is not a valid name: skip through setitem
    attrs = tuple((k if k != "_" else "u", v) for k, v in attrs)
    check((E("div", T("x"), attrs=attrs), E("br", ws=False, attrs=attrs)), ctx, CONFIG[:2])


# value -> the text it denotes
STORED = ((("p", "v&\""), "v&\""), (("h", "m&amp;&quot;n"), "m&\"n"), (("h", "plain"), "plain"), (True, ""),
          (1.5, "1.5"), (("h", ""), ""), (("p", ""), ""), (("s", "'<"), "'<"))


class StrSub(str):
    pass


def stored(v):
    if not isinstance(v, tuple):
        return v
    return {"p": str, "h": HTML, "s": StrSub}[v[0]](v[1])


def stored_cases(n):
    def cases():
        for k in range(1, n + 1):
            for vals in itertools.product(range(len(STORED)), repeat=k):
                for names in (("id", "class", "x-y", "style", "href")[:k], ("zz", "style", "a", "class", "b")[:k]):
                    yield (names, vals)
        for k in SIZES[:45]:
            for m in (2, 3, 5, 8):
                yield (tuple(f"a{k - i}" for i in range(k)), tuple(i * i % m for i in range(k)))
    return cases


def run_stored(case, ctx):
    """Every kind of value in every place; also merged and assigned ones."""
    names, vals = case
    vs = [stored(STORED[i][0]) for i in vals]
    want = tuple((n, STORED[i][1]) for n, i in zip(names, vals))
    pairs = list(zip(names, vs))
    one = Tag("div", dict(pairs), "x")
    sep = Tag("div", *[{n: v} for n, v in pairs], "x")
    late = Tag("div", "x")
    for n, v in pairs:
        late.attrs[n] = v
    upd = Tag("div", "x")
    upd.attrs.update(*[{n: v} for n, v in pairs])
    for t, what in ((one, "one dict"), (sep, "several dicts"), (late, "assigned"), (upd, "update()")):
        for o in (str(t), str(Tag("p", t, Tag("br", t.attrs, _add_ws=False)))):
            kid = E("div", T("x"), attrs=want)
            kids = (kid,) if o[1] == "d" else (E("p", kid, E("br", ws=False, attrs=want)),)
            compare(o, kids, f"{what} {pairs!r}")
            ctx.step()
    both = Tag("hr", dict(pairs), {n: "m<" for n in reversed(names)})
    # an empty value is a value too
    compare(str(both), (E("hr", attrs=tuple((n, w + " m<") for n, w in want)),), f"merged {pairs!r}")
    ctx.state(case)
    ctx.trace()


RELATED = ("a", "A", "aA", "Aa", "data-a", "data-A", "a-b", "x:a", "viewBox", "viewbox", "data-viewBox",
           "view", "Box", "svg", "SVG", "cite", "label", "title", "x-viewBox", "class", "className", "id", "ID", "data-id", "http-equiv",
           "b", "B", "html", "=", "a.b", "a1", "e\u0301", "\u00e9")


def related_cases(n):
    def cases():
        for a, b in itertools.permutations(RELATED, 2):
            for va in ("", "v", "a", "A", "viewBox", b, f'{b}="x"', f' {b}="', "svg"):
                for tag in ("svg", "a", "x-viewBox", "cite"):
                    yield (tag, ((a, va), (b, "w")))
                    yield (tag, ((a, va), (b, va)))
        for names in itertools.permutations([x for x in RELATED if x != "="][:n], 3):
            yield ("a", tuple((x, names[0]) for x in names))
    return cases


def run_related(case, ctx):
    """Attribute names that contain each other, the tag's name, or an earlier value."""
    tag, attrs = case
    attrs = tuple((k.replace("=", "@"), v) for k, v in attrs)
    ctx.state(case)
    check((E(tag, T("x"), attrs=attrs), E("br", ws=False, attrs=attrs[::-1])), ctx, CONFIG[:1])


def str_cases(k):
    return lambda: itertools.chain(NASTY, M.words(METACHARS, k))


def run_str(s, ctx):
    if "\x00" in s:
        return
    ctx.state(s)
    kids = (E("div", T(s), attrs=(("t", s),)), T(s), E("b", T(s), E("br"), T(s)),
            E("p", T(s), E("p", T(s)), T(s), attrs=(("x", "1"), ("y", s))))
    check(kids, ctx, CONFIG[:1])


def run_chars(r, ctx):
    cs = [c for c in scalars(*r) if c != "\0"]
    if not cs:
        return
    s = "".join(cs)
    ctx.fresh_states(len(cs))
    check((E("div", T("a" + s + "z"), attrs=(("t", s),)),
           E("b", T("a" + s + "z"), T("."), attrs=(("x", s), ("t", s)))), ctx, CONFIG[:1])


def ladder_cases(big):
    for n in SIZES + BIG_SIZES:
        for kind in ("fan-block", "fan-inline", "fan-mixed", "fan-text", "text", "attr", "name",
                     "attrname", "void", "tail"):
            if kind == "tail" or n <= (100001 if big else 8193):
                yield (kind, n)
        if n <= 200:
            for kind in ("deep-block", "deep-inline", "deep-mixed", "deep-alt", "comb"):
                yield (kind, n)


def ladder(kind, n):
    t = T("x")
    if kind == "fan-block":
        return (E("div", *[E("p", T(str(i))) for i in range(n)]),)
    if kind == "fan-inline":
        return (E("span", *[E("b", T(str(i))) for i in range(n)]),)
    if kind == "fan-mixed":
        return tuple((E("p"), E("b", T("&")), T(f"{i} "), E("br"))[i % 4] for i in range(n))
    if kind == "fan-text":
        return (E("div", *[T("<" if i % 7 == 3 else f"w{i}") for i in range(n)]),)
    if kind == "text":
        s = ("ab<c&d>" * (n // 7 + 1))[:n]
        return (E("div", T(s)), T(s), E("b", t, T(s)))
    if kind == "tail":
        s = "x" * n + "<&>\"\n"
        return (E("div", t, T("y"), attrs=(("p", s),)), E("b", T(s)), E("p", t, T(s), E("i", T(s))))
    if kind == "attr":
        s = ("ab\"c&d'" * (n // 7 + 1))[:n]
        return (E("div", t, attrs=(("p", s), ("q", "1"))),)
    if kind == "name":
        return (E("x" * n, t, ws=True), E("y" * n, ws=False))
    if kind == "attrname":
        return (E("b", t, attrs=(("x" * n, "1"), ("y" * n, "2"))),)
    if kind == "void":
        return tuple(E(sorted(M.VOID)[i % 16]) for i in range(n))
    if kind == "deep-block":
        return nest([("div", True)] * n, (t,))
    if kind == "deep-inline":
        return nest([("b", False)] * n, (t,))
    if kind == "deep-mixed":
        return nest([("div", True)] * (n // 2) + [("b", False)] * (n - n // 2), (t, E("br")))
    if kind == "deep-alt":
        return nest([("div", True), ("b", False)] * (n // 2), (t, E("br"), E("hr")))
    if kind == "comb":
        kids = (t,)
        for i in range(n):
            kids = (T("l"), E(("div", "span", "p")[i % 3], *kids), E("i", T("r")))
        return kids
    raise ValueError(kind)


def run_ladder(case, ctx):
    ctx.state(case)
    check(ladder(*case), ctx, CONFIG[:2] if case[1] < 3000 else CONFIG[:1])


def alias_cases():
    for shape in range(6):
        for ws in (True, False):
            yield (shape, ws)


def run_alias(case, ctx):
    """The same object placed several times."""
    shape, ws = case
    from htmltools import Tag
    spec = E("i", T("s"), E("br"), ws=ws)
    o = real.build(spec)
    if shape == 0:
        kids, objs = (spec, spec), [o, o]
    elif shape == 1:
        kids, objs = (E("div", spec, T("x"), spec),), [Tag("div", o, "x", o)]
    elif shape == 2:
        kids = (E("div", spec, E("p", spec)), spec)
        objs = [Tag("div", o, Tag("p", o)), o]
    elif shape == 3:
        inner = Tag("p", o, o)
        kids = (E("p", spec, spec), E("div", E("p", spec, spec), spec))
        objs = [inner, Tag("div", inner, o)]
    elif shape == 4:
        tl = TagList("a", o)
        kids, objs = (T("a"), spec, T("a"), spec), [tl, tl]
    else:
        a = Tag("b", "1", _add_ws=ws)
        kids = (E("b", T("1"), E("u", T("2")), ws=ws),) * 2
        objs = [a, a]
        a.append(Tag("u", "2", _add_ws=False))
    ctx.state(case)
    for ind, eol in CONFIG:
        compare(TagList(*objs).get_html_string(ind, eol), kids, f"aliased, ({ind},{eol!r})")
        ctx.step()
    ctx.trace()


MUT = [o for o in mutate.all_ops() if o[1][0] != "with" and "h" not in o[1][1:]
       and o[1][1:2] != ("id",)]


def run_mut(case, ctx):
    def look(root, kids, what, ctx):
        compare(str(root), kids, what)
        compare(root.get_html_string(1, "\r\n"), kids, what + ", indented")
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("names", "every catalogue/custom name x 17 contexts x whitespace flag",
              name_cases, lambda k, c: (c.state(k), check(k, c))[1], block=32),
        Space("functions", "every tag function, default flag", func_cases, run_func),
        Space("attrs", "attribute sequences up to 3 (permutations x values), counts to 129",
              attr_cases, run_attr, block=64),
        Space("stored", f"all sequences of up to {4 if q else 5} of {len(STORED)} kinds of values, many "
              "attributes", stored_cases(4 if q else 5), run_stored, block=64),
        Space("attr-names", f"ordered pairs and triples of {len(RELATED)} related attribute names x "
              "values that contain names", related_cases(12 if q else 24), run_related, block=64),
        Space("mutations", f"all histories of 2 of {len(MUT)} operations"
              f"{'' if q else ' and of 3 over a reduced set'} on 3 documents, "
              "rendered after each", lambda: itertools.chain(
                  mutate.cases(2, MUT, (0, 1, 3)),
                  () if q else mutate.cases(3, mutate.few_ops(), (0, 1, 3))), run_mut, block=64),
        Space("aliases", "shared objects", alias_cases, run_alias),
        Space("ladders", "depth/fan-out/length/attribute-count ladders",
              lambda: ladder_cases(not q), run_ladder, block=1),
        Space("strings", f"all strings up to {3 if q else 4} over {len(METACHARS)} metacharacters, "
              "in text and attributes", str_cases(3 if q else 4), run_str, block=64),
        Space("chars", "every Unicode scalar value but NUL, in text and attribute values",
              lambda: chunks(64), run_chars, block=64),
        Space("trees", f"all forests up to {5 if q else 6} nodes over 4 elements, 3 leaves",
              tree_cases(5 if q else 6, LEAVES, ELEMS), run_tree, block=256),
        Space("trees2", f"all forests up to {4 if q else 5} nodes over 5 elements, 5 leaves",
              tree_cases(4 if q else 5, LEAVES2, ELEMS2), run_tree, block=256),
        Space("pairs", "every ordered pair of names as parent/child and siblings",
              pair_cases, run_pair, block=64),
    ]
