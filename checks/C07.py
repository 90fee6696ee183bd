"""C07: metadata nodes leave no trace in the markup.

Metamorphic, exhaustive over positions: every tree without metadata is compared with every variant
of it that has metadata nodes in a subset of its gaps (before, between, after children, at every
level, several in a row): the markup must be identical for every indent/eol, and the reported
dependencies must be exactly the inserted ones, in document order."""
import itertools

from htmltools import HTMLDependency, MetadataNode, Tag, TagList, head_content, tags, svg
from mc import model as M
from mc import mutate
from mc import real
from mc.common import E, SIZES, T, nest
from mc.engine import Space, Violation

CONFIG = ((0, "\n"), (2, "\r\n"), (1, ""))


class SubDep(HTMLDependency):
    pass


class Bare(MetadataNode):
    pass


class ReprMeta(MetadataNode):
    """Metadata that a notebook can display, and that is a container."""

    def _repr_html_(self):
        return "<shown>"

    def __str__(self):
        return "<str>"

    def __len__(self):
        return 0


class ReprDep(HTMLDependency):
    def _repr_html_(self):
        return "<shown>"

    def __bool__(self):
        return False


def metas():
    """(kind, constructor).  Kinds starting with D are dependencies."""
    return (
        ("M", real.Meta), ("D", lambda: HTMLDependency("a", "1.0")),
        ("D2", lambda: HTMLDependency("b", "2", head="<x>", script={"src": "s.js"},
                                      stylesheet={"href": "s.css"}, source={"href": "u"},
                                      meta={"name": "n", "content": "c"})),
        ("DH", lambda: head_content(Tag("title", "t"))), ("DS", lambda: SubDep("c", "3")),
        ("MN", MetadataNode), ("MB", Bare), ("MR", ReprMeta), ("DR", lambda: ReprDep("e", "4")),
    )


METAS = metas()


def gaps(kids):
    """Number of gaps in a forest: positions where a node can be inserted, in preorder."""
    return len(kids) + 1 + sum(gaps(k[4]) for k in kids if k[0] == "E")


def insert(kids, plan, pos=0):
    """Insert plan[g] (list of specs) at gap g.  -> (new kids, next gap)"""
    out = list(plan.get(pos, ()))
    pos += 1
    for k in kids:
        if k[0] == "E":
            sub, pos = insert(k[4], plan, pos)
            k = k[:4] + (sub,)
        out.append(k)
        out += plan.get(pos, ())
        pos += 1
    return tuple(out), pos


def build(kids, sink):
    out = []
    for k in kids:
        if k[0] == "E":
            t = Tag(k[1], *build(k[4], sink), _add_ws=k[2])
            for n, v in k[3]:
                t.attrs[n] = v
            out.append(t)
        elif k[0] == "META":
            m = METAS[k[1]][1]()
            if METAS[k[1]][0][0] == "D":
                sink.append(m)
            out.append(m)
        else:
            out.append(real.build(k))
    return out


def outputs(objs, full):
    """All markup that can be asked of these objects."""
    tl = TagList(*objs)
    res = [tl.get_html_string(i, e) for i, e in (CONFIG if full else CONFIG[:2])]
    res.append(tl.get_html_string(add_ws=False))
    if full:
        res += [str(tl), tl.render()["html"], tl._repr_html_(), str(tl.tagify())]
    vis = [o for o in objs if not isinstance(o, MetadataNode)]
    if len(vis) == 1 and isinstance(vis[0], Tag):
        for i, e in CONFIG[:2]:
            res.append(vis[0].get_html_string(i, e))
        if full:
            res += [str(vis[0]), vis[0].render()["html"], str(vis[0].tagify())]
    return tl, res


def variant(kids, plan, base, ctx, full):
    new, _ = insert(kids, plan)
    sink = []
    tl, res = outputs(build(new, sink), full)
    if res != base:
        for a, b in itertools.zip_longest(res, base):
            if a != b:
                break
        raise Violation(f"with metadata at gaps {plan!r}:\n  got  {a!r}\n  want {b!r} (the same "
                        f"tree without)")
    got = tl.get_dependencies(dedup=False)
    if len(got) != len(sink) or any(a is not b for a, b in zip(got, sink)):
        raise Violation(f"with metadata at gaps {plan!r}: get_dependencies(dedup=False) is "
                        f"{got!r}, inserted {sink!r}")
    names = list(dict.fromkeys(d.name for d in sink))
    for what, g in (("get_dependencies()", tl.get_dependencies()),
                    ("render()", tl.render()["dependencies"] if full else None)):
        if g is not None and [d.name for d in g] != names:
            raise Violation(f"with metadata at gaps {plan!r}: {what} is {g!r}, want {names}")
    ctx.step(len(res) + 2)
    ctx.trace()


def run_subsets3(kids, ctx):
    run_subsets(kids, ctx, 3)


def run_subsets(kids, ctx, most=99):
    """Every subset of gaps (of at most `most`), one metadata node in each; kinds rotate."""
    ctx.state(kids)
    _, base = outputs(build(kids, []), False)
    ctx.outcome(tuple(base))
    n = gaps(kids)
    for mask in range(1, 1 << n):
        if mask.bit_count() > most and mask != (1 << n) - 1:
            continue
        plan = {}
        for g in range(n):
            if mask >> g & 1:
                plan[g] = [("META", (g + mask) % len(METAS))]
        variant(kids, plan, base, ctx, False)


def run_kinds(kids, ctx):
    """Every gap x every kind, single and double, and every pair of gaps; all rendering paths."""
    ctx.state(kids)
    _, base = outputs(build(kids, []), True)
    n = gaps(kids)
    for g in range(n):
        for k in range(len(METAS)):
            variant(kids, {g: [("META", k)]}, base, ctx, True)
            variant(kids, {g: [("META", k)] * 2}, base, ctx, True)
            variant(kids, {g: [("META", k), ("META", (k + 1) % len(METAS)), ("META", 0)]}, base,
                    ctx, True)
    for g, h in itertools.combinations(range(n), 2):
        for k in (0, 1):
            variant(kids, {g: [("META", k)], h: [("META", 1 - k)]}, base, ctx, True)
    variant(kids, {g: [("META", g % len(METAS))] * 2 for g in range(n)}, base, ctx, True)


def cases(n, ls, es, maxgaps=99):
    def gen():
        for f in M.Forests(ls, es).upto(n):
            if gaps(f) <= maxgaps:
                yield f
    return gen


L1 = (T("t"), ("H", "<h>"), ("R", "<r>"))
E1 = (M.elem("div", True), M.elem("b", False), M.elem("br", False), M.elem("hr", True))
L2 = (T("t"), T(""))
E2 = (M.elem("div", True), M.elem("b", False), M.elem("script", True), M.elem("img", True))

NAMES = tuple(dict.fromkeys(M.HTML_NAMES + ("command", "x-y", "svg", "path", "g", "textPath")))


def run_name(n, ctx):
    t, b, p = T("t"), E("b", T("u")), E("p", T("v"))
    for ws in (True, False):
        for kids in ((E(n, ws=ws),), (E(n, t, ws=ws),), (E(n, t, t, ws=ws),), (E(n, b, ws=ws),),
                     (E(n, p, b, ws=ws), t), (E(n, ("H", "<h>"), ws=ws),),
                     (E("div", E(n, ws=ws)),), (b, E(n, ws=ws), b), (E("b", E(n, t, ws=ws)), t)):
            run_subsets(kids, ctx, 2)


def ladder_cases():
    for n in SIZES:
        if n <= 520:
            for kind in ("only", "first", "last", "between", "everywhere", "void", "text"):
                yield (kind, n)
        if n <= 120:
            yield ("deep", n)
            yield ("deepevery", n)


def run_ladder(case, ctx):
    kind, n = case
    ctx.state(case)
    p, b = E("p", T("x")), E("b", T("y"))
    ms = [("META", i % len(METAS)) for i in range(n)]
    if kind == "only":
        kids, plan = (E("div"),), {1: ms}
    elif kind == "first":
        kids, plan = (E("div", T("t")),), {1: ms}
    elif kind == "text":
        kids, plan = (E("div", T("t")), T("u")), {0: ms, 1: ms[:2], 2: ms[:3], 4: ms}
    elif kind == "last":
        kids, plan = (E("div", b, p),), {5: ms, 6: ms}
    elif kind == "between":
        kids, plan = (E("div", b, p, b),), {3: ms, 5: ms}
    elif kind == "void":
        kids, plan = (E("br"), E("hr")), {1: ms, 3: ms}
    elif kind == "everywhere":
        kids = (E("div", *[(T("t"), b, p, ("R", "r"))[i % 4] for i in range(n)]),)
        plan = {g: [("META", g % len(METAS))] for g in range(gaps(kids))}
    elif kind == "deep":
        kids = nest([("div", True), ("b", False)] * (n // 2), (T("x"),))
        plan = {g: [("META", 1)] for g in range(0, gaps(kids), 3)}
    else:
        kids = nest([("div", True)] * n, (p, b))
        plan = {g: [("META", g % len(METAS))] for g in range(gaps(kids))}
    _, base = outputs(build(kids, []), n <= 60)
    variant(kids, plan, base, ctx, n <= 60)


def way_cases():
    for k in range(len(METAS)):
        for way in range(12):
            yield (k, way)


def run_way(case, ctx):
    """Metadata added to an existing tag by every operation, and removed again."""
    k, way = case
    ctx.state(case)
    mk = METAS[k][1]
    for base in ((), ("t",), (("b",),), ("t", ("p",)), (("p",), "t", ("b",))):
        for name, ws in (("div", True), ("span", False), ("br", False), ("hr", True)):
            def kids():
                return [Tag(c[0], "k", _add_ws=c[0] != "b") if isinstance(c, tuple) else c
                        for c in base]
            want = str(Tag(name, *kids(), _add_ws=ws))
            t = Tag(name, *kids(), _add_ws=ws)
            m = mk()
            if way == 0:
                t.append(m)
            elif way == 1:
                t.insert(0, m)
            elif way == 2:
                t.extend([m, None, m])
            elif way == 3:
                t.children.append([m, [m]])
            elif way == 4:
                t.children.insert(len(base) // 2, m)
            elif way == 5:
                t.children = t.children + [m]
            elif way == 6:
                t.children = [m] + t.children
            elif way == 7:
                t.children += [m]
            elif way == 8:
                t = Tag(name, [m, kids()], m, _add_ws=ws)
            elif way == 9:
                t = Tag(name, real.Expand(lambda: TagList(m, *kids(), m)), _add_ws=ws)
            elif way == 10:
                t = Tag(name, *kids(), real.Expand(lambda: mk()), _add_ws=ws)
            else:
                t.children.extend(TagList(m))
            if str(t) != want or t.render()["html"] != want:
                raise Violation(f"way {way}: {str(t)!r}, want {want!r}")
            if way not in (9, 10) and t.get_html_string(3, "|") != \
                    Tag(name, *kids(), _add_ws=ws).get_html_string(3, "|"):
                raise Violation(f"way {way}: indented markup differs")
            deps = t.render()["dependencies"]
            if (len(deps) > 0) != (METAS[k][0][0] == "D"):
                raise Violation(f"way {way}: dependencies {deps!r}")
            if way not in (9, 10):
                t.children[:] = [c for c in t.children if not isinstance(c, MetadataNode)]
                if str(t) != want or t.render()["dependencies"] != []:
                    raise Violation(f"way {way}: after removal {str(t)!r}, want {want!r}")
            ctx.step(4)
    for fn in (tags.div, tags.span, tags.br, tags.hr, tags.script, svg.circle, tags.img):
        if str(fn(mk())) != str(fn()) or str(fn(mk(), "x", mk())) != str(fn("x")) or \
                str(fn("y", mk(), "x")) != str(fn("y", "x")):
            raise Violation(f"{fn.__name__}: {str(fn(mk()))!r}")
        ctx.step(3)
    ctx.trace()


def strip(kids):
    return tuple(k if k[0] != "E" else k[:4] + (strip(k[4]),) for k in M.visible(kids))


def run_mut(case, ctx):
    def look(root, kids, what, ctx):
        clean = real.kids(strip(kids))
        clean = TagList(*clean) if isinstance(root, TagList) else clean[0]
        for ind, eol in CONFIG[:2]:
            got, want = root.get_html_string(ind, eol), clean.get_html_string(ind, eol)
            if got != want:
                raise Violation(f"{what}:\n  got  {got!r}\n  want {want!r} (without metadata)")
        got = [(d.name, str(d.version)) for d in root.get_dependencies(dedup=False)]
        want = [d[1][:2] for d in M.collect(kids, "D")]
        if got != want:
            raise Violation(f"{what}: dependencies {got!r}, want {want!r}")
    mutate.run(case, ctx, look)


def spaces(tier):
    q = tier == "quick"
    return [
        Space("mutations", f"all histories of 2 operations"
              f"{'' if q else ' and of 3 over a reduced set'} on {mutate.NSTARTS} documents, rendered "
              "after each", lambda: itertools.chain(
                  mutate.cases(2), () if q else mutate.cases(3, mutate.few_ops())), run_mut,
              block=64),
        Space("ways", "7 metadata kinds x 12 ways of adding and removing x 20 tags", way_cases,
              run_way, block=1),
        Space("names", "every element name x flag x 9 contexts x all subsets of at most 2 or all gaps",
              lambda: iter(NAMES), run_name, block=1),
        Space("ladders", "many metadata nodes, many positions, deep trees", ladder_cases,
              run_ladder, block=1),
        Space("kinds", f"all forests up to {3 if q else 4} nodes x gap x 7 kinds x 1-3 in a row, "
              "and all gap pairs, every rendering path", cases(3 if q else 4, L1, E1), run_kinds,
              block=4),
        Space("kinds2", f"... up to {3 if q else 4} nodes with script, img, empty text",
              cases(3 if q else 4, L2, E2), run_kinds, block=4),
        Space("subsets", f"all forests up to {4 if q else 5} nodes x every subset of gaps",
              cases(4 if q else 5, L1[:2 if q else 2], E1[:3 if q else 2]), run_subsets, block=4),
        Space("subsets-deep", "all forests up to 5 nodes over block, inline, text x every subset "
              f"of {'at most 3 or all ' if q else ''}gaps", cases(5, L1[:1], E1[:2]),
              run_subsets3 if q else run_subsets, block=4),
    ]
