"""Every way of adding a child to every small list of siblings: shared by C02 (plain strings) and
C04 (HTML(), self-rendering objects)."""
from __future__ import annotations

import itertools

from htmltools import HTMLDocument, Tag, TagList

from . import model as M
from . import real
from .common import E, T
from .engine import Violation

KINDS = (T("x"), T(""), ("H", "&"), ("H", "<!--"), ("R", "<r"), E("p"), ("E", "b", False, (), (T("k"),)),
         ("M", 1), E("script", T("<&"), T("&")), ("N", 0))


def cases(contents, quick):
    for n in range(4):
        for ks in itertools.product(KINDS, repeat=n):
            for c in contents[:3] if quick and n == 3 else contents:
                yield (ks, c)


def _do(x, f, *a):
    f(x, *a)
    return x


def _iadd(a, b):
    a += b
    return a


def _gen(*a):
    return (y for y in a)


def ways(ks, c):
    """(what, thunk making the object, model kids)."""
    L = lambda: TagList(*real.kids(ks))  # noqa
    x = lambda: real.build(c)  # noqa
    n = len(ks)
    c = c if isinstance(c, tuple) else T(c)
    yield "construct", lambda: TagList(*real.kids(ks), x()), ks + (c,)
    yield "construct first", lambda: TagList(x(), *real.kids(ks)), (c,) + ks
    yield "append", lambda: _do(L(), TagList.append, x()), ks + (c,)
    yield "append two", lambda: _do(L(), TagList.append, x(), x()), ks + (c, c)
    yield "append list", lambda: _do(L(), TagList.append, [x(), (x(),)]), ks + (c, c)
    yield "extend", lambda: _do(L(), TagList.extend, [x()]), ks + (c,)
    yield "extend tuple", lambda: _do(L(), TagList.extend, (x(), x())), ks + (c, c)
    yield "extend TagList", lambda: _do(L(), TagList.extend, TagList(x(), x())), ks + (c, c)
    yield "extend generator", lambda: _do(L(), TagList.extend, _gen(x(), x())), ks + (c, c)
    for i in range(n + 1):
        yield f"insert {i}", lambda: _do(L(), TagList.insert, i, x()), ks[:i] + (c,) + ks[i:]
        yield f"insert list {i}", lambda: _do(L(), TagList.insert, i, [x(), x()]), \
            ks[:i] + (c, c) + ks[i:]
        yield f"slices {i}", lambda: L()[:i] + [x()] + L()[i:], ks[:i] + (c,) + ks[i:]
    yield "insert -1", lambda: _do(L(), TagList.insert, -1, x()), ks[:-1] + (c,) + ks[-1:]
    yield "+ [x]", lambda: L() + [x()], ks + (c,)
    yield "+ TagList(x)", lambda: L() + TagList(x()), ks + (c,)
    yield "+ generator", lambda: L() + _gen(x(), x()), ks + (c, c)
    yield "[x] +", lambda: [x()] + L(), (c,) + ks
    yield "(x,) +", lambda: (x(),) + L(), (c,) + ks
    yield "TagList(x) +", lambda: TagList(x()) + L(), (c,) + ks
    if c[0] in "TH":
        yield "+ x", lambda: L() + x(), ks + (c,)
        yield "+= x", lambda: _iadd(L(), x()), ks + (c,)
        yield "extend(x)", lambda: _do(L(), TagList.extend, x()), ks + (c,)
    if c[0] == "T":
        yield "x +", lambda: x() + L(), (c,) + ks
        yield "x + L + x", lambda: x() + L() + x(), (c,) + ks + (c,)
    yield "+= [x]", lambda: _iadd(L(), [x()]), ks + (c,)
    yield "(+ [x]) * 2", lambda: (L() + [x()]) * 2, (ks + (c,)) * 2
    yield "tagify", lambda: (L() + [x()]).tagify(), ks + (c,)
    for nm, ws in (("div", True), ("span", False)):
        W = lambda *k: (("E", nm, ws, (), k),)  # noqa
        t = lambda *a: Tag(nm, *real.kids(ks), *a, _add_ws=ws)  # noqa
        yield f"{nm}", lambda: t(x()), W(*ks, c)
        yield f"{nm} append", lambda: _do(t(), Tag.append, x()), W(*ks, c)
        yield f"{nm} extend", lambda: _do(t(), Tag.extend, [x(), x()]), W(*ks, c, c)
        yield f"{nm} insert", lambda: _do(t(), Tag.insert, 0, x()), W(c, *ks)
        yield f"{nm} children", lambda: _do(t(), lambda y: y.children.append(x())), W(*ks, c)
        yield f"{nm} expansion", lambda: t(real.Expand(lambda: TagList(x(), x()))), W(*ks, c, c)


def run(case, ctx):
    ks, c = case
    for what, f, kids in ways(ks, c):
        o = f()
        s = str(o)
        if not M.same_markup(s, kids):
            raise Violation(f"{what}: {c!r} and the siblings {ks!r}:\n  got  {s!r}\n  want "
                            f"{''.join(t for t, _ in M.atoms(kids))!r} (up to layout)")
        ctx.step()
        ctx.outcome(s)
    d = HTMLDocument(*real.kids(ks))
    d.append(real.build(c) if isinstance(c, tuple) else c)
    s = d.render()["html"]
    s = s[s.index("<body>") + 6:s.rindex("</body>")]
    if not M.same_markup(s.strip("\n ") if not ks and c == T("") else s, ks + (c,)):
        raise Violation(f"document append: {c!r} and the siblings {ks!r}: {s!r}")
    ctx.state(case)
    ctx.trace()
