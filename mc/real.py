"""Builds real htmltools objects from literal specs, and snapshots them (public attributes only)."""
from __future__ import annotations

import htmltools as ht
from htmltools import HTML, HTMLDependency, MetadataNode, Tag, TagList


class ReprObj:
    """Self-rendering object."""

    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        return self.s


class Meta(MetadataNode):
    def __init__(self, ident=0):
        self.ident = ident


class Expand:
    """Object with tagify(): makes a fresh result each time."""

    def __init__(self, make):
        self.make = make

    def tagify(self):
        return self.make()


# Objects of the same kinds that look like something else to code which goes by attributes, and
# instances of subclasses.  build() alternates between these and the plain ones by position.

class Lookalike:
    name = "br"
    add_ws = True
    version = "1"
    data = "<data>"
    head = None

    @property
    def children(self):
        return TagList("<impostor>")

    @property
    def attrs(self):
        return {"impostor": "1"}


class ReprObj2(Lookalike, ReprObj):
    pass


class Meta2(Lookalike, Meta):
    pass


class Expand2(Lookalike, Expand):
    pass


class Tag2(Tag):
    pass


class Text2(str):
    pass


class HTML2(HTML):
    pass


class Dep2(HTMLDependency):
    pass


class TagList2(TagList):
    pass


PLAIN = (Tag, str, HTML, ReprObj, Meta, HTMLDependency, Expand, TagList)
OTHER = (Tag2, Text2, HTML2, ReprObj2, Meta2, Dep2, Expand2, TagList2)


def attr_value(v):
    return HTML(v[1]) if isinstance(v, tuple) else v


def dep(spec, cls=HTMLDependency):
    """spec: (name, version) or (name, version, dict(kwargs as items tuple))"""
    kw = {}
    for k, v in (spec[2] if len(spec) > 2 else ()):
        kw[k] = thaw(v)
    return cls(spec[0], spec[1], **kw)


def thaw(v):
    """("dict", (k, v)...) / ("list", ...) / ("taglist", spec...) / ("html", s) / scalar"""
    if isinstance(v, tuple):
        if v[0] == "dict":
            return {k: thaw(x) for k, x in v[1:]}
        if v[0] == "list":
            return [thaw(x) for x in v[1:]]
        if v[0] == "taglist":
            return TagList(*kids(v[1:]))
        if v[0] == "html":
            return HTML(v[1])
        if v[0] == "node":
            return build(v[1])
        raise ValueError(v)
    return v


def build(x, hook=None, depth=0, i=0):
    """depth=None: no variants."""
    k = x[0]
    tag, text, html, rep, meta, dependency, expand, _ = \
        OTHER if depth is not None and (depth + i) % 2 else PLAIN
    if k == "E":
        t = tag(x[1], *kids(x[4], hook, depth if depth is None else depth + 1), _add_ws=x[2])
        for name, v in x[3]:
            t.attrs[name] = attr_value(v)
        return t
    if k == "T":
        return text(x[1])
    if k == "N":
        return x[1]
    if k == "H":
        return html(x[1])
    if k == "R":
        return rep(x[1])
    if k == "M":
        return meta(x[1])
    if k == "D":
        d = dep(x[1], dependency)
        if hook is not None:
            hook(d)
        return d
    if k == "X":
        return expand(lambda: expansion(x, depth, i))
    raise ValueError(x)


def kids(xs, hook=None, depth=0):
    return [build(x, hook, depth, i) for i, x in enumerate(xs)]


def expansion(x, depth=0, i=0):
    """What the tagify() of an ("X", kind, kids) returns: fully tagified."""
    kind, ks = x[1], x[2]
    if kind == "list":
        cls = (OTHER if depth is not None and (depth + i) % 2 else PLAIN)[-1]
        return cls(*kids(ks, None, depth)).tagify()
    (one,) = ks
    r = build(one, None, depth, i)
    if hasattr(r, "tagify"):
        r = r.tagify()
    return r


# ---- snapshots -----------------------------------------------------------------------------

def kind(x):
    """Name of the type; build()'s subclasses go by the name of their base class."""
    t = type(x)
    return (t.__bases__[-1] if t in OTHER else t).__name__


def snap_attrs(a):
    return tuple((k, type(v).__name__, str(v)) for k, v in a.items())


def freeze(v):
    if isinstance(v, (Tag, TagList, MetadataNode, HTML, str, ReprObj)):
        return snap(v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    return (type(v).__name__, repr(v))


DEP_FIELDS = ("name", "version", "source", "script", "stylesheet", "meta", "all_files", "head")


def snap(x):
    """Structure of everything reachable through public attributes."""
    if isinstance(x, TagList):
        return ("TagList",) + tuple(snap(c) for c in x)
    if isinstance(x, Tag):
        return ("Tag", kind(x), x.name, x.add_ws, snap_attrs(x.attrs), snap(x.children))
    if isinstance(x, HTMLDependency):
        return ("Dep", kind(x)) + tuple(
            str(x.version) if f == "version" else freeze(getattr(x, f)) for f in DEP_FIELDS)
    if isinstance(x, Meta):
        return ("Meta", x.ident)
    if isinstance(x, HTML):
        return ("HTML", x.as_string())
    if isinstance(x, str):
        return ("str", kind(x), str.__str__(x))
    if isinstance(x, ReprObj):
        return ("Repr", x.s)
    return (kind(x), id(x))


def parts(x, out=None):
    """The mutable objects of a tree: tags, child lists, attribute maps, metadata nodes, and the
    containers inside dependencies."""
    if out is None:
        out = []
    if isinstance(x, TagList):
        out.append(x)
        for c in x:
            parts(c, out)
    elif isinstance(x, Tag):
        out += [x, x.attrs]
        parts(x.children, out)
    elif isinstance(x, HTMLDependency):
        out.append(x)
        for f in ("script", "stylesheet", "meta"):
            v = getattr(x, f)
            out.append(v)
            out += [d for d in v if isinstance(d, dict)]
        if isinstance(x.source, dict):
            out.append(x.source)
        if x.head is not None:
            parts(x.head, out)
    elif isinstance(x, MetadataNode):
        out.append(x)
    return out
