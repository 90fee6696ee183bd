"""Reference models.  Written from the property statements and the documentation; imports
nothing from htmltools.

A document is a literal spec, a nested tuple:
    ("E", name, add_ws, attrs, kids)   element; attrs = ((name, value), ...), a value is a str
                                       or ("H", markup)
    ("T", s)  plain text     ("H", s)  HTML()     ("R", s)  self-rendering object
    ("N", n)  number         ("M", id) plain metadata node   ("D", dep) HTML dependency
    ("X", kind, kids)        object with tagify(), expanding to kids
"""
from __future__ import annotations

import html as _html
import itertools
import re

VOID = frozenset("area base br col command embed hr img input keygen link meta param source "
                 "track wbr".split())

INLINE = frozenset(
    "a abbr acronym audio b bdi bdo big br button canvas cite code data datalist del dfn em "
    "embed i iframe img input ins kbd label map mark meter noscript object output picture pre "
    "progress q ruby s samp select slot small span strong sub sup svg template textarea time u "
    "tt var video wbr".split())

HTML_NAMES = tuple(
    "a abbr address area article aside audio b base bdi bdo blockquote body br button canvas "
    "caption cite code col colgroup command data datalist dd del details dfn dialog div dl dt "
    "em embed fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup hr "
    "html i iframe img input ins kbd keygen label legend li link main map mark menu meta meter "
    "nav noscript object ol optgroup option output p param picture pre progress q rb rp rt rtc "
    "ruby s samp script section select slot small source span strong style sub summary sup svg "
    "table tbody td template textarea tfoot th thead time title tr track u ul var video wbr "
    "math portal".split())
# The functions of htmltools.tags and htmltools.svg, frozen.
TAGS_CATALOGUE = tuple(sorted(
    set(HTML_NAMES) - {"keygen", "rb", "hgroup", "rtc", "command", "del"}))
SVG_CATALOGUE = tuple(
    "a animate animateMotion animateTransform circle clipPath defs desc discard ellipse feBlend "
    "feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting "
    "feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR "
    "feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight "
    "feSpecularLighting feSpotLight feTile feTurbulence filter foreignObject g hatch hatchpath "
    "image line linearGradient marker mask metadata mpath path pattern polygon polyline "
    "radialGradient rect script set stop style svg switch symbol text textPath title tspan use "
    "view".split())
SHORTCUTS = tuple("a br code div em h1 h2 h3 h4 h5 h6 hr img p pre span strong".split())
NO_ESCAPE = frozenset(("script", "style"))

TEXT_REF = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
ATTR_REF = {**TEXT_REF, '"': "&quot;", "'": "&apos;", "\r": "&#13;", "\n": "&#10;"}
TEXT_TABLE = {ord(k): v for k, v in TEXT_REF.items()}
ATTR_TABLE = {ord(k): v for k, v in ATTR_REF.items()}

WS = " \t\r\n\f"


def esc(s):
    return s.translate(TEXT_TABLE)


def esc_attr(s):
    return s.translate(ATTR_TABLE)


_REF = re.compile(r"&(?:#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);")


def match_escaped(out, s, special, pos=0):
    """Consume from out[pos:] the escaped form of s: each char of `special` as *some* complete
    character reference that decodes to it, every other char as itself.  -> end or -1."""
    canon = s.translate(ATTR_TABLE if '"' in special else TEXT_TABLE)
    if out.startswith(canon, pos):
        return pos + len(canon)
    for c in s:
        if c in special:
            m = _REF.match(out, pos)
            if not m or _html.unescape(m.group()) != c:
                return -1
            pos = m.end()
        else:
            if not out.startswith(c, pos):
                return -1
            pos += 1
    return pos


def is_escaped(out, s, attr=False):
    return match_escaped(out, s, "&<>\"'\r\n" if attr else "&<>") == len(out)


def attr_text(v):
    """What is written between the quotes."""
    if isinstance(v, tuple):
        return v[1] if v[0] == "H" else " ".join(attr_text(p) for p in v[1:])
    return esc_attr(v)


def num_text(n):
    return str(n)


def node_is_meta(x):
    return x[0] in "MD"


def open_text(x):
    return "<" + x[1] + "".join(f' {k}="{attr_text(v)}"' for k, v in x[3])


def content_text(x, escape=True):
    k = x[0]
    if k == "T":
        return esc(x[1]) if escape else x[1]
    if k == "N":
        return esc(num_text(x[1])) if escape else num_text(x[1])
    if k in "HR":
        return x[1]
    raise ValueError(x)


def visible(kids):
    return [k for k in kids if not node_is_meta(k)]


def has_block(x):
    return x[0] == "E" and (x[2] or any(map(has_block, x[4])))


def inline_text(x, escape=True):
    """Rendering of a subtree in which no tag has whitespace enabled."""
    if x[0] != "E":
        return content_text(x, escape)
    kids = visible(x[4])
    if not kids and x[1] in VOID:
        return open_text(x) + "/>"
    e = x[1] not in NO_ESCAPE
    return open_text(x) + ">" + "".join(inline_text(k, e) for k in kids) + f"</{x[1]}>"


# ---- C06: line-structured renderer for trees without block-inside-inline -------------------

def valid_nesting(x):
    """No inline tag contains a block tag (at any depth)."""
    if x[0] != "E":
        return True
    if x[2]:
        return all(map(valid_nesting, x[4]))
    return not any(map(has_block, x[4]))


def layout_lines(kids, depth, escape=True):
    """[(depth, text), ...] for a list of siblings."""
    lines, run = [], None
    for k in visible(kids):
        if k[0] == "E" and k[2]:
            if run is not None:
                lines.append((depth, run))
                run = None
            lines += block_lines(k, depth)
        else:
            run = (run or "") + inline_text(k, escape)
    if run is not None:
        lines.append((depth, run))
    return lines


def block_lines(x, depth):
    kids = visible(x[4])
    if not kids:
        return [(depth, open_text(x) + ("/>" if x[1] in VOID else f"></{x[1]}>"))]
    e = x[1] not in NO_ESCAPE
    if len(kids) == 1 and kids[0][0] in "THN":
        return [(depth, open_text(x) + ">" + content_text(kids[0], e) + f"</{x[1]}>")]
    return ([(depth, open_text(x) + ">")] + layout_lines(kids, depth + 1, e)
            + [(depth, f"</{x[1]}>")])


def layout(kids, indent=0, eol="\n"):
    return eol.join("  " * (d + indent) + t for d, t in layout_lines(kids, 0))


# ---- C05: token sequence with the gaps where layout is permitted ---------------------------

def atoms(kids, escape=True, out=None):
    """[(text, is_block_tag_token), ...]"""
    if out is None:
        out = []
    for x in visible(kids):
        if x[0] != "E":
            out.append((content_text(x, escape), False))
            continue
        ks = visible(x[4])
        if not ks and x[1] in VOID:
            out.append((open_text(x) + "/>", x[2]))
            continue
        out.append((open_text(x) + ">", x[2]))
        atoms(ks, x[1] not in NO_ESCAPE, out)
        out.append((f"</{x[1]}>", x[2]))
    return out


def gap_match(out, ats, eol, indent):
    """None if `out` is the atoms in order with layout (spaces and eol) only in permitted gaps:
    next to a block tag's open/close tag (and, with indent > 0, at the very beginning);
    else a description of what is wrong.  Exact for atoms that do not start with layout."""
    pos, prev_block = 0, False
    for i, (text, block) in enumerate(ats):
        if prev_block or block or (i == 0 and indent):
            if i == 0 and not indent:
                pass  # nothing is before the first tag of unindented output
            else:
                while True:
                    if eol and out.startswith(eol, pos) and not text.startswith(eol):
                        pos += len(eol)
                    elif out.startswith(" ", pos) and not text.startswith(" "):
                        pos += 1
                    else:
                        break
        if not out.startswith(text, pos):
            return f"at offset {pos}: expected {text!r} (item {i}), found {out[pos:pos + 40]!r}"
        pos += len(text)
        prev_block = block
    if pos != len(out):
        return f"trailing {out[pos:]!r}"
    return None


def gap_match_re(out, ats, eol, indent):
    """As gap_match, exact for any content (regex; slower)."""
    lay = "(?:" + (re.escape(eol) + "|" if eol else "") + " )*"
    pat, prev = [], False
    for i, (text, block) in enumerate(ats):
        if (i and (prev or block)) or (i == 0 and indent):
            pat.append(lay)
        pat.append(re.escape(text))
        prev = block
    return None if re.fullmatch("".join(pat), out, re.S) else "layout outside permitted gaps"


# ---- C01: tokenizer and element tree -------------------------------------------------------

class Bad(Exception):
    pass


_NAME = re.compile(r"[A-Za-z][^\t\n\f\r />\0<]*")
_ATTR = re.compile(r"""[^\t\n\f\r "'>/=<\0]+""")
_WSRE = re.compile(r"[ \t\n\f\r]+")


def tokenize(s):
    """[("open", name, ((attr, decoded), ...), selfclosed) | ("close", name) | ("text", decoded)]
    Strict: anything an HTML tokenizer would report as a parse error raises Bad."""
    i, n, toks = 0, len(s), []
    while i < n:
        j = s.find("<", i)
        if j < 0:
            j = n
        if j > i:
            run = s[i:j]
            for m in re.finditer("&", run):
                if not _REF.match(run, m.start()):
                    raise Bad(f"bare ampersand in text {run!r}")
            toks.append(("text", _html.unescape(run)))
            i = j
            continue
        if s.startswith("</", i):
            m = _NAME.match(s, i + 2)
            if not m or not s.startswith(">", m.end()):
                raise Bad(f"bad end tag at {s[i:i + 30]!r}")
            toks.append(("close", m.group()))
            i = m.end() + 1
            continue
        m = _NAME.match(s, i + 1)
        if not m:
            raise Bad(f"'<' that starts no tag at {s[i:i + 30]!r}")
        name, i, attrs = m.group(), m.end(), []
        while True:
            m = _WSRE.match(s, i)
            if m:
                i = m.end()
            if s.startswith("/>", i):
                toks.append(("open", name, tuple(attrs), True))
                i += 2
                break
            if s.startswith(">", i):
                toks.append(("open", name, tuple(attrs), False))
                i += 1
                break
            if not m:
                raise Bad(f"no space before attribute at {s[i:i + 30]!r}")
            a = _ATTR.match(s, i)
            if not a or not s.startswith('="', a.end()):
                raise Bad(f"bad attribute at {s[i:i + 30]!r}")
            q = s.find('"', a.end() + 2)
            if q < 0:
                raise Bad("unterminated attribute value")
            val = s[a.end() + 2:q]
            for mm in re.finditer("&", val):
                if not _REF.match(val, mm.start()):
                    raise Bad(f"bare ampersand in attribute {val!r}")
            if a.group() in (k for k, _ in attrs):
                raise Bad(f"duplicate attribute {a.group()}")
            attrs.append((a.group(), _html.unescape(val)))
            i = q + 1
    return toks


def tree_tokens(kids, out=None):
    """The tokens the tree denotes; adjacent text leaves merged."""
    if out is None:
        out = []
    for x in visible(kids):
        if x[0] != "E":
            t = x[1] if x[0] == "T" else num_text(x[1])
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + t)
            else:
                out.append(("text", t))
            continue
        attrs = tuple((k, v) for k, v in x[3])
        ks = visible(x[4])
        if not ks and x[1] in VOID:
            out.append(("open", x[1], attrs, True))
            continue
        out.append(("open", x[1], attrs, False))
        tree_tokens(ks, out)
        out.append(("close", x[1]))
    return out


def norm_tokens(toks):
    res = []
    for t in toks:
        if t[0] == "text":
            s = t[1].strip(WS)
            if s:
                res.append(("text", s))
        else:
            res.append(t)
    return res


# ---- flattening, attributes, dependencies --------------------------------------------------

def norm_name(x):
    if x[-1:] == "_":
        x = x[:-1]
    return x.replace("_", "-")


def version_key(v):
    """PEP 440 release ordering for plain dotted versions."""
    parts = [int(p) for p in v.split(".")]
    while parts and parts[-1] == 0:
        parts.pop()
    return parts


def resolve(deps, name, version):
    """One per name, highest version, earliest on ties, names by first occurrence."""
    order, best = [], {}
    for d in deps:
        n = name(d)
        if n not in best:
            order.append(n)
            best[n] = d
        elif version(d) != version(best[n]) and version_key(version(d)) > version_key(version(best[n])):
            best[n] = d
    return [best[n] for n in order]


def collect(kids, kind):
    """All nodes of a kind in document order."""
    out = []
    for x in kids:
        if x[0] == kind:
            out.append(x)
        elif x[0] == "E":
            out += collect(x[4], kind)
    return out


# ---- enumeration ---------------------------------------------------------------------------

class Forests:
    """All ordered forests with n nodes: leaves from `leaves`, elements from `elems`
    (an element is a function kids -> node; it may have any number of kids, also none)."""

    def __init__(self, leaves, elems):
        self.leaves, self.elems = tuple(leaves), tuple(elems)
        self._t, self._f = {}, {0: ((),)}

    def trees(self, n):
        if n in self._t:
            return self._t[n]
        return self._gen_trees(n)

    def _gen_trees(self, n):
        if n == 1:
            yield from self.leaves
        for e in self.elems:
            for kids in self.forests(n - 1):
                yield e(kids)

    def forests(self, n):
        if n in self._f:
            return self._f[n]
        return self._gen_forests(n)

    def _gen_forests(self, n):
        for k in range(1, n + 1):
            for t in self.trees(k):
                for f in self.forests(n - k):
                    yield (t,) + f

    def cache(self, n):
        for k in range(1, n + 1):
            self._t[k] = tuple(self._gen_trees(k))
            self._f[k] = tuple(self._gen_forests(k))
        return self

    def upto(self, n, keep=None):
        self.cache(max(0, min(n - 1, keep if keep is not None else n - 1)))
        for k in range(0, n + 1):
            yield from self.forests(k)


def elem(name, ws, attrs=()):
    return lambda kids: ("E", name, ws, attrs, tuple(kids))


def words(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def walk(kids):
    for x in kids:
        yield x
        if x[0] == "E":
            yield from walk(x[4])
        elif x[0] == "X":
            yield from walk(x[2])


# ---- tolerant comparison: layout and spelling of references are not this property's business -

_REFS = {"&": r"&(?:amp;|AMP;|#0*38;|#[xX]0*26;)", "<": r"&(?:lt;|LT;|#0*60;|#[xX]0*3[cC];)",
         ">": r"&(?:gt;|GT;|#0*62;|#[xX]0*3[eE];)", '"': r"&(?:quot;|QUOT;|#0*34;|#[xX]0*22;)",
         "'": r"&(?:apos;|#0*39;|#[xX]0*27;)", "\r": r"&(?:#0*13;|#[xX]0*[dD];)",
         "\n": r"&(?:NewLine;|#0*10;|#[xX]0*[aA];)"}


def ref_regex(s, special):
    return "".join(_REFS[c] if c in special else re.escape(c) for c in s)


def attr_regex(v):
    """v: a str, ("H", markup), or ("P", part, part, ...) with parts str or ("H", markup)."""
    if isinstance(v, tuple) and v[0] == "P":
        return " ".join(attr_regex(p) for p in v[1:])
    return re.escape(v[1]) if isinstance(v, tuple) else ref_regex(v, "&<>\"'\r\n")


def open_regex(x):
    return re.escape("<" + x[1]) + "".join(
        " " + re.escape(k) + '="' + attr_regex(v) + '"' for k, v in x[3])


def loose_regex(kids, escape=True):
    """Regex parts, to be joined by optional white space."""
    out = []
    for x in visible(kids):
        if x[0] != "E":
            if x[0] in "TN" and escape:
                out.append(ref_regex(x[1] if x[0] == "T" else num_text(x[1]), "&<>"))
            else:
                out.append(re.escape(content_text(x, False)))
            continue
        ks = visible(x[4])
        if not ks and x[1] in VOID:
            out.append(open_regex(x) + "/>")
            continue
        out.append(open_regex(x) + ">")
        out += loose_regex(ks, x[1] not in NO_ESCAPE)
        out.append(re.escape(f"</{x[1]}>"))
    return out


def loose_match(out, kids, eol="\n"):
    """`out` is the markup of `kids` up to layout between nodes and the spelling of character
    references."""
    lay = r"(?:" + (re.escape(eol) + "|" if eol else "") + r"\s)*"
    return re.fullmatch(lay + lay.join(loose_regex(kids)) + lay, out) is not None


def same_markup(out, kids, indent=0, eol="\n"):
    """Fast exact comparison first, tolerant one if that fails."""
    if all(map(valid_nesting, kids)) and out == layout(kids, indent, eol):
        return True
    if gap_match(out, atoms(kids), eol, indent) is None:
        return True
    return loose_match(out, kids, eol)
