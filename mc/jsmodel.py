"""Reference model of JSX components: what the generated expression has to denote.

Component specs extend mc.model's documents:
    ("C", name, props, kids)   component; props ((key as passed, value), ...)
    ("J", s)                   jsx() expression
    ("X", kind, kids)          tagifiable object making a fresh expansion ("one" or "list")
    ("XH", kind, kids)         tagifiable object that always returns the same objects it holds
Prop values: None, bool, int, float, str, ("j", s) jsx(), ("list"|"tuple", v...),
("dict", (k, v)...), ("node", spec).

Values of the model:  ("null",) ("bool", b) ("num", x) ("str", s) ("raw", js) ("arr", [..])
("obj", [(k, v)..])  ("el", name-or-tag, props, kids)
"""
from __future__ import annotations

import json
import math
import re


def norm(k):
    return (k[:-1] if k.endswith("_") else k).replace("_", "-")


def style_dict(s):
    out = {}
    for part in s.split(";"):
        k, c, v = part.partition(":")
        if c:
            out[k.strip()] = v.strip()
    return out


def value(v, metas):
    if v is None:
        return ("null",)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (int, float)):
        return ("num", v)
    if isinstance(v, str):
        return ("str", v)
    k = v[0]
    if k == "j":
        return ("raw", v[1])
    if k in ("list", "tuple"):
        return ("arr", [value(x, metas) for x in v[1:]])
    if k == "dict":
        return ("obj", [(key, value(x, metas)) for key, x in v[1:]])
    if k == "node":
        r = nodes([v[1]], metas)
        assert len(r) == 1, "a prop holds one node"
        return r[0]
    raise ValueError(v)


def style_value(v, metas):
    if v is None:
        return ("nostyle",)
    if isinstance(v, str):
        return ("css", list(style_dict(v).items()))
    return value(v, metas)


def props(ps, metas):
    out = {}
    for k, v in ps:
        k = norm(k)
        out[k] = style_value(v, metas) if k == "style" else value(v, metas)
    return out


def nodes(specs, metas):
    """Model values of a sequence of nodes; metadata goes to `metas`."""
    out = []
    for x in specs:
        k = x[0]
        if k in "MD":
            metas.append(x)
        elif k in ("X", "XH"):
            out += nodes(x[2], metas)
        elif k in "TJ":
            out.append(("str", x[1]))
        elif k == "N":
            out.append(("kidnum", x[1]))
        elif k == "C":
            p = props(x[2], metas)
            out.append(("el", x[1], p, nodes(x[3], metas)))
        elif k == "E":
            p = {a: (("css", list(style_dict(v).items())) if a == "style" else ("str", v))
                 for a, v in x[3]}
            out.append(("el", "'" + x[1] + "'", p, nodes(x[4], metas)))
        else:
            raise ValueError(x)
    return out


# ---- matching the generated JavaScript -----------------------------------------------------

class Mismatch(Exception):
    pass


_WS = re.compile(r"[ \t\r\n]*")
_NUM = re.compile(r"-?(?:Infinity|NaN|(?:0|[1-9][0-9]*)?(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)")
_ESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}


class JS:
    def __init__(self, s):
        self.s, self.i = s, 0

    def fail(self, what):
        raise Mismatch(f"{what} expected at ...{self.s[max(0, self.i - 40):self.i]!r} >>> "
                       f"{self.s[self.i:self.i + 60]!r}")

    def ws(self):
        self.i = _WS.match(self.s, self.i).end()

    def at(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if not self.at(t):
            self.fail(repr(t))
        self.i += len(t)

    def opt(self, t):
        if self.at(t):
            self.i += len(t)
            return True
        return False

    def word(self, w):
        self.eat(w)
        if re.match(r"[\w$]", self.s[self.i:self.i + 1]):
            self.fail("end of " + w)

    def string(self, quotes='"'):
        self.ws()
        q = self.s[self.i:self.i + 1]
        if not q or q not in quotes:
            self.fail("string literal")
        self.i += 1
        out = []
        s = self.s
        while True:
            j = self.i
            while j < len(s) and s[j] not in (q, "\\", "\n", "\r"):
                j += 1
            out.append(s[self.i:j])
            self.i = j
            c = s[j:j + 1]
            if c == q:
                self.i += 1
                return "".join(out)
            if c != "\\":
                self.fail("end of string literal")
            e = s[j + 1:j + 2]
            if e == "x":
                m = re.compile(r"[0-9a-fA-F]{2}").match(s, j + 2)
            elif e == "u":
                m = re.compile(r"\{([0-9a-fA-F]+)\}|([0-9a-fA-F]{4})").match(s, j + 2)
            else:
                m = None
            if e in ("x", "u") and e:
                if not m:
                    self.fail("escape")
                out.append(chr(int(m.group().strip("{}"), 16)))
                self.i = m.end()
            else:
                if e == "" or (e.isdigit() and e != "0"):
                    self.fail("escape")
                if e not in ("\n", "\r"):
                    out.append(_ESC.get(e, e))
                self.i = j + 2

    def key(self):
        self.ws()
        if self.at('"') or self.at("'"):
            return self.string("\"'")
        m = re.compile(r"[A-Za-z_$][\w$]*").match(self.s, self.i)
        if not m:
            self.fail("property name")
        self.i = m.end()
        return m.group()

    def obj(self, items, strip=False):
        """{...} with exactly these properties, each once."""
        want = dict(items)
        self.eat("{")
        first = True
        while not self.at("}"):
            if not first:
                self.eat(",")
                if self.at("}"):
                    break
            first = False
            k = self.key()
            if strip:
                k = k.strip()
            if k not in want:
                raise Mismatch(f"unexpected or repeated property {k!r} in "
                               f"{self.s[max(0, self.i - 60):self.i]!r}")
            self.eat(":")
            if strip:
                got = self.string().strip()
                if got != want[k]:
                    raise Mismatch(f"style {k!r} is {got!r}, want {want[k]!r}")
            else:
                self.match(want[k])
            del want[k]
        self.eat("}")
        if want:
            raise Mismatch(f"missing properties {list(want)!r} before {self.s[self.i:self.i + 20]!r}")

    def match(self, v):
        self.ws()
        k = v[0]
        if k == "null":
            self.word("null")
        elif k == "bool":
            self.word("true" if v[1] else "false")
        elif k == "num" or (k == "kidnum" and not self.at('"')):
            self.num(v[1])
        elif k == "kidnum":
            s = self.string()
            if s != str(v[1]):
                raise Mismatch(f"number child {s!r}, want {v[1]!r}")
        elif k == "str":
            i = self.i
            s = self.string()
            if s != v[1]:
                raise Mismatch(f"literal {self.s[i:self.i][:80]} denotes {s!r}, want {v[1]!r}")
        elif k == "raw":
            if not self.s.startswith(v[1], self.i):
                self.fail("jsx " + repr(v[1]))
            self.i += len(v[1])
        elif k == "arr":
            self.eat("[")
            for n, x in enumerate(v[1]):
                if n:
                    self.eat(",")
                self.match(x)
            self.eat("]")
        elif k == "obj":
            self.obj(v[1])
        elif k == "css":
            self.obj(v[1], strip=True)
        elif k == "nostyle":
            if self.opt("{"):
                self.eat("}")
            else:
                self.word("null")
        elif k == "el":
            self.element(v)
        else:
            raise ValueError(v)

    def num(self, x):
        m = _NUM.match(self.s, self.i)
        t = m.group()
        try:
            got = int(t) if isinstance(x, int) and re.fullmatch(r"-?[0-9]+", t) else \
                float(t.replace("Infinity", "inf") if "N" not in t else t)
        except ValueError:
            self.fail("number")
        self.i = m.end()
        if re.match(r"[\w$.]", self.s[self.i:self.i + 1]):
            self.fail("end of number")
        if not (got == x or (isinstance(x, float) and math.isnan(x) and math.isnan(got))):
            raise Mismatch(f"number {t}, want {x!r}")

    def element(self, v):
        _, name, ps, kids = v
        self.eat("React.createElement")
        self.eat("(")
        if name[0] == "'":
            s = self.string("\"'")
            if s != name[1:-1]:
                raise Mismatch(f"element {s!r}, want {name}")
        else:
            self.ws()
            m = re.compile(r"[\w$.]+").match(self.s, self.i)
            if not m or m.group() != name:
                self.fail("component " + name)
            self.i = m.end()
        if self.opt(")"):
            if ps or kids:
                raise Mismatch(f"{name} has no properties and children, want {ps} {kids}")
            return
        self.eat(",")
        if not ps and self.at("null"):
            self.word("null")
        else:
            self.obj(ps.items())
        for x in kids:
            self.eat(",")
            self.match(x)
        self.eat(")")


def match_script(js, el):
    """The script renders the element `el`."""
    m = re.search(r"ReactDOM\.render\(", js)
    if not m:
        raise Mismatch(f"no ReactDOM.render( in {js!r}")
    p = JS(js)
    p.i = m.end()
    p.match(el)
    p.eat(",")
    return js[:m.end()], js[p.i - 1:]


def plain(v):
    """The model value as the JSON that mc/jsx_node.js prints (None where no JSON exists)."""
    k = v[0]
    if k == "null":
        return None
    if k in ("bool", "str"):
        return v[1]
    if k == "num":
        return {"$n": repr(float(v[1]))} if isinstance(v[1], float) and not math.isfinite(v[1]) else v[1]
    if k == "kidnum":
        return str(v[1])
    if k == "raw":
        return {"$raw": v[1]}
    if k == "arr":
        return [plain(x) for x in v[1]]
    if k in ("obj", "css"):
        return {"$o": {a: plain(b) if k == "obj" else b for a, b in v[1]}}
    if k == "nostyle":
        return {"$o": {}}
    return {"$el": v[1].strip("'"), "$tag": v[1][0] == "'", "$p": {a: plain(b) for a, b in v[2].items()},
            "$k": [plain(x) for x in v[3]]}


def dumps(v):
    return json.dumps(v, sort_keys=True, ensure_ascii=True)
