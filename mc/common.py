"""Enumerations shared by several checks."""
from __future__ import annotations

from . import model as M

METACHARS = ("<", ">", "&", '"', "'", "/", "=", " ", "\n", "\r", ";", "#", "!", "-", "a", "1")
SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 24, 25, 26, 31, 32,
         33, 40, 48, 49, 50, 51, 63, 64, 65, 79, 80, 81, 99, 100, 101, 119, 120, 121, 127, 128,
         129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001,
         1023, 1024, 1025)
BIG_SIZES = (2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16383,
             16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 100001, 131071,
             131072, 131073, 200001, 262145, 524289)
# Metacharacters that get different or equal treatment, tricky strings in text or attributes.
NASTY = (
    "", " ", "\n", "\r\n", "\t", "a", "0", "&", "<", ">", '"', "'", "&amp;", "&lt;", "&amp;amp;",
    "&#38;", "&#x26;", "&lt", "&nbsp;", "&copy", "<b>", "</b>", "<br/>", "<!-- c -->", "<!--",
    "-->", "<![CDATA[x]]>", "]]>", "<?php ?>", "<!DOCTYPE html>", "</div>", "</script>", "<script>",
    "<style>", "javascript:alert('&')", "a=b&c=d", "x < y > z", "&&", "<<", ">>", "a&b<c>d\"e'f",
    "<a&b>", "'ab'", '" onload="x', "' x='", "a\nb", "a\r\nb", "line1\n  line2\n", "\u00a0",
    "\u2028", "\ufeff", "\u00e9", "\u4e2d\u6587", "\U0001f600", "e\u0301", "%3C", "\\x3c", "\\",
    "\\n", "{{x}}", "{0}", "%s", "$1", "\\1", "\\g<0>", "None", "True", "\x00", "\x7f", "\x0b",
    "\x0c", "\x1c", "\x85",
)


def chunks(n, lo=0, hi=0x110000):
    """Ranges covering every Unicode scalar value."""
    for a in range(lo, hi, n):
        yield (a, min(a + n, hi))


def scalars(a, b):
    return [chr(c) for c in range(a, b) if not 0xD800 <= c <= 0xDFFF]


def nest(names, leaf):
    """("div", True), ("span", False) ... nested around the kids `leaf`."""
    kids = tuple(leaf)
    for name, ws in reversed(tuple(names)):
        kids = (("E", name, ws, (), kids),)
    return kids


def E(name, *kids, ws=None, attrs=()):
    return ("E", name, (name not in M.INLINE) if ws is None else ws, tuple(attrs), tuple(kids))


def T(s):
    return ("T", s)
