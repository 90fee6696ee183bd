"""C12: dependency URLs and copied files agree.

The model computes, for a dependency definition, prefix and include_version, the URL of each script
and stylesheet and the exact contents of the target directory.  Every definition / setting /
pre-existing destination / choice of missing files / sequence of saves within the bounds is executed
on real files (in a scratch directory, without privileges) and compared with it: the URLs of the
written page, resolved as a browser would, must reach byte-identical copies."""
import importlib
import itertools
import os
import re
import sys
import urllib.parse
from html.parser import HTMLParser

from packaging.version import Version

from htmltools import HTMLDependency, HTMLDocument, TagList, div
from htmltools._jsx import jsx_tag_create
from mc import scratch
from mc.common import SIZES, chunks, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "names and libdirs contain no characters that mean something else in a URL (% # ?), since the "
    "statement has them unencoded; script/stylesheet paths are relative and stay below the source",
    "for URL sources and hostile paths, the path may be percent-encoded or not",
    "left out: source directories that overlap the destination, a plain file where the target "
    "directory belongs, files missing with all_files set, the URLs of source-less dependencies",
    "POSIX file names that are valid UTF-8")


def setup():
    d = scratch.enter()
    sys.path.append(os.path.join(d, "pkgs"))
    scratch.write_tree(os.path.join(d, "pkgs"), {
        "mcpkg/__init__.py": b"", "mcpkg/inner/__init__.py": b""})
    importlib.invalidate_caches()


def teardown():
    sys.path.remove(os.path.join(scratch.S["dir"], "pkgs"))
    for m in [m for m in sys.modules if m.split(".")[0] == "mcpkg"]:
        del sys.modules[m]
    scratch.leave()


# ---- model ---------------------------------------------------------------------------------
# definition: (name, version, kind, scripts, styles, all_files)
# kind: "abs" | "rel" | "pkg" | "pkgsub" | "pkgroot" | "none" | "url:<href>" | "same:<k>" (the source
# directory of the k-th definition of the case)

EXTRAS = ("unlisted.txt", ".hidden", "sub dir/%41é.bin", "sub dir/x/y", "noext", "é/é")


def is_local(d):
    return d[2] != "none" and not d[2].startswith("url:")


def content(d, path, gen=0):
    return f"{d[0]}|{d[1]}|{path}|{gen}\r\n".encode() + bytes(range(256)) + b"\n" * (gen % 3)


def listed(d):
    return list(dict.fromkeys(d[3] + d[4]))


def source_files(d, gen=0):
    return {os.path.normpath(p): content(d, os.path.normpath(p), gen) for p in (*listed(d), *[
        e for e in EXTRAS if not any(clash(e, x) for x in listed(d))])}


def clash(a, b):
    a, b = os.path.normpath(a), os.path.normpath(b)
    return a == b or a.startswith(b + "/") or b.startswith(a + "/")


def dirname(d, include_version):
    return d[0] + (f"-{Version(d[1])}" if include_version else "")


def base(d, prefix, include_version):
    b = dirname(d, include_version)
    if prefix:
        b = prefix + ("" if prefix.endswith("/") else "/") + b
    return b


def expected_target(d, files):
    if d[5]:
        return dict(files)
    return {p: files[p] for p in map(os.path.normpath, listed(d))}


LEGAL = re.compile(r"(?:[A-Za-z0-9._~/!$&'()*+,;=:@-]|%[0-9A-Fa-f]{2})*")


def check_url(d, url, path, prefix, include_version, what):
    if d[2].startswith("url:"):
        b = d[2][4:]
        b += "" if b.endswith("/") else "/"
        if url != b + path and not (url.startswith(b) and LEGAL.fullmatch(url[len(b):])
                                    and urllib.parse.unquote(url[len(b):]) == path):
            raise Violation(f"{what}: URL {url!r}, want {b + path!r}")
        return
    if not is_local(d):
        return
    b = base(d, prefix, include_version) + "/"
    if not url.startswith(b):
        raise Violation(f"{what}: URL {url!r} does not start with {b!r}")
    tail = url[len(b):]
    if not LEGAL.fullmatch(tail):
        raise Violation(f"{what}: URL {url!r} is not percent-encoded")
    if urllib.parse.unquote(tail, errors="strict") != path or tail.count("/") != path.count("/"):
        raise Violation(f"{what}: URL {url!r} does not denote {path!r}")


def make_source(d, case_dir, i, gen=0, made=()):
    """-> (source argument, source directory).  "same:k" is the source of made[k]."""
    kind = d[2]
    if kind == "none":
        return None, None
    if kind.startswith("same:"):
        return made[int(kind[5:])]
    if kind.startswith("url:"):
        return {"href": kind[4:]}, None
    if kind in ("abs", "rel", "slash"):
        root = os.path.join(case_dir, f"src {i}", "%20#")
        sub = root if kind == "abs" else root + "/" if kind == "slash" else os.path.relpath(
            root, os.getcwd())
        arg = {"subdir": sub}
    else:
        pkg = {"pkg": "mcpkg", "pkgsub": "mcpkg.inner", "pkgroot": "mcpkg"}[kind]
        rel = os.path.relpath(case_dir, scratch.S["dir"]) + f"/s{i}"
        root = os.path.join(scratch.S["dir"], "pkgs", *pkg.split("."), rel)
        arg = {"package": pkg, "subdir": rel}
    os.makedirs(root)
    scratch.write_tree(root, source_files(d, gen))
    return arg, root


def make_dep(d, arg):
    return HTMLDependency(d[0], d[1], source=arg, script=[{"src": p} for p in d[3]],
                          stylesheet=[{"href": p} for p in d[4]], all_files=d[5])


class Refs(HTMLParser):
    def __init__(self):
        super().__init__()
        self.script, self.link = [], []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "script" and "src" in a:
            self.script.append(a["src"])
        if tag == "link" and "href" in a:
            self.link.append(a["href"])

    handle_startendtag = handle_starttag


def browser_path(url, page_dir):
    u = urllib.parse.urlsplit(url)
    if u.scheme or u.netloc:
        return None
    return os.path.join(page_dir, urllib.parse.unquote(u.path, errors="strict"))


def check_page(file, deps, roots, files, libdir, include_version, what, ctx):
    """deps: resolved definitions in order; files: their source contents."""
    with open(file, encoding="utf-8") as f:
        p = Refs()
        p.feed(f.read())
    want = ([(d, x) for d in deps for x in d[3]], [(d, x) for d in deps for x in d[4]])
    page_dir = os.path.dirname(os.path.abspath(file))
    for got, pairs in ((p.script, want[0]), (p.link, want[1])):
        if len(got) != len(pairs):
            raise Violation(f"{what}: page refers to {got!r}, want {pairs!r}")
        for url, (d, path) in zip(got, pairs):
            check_url(d, url, path, libdir, include_version, what)
            if not is_local(d):
                continue
            t = browser_path(url, page_dir)
            if t is None or not os.path.isfile(t):
                raise Violation(f"{what}: {url!r} names no file ({t!r})")
            if open(t, "rb").read() != files[d][os.path.normpath(path)]:
                raise Violation(f"{what}: {url!r} is not a copy of {path!r}")
            ctx.step()
    for d in deps:
        if is_local(d):
            check_target(os.path.join(page_dir, base(d, libdir, include_version)), d, files[d],
                         what, ctx)
        else:
            t = os.path.join(page_dir, base(d, libdir, include_version))
            if os.path.lexists(t):
                raise Violation(f"{what}: {t!r} was made for a dependency without local files")


def check_target(t, d, files, what, ctx):
    got = scratch.read_tree(t)
    want = expected_target(d, files)
    if got != want:
        bad = [k for k in want if (got or {}).get(k) != want[k]]
        raise Violation(f"{what}: target directory {t!r}: wrong or missing {bad!r}, "
                        f"stale {sorted(set(got or ()) - set(want))!r}")
    ctx.step()


# ---- spaces --------------------------------------------------------------------------------

CALLS = ("document", "tag", "list", "append", "jsonless")


def save(call, deps, file, libdir, include_version):
    kw = {} if libdir == "lib" and include_version else dict(
        libdir=libdir, include_version=include_version)
    if call == "document":
        return HTMLDocument(div("x", *deps)).save_html(file, **kw)
    if call == "tag":
        return div(*deps, "x").save_html(file, **kw)
    if call == "list":
        return TagList("x", *deps).save_html(file, **kw)
    d = HTMLDocument(lang="en")
    for x in deps:
        d.append(div(x))
    return d.save_html(file, **kw)


LIBDIRS = (None, "lib", "a/b/c", "", "my lib", "lib/", "été", "../up", ".")
STATES = ("none", "stale", "same", "swap", "link", "linklib", "empty", "decoys")


def parents(p):
    return [p[:i] for i, c in enumerate(p) if c == "/"]


def prepare(state, target, lib, d):
    """A pre-existing destination."""
    if state == "none":
        return
    if state != "linklib":
        os.makedirs(os.path.dirname(target), exist_ok=True)
    if state == "empty":
        os.mkdir(target)
    elif state in ("stale", "link"):
        where = target if state == "stale" else target + ".real"
        os.mkdir(where)
        scratch.write_tree(where, {"stale.js": b"old", "x/y/z.js": b"old", ".dot": b"", "e": None})
        if state == "link":
            os.symlink(where, target)
    elif state == "same":
        os.mkdir(target)
        scratch.write_tree(target, {p: b"old " * 200 for p in (*listed(d), "stale.js")})
    elif state == "swap":  # directories where files belong and the other way round
        os.mkdir(target)
        done = []
        for p in listed(d):
            p = os.path.normpath(p)
            q = p.split("/")[0]
            if q in done:
                continue
            done.append(q)
            scratch.write_tree(target, {q: b"file"} if "/" in p else {p + "/in.txt": b"dir"})
    elif state == "decoys":  # files of the same names and sizes all around the target
        for where in (os.path.dirname(target), target + "-0", os.path.join(
                os.path.dirname(target), d[0] + "-0.0.1"), os.path.dirname(os.path.dirname(target))):
            for p, b in source_files(d).items():
                t = os.path.join(where, p)
                if not any(os.path.isfile(os.path.join(where, x)) for x in parents(p)) and \
                        not os.path.lexists(t):
                    scratch.write_tree(where, {p: b[::-1]})
    elif state == "linklib":
        if lib and not os.path.lexists(lib.rstrip("/")):
            real = lib.rstrip("/") + ".real"
            os.makedirs(os.path.join(real, "other"))
            os.symlink(real, lib.rstrip("/"))


def run_save(case, ctx):
    defs, libdir, iv, state, call, where = case
    what = f"{case!r}"
    c = scratch.fresh()
    try:
        site = os.path.join(c, "site", "p")
        os.makedirs(site)
        deps, files, roots, made = [], {}, {}, []
        for i, d in enumerate(defs):
            made.append(make_source(d, c, i, made=made))
            deps.append(make_dep(d, made[-1][0]))
            files[d], roots[d] = source_files(d), made[-1][1]
            if d[2].startswith("same:"):
                here = files[defs[int(d[2][5:])]]
                new = {p: b for p, b in files[d].items() if p not in here}
                scratch.write_tree(roots[d], new)
                here.update(new)
                files[d] = here
        order = []
        for d in defs:
            i = next((i for i, o in enumerate(order) if o[0] == d[0]), None)
            if i is None:
                order.append(d)
            elif Version(d[1]) > Version(order[i][1]):
                order[i] = d
        lib = os.path.join(site, libdir) if libdir else None
        if state == "linklib" and lib:
            prepare(state, os.path.join(lib, "x"), lib, None) if not os.path.exists(lib) else None
        for d in order:
            if is_local(d):
                t = os.path.join(site, base(d, libdir, iv))
                if state != "linklib" and not os.path.lexists(t):
                    prepare(state, t, lib, d)
        # unrelated neighbours
        scratch.write_tree(site, {"other.html": b"o", "otherdir/x.js": b"x"})
        before = {p: scratch.stat_tree(os.path.join(site, p)) for p in ("other.html", "otherdir")}
        srcs = {d: scratch.stat_tree(r) for d, r in roots.items() if r}
        file = {"abs": os.path.join(site, "page.html"), "cwd": "page.html",
                "rel": os.path.join(os.path.relpath(site, c), "page.html")}[where]
        if where != "abs":
            # relative sources are relative to the working directory at the time of use
            nd = site if where == "cwd" else c
            for d, x in zip(defs, deps):
                if d[2] == "rel":
                    x.source["subdir"] = os.path.relpath(roots[d], nd)
            os.chdir(nd)
        for rep in range(2):
            ret = save(call, deps, file, libdir, iv)
            if not isinstance(ret, str) or os.path.abspath(ret) != os.path.join(site, "page.html"):
                raise Violation(f"{what}: save_html() returned {ret!r}")
            check_page(file, order, roots, files, libdir, iv, what, ctx)
        for p, b in before.items():
            if scratch.stat_tree(os.path.join(site, p)) != b:
                raise Violation(f"{what}: {p} was changed")
        for d, s in srcs.items():
            if scratch.stat_tree(roots[d]) != s:
                raise Violation(f"{what}: the source directory was changed")
        if not any(is_local(d) for d in order) and state == "none":
            left = sorted(os.listdir(site))
            if left != ["other.html", "otherdir", "page.html"]:
                raise Violation(f"{what}: nothing should have been copied, but {left!r}")
    finally:
        scratch.drop(c)
    ctx.state((defs, libdir, iv, state))
    ctx.outcome((order[0] if order else 0, libdir, iv))
    ctx.trace()


NAMES = ("a.js", "a b.js", "50%.js", "%41.js", "%2520", "#frag.js", "q?v=1.js", "a&b.js", "é.js",
         "e\u0301.js", "中文/文.js", "\U0001f600.js", "d/e/f.js", "d e/#/%/?.js", "a+b.js",
         "a'b\"c.js", "<x>.js", "a;b=c,d.js", "a:b.js", "@x~!$.js", "[x]{y}|.js", "back\\slash.js",
         "line\nbreak.js", "tab\t.js", "..js", "...", "a..b/c", "~", "`^`", " lead", "trail ",
         "UPPER.JS", "upper.js", "-dash", "noext", "&amp;.js", "</script>x", "\x01\x7f", "\u2028",
         "\u00a0.js", "x" * 200 + ".js", "/".join("abcdefgh") + ".js", "./dot.js", "d/./g.js",
         "__init__.py", "index.html", "%", "%%", "?", "#", "&", " ")


def name_cases():
    for n in NAMES:
        for af in (False, True):
            for kind in ("abs", "pkg"):
                yield (("d", "1.0", kind, (n,), (), af),)
                yield (("d", "1.0", kind, (), (n,), af),)
        yield (("u", "1", "url:https://h/p", (n,), (n,), False),)
    for a, b in itertools.combinations(NAMES, 2):
        if not clash(a, b):
            yield (("d", "1.0", "abs", (a,), (b,), False),)
            yield (("d", "1.0", "abs", (b, a, b), (a,), True),)


def run_names(defs, ctx):
    run_save((defs, "lib", True, "none", "document", "abs"), ctx)


SHAPES = (
    (),
    (("d", "1.0", "abs", ("a.js",), (), False),),
    (("d", "1.0", "rel", ("a.js", "b/c d.js"), ("b/é.css",), False),),
    (("d", "1.0", "abs", ("a.js", "b/c d.js", "a.js"), ("b/é.css", "a.js"), True),),
    (("d", "1.10", "pkg", ("a.js",), ("x/y.css", "x/z.css"), False),),
    (("d", "2.0", "pkgsub", ("a.js",), ("x/y.css",), True),),
    (("d", "2.0", "abs", (), (), True),),
    (("d", "2.0", "slash", (), (), False),),
    (("u", "1", "url:https://h.org/p", ("a.js",), ("c/d.css",), False),),
    (("u", "1", "url:https://h.org/p/", ("a.js",), ("c/d.css",), True),),
    (("u", "1", "url:/static", ("a.js",), (), False), ("n", "1", "none", (), (), False),
     ("n2", "1", "none", (), (), True)),
    (("d", "1.9", "abs", ("a.js",), (), False), ("e", "1", "slash", ("a.js", "e#.js"), (), True),
     ("d", "1.10", "abs", ("a.js", "new.js"), ("n.css",), False)),
    (("my lib", "1.0", "abs", ("a b.js",), (), False), ("été", "1.0rc1", "pkg", ("a.js",), (),
                                                       False),
     ("@s/pkg", "2!1.0+l.1", "rel", ("dist/a.js",), (), True), ("a.b-c_d", "1", "abs", (), ("s.css",),
                                                               False)),
    (("lib", "1", "abs", ("lib/lib.js",), (), False), ("lib-1", "1", "abs", ("1.js",), (), True)),
)
# Dependencies with one source directory between them
SHARED = tuple(
    tuple(("abcd"[i], v, k if i == 0 else "same:0", sc, st, af)
          for i, (v, sc, st, af) in enumerate(zip(vs, scs, sts, afs)))
    for k in ("abs", "pkg") for vs in (("1.0", "1.0"), ("1.0", "2.0"))
    for scs in ((("a.js",), ("a.js",)), (("a.js",), ("b.js",)), (("a.js",), ()), ((), ("a.js", "b.js")))
    for sts in (((), ()), (("s.css",), ("s.css",)), ((), ("t/s.css",)))
    for afs in itertools.product((False, True), repeat=2)
) + tuple((("a", "1.0", k, ("a.js",), (), af), ("b", "1", "same:0", ("a.js",), (), af),
           ("a", "1.1", "same:0", ("a.js", "n.js"), (), af), ("c", "1", "abs", ("a.js",), (), af),
           ("d", "1", "same:3", ("a.js",), (), False)) for k in ("abs", "pkg") for af in (False, True))


def shared_cases():
    for s in SHARED:
        for lib in (None, "lib", "a/b/c"):
            for iv in (True, False):
                for st in ("none", "stale"):
                    yield (s, lib, iv, st, "document", "abs")


# ---- links and modes in the source ---------------------------------------------------------

# {path: bytes | ("link", target)}; OUT and IN are replaced by absolute paths
LINKS = (
    {"l.js": ("link", "../out/o.js")}, {"l.js": ("link", "OUT/o.js")}, {"l.js": ("link", "a.js")},
    {"s/l.js": ("link", "../../out/o.js")}, {"s/l.js": ("link", "../a.js")}, {"s/l.js": (
        "link", "b.js"), "s/b.js": b"b"}, {"s/l.js": ("link", "OUT/o.js")}, {"s/l.js": ("link", "IN/a.js")},
    {"s/t/l.js": ("link", "../../../out/o.js"), "s/t/m.js": ("link", "l.js")},
    {"s": ("link", "../out"), "l.js": ("link", "s/o.js")}, {"s": ("link", "OUT")},
    {"s/d": ("link", "../../out")}, {"s/d": ("link", "../t"), "t/x.js": b"x"},
    {"s/t/d": ("link", "../../u"), "u/x/y.js": b"x", "u/z": ("link", "x")},
    {"l.js": ("link", "m.js"), "m.js": ("link", "n.js"), "n.js": ("link", "s/o.js"),
     "s/o.js": ("link", "../../out/o.js")},
    {"s": ("link", "t"), "t": ("link", "u"), "u": ("link", "../out")},
    {"s/b.js": b"b", "s/c.js": ("hard", "s/b.js"), "d.js": ("hard", "s/b.js")},
    {"r.js": ("mode", 0o444, b"r"), "s/r.js": ("mode", 0o400, b"rr"), "x.sh": ("mode", 0o755, b"x")},
    {"e": None, "s/e": None, "s/t/e": None, "s/b.js": b"b"},
    {".h/.i": b"hidden", "s/.j": ("link", "../.h/.i"), ".k": ("link", ".h")},
    # names that tools like to leave out
    *({p: b"1", **{f"{q}/{p}": b"2" for q in ("s", "s/t")}} for p in (
        "x~", "x.pyc", "#x#", "x.bak", ".DS_Store", "Thumbs.db", "x.tmp", ".gitignore", "x.swp", "x.orig",
        "__init__.py", "x.map", "x.min.js", "README.md", "package.json", "LICENSE")),
    *({f"{p}/x.js": b"1", f"s/{p}/y/z.js": b"2"} for p in (
        "__pycache__", ".git", ".svn", "CVS", "node_modules", "tests", "build", "dist", ".cache", "_x", "lib")),
)


def links_cases():
    for i in range(20, len(LINKS)):
        for iv in (True, False):
            for st in ("none", "stale"):
                for via in ("save", "copy_to"):
                    yield (i, True, "real", iv, st, via)
    for i in range(20):
        for af in (True, False):
            for root in ("real", "link", "linkparent", "relative"):
                for iv in (True, False):
                    for st in ("none", "stale", "same", "link"):
                        for via in ("save", "copy_to"):
                            yield (i, af, root, iv, st, via)


def run_links(case, ctx):
    i, af, how, iv, state, via = case
    c = scratch.fresh()
    try:
        src, site = os.path.join(c, "w", "src"), os.path.join(c, "site")
        os.makedirs(src)
        os.mkdir(site)
        scratch.write_tree(os.path.join(c, "w"), {"out/o.js": b"out\r\n", "out/p/q.js": b"pq"})
        scratch.write_tree(src, {"a.js": b"a"})
        for p, v in LINKS[i].items():
            if isinstance(v, tuple) and v[0] in ("hard", "mode"):
                t = os.path.join(src, p)
                if v[0] == "hard":
                    os.link(os.path.join(src, v[1]), t)
                else:
                    scratch.write_tree(src, {p: v[2]})
                    os.chmod(t, v[1])
                continue
            if isinstance(v, tuple):
                v = ("link", v[1].replace("OUT", os.path.join(c, "w", "out")).replace("IN", src))
            scratch.write_tree(src, {p: v})
        arg = src
        if how == "link":
            arg = os.path.join(c, "via")
            os.symlink(src, arg)
        elif how == "linkparent":
            os.symlink(os.path.join(c, "w"), os.path.join(c, "via"))
            arg = os.path.join(c, "via", "src")
        elif how == "relative":
            arg = os.path.relpath(src)
        want = scratch.read_tree(src)
        listed_files = sorted(want)
        if not af and i % 2:
            listed_files = listed_files[::-1][:3]
        d = ("d", "1.0", "abs", tuple(listed_files), (), af)
        dep = make_dep(d, {"subdir": arg})
        lib = os.path.join(site, "lib")
        t = os.path.join(lib, dirname(d, iv))
        prepare(state, t, lib, d)
        files = {p: want[p] for p in (want if af else listed_files)}
        srcs = scratch.stat_tree(os.path.join(c, "w"))
        for rep in range(2):
            if via == "save":
                TagList(dep).save_html(os.path.join(site, "p.html"), include_version=iv)
                check_page(os.path.join(site, "p.html"), [d], {}, {d: want}, "lib", iv, f"{case}", ctx)
            else:
                dep.copy_to(lib, include_version=iv)
                check_target(t, d, files, f"{case}", ctx)
            if scratch.stat_tree(os.path.join(c, "w")) != srcs:
                raise Violation(f"{case}: the source directory was changed")
        # what was copied stands on its own
        os.rename(os.path.join(c, "w"), os.path.join(c, "away"))
        check_target(t, d, files, f"{case}, source gone", ctx)
        ctx.state(case)
        ctx.trace()
    finally:
        scratch.drop(c)


# ---- contents ------------------------------------------------------------------------------

EXTS = ("js", "mjs", "cjs", "css", "map", "html", "htm", "json", "svg", "txt", "md", "xml", "ts", "jsx",
        "scss", "less", "woff", "woff2", "ttf", "eot", "png", "gif", "jpg", "ico", "gz", "br", "wasm",
        "JS", "Css", "py", "pyc", "min.js", "css.map", "tmp", "bak", "swp", "orig", "log", "lock", "")
CONTENTS = (b"", b"\n", b"\r\n", b"a\r\nb\rc\n", b"\xef\xbb\xbfbom", b"\xff\xfeu\x00", b"\xe9t\xe9",
            b"\x00\x01", b"  lead and trail \n\n", b"no newline", b"\x1f\x8b\x08gzip", b"\x1a", b"tab\t\n",
            b"//# sourceMappingURL=a.js.map\n", b"@import url('x.css');\n", b"</script>&amp;<!-- -->",
            b"{% x %} ${y} {{z}}", b"\xc3\xa9\xe2\x80\xa8\n", b"a" * 70000, b"\n" * 5000)


def content_cases():
    for i in range(len(CONTENTS)):
        for af in (False, True):
            for via in ("save", "copy_to"):
                for how in ("js", "css", "dir"):
                    yield (i, af, via, how)


def run_content(case, ctx):
    """Every kind of contents under every kind of file name is copied as it is."""
    i, af, via, how = case
    c = scratch.fresh()
    try:
        names = [("d/" if how == "dir" and k % 2 else "") + (f"f{k}.{e}" if e else f"f{k}")
                 for k, e in enumerate(EXTS)]
        files = {n: CONTENTS[(i + (k % 3 == 2) * k) % len(CONTENTS)] for k, n in enumerate(names)}
        root = os.path.join(c, "src")
        os.mkdir(root)
        scratch.write_tree(root, files)
        d = ("d", "1", "abs", tuple(names) if how != "css" else (), tuple(names[::-1]) if how == "css"
             else (), af)
        dep = make_dep(d, {"subdir": root})
        before = scratch.stat_tree(root)
        if via == "save":
            div(dep).save_html(os.path.join(c, "p.html"))
            check_page(os.path.join(c, "p.html"), [d], {}, {d: files}, "lib", True, f"{case}", ctx)
        else:
            dep.copy_to(os.path.join(c, "lib"))
            check_target(os.path.join(c, "lib", "d-1"), d, files, f"{case}", ctx)
        if scratch.stat_tree(root) != before:
            raise Violation(f"{case}: the source directory was changed")
        ctx.state(case)
        ctx.trace()
    finally:
        scratch.drop(c)


def save_cases():
    for s in SHAPES:
        for lib in LIBDIRS:
            for iv in (True, False):
                for st in STATES:
                    yield (s, lib, iv, st, "document", "abs")
        for lib in (None, "lib", "a/b/c"):
            for iv in (True, False):
                for call in ("tag", "list", "append"):
                    for where in ("abs", "cwd", "rel"):
                        yield (s, lib, iv, "stale", call, where)


# ---- missing files -------------------------------------------------------------------------

MISS_DEFS = (
    ("d", "1.0", "abs", ("a.js", "s/b.js"), ("c.css", "s/d.css"), False),
    ("d", "1.0", "pkg", ("a.js",), ("t/u/c.css",), False),
    ("d", "1.0", "rel", (), ("x.css", "y z.css", "%.css"), False),
)
HOW = ("gone", "dangling", "parent", "file-parent", "all-gone")


def missing_cases(q):
    for i, d in enumerate(MISS_DEFS):
        n = len(listed(d))
        for mask in range(0, 2 ** n):
            for how in HOW if mask else HOW[:1]:
                for st in STATES if not q or mask in (1, 2 ** (n - 1), 2 ** n - 1) else (
                        "none", "stale", "same"):
                    if st == "linklib":
                        continue
                    for via in ("copy_to", "save", "save-second"):
                        yield (i, mask, how, st, via)


def remove(root, d, mask, how, files):
    names = [p for j, p in enumerate(listed(d)) if mask >> j & 1]
    for p in names:
        t = os.path.join(root, p)
        top = os.path.dirname(t)
        if how == "gone" or (top == root and how in ("parent", "file-parent")):
            os.unlink(t)
        elif how == "dangling":
            os.unlink(t)
            os.symlink("nowhere", t)
        elif how in ("parent", "file-parent"):
            if os.path.isdir(top):
                os.rename(top, top + ".away")
                if how == "file-parent":
                    scratch.write_tree(root, {os.path.relpath(top, root): b"file"})
        elif how == "all-gone":
            if os.path.isdir(root):
                os.rename(root, f"{root}.{len(os.listdir(os.path.dirname(root)))}")
    return names


def run_missing(case, ctx):
    """Remove files, copy (must raise, target untouched), restore them, copy again."""
    i, mask, how, state, via = case
    d = MISS_DEFS[i]
    c = scratch.fresh()
    try:
        arg, root = make_source(d, c, 0)
        files = source_files(d)
        dep = make_dep(d, arg)
        ok = ("ok", "1", "abs", ("ok.js",), (), False)
        oarg, oroot = make_source(ok, c, 1)
        odep = make_dep(ok, oarg)
        for iv in (True, False):
            site = os.path.join(c, f"site{iv}")
            os.mkdir(site)
            t = os.path.join(site, "lib", dirname(d, iv))
            prepare(state, t, None, d)
            before = scratch.stat_tree(t), scratch.stat_tree(t + ".real")

            def go():
                if via == "copy_to":
                    dep.copy_to(os.path.join(site, "lib"), include_version=iv)
                else:
                    ds = [odep, dep] if via == "save-second" else [dep, odep]
                    TagList(*ds).save_html(os.path.join(site, "p.html"), include_version=iv)

            os.rename(root, root + ".keep")
            scratch.write_tree(root, files)
            if remove(root, d, mask, how, files):
                try:
                    go()
                except Exception:
                    pass
                else:
                    raise Violation(f"{case}: a listed file is missing, but nothing was raised")
                after = scratch.stat_tree(t), scratch.stat_tree(t + ".real")
                if after != before:
                    raise Violation(f"{case}: the target directory was touched: {before!r} -> "
                                    f"{after!r}")
                ctx.step()
            if os.path.lexists(root):
                os.rename(root, root + f".gone{iv}")
            os.rename(root + ".keep", root)
            go()
            check_target(t, d, files, f"{case} restored", ctx)
            if via != "copy_to":
                ds = [ok, d] if via == "save-second" else [d, ok]
                check_page(os.path.join(site, "p.html"), ds, {}, {d: files, ok: source_files(ok)},
                           "lib", iv, f"{case} restored", ctx)
        ctx.state(case)
        ctx.trace()
    finally:
        scratch.drop(c)


def many_missing_cases(q):
    for n in SIZES[:30] if q else SIZES:
        if 1 < n <= 300:
            for at in sorted({0, n // 2, n - 2, n - 1}):
                for what in ("script", "stylesheet", "mixed"):
                    yield (n, at, what)


def run_many_missing(case, ctx):
    """One of many listed files is missing."""
    n, at, what = case
    names = [f"d{i % 3}/f{i}" for i in range(n)]
    cut = {"script": n, "stylesheet": 0, "mixed": n // 2}[what]
    c = scratch.fresh()
    try:
        root, out = os.path.join(c, "src"), os.path.join(c, "out")
        scratch.write_tree(root, {p: b"x" for i, p in enumerate(names) if i != at})
        scratch.write_tree(out, {"d-1/old": b"old"})
        before = scratch.stat_tree(out)
        d = HTMLDependency("d", "1", source={"subdir": root}, script=[{"src": p} for p in names[:cut]],
                           stylesheet=[{"href": p} for p in names[cut:]])
        try:
            d.copy_to(out)
        except Exception:
            pass
        else:
            raise Violation(f"{case}: {names[at]} is missing, but nothing was raised")
        if scratch.stat_tree(out) != before:
            raise Violation(f"{case}: {names[at]} is missing, but the target directory was touched")
        scratch.write_tree(root, {names[at]: b"x"})
        d.copy_to(out)
        if sorted(scratch.stat_tree(os.path.join(out, "d-1"))) == sorted(before):
            raise Violation(f"{case}: nothing was copied")
        ctx.step(2)
        ctx.state(case)
        ctx.trace()
    finally:
        scratch.drop(c)


# ---- copy_to -------------------------------------------------------------------------------

def copy_cases():
    for s in SHAPES:
        for d in s:
            for iv in (True, False, None):
                for st in STATES:
                    for where in ("abs", "rel", "dot", "deep"):
                        yield (d, iv, st, where)


def run_copy(case, ctx):
    d, iv, state, where = case
    c = scratch.fresh()
    try:
        arg, root = make_source(d, c, 0)
        dep = make_dep(d, arg)
        dest = os.path.join(c, "out")
        if where == "deep":
            dest = os.path.join(c, "x", "y z", "w")
        t = os.path.join(dest, dirname(d, iv in (True, None)))
        if state == "linklib":
            prepare(state, None, dest, None) if where != "deep" else None
        elif is_local(d) or state == "stale":
            prepare(state, t, None, d)
        if where == "dot":
            os.makedirs(dest, exist_ok=True)
        before = scratch.stat_tree(dest)
        arg_dest = {"abs": dest, "rel": "out", "dot": ".", "deep": dest}[where]
        if where in ("rel", "dot"):
            nd = c if where == "rel" else dest
            if d[2] == "rel":
                dep.source["subdir"] = os.path.relpath(root, nd)
            os.chdir(nd)
        for rep in range(2):
            if iv is None:
                dep.copy_to(arg_dest)
            else:
                dep.copy_to(arg_dest, include_version=iv)
            if is_local(d):
                check_target(t, d, source_files(d), f"{case}", ctx)
            elif scratch.stat_tree(dest) != before:
                raise Violation(f"{case}: copied something for a dependency without local files")
            ctx.step()
        # the URLs without a prefix are relative to that directory
        kw = {} if iv is None else dict(include_version=iv)
        x = dep.as_dict(lib_prefix=None, **kw)
        for got, paths in (([s["src"] for s in x["script"]], d[3]), ([
                s["href"] for s in x["stylesheet"]], d[4])):
            if len(got) != len(paths):
                raise Violation(f"{case}: as_dict() lists {got!r}, want {paths!r}")
            for url, p in zip(got, paths):
                check_url(d, url, p, None, iv in (True, None), f"{case}")
                if is_local(d):
                    if open(browser_path(url, dest), "rb").read() != content(d, p):
                        raise Violation(f"{case}: {url!r} is not {p!r}")
    finally:
        scratch.drop(c)
    ctx.state(case)
    ctx.trace()


# ---- URLs ----------------------------------------------------------------------------------

PREFIXES = (None, "", "lib", "a/b", "lib/", "/abs", "my lib", "../up", "https://cdn.org/x", "é")
URL_ALPHA = ("a", "%", "#", "?", " ", "/", "é", "&", "+", ".", "\\", '"', "2", "~", ":", "\n", ";",
             "中", "\U0001f600", "=", "@")


def legal_path(p):
    return p and not p.startswith("/") and not p.endswith("/") and "//" not in p and not any(
        s in (".", "..") for s in p.split("/"))


def url_cases(n):
    for k in range(1, n + 1):
        for c in itertools.product(URL_ALPHA, repeat=k):
            p = "".join(c)
            if legal_path(p):
                yield p


KINDS = (("dir", False), ("dir", True), ("url:https://h/p", False), ("url:p/", False))


def run_url(path, ctx, prefixes=PREFIXES, kinds=KINDS):
    for kind, af in kinds:
        d = ("n", "1.0", kind, (path, "z.js"), ("z.css", path), af)
        arg = {"subdir": "x"} if kind == "dir" else {"href": kind[4:]}
        dep = make_dep(d, arg)
        for prefix in prefixes:
            for iv in (True, False):
                x = dep.as_dict(lib_prefix=prefix, include_version=iv)
                t = dep.as_html_tags(lib_prefix=prefix, include_version=iv)
                for how, got in (("as_dict", ([s["src"] for s in x["script"]],
                                              [s["href"] for s in x["stylesheet"]])),
                                 ("as_html_tags", ([s.attrs["src"] for s in t if s.name == "script"],
                                                   [s.attrs["href"] for s in t if s.name == "link"]))):
                    for urls, paths in zip(got, (d[3], d[4])):
                        if len(urls) != len(paths):
                            raise Violation(f"{path!r}: {how} lists {urls!r}")
                        for u, p in zip(urls, paths):
                            check_url(d, str(u), p, prefix, iv, f"{path!r} {prefix!r} {iv} {how}")
                            ctx.step()
        if [s["src"] for s in dep.script] != list(d[3]):
            raise Violation(f"{path!r}: as_dict() changed the dependency")
    ctx.state(path)
    ctx.trace()


HREFS = ("https://h/#/p", "https://h/p?q=1", "https://h/p?q#f", "//h/p", "/p", "p", "../p", "./p", "p/./q",
         "https://h", "https://h/", "https://h/a//b", "https://h/a b", "https://h/%41", "https://u:w@h:8/p",
         "file:///p", "data:x", "https://h/\u00e9", "HTTPS://H/P", "https://h/p.js", "https://h/?", "https://h/..",
         "https://h/a;b", "#", "?", "https://h/lib", "lib", "d-1.0", "https://h/a/", "a/b/", "https://h/a\\b")


# the URL holds the path as it is given
PATHS = ("a.js", "s/b c.js", "%41.js", "x/./a.js", "./a.js", "x//a.js", "x/../a.js", "x/y/../../a.js", "..a",
         "a..", "x/.", "x/", "../a.js", "A.JS", "a.js?v=1", "a.js#f", "https:a.js", "a.js/", "~/a.js", "$HOME/a.js")


def run_href(case, ctx):
    href, path = case
    run_url(path, ctx, kinds=(("url:" + href, False), ("url:" + href, True)))
    if href == HREFS[0]:
        run_url(path, ctx, kinds=(("dir", False), ("dir", True)))


def run_chars(chunk, ctx):
    """Every Unicode scalar value as part of a path."""
    for i in range(0, chunk[1] - chunk[0], 64):
        cs = [c for c in scalars(chunk[0] + i, min(chunk[0] + i + 64, chunk[1])) if c not in "/"]
        if cs:
            run_url("/".join("x" + c for c in cs), ctx, ("lib",), KINDS[::2])
            ctx.fresh_states(len(cs))


def run_char_files(chunk, ctx):
    """Files whose names hold every character of a range."""
    cs = [c for c in scalars(*chunk) if c not in "/\0"]
    for i in range(0, len(cs), 16):
        ns = tuple("x" + c for c in cs[i:i + 16])
        run_names((("d", "1.0", "abs", ns[:8], ns[8:], False),), ctx)
        ctx.fresh_states(len(ns))


# ---- histories -----------------------------------------------------------------------------

HDEFS = (("d", "1.0", "abs", ("a.js", "s/b.js"), (), False),
         ("d", "1.0", "abs", ("a.js",), ("c.css",), False),
         ("d", "1.0", "abs", ("q/r.js",), (), True),
         ("e", "1.0", "abs", ("a.js",), (), False))
OPS = (*[("save", i, p) for i in range(4) for p in ("p1", "p2")], ("both", 1, "p1"),
       ("flat", 0, "p1"), ("nover", 0, "p1"), ("nover", 1, "p2"), ("edit", 0), ("edit", 1),
       ("edit", 3), ("lose", 0), ("lose", 1), ("copy", 0), ("copy", 2))


def run_history(ops, ctx):
    c = scratch.fresh()
    try:
        site = os.path.join(c, "site")
        os.mkdir(site)
        deps, files, roots = [], [], []
        for i, d in enumerate(HDEFS):
            arg, root = make_source(d, c, i)
            deps.append(make_dep(d, arg))
            files.append(source_files(d))
            roots.append(root)
        lost = set()
        owner = {}  # target directory -> (definition, contents when copied)
        pages = {}
        for k, op in enumerate(ops):
            what = f"{ops[:k + 1]}"
            i = op[1]
            if op[0] == "edit":
                f = {p: content(HDEFS[i], p, k + 1) for p in files[i]}
                f[f"new{k}.txt"] = b"new"
                files[i] = f
                scratch.write_tree(roots[i], f)
                lost.discard(i)
                continue
            if op[0] == "lose":
                if i not in lost:
                    os.unlink(os.path.join(roots[i], HDEFS[i][3][0]))
                lost.add(i)
                continue
            ids = [i, 3] if op[0] == "both" else [i]
            lib = None if op[0] == "flat" else "lib"
            iv = op[0] != "nover"
            ts = [os.path.join(site, base(HDEFS[j], lib, iv)) for j in ids]
            before = [scratch.stat_tree(t) for t in ts]
            try:
                if op[0] == "copy":
                    deps[i].copy_to(os.path.join(site, "lib"))
                else:
                    HTMLDocument(*[deps[j] for j in ids]).save_html(
                        os.path.join(site, op[2]), libdir=lib, include_version=iv)
            except Exception:
                if not lost & set(ids):
                    raise
                for j, t, b in zip(ids, ts, before):
                    if j in lost and scratch.stat_tree(t) != b:
                        raise Violation(f"{what}: failed copy touched {t}")
                    if j not in lost and scratch.stat_tree(t) != b:
                        owner[t] = (j, dict(files[j]))
                if op[0] != "copy":
                    pages.pop(op[2], None)
                continue
            if lost & set(ids):
                raise Violation(f"{what}: a listed file is missing, but nothing was raised")
            for j, t in zip(ids, ts):
                owner[t] = (j, dict(files[j]))
            if op[0] != "copy":
                pages[op[2]] = (ids, lib, iv, [dict(files[j]) for j in ids])
            # every page still served by unchanged directories works
            for page, (pids, plib, piv, pf) in pages.items():
                if all(owner.get(os.path.join(site, base(HDEFS[j], plib, piv))) == (j, f)
                       for j, f in zip(pids, pf)):
                    check_page(os.path.join(site, page), [HDEFS[j] for j in pids], {},
                               {HDEFS[j]: f for j, f in zip(pids, pf)}, plib, piv,
                               f"{what}: {page}", ctx)
            for t, (j, f) in owner.items():
                check_target(t, HDEFS[j], f, what, ctx)
        ctx.state(tuple(sorted((os.path.relpath(t, site), j, len(f)) for t, (j, f) in owner.items())))
        ctx.trace()
    finally:
        scratch.drop(c)


# ---- sizes, packages, components -----------------------------------------------------------

def size_cases(q):
    for n in SIZES:
        if n <= (300 if q else 1025):
            yield ("scripts", n)
            yield ("deps", n)
            if n <= 200:
                yield ("deep", n)
                yield ("long", n)


def run_size(case, ctx):
    kind, n = case
    if kind == "scripts":
        s = (("d", "1", "abs", tuple(f"{i % 7}/f {i}.js" for i in range(n)),
              tuple(f"c{i}.css" for i in range(n // 2)), n % 2 == 0),)
    elif kind == "deps":
        s = tuple((f"d{i}", f"1.{i}", "abs", ("a.js",), (), False) for i in range(n))
    elif kind == "deep":
        s = (("d", "1", "abs", ("/".join("ab"[i % 2] for i in range(n)) + ".js",), (), n % 2 == 0),)
    else:
        s = (("n" * n, "1." * min(n, 12) + "0", "abs", ("f" * n + ".js",), (), False),)
    run_save((s, "lib", True, "none", "document", "abs"), ctx)


def run_big(n, ctx):
    """File sizes."""
    c = scratch.fresh()
    try:
        root = os.path.join(c, "src")
        os.mkdir(root)
        data = bytes(i % 251 for i in range(1009)) * (n // 1009 + 1)
        scratch.write_tree(root, {"a.js": data[:n], "d/b.bin": data[1:n + 1]})
        for af in (False, True):
            dep = HTMLDependency("d", "1", source={"subdir": root}, script={"src": "a.js"},
                                 all_files=af)
            div(dep).save_html(os.path.join(c, "p.html"))
            got = scratch.read_tree(os.path.join(c, "lib", "d-1"))
            if got != scratch.read_tree(root) and not (not af and got == {"a.js": data[:n]}):
                raise Violation(f"{n} bytes: wrong copy")
            ctx.step()
        ctx.state(n)
        ctx.trace()
    finally:
        scratch.drop(c)


def run_component(case, ctx):
    """The package's own files: a JSX component saved to a page."""
    libdir, iv, call = case
    c = scratch.fresh()
    try:
        import htmltools

        root = os.path.join(os.path.dirname(htmltools.__file__), "lib")
        x = jsx_tag_create("Foo")("hi")
        obj = {"document": lambda: HTMLDocument(x), "tag": lambda: div(x), "list": lambda: TagList(
            x)}[call]()
        f = os.path.join(c, "p.html")
        ret = obj.save_html(f, libdir=libdir, include_version=iv)
        if ret != f:
            raise Violation(f"{case}: save_html() returned {ret!r}")
        p = Refs()
        p.feed(open(f, encoding="utf-8").read())
        urls = [u for u in p.script]
        if len(urls) != 2 or "react.production.min.js" not in urls[0]:
            raise Violation(f"{case}: page refers to {urls!r}")
        for u, d in zip(urls, ("react", "react-dom")):
            t = browser_path(u, c)
            src = os.path.join(root, d, f"{d}.production.min.js")
            if not os.path.isfile(t) or open(t, "rb").read() != open(src, "rb").read():
                raise Violation(f"{case}: {u!r} is not a copy of {src}")
            ctx.step()
        ctx.state(case)
        ctx.trace()
    finally:
        scratch.drop(c)


VERSIONS = ("1", "1.0", "1.0.0", "01.02", "1.10", "1.0a1", "1.0rc1", "1.0.post1", "1.0.dev3", "1!2.0",
            "1.0+local.1", "v1.0", "1.0-1", " 1.0 ", "2020.01.01", "0", "1.0.0.0.0.1", "1.0b2.post3.dev4")


def run_version(case, ctx):
    v, as_obj, iv, libdir = case
    d = ("d", v, "abs", ("a b.js",), ("c.css",), False)
    c = scratch.fresh()
    try:
        arg, root = make_source(d, c, 0)
        dep = HTMLDependency("d", Version(v) if as_obj else v, source=arg, script=[{"src": "a b.js"}],
                             stylesheet={"href": "c.css"})
        f = os.path.join(c, "p.html")
        div(dep).save_html(f, libdir=libdir, include_version=iv)
        check_page(f, [d], {}, {d: source_files(d)}, libdir, iv, f"{case}", ctx)
        ctx.state(case)
        ctx.trace()
    finally:
        scratch.drop(c)


def spaces(tier):
    q = tier == "quick"
    dirs = dict(setup=setup, teardown=teardown)
    return [
        Space("shapes", f"{len(SHAPES)} sets of dependencies x {len(LIBDIRS)} libdirs x include_"
              f"version x {len(STATES)} destinations; x document/tag/list x absolute/relative file",
              save_cases, run_save, **dirs, block=4),
        Space("shared", f"{len(SHARED)} sets of dependencies that share source directories",
              shared_cases, run_save, **dirs),
        Space("links", f"{len(LINKS)} source directories with links, hard links, modes, empty, hidden and "
              "odd names x listed/all_files x destinations", links_cases, run_links, **dirs),
        Space("names", f"{len(NAMES)} file names and all pairs of them, listed or all_files",
              name_cases, run_names, **dirs),
        Space("missing", "every choice of missing files x 5 ways to be missing x destinations",
              lambda: missing_cases(q), run_missing, **dirs),
        Space("many-missing", "many listed files, one of them missing", lambda: many_missing_cases(q),
              run_many_missing, block=8, **dirs),
        Space("hrefs", f"{len(HREFS)} URL sources x {len(PATHS)} paths x prefixes", lambda: itertools.product(
            HREFS, PATHS), run_href, block=8),
        Space("copy_to", "every definition x include_version x destinations x relative/absolute",
              copy_cases, run_copy, **dirs),
        Space("urls", f"all paths up to {2 if q else 3} of {len(URL_ALPHA)} characters x prefixes",
              lambda: url_cases(2 if q else 3), run_url),
        Space("chars", "every Unicode scalar value in a path (URL only)", lambda: chunks(1024),
              run_chars, block=2),
        Space("char-files", f"file names with every character up to U+{0x7ff if q else 0xffff:04X}",
              lambda: chunks(64, 0, 0x800 if q else 0x10000), run_char_files, **dirs, block=1),
        Space("histories", f"all histories up to {2 if q else 3} of {len(OPS)} operations (saves, "
              "copies, edited and lost sources)", lambda: (
                  h for n in range(1, 3 if q else 4) for h in itertools.product(OPS, repeat=n)),
              run_history, **dirs),
        Space("versions", "18 version spellings", lambda: itertools.product(
            VERSIONS, (False, True), (True, False), (None, "lib")), run_version, **dirs),
        Space("component", "a JSX component's package files", lambda: itertools.product(
            (None, "lib", "a/b"), (True, False), ("document", "tag", "list")), run_component, **dirs),
        Space("sizes", "numbers of files and dependencies, path depths, name lengths",
              lambda: size_cases(q), run_size, **dirs, block=1),
        Space("contents", f"{len(EXTS)} kinds of file names x {len(CONTENTS)} kinds of contents",
              content_cases, run_content, **dirs),
        Space("file-sizes", "file sizes around powers of two up to 1 MB", lambda: iter(
            [0, 1, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 262144, 1048575, 1048576,
             1048577]), run_big, **dirs, block=1),
    ]
