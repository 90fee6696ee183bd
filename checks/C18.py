"""C18: output is deterministic across processes and independent of history.

A fixed battery of constructions is executed in interpreter processes with different hash seeds and
settings and compared byte for byte.  Within a process, all sequences of battery tasks up to a length
are executed, each in a fresh fork, and every task must print what it prints when executed first; all
orders of rendering a set of objects that share tags and dependencies are executed likewise.
head_content names are compared over large families of payloads: equal exactly for equal content."""
import gc
import hashlib
import itertools
import json
import os
import subprocess
import sys

import htmltools
from htmltools import (HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList, head_content,
                       tags)
from mc import battery as B
from mc import families as F
from mc import model as M
from mc import real, scratch
from mc.common import BIG_SIZES, E, METACHARS, NASTY, SIZES, T, scalars
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "hash seeds and interpreter settings are enumerated (not all 2^32 seeds)",
    "contents of head_content that cannot be encoded as UTF-8 are left out",
    "injectivity of names is checked on the enumerated payloads (more than a million)")

S = {}


# ---- processes -----------------------------------------------------------------------------

def seed_cases(n):
    for i in range(n):
        yield (str(i), "")
    for i in range(4):
        yield ("random", f"{i}")
    for how in ("reversed", "-O", "-OO", "-B", "utf8=0", "LC_ALL=C", "ascii", "TZ", "cwd", "svg-first",
                "threads", "nogc", "env", "dev"):
        for s in ("0", "1", "2", "random")[::2 if n < 100 else 1]:
            yield (s, how)


def run_seed(case, ctx):
    seed, how = case
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    env["PYTHONHASHSEED"] = seed
    py, args, cwd = [sys.executable], [], None
    if how == "reversed":
        args = ["reversed"]
    elif how.startswith("-"):
        py.append(how)
    elif how == "utf8=0":
        py += ["-X", "utf8=0"]
    elif how == "dev":
        py += ["-X", "dev"]
    elif how == "LC_ALL=C":
        env["LC_ALL"] = env["LANG"] = "C"
        env["PYTHONIOENCODING"] = "utf-8"
    elif how == "ascii":
        env["LC_ALL"] = "C"
        env["PYTHONCOERCECLOCALE"] = "0"
        py += ["-X", "utf8=0"]
    elif how == "TZ":
        env["TZ"] = "Asia/Tokyo"
    elif how == "cwd":
        cwd = "/"
    elif how == "env":
        env["HOME"] = "/nonexistent"
        env["USER"] = env["LOGNAME"] = "somebody"
        env["COLUMNS"] = "20"
    cmd = [*py, "-m", "mc.battery", *args]
    pre = {"svg-first": "import htmltools.svg, htmltools._jsx", "nogc": "import gc; gc.disable()",
           "threads": "import threading; threading.stack_size(1 << 25)"}.get(how)
    if pre:
        main = "mc.battery.main()"
        if how == "threads":
            main = "t = threading.Thread(target=mc.battery.main); t.start(); t.join()"
        cmd = [*py, "-c", f"{pre}\nimport sys; sys.argv[1:] = []\nimport mc.battery\n{main}"]
    r = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, timeout=100)
    if r.returncode:
        raise Violation(f"{case}: the battery fails: {r.stderr.decode()[-800:]}")
    out = json.loads(r.stdout)
    want = reference()
    if set(out) != set(want):
        raise Violation(f"{case}: other tasks")
    for k, v in out.items():
        if v != want[k]:
            i = next((i for i, (a, b) in enumerate(zip(v, want[k])) if a != b), min(len(v), len(
                want[k])))
            raise Violation(f"{case}: {k} prints ...{v[max(0, i - 60):i + 80]!r}, elsewhere "
                            f"...{want[k][max(0, i - 60):i + 80]!r}")
        ctx.step()
    ctx.state(case)
    ctx.trace()


def forked(f, *args):
    """f(*args), a JSON value, computed in a fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(f(*args)).encode("utf-8", "surrogatepass")
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError(f"forked process failed: {st}")
    return json.loads(data)


def reference():
    """Every task and operation executed alone, first thing in a fork of an untouched process."""
    if "ref" not in S:
        S["ref"] = {n: forked(B.outcome, f) for n, f in B.TASKS.items()}
        for k in (*B.OPS, "version"):
            for v in B.op_values(k):
                S["ref"][f"{k}:{v}"] = forked(B.outcome, B.op, (k, v))
    return S["ref"]


def digest(s):
    return hashlib.md5(s.encode("utf-8", "surrogatepass")).hexdigest()


# ---- histories -----------------------------------------------------------------------------

BIG = ("forests", "forest-deps", "catalogue", "characters") + tuple(
    n for n in B.TASKS if n.startswith("sized-"))
CORE = ("tree-deps", "doc-deps-rev", "doc-hc", "doc-hc-rev", "json-mode", "json-mode-error",
        "text-document", "jsx-deps", "jsx", "shared", "dep-version-1.0", "dep-version-1.0.0", "attrs",
        "error-render", "with", "doc-noversion", "doc-html", "classes")


def run_tasks(seq):
    return [digest(B.outcome(B.TASKS[n])) for n in seq]


def run_history(seq, ctx):
    ref = reference()
    got = forked(run_tasks, seq)
    for i, (n, d) in enumerate(zip(seq, got)):
        if d != digest(ref[n]):
            raise Violation(f"after {seq[:i]!r}, {n} prints something else than when executed first")
    ctx.step(len(seq))
    ctx.state(seq)
    ctx.trace()


def twin_cases():
    for k in (*B.OPS, "version"):
        for pair in itertools.product(B.op_values(k), repeat=2):
            yield (k, pair)


def run_ops(kind, vs):
    return [B.outcome(B.op, (kind, v)) for v in vs]


def run_twins(case, ctx):
    kind, vs = case
    ref = reference()
    got = forked(run_ops, kind, vs)
    for i, (v, g) in enumerate(zip(vs, got)):
        if g != ref[f"{kind}:{v}"]:
            raise Violation(f"after {kind}({vs[:i]!r}), {kind}({v!r}) is {g!r}, alone it is "
                            f"{ref[f'{kind}:{v}']!r}")
    ctx.step(len(vs))
    ctx.state(case)
    ctx.trace()


def cross_cases():
    ks = [(k, v) for k in B.OPS for v in ("HTML('<1>')", "True", "'<1>'")]
    for a, b in itertools.product(ks, repeat=2):
        if a[0] != b[0]:
            yield (a, b)


def run_two_ops(a, b):
    return [B.outcome(B.op, a), B.outcome(B.op, b)]


def run_cross(case, ctx):
    ref = reference()
    got = forked(run_two_ops, *case)
    for (k, v), g in zip(case, got):
        if g != ref[f"{k}:{v}"]:
            raise Violation(f"{case}: {k}({v!r}) is {g!r}, alone it is {ref[f'{k}:{v}']!r}")
    ctx.step(2)
    ctx.state(case)
    ctx.trace()


# ---- families of look-alikes ---------------------------------------------------------------

def safe(f, *a):
    try:
        return f(*a)
    except RecursionError:
        raise
    except Exception as e:
        return f"!{type(e).__name__}"


def run_all(kind, what, how):
    """Digests by index of the value; a value executed twice must give the same."""
    if kind == "struct":
        ops = list(F.STRUCTS[what]())
        jobs = [(i, ops[i], ()) for i in F.order(len(ops), how)]
    else:
        vs = F.strings(what)
        names = [kind] if kind != "all" else list(F.OPS)
        if how in ("backward", "spread"):
            names.reverse()
        jobs = [(i * len(names) + (names if how not in ("backward", "spread") else names[::-1]).index(n),
                 F.OPS[n], (vs[i],)) for i in F.order(len(vs), how) for n in names]
    out = {}
    for k, f, a in jobs:
        d = digest(safe(f, *a))
        if out.setdefault(k, d) != d:
            out[k] += "|" + d
    return [out[k] for k in sorted(out)]


def run_lookalike(case, ctx):
    kind, what, orders = case
    ref = None
    for how in orders:
        got = forked(run_all, kind, what, how)
        ref = ref or got
        for i, (a, b) in enumerate(zip(ref, got, strict=True)):
            if a != b or "|" in a:
                if kind == "struct":
                    v = f"number {i}"
                else:
                    names = [kind] if kind != "all" else list(F.OPS)
                    v = f"{names[i % len(names)]} of {F.strings(what)[i // len(names)]!r}"
                raise Violation(f"{what} in {orders[0]} and in {how} order: {v} prints something else")
        ctx.step(len(got))
    ctx.fresh_states(len(ref))
    ctx.trace()


def lookalike_cases(q):
    ords = F.ORDERS[:3] if q else F.ORDERS
    for w in F.STRUCTS:
        yield ("struct", w, ords)
    for w in F.FAMILIES:
        yield ("all", w, ords)
    for w in F.FAMILIES + (() if q else ("words3",)):
        for k in F.OPS:
            yield (k, w, ("forward", "backward") if q else ords)


# ---- all orders of rendering a set of shared objects ---------------------------------------

def shared_world(w):
    """Objects that share tags and dependencies, and operations rendering them."""
    d1, d2, hc = B.dep("d", "1"), B.dep("d", "2"), head_content(tags.title("t"))
    s = tags.i("s", d1)
    if w == 0:
        a, b = tags.div(s, s, d2), tags.p(hc, s)
        doc1, doc2 = HTMLDocument(a, lang="x"), HTMLDocument(b, a)
        return [a.render, b.render, doc1.render, doc2.render, lambda: TagList(b, s, hc).render(),
                lambda: doc1.render(lib_prefix=None, include_version=False)]
    if w == 1:
        html = tags.html(tags.head(hc, tags.title("x")), tags.body(s))
        doc1, doc2 = HTMLDocument(html, lang="x"), HTMLDocument(html, class_="y")
        deps = [d1]
        td = HTMLTextDocument("<P>" + str(d2.serialize_to_script_json()), deps, "<P>")
        td2 = lambda: HTMLTextDocument("<P>" + str(hc.serialize_to_script_json()), deps, "<P>").render()
        return [doc1.render, doc2.render, html.render, td.render, td2, lambda: {
            "html": str(html), "dependencies": html.get_dependencies()}]
    comp = B.component("c", s, d2, p=tags.b(d1), q=[s])
    box = tags.div(comp, s)
    comp2 = B.component(comp, x=comp)
    doc = HTMLDocument(box)
    return [lambda: TagList(comp).render(), box.render, lambda: TagList(comp2).render(), doc.render,
            lambda: {"html": str(comp), "dependencies": []}, s.render]


def render_order(w, order):
    ops = shared_world(w)
    return [B.show(ops[i]()) for i in order]


def order_cases(n):
    for w in range(3):
        for k in range(1, n + 1):
            for o in itertools.permutations(range(6), k):
                yield (w, o)
        for o in itertools.product(range(6), repeat=3):
            yield (w, o)


def run_order(case, ctx):
    w, order = case
    if ("w", w) not in S:
        S["w", w] = [forked(render_order, w, (i,))[0] for i in range(6)]
    for i, g in zip(order, render_order(w, order)):
        if g != S["w", w][i]:
            raise Violation(f"{case}: rendering {i} gives\n{g}\nfirst it gives\n{S['w', w][i]}")
        ctx.step()
    ctx.state(case)
    ctx.trace()


def run_churn(case, ctx):
    """Many short-lived objects: nothing is remembered about the ones that are gone."""
    kind, n = case
    for i in range(n):
        k = (i * 7919) % 10007
        if kind == "tag":
            got, want = str(tags.div(str(k), class_=f"c{k}")), f'<div class="c{k}">{k}</div>'
        elif kind == "list":
            got, want = str(TagList(str(k))), str(k)
        elif kind == "head":
            d = HTMLDocument(head_content(f"h{k}")).render()["dependencies"]
            got, want = str(d[0].head), f"h{k}"
        elif kind == "dep":
            d = HTMLDocument(HTMLDependency(f"n{k}", f"{k}")).render()["dependencies"]
            got, want = repr(d), f'[<HTMLDependency "n{k}-{k}">]'
        elif kind == "doc":
            got = HTMLDocument(tags.p(str(k)), lang=f"l{k}").render()["html"]
            got, want = ("".join(got.split()), f'<!DOCTYPEhtml><htmllang="l{k}"><head><metacharset="utf'
                         f'-8"/></head><body><p>{k}</p></body></html>')
        elif kind == "text":
            got = HTMLTextDocument(f"a{k}<P>", deps_replace_pattern="<P>").render()["html"]
            want = f"a{k}"
        elif kind == "jsx":
            got = str(B.component(str(k)))
            if f'"{k}"' not in got:
                raise Violation(f"{case}: the component's child {k} is not in {got!r}")
            continue
        else:
            x = TagList(real.Expand(lambda: tags.i(str(k))))
            got, want = str(x), f"<i>{k}</i>"
        if got != want:
            raise Violation(f"{case}, object {i}: {got!r}, want {want!r}")
    if n % 3 == 0:
        gc.collect()
    ctx.step(n)
    ctx.state(case)
    ctx.trace()


# ---- head_content --------------------------------------------------------------------------

def payload_families(q):
    """Families of distinct strings; each is one case."""
    yield ("chars-1", 0, 0x110000)
    for c in METACHARS:
        yield ("words", c, 3 if q else 4)
    for i in range(16 if q else 40):
        yield ("hex", i, 0)
    for n in SIZES + BIG_SIZES:
        yield ("edit", n, 0)
    yield ("nasty", 0, 0)


def family(case):
    kind, a, b = case
    if kind == "chars-1":
        return scalars(a, b)
    if kind == "words":
        return (a + "".join(w) for k in range(0, b + 1) for w in itertools.product(METACHARS, repeat=k))
    if kind == "hex":
        # The names of a large family must differ even in a shortened digest.
        return (f"p{i}" for i in range(a * 65536, (a + 1) * 65536))
    if kind == "edit":
        pos = sorted({0, a // 3, a // 2, a - 2, a - 1} & set(range(a)))
        return itertools.chain(("x" * a,), ("x" * p + y + "x" * (a - p - 1) for p in pos for y in "yX "),
                               ("x" * a + " ", " " + "x" * a))
    return NASTY


def run_family(case, ctx):
    seen = {}
    for s in dict.fromkeys(family(case)):
        try:
            name = head_content(HTML(s)).name
        except UnicodeEncodeError:
            continue
        if name in seen:
            raise Violation(f"head_content(HTML({s[:200]!r})) and head_content(HTML({seen[name][:200]!r}"
                            f")) are both named {name!r}")
        seen[name] = s
    ctx.step(len(seen))
    ctx.fresh_states(len(seen))
    if len(seen) < 3000:
        again = {head_content(HTML(s)).name: s for s in reversed(list(seen.values()))}
        if again != seen:
            raise Violation(f"{case}: other names the second time")
    ctx.trace()


def run_all_families(q, ctx):
    """The families together: a name stands for one content only."""
    seen = {}
    for c in payload_families(q):
        if q and (c[0] == "hex" and c[1] > 3 or c[0] == "chars-1"):
            continue
        for s in family(c):
            name = head_content(HTML(s)).name
            key = hash(s)
            if seen.setdefault(name, key) != key:
                raise Violation(f"{name!r} stands for {s[:200]!r} and for something else")
    ctx.fresh_states(len(seen))
    ctx.trace()


def universe(q):
    leaves = (T("a"), T("b"), T("a&"), ("H", "a&"), ("H", "a&amp;"), ("H", "<i></i>"), ("M", 1))
    elems = (M.elem("i", False), M.elem("div", True), M.elem("title", True, (("x", "a"),)))
    return list(M.Forests(leaves, elems).upto(2)) + [
        (T(s),) for s in NASTY] + [(("H", s),) for s in NASTY] + [
        (E("meta", attrs=(("x", s),)),) for s in NASTY]


def run_pairs(i, ctx):
    """Payload i with every other one: same name exactly if rendered the same; in one document both
    or one of them appear."""
    if "u" not in S:
        S["u"] = universe(True)
        S["d"] = [head_content(*real.kids(k)) for k in S["u"]]
        S["s"] = [TagList(*real.kids(k)).get_html_string() for k in S["u"]]
    u, ds, ss = S["u"], S["d"], S["s"]
    for j in range(len(u)):
        if (ds[i].name == ds[j].name) != (ss[i] == ss[j]):
            raise Violation(f"{u[i]!r} and {u[j]!r} render {ss[i]!r} and {ss[j]!r}; names "
                            f"{ds[i].name!r} and {ds[j].name!r}")
        r = HTMLDocument(tags.p(ds[i]), ds[j], ds[i]).render()
        got = [str(TagList(d.head).get_html_string()) for d in r["dependencies"]]
        if got != list(dict.fromkeys([ss[i], ss[j]])):
            raise Violation(f"{u[i]!r} and {u[j]!r}: document includes {got!r}")
        ctx.step()
    ctx.state(u[i])
    ctx.trace()


def run_spelling(kids, ctx):
    """The name depends on the rendered content only, not on how it is given."""
    names = {head_content(*real.kids(kids)).name, head_content(real.kids(kids)).name,
             head_content(TagList(*real.kids(kids))).name, head_content(None, *real.kids(kids), []).name,
             head_content(HTML(TagList(*real.kids(kids)).get_html_string())).name,
             head_content(*[(k,) for k in real.kids(kids)]).name}
    t = TagList(*real.kids(kids))
    str(t)
    t.append("later")
    del t[-1]
    names.add(head_content(t).name)
    names.add(head_content(*t.tagify()).name)
    if len(names) != 1:
        raise Violation(f"{kids!r}: equal content is named {sorted(names)!r}")
    ctx.step(len(names))
    ctx.state(kids)
    ctx.trace()


# ---- surroundings --------------------------------------------------------------------------

PLACES = ("a", "b", "a/in")
USES = ("copy", "save", "map", "again", "render", "json", "text", "pkg")


def enter_places():
    d = scratch.enter()
    for i, p in enumerate(PLACES):
        scratch.write_tree(os.path.join(d, p), {"src/x.js": f"in {p}".encode() * (i + 1), "src/s/y.css":
                                                p.encode(), f"src/only{i}": b"z"})


def leave_places():
    for k in [k for k in S if k[0] == "use"]:
        del S[k]
    scratch.leave()


def use(place, what, out, keep):
    """One use of a dependency whose source directory is given relative to the working directory."""
    root = scratch.S["dir"]
    os.chdir(os.path.join(root, place))
    rel = os.path.relpath(out)
    new = lambda **kw: HTMLDependency("d", "1", source={"subdir": "src"}, script={"src": "x.js"},
                                      stylesheet={"href": "s/y.css"}, **kw)
    if what == "copy":
        new(all_files=True).copy_to(rel)
    elif what == "save":
        HTMLDocument(tags.p("x", new())).save_html(os.path.join(rel, "p.html"), libdir="l")
    elif what == "map":
        return [v if v is None else os.path.relpath(os.path.realpath(os.path.join(os.getcwd(), v)), root)
                if k == "source" else v for k, v in sorted(new().source_path_map().items())]
    elif what == "again":
        d = keep.setdefault("d", new())
        TagList(d).save_html(os.path.join(rel, "p.html"), libdir="l")
    elif what == "render":
        return B.show(HTMLDocument(tags.p(new(), head_content(tags.i("x")))).render())
    elif what == "text":
        return B.show(HTMLTextDocument("<P>", [new()], "<P>").render())
    elif what == "pkg":
        HTMLDependency("e", "1", source={"package": "htmltools", "subdir": "lib/react"},
                       script={"src": "react.production.min.js"}).copy_to(rel)
    else:
        return B.json_mode(lambda: str(TagList(new(), "x")))
    return {os.path.relpath(os.path.join(r, f), out): digest(open(os.path.join(r, f)).read())
            for r, _, fs in os.walk(out) for f in fs}


def uses(seq, dest):
    res, keep = [], {}
    for i, (p, w) in enumerate(seq):
        out = os.path.join(dest, str(i))
        os.mkdir(out)
        res.append(use(PLACES[p], w, out, keep))
    return res


def run_uses(seq, ctx):
    for i, st in enumerate(seq):
        if ("use", st) not in S:
            c = scratch.fresh()
            S["use", st] = forked(uses, (st,), c)[0]
            scratch.drop(c)
    c = scratch.fresh()
    try:
        got = forked(uses, seq, c)
    finally:
        scratch.drop(c)
    for i, (st, g) in enumerate(zip(seq, got, strict=True)):
        if g != S["use", st]:
            raise Violation(f"after {[(PLACES[p], w) for p, w in seq[:i]]}, {st[1]} in the directory "
                            f"{PLACES[st[0]]!r} gives {g!r}, alone it gives {S['use', st]!r}")
    ctx.step(len(seq))
    ctx.state(seq)
    ctx.trace()


def spaces(tier):
    q = tier == "quick"
    names = [n for n in B.TASKS if not (q and n in BIG)]
    return [
        Space("processes", f"{32 if q else 512} hash seeds, random seeds, interpreter settings; "
              f"{len(B.TASKS)} tasks and {len(B.OPS)} operations each",
              lambda: seed_cases(32 if q else 512), run_seed, block=1, timeout=150),
        Space("pairs", "all ordered pairs of battery tasks, each in a fresh fork", lambda: (
            s for s in itertools.product(names, repeat=2)), run_history),
        Space("twins", "each operation, all ordered pairs of values that compare equal or look alike",
              twin_cases, run_twins),
        Space("lookalikes", f"{len(F.FAMILIES)} families of strings that look alike x {len(F.OPS)} "
              f"operations, {len(F.STRUCTS)} families of structured values, each in "
              f"{3 if q else 5} orders", lambda: lookalike_cases(q), run_lookalike, block=1, timeout=300),
        Space("cross", "pairs of different operations", cross_cases, run_cross),
        Space("orders", f"3 sets of 6 objects sharing tags and dependencies, all orders of up to "
              f"{4 if q else 6} renderings", lambda: order_cases(4 if q else 6), run_order),
        Space("surroundings", f"all sequences of {2 if q else 3} of {len(USES)} uses of a relative source "
              f"directory in {len(PLACES)} working directories", lambda: itertools.product(
                  itertools.product(range(len(PLACES)), USES), repeat=2 if q else 3), run_uses, block=8,
              setup=enter_places, teardown=leave_places),
        Space("churn", "many short-lived objects", lambda: (
            (k, n) for n in (10, 100, 101, 999, 1000) for k in (
                "tag", "list", "head", "dep", "doc", "text", "jsx", "expand")), run_churn, block=1),
        Space("head-names", "names of head_content() are injective on families of strings",
              lambda: payload_families(q), run_family, block=1, timeout=300),
        Space("head-spellings", "equal content given in different ways", lambda: M.Forests(
            (T("a"), ("H", "<b>"), ("R", "<r>"), ("D", ("x", "1"))), (M.elem("i", False), M.elem(
                "div", True))).upto(3 if q else 4), run_spelling),
        Space("head-pairs", "all pairs of payloads of a universe, in one document", lambda: iter(range(
            len(universe(q)))), run_pairs, block=1),
        Space("head-all", "all families together", lambda: iter([q]), run_all_families, timeout=900),
        Space("core-triples", "all triples of core tasks, each in a fresh fork", lambda:
              itertools.product(CORE[:12] if q else CORE, repeat=3), run_history),
    ] + ([] if q else [Space("triples", "all ordered triples of battery tasks", lambda: (
        itertools.product([n for n in names if n not in BIG], repeat=3)), run_history)])
