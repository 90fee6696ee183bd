"""C17: the tag context manager restores the display hook and collects children in order.

A program is a tree of statements (with-blocks, try, loops, functions, displays, raises, re-entries,
replaced hooks).  It is compiled to Python source and executed against the real tags, and interpreted
over a model with an explicit hook stack.  For every program within the bounds, after each statement
the hook and the number of children of every tag, and at the end the children of every tag, what the
outermost hook received and the exception that came out must be the model's."""
import collections
import contextlib
import functools
import io
import itertools
import sys

import htmltools
from htmltools import HTML, HTMLDependency, Tag, TagList, div, tags
from htmltools._jsx import jsx, jsx_tag_create
from mc import model as M
from mc import real
from mc.common import NASTY, SIZES
from mc.engine import Space, Violation

ASSUMPTIONS = (
    "blocks are left in the reverse order of being entered, in one thread",
    "entering a tag again after its block was left is only required to leave the hook chain intact",
    "displayed values: classes (as opposed to instances) and a tag displayed inside its own block "
    "are left out")


# ---- displayed values ----------------------------------------------------------------------

class Both:
    """Tagifiable and self-rendering."""

    def tagify(self):
        return div("both")

    def _repr_html_(self):
        return "<both>"


class Boom(Exception):
    pass


class BadRepr:
    def _repr_html_(self):
        raise Boom("repr")


class EqRaises:
    __hash__ = None

    def __eq__(self, other):
        raise ValueError("truth value is ambiguous")


class EqTrue:
    __hash__ = None

    def __eq__(self, other):
        return True


class ListRepr(list):
    def _repr_html_(self):
        return "<listrepr>"


class DictRepr(dict):
    def _repr_html_(self):
        return "<dictrepr>"


class StrSub(str):
    pass


class StrRepr(str):
    def _repr_html_(self):
        return "<strrepr>"


class TagSub(Tag):
    pass


class MutRepr:
    n = 0

    def _repr_html_(self):
        self.n += 1
        return f"<m{self.n}>"


def dep():
    return HTMLDependency("d", "1", head="<x>")


# kind -> (make, expected children | exception name).  "id": the object itself.
ID = object()


def nested(v):
    return [x for y in v for x in y] if isinstance(v, list) else v


VALUES = {
    "str": (lambda: "text & <b>", ["s:text & <b>"]),
    "none": (lambda: None, []),
    "ellipsis": (lambda: ..., []),
    "tag": (lambda: div("x"), [ID]),
    "list": (lambda: ["a", [1, None, ("b", [])], None], ["s:a", "s:1", "s:b"]),
    "repr": (lambda: real.ReprObj("<r>&"), ["h:<r>&"]),
    "bad-set": (lambda: {1, 2}, "TypeError"),
    "dep": (dep, [ID]),
    "taglist": (lambda: TagList("a", 2), ["s:a", "s:2"]),
    "html": (lambda: HTML("<i>&"), ["h:<i>&"]),
    "expand": (lambda: real.Expand(lambda: div()), [ID]),
    "both": (Both, [ID]),
    "empty-str": (lambda: "", ["s:"]),
    "int": (lambda: 0, ["s:0"]),
    "float": (lambda: 2.5, ["s:2.5"]),
    "true": (lambda: True, ["s:True"]),
    "false": (lambda: False, ["s:False"]),
    "tuple": (lambda: (1, "x"), ["s:1", "s:x"]),
    "empty-list": (lambda: [], []),
    "empty-taglist": (TagList, []),
    "meta": (lambda: real.Meta(3), [ID]),
    "jsx": (lambda: jsx_tag_create("Foo")("k"), [ID]),
    "jsx-expr": (lambda: jsx("a+b"), ["j:a+b"]),
    "subclass-tag": (lambda: TagSub("i"), [ID]),
    "list-repr": (lambda: ListRepr(["a"]), ["h:<listrepr>"]),
    "dict-repr": (lambda: DictRepr(a=1), ["h:<dictrepr>"]),
    "str-repr": (lambda: StrRepr("a"), ["h:<strrepr>"]),
    "empty-repr": (lambda: real.ReprObj(""), ["h:"]),
    "mut-repr": (MutRepr, ["h:<m1>"]),
    "bad-dict": (lambda: {"class": "a"}, "TypeError"),
    "bad-object": (object, "TypeError"),
    "bad-bytes": (lambda: b"x", "TypeError"),
    "bad-module": (lambda: htmltools.tags, "TypeError"),
    "bad-function": (lambda: len, "TypeError"),
    "bad-lambda": (lambda: (lambda: 1), "TypeError"),
    "bad-frozenset": (frozenset, "TypeError"),
    "bad-complex": (lambda: 1j, "TypeError"),
    "bad-notimplemented": (lambda: NotImplemented, "TypeError"),
    "bad-in-list": (lambda: ["a", {1}, "b"], "TypeError"),
    "bad-ellipsis-in-list": (lambda: ["a", ...], "TypeError"),
    "bad-dict-in-list": (lambda: ["a", [{"x": 1}]], "TypeError"),
    "bad-eq-raises": (EqRaises, "TypeError"),
    "bad-eq-true": (EqTrue, "TypeError"),
    "bad-document": (lambda: htmltools.HTMLDocument("x"), "TypeError"),
    "bad-exception": (lambda: ValueError("x"), "TypeError"),
    "bad-range": (lambda: range(2), "TypeError"),
    "repr-raises": (BadRepr, "Boom"),
}
JSX_CLASS = type(jsx("x"))


def describe(child, value):
    if child is value:
        if isinstance(child, HTML):
            return "h:" + child.as_string()
        if type(child) is str:
            return "s:" + child
        if isinstance(child, JSX_CLASS):
            return "j:" + str(child)
        return ID
    if isinstance(child, HTML):
        return "h:" + child.as_string()
    if isinstance(child, JSX_CLASS):
        return "j:" + str(child)
    if type(child) is str:
        return "s:" + child
    return child


# ---- programs ------------------------------------------------------------------------------
# statements: ("V", kind) display; ("X", exception) raise; ("R", k) enter the k-th active tag;
# ("M", op) change the innermost active tag; ("O",) enter the tag that was left last; ("K",) install another hook; ("Q",) return / break;
# ("E", "with" | "try" | "loop" | "func" | "finally", _, _, kids)

def rename(t, out):
    t.name, t.add_ws, t.attrs = "em", not t.add_ws, type(t.attrs)(x="1")


def set_children(t, out):
    t.children = TagList("z")


def fresh_children(t, out):
    t.children = TagList(*t.children)


def grow_children(t, out):
    t.children = t.children + ["n"]


# op -> (what it does to the tag [and the one around it], what it does to the children in the model)
CHANGES = {
    "set": (set_children, lambda k, o: k.__setitem__(slice(None), ["s:z"])),
    "fresh": (fresh_children, lambda k, o: None),
    "grow": (grow_children, lambda k, o: k.append("s:n")),
    "clear": (lambda t, o: t.children.clear(), lambda k, o: k.clear()),
    "insert": (lambda t, o: t.insert(0, "i"), lambda k, o: k.insert(0, "s:i")),
    "append": (lambda t, o: t.append("p", [None, "q"]), lambda k, o: k.extend(["s:p", "s:q"])),
    "pop": (lambda t, o: t.children.pop() if len(t.children) else None,
            lambda k, o: k.pop() if k else None),
    "reverse": (lambda t, o: t.children.reverse(), lambda k, o: k.reverse()),
    "rename": (rename, lambda k, o: None),
    "outer": (lambda t, o: [x.append("o") for x in o], lambda k, o: [x.append("s:o") for x in o]),
    "outer-set": (lambda t, o: [set_children(x, ()) for x in o],
                  lambda k, o: [x.__setitem__(slice(None), ["s:z"]) for x in o]),
}
EXC = {"boom": Boom, "ki": KeyboardInterrupt, "exit": SystemExit, "genexit": GeneratorExit,
       "type": TypeError, "stop": StopIteration}


class Skip(Exception):
    """The program makes no sense (e.g. re-enters although nothing is active)."""


def source(prog):
    lines, n = [], itertools.count()

    def stmts(kids, ind, ctxs):
        if not kids:
            lines.append(ind + "pass")
        for s in kids:
            stmt(s, ind, ctxs)

    def stmt(s, ind, ctxs):
        i = next(n)
        k = s[0]
        if k == "V":
            lines.append(f"{ind}_ = sys.displayhook(w.value({i}, {s[1]!r}))")
        elif k == "X":
            lines.append(f"{ind}raise EXC[{s[1]!r}]()")
        elif k == "R":
            if "with" not in ctxs:
                raise Skip
            lines.append(f"{ind}with w.again({s[1]}):")
            lines.append(f"{ind}    w.fail('entered an active tag')")
        elif k == "O":
            lines.append(f"{ind}_ = w.enter_old()")
        elif k == "M":
            lines.append(f"{ind}_ = w.change({s[1]!r})")
        elif k == "K":
            lines.append(f"{ind}_ = w.other_hook({i})")
        elif k == "Q":
            c = next((c for c in reversed(ctxs) if c in ("loop", "func")), None)
            if c is None:
                raise Skip
            lines.append(ind + ("break" if c == "loop" else "return"))
            return  # what follows is never executed
        else:
            what = s[1]
            c = ctxs + (what,)
            if what == "with":
                lines.append(f"{ind}h{i} = sys.displayhook")
                lines.append(f"{ind}try:")
                lines.append(f"{ind}    with w.new({i}):")
                lines.append(f"{ind}        _ = w.entered(h{i})")
                stmts(s[4], ind + "        ", c)
                lines.append(f"{ind}finally:")
                lines.append(f"{ind}    _ = w.left(h{i})")
            elif what == "try":
                lines.append(f"{ind}try:")
                stmts(s[4], ind + "    ", c)
                lines.append(f"{ind}except Exception as e:")
                lines.append(f"{ind}    _ = w.caught(e)")
            elif what == "finally":
                lines.append(f"{ind}try:")
                stmts(s[4], ind + "    ", c)
                lines.append(f"{ind}finally:")
                lines.append(f"{ind}    _ = sys.displayhook('finally')")
            elif what == "loop":
                lines.append(f"{ind}for _ in range(2):")
                stmts(s[4], ind + "    ", c)
            elif what == "func":
                lines.append(f"{ind}def f{i}():")
                stmts(s[4], ind + "    ", c)
                lines.append(f"{ind}_ = f{i}()")
        lines.append(f"{ind}_ = w.probe()")

    stmts(prog, "", ())
    return "\n".join(lines) + "\n"


class World:
    """What the compiled program runs against."""

    def __init__(self, make_tag, hook):
        self.tags, self.active, self.old = [], [], None
        self.make_tag, self.base = make_tag, []
        self.trace, self.values, self.oldlog, self.errors, self.others = [], [], [], [], []
        self.hook = hook(self)

    def new(self, i):
        t = self.make_tag(i)
        self.tags.append(t)
        self.active.append(t)
        return t

    def entered(self, h):
        if sys.displayhook is h:
            self.errors.append("entering installed no hook")

    def left(self, h):
        if sys.displayhook is not h:
            self.errors.append(f"the hook after a block is {sys.displayhook!r}, not {h!r}")
            sys.displayhook = h
        self.old = self.active.pop()
        self.probe()

    def again(self, k):
        self.hook_at_again = sys.displayhook
        return self.active[k]

    def fail(self, msg):
        self.errors.append(msg)

    def value(self, i, kind):
        v = VALUES[kind][0]()
        self.values.append((kind, v))
        return v

    def enter_old(self):
        if self.old is None:
            self.oldlog.append(None)
            return
        h = sys.displayhook
        n = len(self.old.children)
        ok = False
        try:
            with self.old:
                ok = True
        except RuntimeError:
            pass
        self.oldlog.append(ok)
        if sys.displayhook is not h:
            self.errors.append("entering a tag a second time broke the hook chain")
            sys.displayhook = h
        if len(self.old.children) != n:
            self.errors.append("entering a tag a second time changed its children")

    def other_hook(self, i):
        got = []
        self.others.append(got)
        sys.displayhook = got.append

    def change(self, op):
        if self.active:
            CHANGES[op][0](self.active[-1], self.active[-2:-1])

    def caught(self, e):
        self.trace.append(("caught", label(e)))

    def probe(self):
        self.trace.append((tuple(len(t.children) for t in self.tags), len(self.base),
                           tuple(len(o) for o in self.others)))


def label(e):
    if isinstance(e, Boom):
        return "Boom"
    if isinstance(e, TypeError):
        return "TypeError"
    return type(e).__name__ if not isinstance(e, RuntimeError) else "again"


class MExc(Exception):
    def __init__(self, label, catchable=True):
        self.label, self.catchable = label, catchable


class MBreak(Exception):
    pass


class Model:
    def __init__(self, world, pre, fail_at=None):
        self.w = world  # the finished run: its values and the outcomes of unspecified steps
        self.vals = iter(world.values)
        self.oldlog = iter(world.oldlog)
        self.kids, self.base, self.others, self.trace = [], [], [], []
        self.hooks = ["base"]
        self.old = None
        self.active = []
        self.pre, self.fail_at, self.fed = pre, fail_at, 0

    def deliver(self, items, hook):
        if hook == "base":
            self.fed += 1
            if self.fail_at is not None and self.fed == self.fail_at:
                raise MExc("Boom")
            self.base += items
        elif isinstance(hook, tuple):
            self.others[hook[1]] += items
        else:
            self.kids[hook] += items

    def probe(self):
        self.trace.append((tuple(len(k) for k in self.kids), len(self.base),
                           tuple(len(o) for o in self.others)))

    def run(self, kids, ctxs=()):
        for s in kids:
            self.stmt(s, ctxs)

    def show(self, kind, value):
        h = self.hooks[-1]
        if not isinstance(h, int):
            self.deliver([("raw", value)], h)
            return
        exp = VALUES[kind][1] if kind else ["s:" + value]
        if isinstance(exp, str):
            raise MExc(exp)
        self.deliver([value if x is ID else x for x in exp], h)

    def stmt(self, s, ctxs):
        k = s[0]
        if k == "V":
            self.show(*next(self.vals))
        elif k == "X":
            raise MExc(label(EXC[s[1]]()), issubclass(EXC[s[1]], Exception))
        elif k == "R":
            raise MExc("again")
        elif k == "O":
            if next(self.oldlog):
                self.deliver([("tag", self.old)], self.hooks[-1])
        elif k == "M":
            if self.active:
                CHANGES[s[1]][1](self.kids[self.active[-1]], [self.kids[i] for i in self.active[-2:-1]])
        elif k == "K":
            self.others.append([])
            self.hooks[-1] = ("other", len(self.others) - 1)
        elif k == "Q":
            raise MBreak
        else:
            what, body = s[1], s[4]
            if what == "with":
                saved = list(self.hooks)
                me = len(self.kids)
                self.kids.append(list(self.pre(me)))
                self.active.append(me)
                self.hooks.append(me)
                err = None
                try:
                    self.run(body, ctxs)
                except (MExc, MBreak) as e:
                    err = e
                self.hooks = saved
                self.active.pop()
                self.old = me
                try:
                    self.deliver([("tag", me)], self.hooks[-1])
                except MExc as e:
                    err = e
                self.probe()
                if err:
                    raise err
            elif what == "try":
                try:
                    self.run(body, ctxs)
                except MExc as e:
                    if not e.catchable:
                        raise
                    self.trace.append(("caught", e.label))
            elif what == "finally":
                try:
                    self.run(body, ctxs)
                finally:
                    self.show(None, "finally")
            elif what == "loop":
                for _ in range(2):
                    try:
                        self.run(body, ctxs)
                    except MBreak:
                        break
            elif what == "func":
                try:
                    self.run(body, ctxs)
                except MBreak:
                    pass
        self.probe()


def recorder(world):
    return world.base.append


def failing(n):
    def make(world):
        count = itertools.count(1)

        def hook(v):
            if next(count) == n:
                raise Boom("hook")
            world.base.append(v)
        return hook
    return make


class Listening(Tag):
    """A tag (and so something with a bound method) that only listens."""

    def append(self, x):
        self.heard.append(x)


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, v):
        self.f(v)
        return v  # what a hook returns is of no interest

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False
    __hash__ = None


def tag_hook(world):
    t = Tag("section")
    world.base = t.children
    return t.append


def list_hook(world):
    world.base = TagList()
    return world.base.append


def listening_hook(world):
    t = Listening("section")
    t.heard = world.base
    return t.append


def jsx_hook(world):
    t = jsx_tag_create("Outer")()
    world.base = t.children
    return t.append


def generator_hook(world):
    def gen():
        while True:
            world.base.append((yield))
    g = gen()
    next(g)
    return g.send


def nested_hook(world):
    """A hook that uses a tag as a context manager itself."""
    def hook(v):
        keep, seen = sys.displayhook, []
        sys.displayhook = seen.append
        try:
            t = Tag("i")
            with t:
                sys.displayhook("inside")
        finally:
            sys.displayhook = keep
        if seen != [t] or list(t.children) != ["inside"]:
            world.errors.append(f"a block inside the hook got {seen!r}")
        world.base.append(v)
    return hook


HOOKS = {
    "tag": tag_hook, "taglist": list_hook, "listening": listening_hook, "jsx": jsx_hook,
    "handler": lambda w: htmltools.wrap_displayhook_handler(w.base.append),
    "handler-tag": lambda w: htmltools.wrap_displayhook_handler(tag_hook(w)),
    "lambda": lambda w: lambda v: w.base.append(v),
    "partial": lambda w: functools.partial(w.base.append),
    "object": lambda w: Callable(w.base.append),
    "generator": generator_hook,
    "nested": nested_hook,
    "deque": lambda w: (setattr(w, "base", collections.deque()), w.base.append)[1],
    "class": lambda w: type("Hook", (), {"__new__": lambda cls, v: w.base.append(v)}),
}


def hook_kind_cases(n):
    for prog in progs(n, (V("str"), V("tag"), V("bad-set"), ("X", "boom"), ("R", 0)),
                      (WITH, TRY))():
        if safe_at_base(prog, False):
            for k in HOOKS:
                yield (k, prog)


def safe_at_base(kids, inside):
    """Nothing but strings and tags reaches the outermost hook."""
    return all(s != V("bad-set") or inside if s[0] != "E" else
               safe_at_base(s[4], inside or s[1] == "with") for s in kids)


def run_hook_kind(case, ctx):
    run_program(case[1], ctx, hook=HOOKS[case[0]])


def plain_tag(i):
    return Tag("div")


def full_tag(i):
    return Tag(("span", "b", "pre")[i % 3], "pre", HTML("<x>"), id=str(i))


def full_pre(i):
    return ["s:pre", "h:<x>"]


def run_program(prog, ctx, make_tag=plain_tag, pre=lambda i: [], hook=recorder, fail_at=None):
    try:
        code = compile(source(prog), "<program>", "exec")
    except Skip:
        return
    keep = sys.displayhook
    w = World(make_tag, hook)
    sys.displayhook = base = w.hook
    outcome = "normal"
    try:
        exec(code, {"sys": sys, "w": w, "EXC": EXC})
    except BaseException as e:
        outcome = label(e)
        if type(e).__name__ == "Hang":
            raise
    finally:
        end, sys.displayhook = sys.displayhook, keep
    m = Model(w, pre, fail_at)
    want = "normal"
    try:
        m.run(prog)
    except MExc as e:
        want = e.label
    if w.errors:
        raise Violation(f"{prog!r}: {w.errors[0]}\n{source(prog)}")
    if outcome != want:
        raise Violation(f"{prog!r}: ends with {outcome}, want {want}\n{source(prog)}")
    replaced = m.hooks[-1] != "base"
    if (end is not base) != replaced:
        raise Violation(f"{prog!r}: the hook is not restored at the end\n{source(prog)}")
    if w.trace != m.trace:
        i = next((i for i, (a, b) in enumerate(zip(w.trace, m.trace)) if a != b), -1)
        raise Violation(f"{prog!r}: after step {i} (children of tags, outermost hook, other hooks):"
                        f" {w.trace[i:i + 1]!r}, want {m.trace[i:i + 1]!r}\n{source(prog)}")
    for i, t in enumerate(w.tags):
        same(list(t.children), m.kids[i], w, f"{prog!r}: children of tag {i}", prog)
    same(w.base, m.base, w, f"{prog!r}: values at the outermost hook", prog)
    for g, o in zip(w.others, m.others):
        same(g, o, w, f"{prog!r}: values at the installed hook", prog)
    ctx.step(len(w.trace))
    ctx.state((prog, hook is recorder))
    ctx.outcome((outcome, tuple(w.trace)))
    ctx.trace()


def same(got, want, w, what, prog):
    ok = len(got) == len(want)
    for g, x in zip(got, want):
        if isinstance(x, tuple):
            ok = ok and g is (w.tags[x[1]] if x[0] == "tag" else x[1])
        elif isinstance(x, str):
            ok = ok and describe(g, g) == x
        else:
            ok = ok and g is x
    if not ok:
        raise Violation(f"{what} {got!r}, want {want!r}\n{source(prog)}")


# ---- spaces --------------------------------------------------------------------------------

def V(k):
    return ("V", k)


def elem(what):
    return lambda kids: ("E", what, None, None, tuple(kids))


CORE_LEAVES = (V("str"), V("bad-set"), ("X", "boom"), ("R", 0), ("R", -1))
WITH, TRY, LOOP, FUNC, FIN = map(elem, ("with", "try", "loop", "func", "finally"))


def progs(n, leaves, elems):
    return lambda: M.Forests(leaves, elems).upto(n)


def value_cases():
    for a in VALUES:
        for b in (None, *VALUES):
            yield (a, b)


def run_values(case, ctx):
    """Every pair of values in one block, around a nested block, and in it."""
    a, b = case
    vs = (V(a),) if b is None else (V(a), V(b))
    s = V("str")
    for prog in ((WITH(vs),), (WITH((WITH(vs),)),), (TRY((WITH((TRY(vs[:1]),) + vs[1:]),)),),
                 (WITH((TRY(vs[:1]), WITH(()), TRY(vs[1:]), s)), *([V("str")] if b else ())),
                 (WITH((TRY((WITH(vs[:1]),)), *[TRY((v,)) for v in vs])),), vs + (WITH((s,)),)):
        run_program(prog, ctx)
        run_program(prog, ctx, full_tag, full_pre)


def run_hooks(prog, ctx):
    for n in (1, 2, 3):
        run_program(prog, ctx, hook=failing(n), fail_at=n)


def run_catalogue(case, ctx):
    """Every tag function's result as a context manager."""
    where, name = case
    f = getattr(tags, name, None) if where == "tags" else getattr(htmltools.svg, name, None)

    def make(i):
        return f("pre", HTML("<x>"), id="i")
    for prog in ((WITH((V("str"), V("repr"), WITH((V("none"), V("tag"))), V("int"))),),
                 (TRY((WITH((V("str"), WITH((V("bad-set"),)))),)), WITH(())),
                 (TRY((WITH((("R", 0),)),)), V("str"))):
        run_program(prog, ctx, make, full_pre)


def size_cases():
    for n in SIZES:
        for kind in ("wide", "deep", "deep-raise", "deep-again", "many", "repr"):
            if not kind.startswith("deep") or n <= 513:
                yield (kind, n)


def run_size(case, ctx):
    kind, n = case
    got = []
    keep = sys.displayhook
    sys.displayhook = base = got.append
    ts = []
    try:
        if kind in ("wide", "repr"):
            t = Tag("div")
            with t:
                for i in range(n):
                    sys.displayhook(str(i) if kind == "wide" else real.ReprObj(f"<{i}>"))
            if [str(c) for c in t.children] != [str(i) if kind == "wide" else f"<{i}>" for i in
                                                range(n)]:
                raise Violation(f"{case}: children {t.children!r}")
            if len(got) != 1 or got[0] is not t:
                raise Violation(f"{case}: the hook received {got!r}")
        elif kind == "many":
            for i in range(n):
                t = Tag("i")
                ts.append(t)
                try:
                    with t:
                        sys.displayhook(str(i))
                        if i % 3 == 0:
                            raise Boom
                except Boom:
                    pass
                if sys.displayhook is not base:
                    raise Violation(f"{case}: hook not restored after block {i}")
            if len(got) != n or any(a is not b for a, b in zip(got, ts)):
                raise Violation(f"{case}: the hook received {len(got)} tags")
        else:
            hooks = []
            try:
                with contextlib.ExitStack() as st:
                    for i in range(n):
                        hooks.append(sys.displayhook)
                        t = Tag("b")
                        ts.append(t)
                        st.callback(lambda i=i: hooks[i] is sys.displayhook or got.append(
                            f"hook not restored at depth {i}"))
                        st.enter_context(t)
                        sys.displayhook(str(i))
                    if kind == "deep-raise":
                        raise Boom
                    if kind == "deep-again":
                        for i in {0, n // 2, n - 1}:
                            h = sys.displayhook
                            try:
                                with ts[i]:
                                    got.append("entered an active tag")
                            except Exception:
                                pass
                            if sys.displayhook is not h:
                                got.append("hook changed by re-entering")
            except Boom:
                pass
            if len(got) != 1 or got[0] is not ts[0]:
                raise Violation(f"{case}: the hook received {[str(g)[:80] for g in got]!r}")
            for i in range(n):
                c = list(ts[i].children)
                want = 2 if i < n - 1 else 1
                if len(c) != want or c[0] != str(i) or (want == 2 and c[1] is not ts[i + 1]):
                    raise Violation(f"{case}: children at depth {i}: {len(c)}")
        if sys.displayhook is not base:
            raise Violation(f"{case}: the hook is not restored")
    finally:
        sys.displayhook = keep
    ctx.step(n)
    ctx.state(case)
    ctx.trace()


def run_interactive(prog, ctx):
    """The same programs typed at an interactive prompt: the interpreter itself displays values."""
    def text(kids, ind):
        out = []
        for s in kids:
            if s[0] == "V":
                out.append(f"{ind}vs[{s[1]!r}]")
            elif s[0] == "X":
                out.append(f"{ind}raise Boom")
            else:
                k = next(n)
                head = {"with": f"with tags_[{k}]:", "try": "try:"}[s[1]]
                out.append(ind + head)
                if s[1] == "with":
                    order.append(k)
                out += text(s[4], ind + "  ") or [ind + "  pass"]
                if s[1] == "try":
                    out.append(ind + "except Exception: pass")
        return out

    n, order = itertools.count(), []
    vs = {k: VALUES[k][0]() for k in ("str", "none", "tag", "bad-set")}
    tags_ = [Tag("div") for _ in range(20)]
    got = []
    keep = sys.displayhook
    sys.displayhook = base = got.append
    err = False
    try:
        for s in prog:
            src = "\n".join(text((s,), "")) + "\n"
            try:
                exec(compile(src, "<stdin>", "single"), dict(vs=vs, tags_=tags_, Boom=Boom))
            except (Boom, TypeError):
                err = True
            if sys.displayhook is not base:
                raise Violation(f"{prog!r}: hook not restored after\n{src}")
    finally:
        sys.displayhook = keep
    # model
    mk, it = {}, itertools.count()

    def run(kids, out):
        for s in kids:
            if s[0] == "V":
                if out is mb:
                    out.append(vs[s[1]])
                elif s[1] == "bad-set":
                    raise Boom
                elif s[1] != "none":
                    out.append(vs[s[1]])
            elif s[0] == "X":
                raise Boom
            else:
                k = num[id(s)]
                try:
                    if s[1] == "with":
                        mk[k] = []
                        try:
                            run(s[4], mk[k])
                        finally:
                            out.append(tags_[k])
                    else:
                        run(s[4], out)
                except Boom:
                    if s[1] != "try":
                        raise

    num, mb = {}, []

    def number(kids):
        for s in kids:
            if s[0] == "E":
                num[id(s)] = next(it)
                number(s[4])

    prog = rebuild(prog)
    number(prog)
    for s in prog:
        try:
            run((s,), mb)
        except Boom:
            pass
    for k, t in enumerate(tags_):
        a, b = list(t.children), mk.get(k, [])
        if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
            raise Violation(f"{prog!r}: tag {k} has {a!r}, want {b!r}")
    if len(got) != len(mb) or any(x is not y for x, y in zip(got, mb)):
        raise Violation(f"{prog!r}: the outermost hook got {got!r}, want {mb!r}")
    ctx.step(len(prog))
    ctx.state(("single", prog))
    ctx.trace()


def rebuild(kids):
    """Distinct objects for equal statements."""
    return tuple(s[:4] + (rebuild(s[4]),) if s[0] == "E" else s for s in kids)


def run_default_hook(kind, ctx):
    """Python's own hook as the outermost one."""
    import builtins
    out = io.StringIO()
    keep, had = sys.displayhook, hasattr(builtins, "_")
    sys.displayhook = sys.__displayhook__
    t = Tag("p")
    try:
        with contextlib.redirect_stdout(out):
            try:
                with t:
                    sys.displayhook("x")
                    sys.displayhook(VALUES[kind][0]())
            except (TypeError, Boom):
                pass
        if sys.displayhook is not sys.__displayhook__:
            raise Violation(f"{kind}: hook not restored")
    finally:
        sys.displayhook = keep
        if not had and hasattr(builtins, "_"):
            del builtins._
    if out.getvalue() != repr(t) + "\n":
        raise Violation(f"{kind}: printed {out.getvalue()!r}")
    ctx.step()
    ctx.state(kind)
    ctx.trace()


def run_text(s, ctx):
    """Displayed strings and _repr_html_ results stay what they are."""
    got = []
    keep = sys.displayhook
    sys.displayhook = got.append
    t = Tag("div")
    try:
        with t:
            for v in (s, HTML(s), real.ReprObj(s), [s, (s,)]):
                sys.displayhook(v)
    finally:
        sys.displayhook = keep
    if [describe(c, c) for c in t.children] != ["s:" + s, "h:" + s, "h:" + s, "s:" + s, "s:" + s]:
        raise Violation(f"{s!r}: children {list(t.children)!r}")
    ctx.step(4)
    ctx.state(s)
    ctx.trace()


def spaces(tier):
    q = tier == "quick"
    d = 1 if q else 2
    cat = [("tags", n) for n in M.TAGS_CATALOGUE] + [("svg", n) for n in M.SVG_CATALOGUE]
    return [
        Space("values", f"all pairs of {len(VALUES)} kinds of displayed values x 6 programs",
              value_cases, run_values),
        Space("all-leaves", f"all programs up to {3 if q else 4} statements with every exception, re-entry, "
              "replaced hook and 8 kinds of values", progs(3 if q else 4, (
                  *[V(k) for k in ("str", "none", "ellipsis", "repr", "list", "bad-dict",
                                   "repr-raises", "both")], *[("X", k) for k in EXC], ("R", 0),
                  ("R", -1), ("O",), ("K",), ("Q",)), (WITH, TRY, LOOP, FUNC, FIN)), run_program),
        Space("changes", f"all programs up to {3 + d} statements that change the active tag ({len(CHANGES)} "
              "ways)", progs(3 + d, (V("str"), *[("M", c) for c in CHANGES]) + (
                  ("X", "boom"),), (WITH, TRY)), run_program, block=64),
        Space("catalogue", "every function of tags and svg", lambda: iter(cat), run_catalogue),
        Space("sizes", "numbers of values and blocks, nesting depths", size_cases, run_size, block=1),
        Space("text", "every tricky string", lambda: iter(NASTY), run_text),
        Space("default-hook", "Python's own hook, every value", lambda: iter(VALUES),
              run_default_hook),
        Space("interactive", f"all programs up to {4 + d} statements at an interactive prompt",
              progs(4 + d, (V("str"), V("none"), V("tag"), V("bad-set"), ("X", "boom")), (WITH, TRY)),
              run_interactive, block=64),
        Space("hooks", f"all programs up to {4 + d} statements with an outermost hook that fails",
              progs(4 + d, (V("str"), V("bad-set"), ("X", "boom")), (WITH, TRY)), run_hooks,
              block=64),
        Space("hook-kinds", f"all programs up to {3 + d} statements with {len(HOOKS)} kinds of outermost "
              "hooks", lambda: hook_kind_cases(3 + d), run_hook_kind, block=64),
        Space("programs", f"all programs up to {5 + d} statements", progs(5 + d, CORE_LEAVES[:4], (
            WITH, TRY)), run_program, block=64),
        Space("exits", f"all programs up to {4 + d} statements with loops, functions, return/break "
              "and finally", progs(4 + d, (V("str"), ("X", "ki"), ("Q",), ("K",), ("R", -1)), (
                  WITH, TRY, LOOP, FUNC, FIN)), run_program, block=64),
        Space("nesting", f"all nestings of up to {7 + d} with-blocks and values", progs(7 + d, (
            V("str"),), (WITH,)), lambda p, ctx: run_program(p, ctx, full_tag, full_pre), block=64),
    ]
