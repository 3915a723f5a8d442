"""Context-sensitive value-flow analysis (gated single-assignment form).

The analysed source is never executed.  Every function is interpreted over provenance
terms: branches are joined with gated phis (`ite`), loops are summarised by one abstract
iteration with loop-phis (`loopphi`) for everything the body changes, exceptional edges
join "value before the try / any value written in it" (`choice`).  Calls to functions of
the repository are inlined (so a helper extracted from, or merged into, a function does
not change the result); everything else becomes an *event* carrying its callee, argument
provenance, the conditions under which it is reached and the with/try/loop context.
"""
from __future__ import annotations

import ast

from .project import AnalysisError, Class, Func, Module, Project, dotted
from .terms import (
    FALSE, NONE, TRUE, Term, band, bor, choice, cmp_, conj, const, contains, cval,
    holds, is_const, ite, leaves, mk, neg, simplify, subst, truth, walk,
)

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

PURE_EXT = {
    "os.path.join", "os.path.abspath", "os.path.expanduser", "os.path.expandvars",
    "os.path.split", "os.path.basename", "os.path.dirname", "math.ceil", "math.floor",
    "math.log", "numpy.mean", "os.path.realpath", "os.path.normpath",
}
DEFAULT_OPAQUE = {
    "gama.genetic_programming.components.individual.Individual.primitives",
    "gama.genetic_programming.components.individual.Individual.terminals",
    "gama.genetic_programming.components.individual.Individual.pipeline",
    "gama.genetic_programming.components.individual.Individual.pipeline_str",
    "gama.genetic_programming.components.individual.Individual.short_name",
    "gama.genetic_programming.components.primitive_node.PrimitiveNode.__str__",
}
EXT_CLASSES_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse",
                   "update", "setdefault", "popitem", "add", "discard"}


class Event:
    __slots__ = ("kind", "guards", "ctx", "fn", "node", "f", "args", "kwargs", "res",
                 "base", "name", "value", "cont", "heap", "seq", "module")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def kw(self, name, pos=None, default=None):
        for k, v in self.kwargs or ():
            if k == name:
                return v
        if pos is not None and self.args is not None and len(self.args) > pos:
            return self.args[pos]
        return default

    @property
    def callee(self):
        """Dotted name of the callee as far as it is known."""
        return callee_name(self.f) if self.f is not None else ""

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def where(self):
        fn = self.fn[len(self.module) + 1:] if self.fn.startswith(self.module + ".") else self.fn
        return f"{self.module.replace('.', '/')}.py:{fn}:{self.line}"

    def __repr__(self):
        g = " & ".join(map(repr, self.guards))
        if self.kind == "call":
            kw = [f"{k}={v!r}" for k, v in self.kwargs]
            s = f"{self.f!r}({', '.join([repr(a) for a in self.args] + kw)})"
        elif self.kind in ("setattr",):
            s = f"{self.base!r}.{self.name} = {self.value!r}"
        elif self.kind == "setitem":
            s = f"{self.base!r}[{self.name!r}] = {self.value!r}"
        else:
            s = f"{self.kind} {self.base!r} {self.name or ''} {self.value!r}"
        return f"<{self.seq} {self.fn.split('.')[-1]}:{self.line} {s} | {g} | {ctxs(self.ctx)}>"


def ctxs(c):
    return "/".join(f"{x[0]}{x[1]}" for x in c if x[0] != "fn")


def callee_name(f):
    if f.op == "ext":
        return f.args[0]
    if f.op in ("fn", "cls"):
        return f.args[0]
    if f.op == "bound":
        return callee_name(f.args[0])
    if f.op == "attr":
        return "." + f.args[1]
    return ""


class State:
    __slots__ = ("env", "heap", "cont", "guards", "ctx", "dead")

    def __init__(self):
        self.env, self.heap, self.cont, self.guards, self.ctx, self.dead = {}, {}, {}, (), (), False

    def copy(self):
        s = State()
        s.env, s.heap, s.cont, s.guards, s.ctx, s.dead = (
            dict(self.env), self.heap, self.cont, self.guards, self.ctx, self.dead)
        return s

    def assign(self, o):
        self.env, self.heap, self.cont, self.guards, self.ctx, self.dead = (
            o.env, o.heap, o.cont, o.guards, o.ctx, o.dead)

    def guard(self, c):
        for a in conj(c):
            if a is not TRUE and a not in self.guards:
                self.guards = self.guards + (a,)
        return self


class Frame:
    def __init__(self, fid, func, parent, cls, selfterm=None):
        self.id, self.func, self.parent, self.cls, self.selfterm = fid, func, parent, cls, selfterm
        self.returns, self.loops = [], []
        self.nonlocals, self.globals = set(), set()
        self.captured = False
        self.yields = None

    @property
    def module(self):
        return self.func.module


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y:
            break
        n += 1
    return n


MISSING = mk("missing")


class Interp:
    def __init__(self, proj: Project, opaque=(), transparent=(), maxdepth=18, budget=60000,
                 opaque_default=True):
        self.p = proj
        self.opaque = (set(DEFAULT_OPAQUE) if opaque_default else set()) | set(opaque)
        self.opaque -= set(transparent)
        self.maxdepth, self.budget = maxdepth, budget
        self.events, self.fnmap, self.frames = [], {}, {}
        self.ptypes, self.pann, self.exact = {}, {}, set()
        self.loops, self.tries, self.withs, self.with_truth = {}, {}, {}, {}
        self.stack = []
        self.writes = []
        self.serial = 0
        self.steps = 0
        self.inlined = set()
        self.alloc_site = {}
        self.unresolved = 0

    # ------------------------------------------------------------ helpers
    def new(self):
        self.serial += 1
        return self.serial

    def event(self, state, kind, node, **kw):
        fr = self.stack[-1] if self.stack else None
        e = Event(kind=kind, guards=state.guards, ctx=state.ctx, node=node,
                  fn=fr.func.qual if fr else "", module=fr.module.name if fr else "",
                  cont=state.cont, heap=state.heap, seq=len(self.events), **kw)
        self.events.append(e)
        return e

    def set_env(self, s, fid, name, val):
        for w in self.writes:
            w.append(("env", (fid, name), val))
        s.env[(fid, name)] = val

    def set_heap(self, s, base, name, val):
        for w in self.writes:
            w.append(("heap", (base, name), val))
        s.heap = {**s.heap, (base, name): val}

    def set_cont(self, s, obj, segs):
        s.cont = {**s.cont, obj: segs}

    def expand(self, t, cont, depth=0):
        """Replace list/dict objects inside t by their (frozen) contents."""
        memo = {}

        def go(t):
            if not isinstance(t, Term):
                return tuple(go(x) for x in t) if isinstance(t, tuple) else t
            if t in memo:
                return memo[t]
            memo[t] = t
            if t.op in ("listobj", "dictobj", "setobj") and t in cont:
                r = mk(t.op[:-3], tuple(go(x) for x in cont[t]))
            elif t.op in ("const", "param", "ext", "glob", "obj", "fn", "cls", "unknown"):
                r = t
            else:
                new = tuple(go(a) for a in t.args)
                r = t if new == t.args else mk(t.op, *new)
            memo[t] = r
            return r

        return go(t)

    # ------------------------------------------------------------ merging
    def merge2(self, a, b):
        """Join two states; `a` is selected when its extra guards hold."""
        n = common_prefix(a.guards, b.guards)
        ca, cb = band(a.guards[n:]), band(b.guards[n:])
        c = ca if ca is not TRUE else (neg(cb) if cb is not TRUE else TRUE)
        out = State()
        if c is TRUE:  # indistinguishable: use an opaque selector
            c = mk("cond?", self.new()) if a.guards[n:] == b.guards[n:] else TRUE
        out.ctx = a.ctx[: common_prefix_ctx(a.ctx, b.ctx)]
        for src_a, src_b, dst in ((a.env, b.env, out.env),):
            for k in src_a.keys() | src_b.keys():
                x, y = src_a.get(k), src_b.get(k)
                if x is y:
                    dst[k] = x
                elif x is None:
                    dst[k] = ite(c, MISSING, y)
                elif y is None:
                    dst[k] = ite(c, x, MISSING)
                else:
                    dst[k] = ite(c, x, y)
        if a.heap is b.heap:
            out.heap = a.heap
        else:
            h = {}
            for k in a.heap.keys() | b.heap.keys():
                x, y = a.heap.get(k), b.heap.get(k)
                if x is None:
                    x = self.default_attr(k)
                if y is None:
                    y = self.default_attr(k)
                h[k] = x if x is y else ite(c, x, y)
            out.heap = h
        if a.cont is b.cont:
            out.cont = a.cont
        else:
            d = {}
            for k in a.cont.keys() | b.cont.keys():
                x, y = a.cont.get(k), b.cont.get(k)
                if x is None or y is None or x == y:
                    d[k] = x if x is not None else y
                else:
                    m = common_prefix(x, y)
                    segs = list(x[:m])
                    for s in x[m:]:
                        segs.append(mk("seg_if", c, s))
                    for s in y[m:]:
                        segs.append(mk("seg_if", neg(c), s))
                    d[k] = tuple(segs)
            out.cont = d
        out.guards = a.guards[:n]
        return out.guard(bor([ca, cb]))

    def default_attr(self, k):
        return mk("attr", k[0], k[1])

    def merge(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        acc = states[-1]
        for s in reversed(states[:-1]):
            acc = self.merge2(s, acc)
        return acc

    # ------------------------------------------------------------ types
    def typeof(self, t, depth=0):
        if depth > 8 or not isinstance(t, Term):
            return None
        if t.op == "obj":
            r = self.p.resolve_qual(t.args[0])
            return r if isinstance(r, Class) else None
        if t in self.ptypes:
            return self.ptypes[t]
        if t.op == "attr":
            b = self.typeof(t.args[0], depth + 1)
            if b:
                a = self.p.attr_ann(b, t.args[1])
                if a:
                    return self.p.ann_class(*a)
                m = self.p.find_method(b, t.args[1])
                if m and m.is_property:
                    return self.p.ann_class(m.module, m.node.returns)
            return None
        if t.op == "elem":
            return self.elemtype(t.args[0], depth + 1)
        if t.op == "item":
            if t.args[0].op != "dictobj":
                return self.elemtype(t.args[0], depth + 1)
        if t.op == "ite":
            a, b = self.typeof(t.args[1], depth + 1), self.typeof(t.args[2], depth + 1)
            return a if a is b else None
        if t.op == "loopphi":
            return self.typeof(t.args[2], depth + 1)
        if t.op == "choice":
            ts = {self.typeof(x, depth + 1) for x in t.args[0]}
            return ts.pop() if len(ts) == 1 else None
        if t.op == "call":
            f = t.args[0]
            fn = self.fnmap.get(f.args[0] if f.op == "bound" else f)
            if fn is not None and getattr(fn.node, "returns", None) is not None:
                return self.p.ann_class(fn.module, fn.node.returns)
        if t.op in ("max", "min", "choiceof"):
            return self.elemtype(t.args[0], depth + 1)
        return None

    def elemtype(self, t, depth=0):
        if depth > 8:
            return None
        if t in self.pann:
            return self.p.ann_elem_class(*self.pann[t])
        if t.op == "attr":
            b = self.typeof(t.args[0], depth + 1)
            if b:
                a = self.p.attr_ann(b, t.args[1])
                if a:
                    return self.p.ann_elem_class(*a)
                m = self.p.find_method(b, t.args[1])
                if m and m.is_property:
                    return self.p.ann_elem_class(m.module, m.node.returns)
        if t.op in ("rev", "sorted", "slice"):
            return self.elemtype(t.args[0], depth + 1)
        if t.op == "call":
            f = t.args[0]
            fn = self.fnmap.get(f.args[0] if f.op == "bound" else f)
            if fn is not None and getattr(fn.node, "returns", None) is not None:
                return self.p.ann_elem_class(fn.module, fn.node.returns)
        return None

    # ------------------------------------------------------------ names
    def ref(self, r):
        """Project reference -> term."""
        if isinstance(r, Func):
            t = mk("fn", r.qual, 0)
            self.fnmap[t] = r
            return t
        if isinstance(r, Class):
            return mk("cls", r.qual)
        if isinstance(r, Module):
            return mk("mod", r.name)
        if isinstance(r, tuple) and r[0] == "ext":
            return mk("ext", r[1])
        if isinstance(r, tuple) and r[0] == "glob":
            m, name = r[1], r[2]
            v = m.assigns[name]
            lit = literal(v)
            if lit is not None:
                return lit
            return mk("glob", f"{m.name}.{name}")
        return None

    def lookup(self, s, name, node=None):
        fr = self.stack[-1]
        f = fr
        if name not in fr.globals:
            while f is not None:
                v = s.env.get((f.id, name))
                if v is not None:
                    return v
                f = self.frames.get(f.parent)
        v = s.env.get(("mod", fr.module.name, name))
        if v is not None:
            return v
        r = self.p.resolve_name(fr.module, name)
        if r is not None:
            return self.ref(r)
        if name in BUILTINS:
            if name == "None":
                return NONE
            return mk("ext", f"builtins.{name}")
        self.unresolved += 1
        return mk("unknown", f"name:{name}")

    # ------------------------------------------------------------ attributes
    def getattr_(self, s, base, name, node=None):
        v = s.heap.get((base, name))
        if v is not None:
            return v
        op = base.op
        if op == "mod":
            r = self.p.resolve_qual(f"{base.args[0]}.{name}")
            t = self.ref(r)
            if t is not None:
                return t
        if op == "ext":
            return mk("ext", f"{base.args[0]}.{name}")
        if op == "ite":
            a, b = base.args[1], base.args[2]
            if self.distributable(a) or self.distributable(b) or any((x, name) in s.heap for x, _ in leaves(base)):
                c = base.args[0]
                s1, s2 = s.copy().guard(c), s.copy().guard(neg(c))
                x, y = self.getattr_(s1, a, name, node), self.getattr_(s2, b, name, node)
                m = self.merge([s1, s2])
                if m is not None:
                    g = s.guards
                    s.assign(m)
                    s.guards = g
                return ite(c, x, y)
        if op == "super":
            cls = self.p.resolve_qual(base.args[0])
            dyn = self.typeof(base.args[1]) or cls
            m = self.p.find_method(dyn, name, after=cls) or self.p.find_method(cls, name, after=cls)
            if m:
                return mk("bound", self.ref(m), base.args[1])
            return mk("attr", base, name)
        if op == "cls":
            c = self.p.resolve_qual(base.args[0])
            if isinstance(c, Class):
                m = self.p.find_method(c, name)
                if m:
                    if m.is_classmethod:
                        return mk("bound", self.ref(m), base)
                    return self.ref(m)
                a = self.p.find_attr(c, name)
                if a:
                    lit = literal(a[1])
                    if lit is not None:
                        return lit
            return mk("attr", base, name)
        if op == "partial" and name in ("func", "args", "keywords"):
            return {"func": base.args[0], "args": mk("tuple", base.args[1])}.get(name) or mk("attr", base, name)
        c = self.typeof(base)
        if c is not None:
            m = self.p.find_method(c, name)
            if m is not None:
                if op != "obj" and base not in self.exact and not m.is_static:
                    over = [k for k in self.p.subclasses(c) if name in k.methods]
                    if over:
                        return mk("attr", base, name)
                if m.is_property:
                    if "#" + m.qual in self.opaque:  # opaque, and each read is a new value
                        return self.opaque_call(s, mk("bound", self.ref(m), base), [], [], node)
                    if m.qual in self.opaque or self.in_stack(m):
                        return mk("attr", base, name)
                    return self.call_func(s, m, [base], [], node, 0, base)
                if m.is_static:
                    return self.ref(m)
                if m.is_classmethod:
                    return mk("bound", self.ref(m), mk("cls", c.qual))
                return mk("bound", self.ref(m), base)
            a = self.p.find_attr(c, name)
            if a and op == "obj":
                lit = literal(a[1])
                if lit is not None:
                    return lit
            if name == "__class__":
                return mk("cls", c.qual)
        return mk("attr", base, name)

    def distributable(self, t):
        return t.op in ("obj", "mod", "cls", "ite", "listobj", "dictobj") or self.typeof(t) is not None

    def in_stack(self, func):
        return any(fr.func is func for fr in self.stack)

    def setattr_(self, s, base, name, val, node):
        self.event(s, "setattr", node, base=base, name=name, value=val)
        for b, facts in leaves(base):
            if b is base or base.op == "choice":
                self.set_heap(s, b, name, val)
            else:
                old = s.heap.get((b, name)) or mk("attr", b, name)
                c = band(list(facts))
                self.set_heap(s, b, name, ite(c, val, old))

    # ------------------------------------------------------------ items
    def item(self, s, base, idx):
        if base.op == "tuple" and idx.op == "const" and isinstance(idx.args[0], int):
            el = base.args[0]
            if -len(el) <= idx.args[0] < len(el):
                return el[idx.args[0]]
        if base.op == "listobj" and idx.op == "const" and isinstance(idx.args[0], int):
            segs = s.cont.get(base)
            if segs is not None:
                i = idx.args[0]
                if all(x.op == "seg_item" for x in segs) and -len(segs) <= i < len(segs):
                    return segs[i].args[0]
                if i >= 0 and len(segs) > i and all(x.op == "seg_item" for x in segs[: i + 1]):
                    return segs[i].args[0]
                if len(segs) == 1 and segs[0].op == "seg_splice":
                    return self.item(s, segs[0].args[0], idx)
        if base.op == "dictobj":
            segs = s.cont.get(base) or ()
            for seg in reversed(segs):
                if seg.op == "seg_pair" and seg.args[0] is idx:
                    return seg.args[1]
                if seg.op == "seg_pair" and seg.args[0].op == "const" and idx.op == "const":
                    continue
                break
        if base.op == "ite":
            a, b = self.item(s, base.args[1], idx), self.item(s, base.args[2], idx)
            if a.op != "item" or b.op != "item" or base.args[1].op in ("tuple", "listobj", "dictobj"):
                return ite(base.args[0], a, b)
        if base.op == "choice" and any(x.op in ("tuple",) for x in base.args[0]):
            return choice([self.item(s, x, idx) for x in base.args[0]])
        if base.op == "obj" and idx.op == "const" and isinstance(idx.args[0], int):
            c = self.typeof(base)
            if c and c.is_namedtuple:
                names = list(c.ann)
                if idx.args[0] < len(names):
                    return self.getattr_(s, base, names[idx.args[0]])
        return mk("item", base, idx)

    # ------------------------------------------------------------ sequences
    def new_list(self, s, segs, kind="listobj", node=None):
        t = mk(kind, self.new())
        self.alloc_site[t] = node
        self.set_cont(s, t, tuple(segs))
        return t

    def segs_of(self, s, t):
        """Segments describing the elements of iterable t."""
        if t.op in ("listobj", "setobj") and t in s.cont:
            return s.cont[t]
        if t.op == "tuple":
            return tuple(mk("seg_item", x) for x in t.args[0])
        if t.op in ("map", "filter", "enumerate", "zip", "items", "values", "keys"):
            lid = self.new()
            el, g, base = self.iter_elem(s, t, lid)
            return (mk("seg_each", lid, base, tuple(g), el),)
        if t.op == "ite" and (t.args[1].op in ("listobj", "tuple") or t.args[2].op in ("listobj", "tuple")):
            c = t.args[0]
            return tuple([mk("seg_if", c, x) for x in self.segs_of(s, t.args[1])] +
                         [mk("seg_if", neg(c), x) for x in self.segs_of(s, t.args[2])])
        return (mk("seg_splice", t),)

    def known_items(self, s, t):
        if t.op == "tuple":
            return list(t.args[0])
        if t.op in ("listobj",) and t in s.cont and all(x.op == "seg_item" for x in s.cont[t]):
            return [x.args[0] for x in s.cont[t]]
        if t.op == "enumerate":
            k = self.known_items(s, t.args[0])
            if k is not None and is_const(t.args[1], 0):
                return [mk("tuple", (const(i), x)) for i, x in enumerate(k)]
        if t.op == "zip":
            ks = [self.known_items(s, x) for x in t.args[0]]
            if ks and all(k is not None for k in ks):
                return [mk("tuple", tuple(z)) for z in zip(*ks)]
        if t.op == "items" and t.args[0].op == "dictobj":
            segs = s.cont.get(t.args[0])
            if segs is not None and all(x.op == "seg_pair" for x in segs):
                return [mk("tuple", (x.args[0], x.args[1])) for x in segs]
        if t.op == "rev":
            k = self.known_items(s, t.args[0])
            return None if k is None else list(reversed(k))
        return None

    def iter_elem(self, s, t, lid):
        """-> (element term, guard list, base iterable term)"""
        if t.op == "enumerate":
            el, g, b = self.iter_elem(s, t.args[0], lid)
            return mk("tuple", (mk("idx", lid, b), el)), g, b
        if t.op == "zip":
            els, gs = [], []
            bs = []
            for x in t.args[0]:
                el, g, b = self.iter_elem(s, x, lid)
                els.append(el)
                gs += g
                bs.append(b)
            return mk("tuple", tuple(els)), gs, mk("zip", tuple(bs))
        if t.op == "map":
            el, g, b = self.iter_elem(s, t.args[1], lid)
            s2 = s.copy()
            for x in g:
                s2.guard(x)
            r = self.call(s2, t.args[0], [el], [], None)
            s.heap, s.cont = s2.heap, s2.cont
            return r, g, b
        if t.op == "filter":
            el, g, b = self.iter_elem(s, t.args[1], lid)
            s2 = s.copy()
            r = el if t.args[0] is NONE else self.call(s2, t.args[0], [el], [], None)
            s.cont = s2.cont
            return el, g + conj(self.truthy(r)), b
        if t.op == "items":
            k = mk("key", t.args[0], lid)
            return mk("tuple", (k, mk("item", t.args[0], k))), [], t.args[0]
        if t.op == "values":
            return mk("item", t.args[0], mk("key", t.args[0], lid)), [], t.args[0]
        if t.op == "keys":
            return mk("key", t.args[0], lid), [], t.args[0]
        if t.op == "dictobj":
            return mk("key", t, lid), [], t
        if t.op == "rev":
            el, g, b = self.iter_elem(s, t.args[0], lid)
            if b is t.args[0]:
                return mk("elem", t, lid), g, t
            return el, g, mk("rev", b)
        if t.op in ("listobj", "setobj") and t in s.cont:
            segs = s.cont[t]
            if len(segs) == 1:
                x, extra = segs[0], []
                while x.op == "seg_if":
                    extra.append(x.args[0])
                    x = x.args[1]
                if x.op == "seg_each":
                    return x.args[3], list(x.args[2]) + extra, x.args[1]
                if x.op == "seg_splice":
                    el, g, b = self.iter_elem(s, x.args[0], lid)
                    return el, g + extra, b
        return mk("elem", t, lid), [], t

    # ------------------------------------------------------------ conditions
    def truthy(self, t):
        if t in self.with_truth:
            return self.with_truth[t]
        if t.op == "ite":
            return ite(t.args[0], self.truthy(t.args[1]), self.truthy(t.args[2]))
        return truth(t)

    def cond(self, s, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return neg(self.cond(s, e.operand))
        if isinstance(e, ast.BoolOp):
            parts, cur = [], s.copy()
            isand = isinstance(e.op, ast.And)
            base = s.guards
            for v in e.values:
                c = self.cond(cur, v)
                parts.append(c)
                cur.guard(c if isand else neg(c))
            s.env, s.heap, s.cont = cur.env, cur.heap, cur.cont
            s.guards = base
            return band(parts) if isand else bor(parts)
        return self.truthy(self.eval(s, e))

    # ------------------------------------------------------------ expressions
    def eval(self, s, e):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError("analysis budget exceeded")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(s, c)
            return mk("unknown", f"{type(e).__name__}#{self.new()}")
        return m(s, e)

    def e_Constant(self, s, e):
        return const(e.value)

    def e_Name(self, s, e):
        return self.lookup(s, e.id, e)

    def e_Attribute(self, s, e):
        return self.getattr_(s, self.eval(s, e.value), e.attr, e)

    def e_Subscript(self, s, e):
        base = self.eval(s, e.value)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = [self.eval(s, x) if x is not None else NONE
                          for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if lo is NONE and hi is NONE and st is NONE:
                if base.op == "listobj":
                    return self.new_list(s, self.segs_of(s, base), node=e)
                return mk("slice", base, lo, hi, st)
            if base.op == "tuple" and all(x.op == "const" for x in (lo, hi, st)):
                return mk("tuple", base.args[0][slice(cval(lo), cval(hi), cval(st))])
            if lo is NONE and hi is NONE and is_const(st, -1):
                return mk("rev", base)
            k = self.known_items(s, base)
            if k is not None and all(x.op == "const" for x in (lo, hi, st)):
                return self.new_list(s, [mk("seg_item", x) for x in k[slice(cval(lo), cval(hi), cval(st))]], node=e)
            if base.op == "listobj":
                segs = s.cont.get(base, ())
                if len(segs) == 1 and segs[0].op == "seg_splice":
                    base = segs[0].args[0]
            return mk("slice", base, lo, hi, st)
        idx = self.eval(s, e.slice)
        if base.op == "listobj" and idx.op != "const":
            segs = s.cont.get(base, ())
            if len(segs) == 1 and segs[0].op == "seg_splice":
                base = segs[0].args[0]
        r = self.item(s, base, idx)
        if base.op in ("slice",) and is_const(idx, 0) and base.args[3] is NONE and base.args[1] is NONE:
            r = self.item(s, base.args[0], idx)
        return r

    def e_Slice(self, s, e):
        return mk("sl", *[self.eval(s, x) if x is not None else NONE
                          for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, s, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    segs += self.segs_of(s, self.eval(s, x.value))
                else:
                    segs.append(mk("seg_item", self.eval(s, x)))
            if all(x.op == "seg_item" for x in segs):
                return mk("tuple", tuple(x.args[0] for x in segs))
            return self.new_list(s, segs, node=e)
        return mk("tuple", tuple(self.eval(s, x) for x in e.elts))

    def e_List(self, s, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.segs_of(s, self.eval(s, x.value))
            else:
                segs.append(mk("seg_item", self.eval(s, x)))
        return self.new_list(s, segs, node=e)

    def e_Set(self, s, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.segs_of(s, self.eval(s, x.value))
            else:
                segs.append(mk("seg_item", self.eval(s, x)))
        return self.new_list(s, segs, "setobj", e)

    def e_Dict(self, s, e):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(s, v)
                segs += s.cont[d] if d.op == "dictobj" and d in s.cont else [mk("seg_splice", d)]
            else:
                kk = self.eval(s, k)
                segs.append(mk("seg_pair", kk, self.eval(s, v)))
        return self.new_list(s, segs, "dictobj", e)

    def e_JoinedStr(self, s, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.formatted(s, v))
            else:
                parts.append(const(v.value))
        return mk("fstr", tuple(parts))

    def formatted(self, s, v):
        t = self.eval(s, v.value)
        if v.conversion in (114, 97):
            t = mk("pure", "repr", (t,), ())
        if v.format_spec is not None:
            sp = self.eval(s, v.format_spec)
            sp = sp.args[0][0] if sp.op == "fstr" and len(sp.args[0]) == 1 else sp
            if sp is not const(""):
                t = mk("pure", "format", (t, sp), ())
        return t

    def str_format(self, base, args, kwargs):
        """Parts of "...".format(...) as those of an f-string, or None."""
        import string
        out, n, kw = [], 0, dict(kwargs)
        try:
            for lit, field, spec, conv in string.Formatter().parse(base.args[0]):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    t, n = args[n], n + 1
                elif field.isdigit():
                    t = args[int(field)]
                else:
                    t = kw[field]
                if conv in ("r", "a"):
                    t = mk("pure", "repr", (t,), ())
                if spec:
                    t = mk("pure", "format", (t, const(spec)), ())
                out.append(t)
        except (KeyError, IndexError, ValueError):
            return None
        return tuple(out)

    def e_FormattedValue(self, s, e):
        return mk("fstr", (self.formatted(s, e),))

    def e_UnaryOp(self, s, e):
        if isinstance(e.op, ast.Not):
            return self.cond(s, e)
        v = self.eval(s, e.operand)
        if v.op == "const" and isinstance(v.args[0], (int, float)) and isinstance(e.op, ast.USub):
            return const(-v.args[0])
        return mk("un", type(e.op).__name__, v)

    def e_BoolOp(self, s, e):
        vals = e.values
        acc_states = []
        first = self.eval(s, vals[0])
        return self._boolop(s, e.op, first, vals[1:])

    def _boolop(self, s, op, first, rest):
        if not rest:
            return first
        c = self.truthy(first)
        g = c if isinstance(op, ast.And) else neg(c)
        h = holds(g, set(s.guards))
        if g is FALSE or h is False:
            return first
        s2 = s.copy().guard(g)
        v = self._boolop(s2, op, self.eval(s2, rest[0]), rest[1:])
        base = s.guards
        s1 = s.copy().guard(neg(g))
        m = self.merge([s2, s1]) or s
        s.env, s.heap, s.cont = m.env, m.heap, m.cont
        s.guards = base
        return ite(g, v, first)

    def e_IfExp(self, s, e):
        c = self.cond(s, e.test)
        h = holds(c, set(s.guards))
        if h is True:
            return self.eval(s, e.body)
        if h is False:
            return self.eval(s, e.orelse)
        s1, s2 = s.copy().guard(c), s.copy().guard(neg(c))
        a, b = self.eval(s1, e.body), self.eval(s2, e.orelse)
        base = s.guards
        m = self.merge([s1, s2]) or s
        s.env, s.heap, s.cont = m.env, m.heap, m.cont
        s.guards = base
        return ite(c, a, b)

    OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
           ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def e_Compare(self, s, e):
        left = self.eval(s, e.left)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(s, r)
            rr = right
            if right.op in ("listobj", "setobj"):
                rr = self.expand_items(s, right)
            ll = left
            parts.append(cmp_(self.OPS[type(op)], ll, rr))
            left = right
        return band(parts)

    def expand_items(self, s, t):
        k = self.known_items(s, t)
        if t.op == "setobj" and t in s.cont and all(x.op == "seg_item" for x in s.cont[t]):
            k = [x.args[0] for x in s.cont[t]]
        if k is not None:
            return mk("tuple", tuple(k))
        return t

    BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
           ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<",
           ast.RShift: ">>", ast.MatMult: "@"}

    def e_BinOp(self, s, e):
        return self.binop(s, self.BIN[type(e.op)], self.eval(s, e.left), self.eval(s, e.right), e)

    def binop(self, s, op, a, b, node=None):
        if op == "^":  # boolean xor on canonical conditions
            return mk("bin", op, a, b)
        if op == "+":
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", a.args[0] + b.args[0])
            if a.op in ("listobj",) or b.op in ("listobj",):
                return self.new_list(s, self.segs_of(s, a) + self.segs_of(s, b), node=node)
        if a.op == "const" and b.op == "const" and op in ("+", "-", "*", "/", "**", "//", "%") and not (
                op == "%" and isinstance(a.args[0], str)) and not (op == "**" and not (isinstance(b.args[0], int) and 0 <= b.args[0] <= 64)):
            try:
                x, y = a.args[0], b.args[0]
                return const({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                              "/": lambda: x / y, "**": lambda: x ** y, "//": lambda: x // y, "%": lambda: x % y}[op]())
            except Exception:
                pass
        if op == "*" and a.op == "listobj" and a in s.cont:
            return mk("repeat", self.expand(a, s.cont), b)
        if op == "*" and b.op == "listobj" and b in s.cont:
            return mk("repeat", self.expand(b, s.cont), a)
        if op == "*" and a.op == "tuple":
            return mk("repeat", a, b)
        if op == "%" and a.op == "const" and isinstance(a.args[0], str):
            return mk("fstr", (a, b))
        if op == "*" and b.op == "const" and a.op != "const":
            a, b = b, a
        return mk("bin", op, a, b)

    def e_Lambda(self, s, e):
        return self.make_fn(s, e, f"<lambda>@{e.lineno}:{e.col_offset}")

    def make_fn(self, s, node, name):
        fr = self.stack[-1]
        fr.captured = True
        f = fr
        while f.parent in self.frames:
            f = self.frames[f.parent]
            f.captured = True
        func = None
        key = (node, fr.id)
        qual = f"{fr.func.qual}.<locals>.{name}"
        t = mk("fn", qual, fr.id)
        if t not in self.fnmap:
            self.fnmap[t] = Func(qual, node, fr.module, cls=None, parent=fr.id)
            self.fnmap[t].encl_cls = fr.cls
        return t

    def e_NamedExpr(self, s, e):
        v = self.eval(s, e.value)
        self.assign(s, e.target, v, e)
        return v

    def e_Starred(self, s, e):
        return self.eval(s, e.value)

    def e_Await(self, s, e):
        return self.eval(s, e.value)

    def e_Yield(self, s, e):
        v = self.eval(s, e.value) if e.value is not None else NONE
        fr = self.stack[-1]
        if fr.yields is not None:
            self.set_cont(s, fr.yields, s.cont[fr.yields] + (mk("seg_item", v),))
        self.event(s, "yield", e, value=v)
        return mk("unknown", f"sent#{self.new()}")

    def e_YieldFrom(self, s, e):
        v = self.eval(s, e.value)
        fr = self.stack[-1]
        if fr.yields is not None:
            self.set_cont(s, fr.yields, s.cont[fr.yields] + tuple(self.segs_of(s, v)))
        return NONE

    # comprehension -> fresh list with one seg_each per generator nest
    def comp(self, s, e, make):
        fr = self.stack[-1]
        fid = self.new()
        sub = Frame(fid, fr.func, fr.id, fr.cls, fr.selfterm)
        sub.globals = fr.globals
        fr.captured = True
        self.frames[fid] = sub
        self.stack.append(sub)
        base_guards, base_ctx = s.guards, s.ctx
        cur = s.copy()
        try:
            segs = self._comp(cur, e.generators, make)
        finally:
            self.stack.pop()
        s.env = {k: v for k, v in cur.env.items() if k[0] != fid or self.frames[fid].captured}
        s.heap, s.cont = cur.heap, cur.cont
        s.guards, s.ctx = base_guards, base_ctx
        return segs

    def _comp(self, s, gens, make):
        if not gens:
            return [make(s)]
        g = gens[0]
        it = self.eval(s, g.iter)
        items = self.known_items(s, it)
        if items is not None and len(items) <= 8:
            out = []
            for x in items:
                s2 = s.copy()
                self.assign(s2, g.target, x, g.target)
                cs = []
                for i in g.ifs:
                    c = self.cond(s2, i)
                    cs += conj(c)
                    s2.guard(c)
                if any(c is FALSE for c in cs):
                    continue
                segs = self._comp(s2, gens[1:], make)
                s.heap, s.cont = s2.heap, s2.cont
                s.env.update({k: v for k, v in s2.env.items() if k[0] == "w"})
                for c in [c for c in cs if c is not TRUE]:
                    segs = [mk("seg_if", c, x) for x in segs]
                out += segs
            return out
        lid = self.new()
        el, gs, base = self.iter_elem(s, it, lid)
        self.loops[lid] = dict(kind="comp", iter=base, node=g, fn=self.stack[-1].func.qual, phis={})
        s2 = s.copy()
        s2.ctx = s2.ctx + (("loop", lid),)
        for c in gs:
            s2.guard(c)
        self.assign(s2, g.target, el, g.target)
        cs = list(gs)
        for i in g.ifs:
            c = self.cond(s2, i)
            cs += conj(c)
            s2.guard(c)
        segs = self._comp(s2, gens[1:], make)
        s.heap, s.cont = s2.heap, s2.cont
        cs = [c for c in cs if c is not TRUE]
        out = []
        for x in segs:
            if x.op == "seg_item":
                out.append(mk("seg_each", lid, base, tuple(cs), x.args[0]))
            elif x.op == "seg_pair":
                out.append(mk("seg_each", lid, base, tuple(cs), x))
            else:
                out.append(mk("seg_each", lid, base, tuple(cs), x))
        return out

    def e_ListComp(self, s, e):
        segs = self.comp(s, e, lambda st: mk("seg_item", self.eval(st, e.elt)))
        return self.new_list(s, segs, node=e)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, s, e):
        segs = self.comp(s, e, lambda st: mk("seg_item", self.eval(st, e.elt)))
        return self.new_list(s, segs, "setobj", e)

    def e_DictComp(self, s, e):
        def pair(st):
            k = self.eval(st, e.key)
            return mk("seg_pair", k, self.eval(st, e.value))
        return self.new_list(s, self.comp(s, e, pair), "dictobj", e)

    # ------------------------------------------------------------ calls
    def e_Call(self, s, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.stack[-1]
            f = fr
            while f is not None and f.selfterm is None:
                f = self.frames.get(f.parent)
            cls = f.cls if f else None
            return mk("super", cls.qual if cls else "?", f.selfterm if f else NONE)
        base = None
        if isinstance(e.func, ast.Attribute):
            base = self.eval(s, e.func.value)
            f = None
        else:
            f = self.eval(s, e.func)
        args, kwargs = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(s, a.value)
                k = self.known_items(s, v)
                if k is not None:
                    args += k
                else:
                    segs = self.segs_of(s, v) if v.op == "listobj" else ()
                    lead = []
                    args.append(mk("star", v))
            else:
                args.append(self.eval(s, a))
        for k in e.keywords:
            v = self.eval(s, k.value)
            if k.arg is None:
                if v.op == "dictobj" and v in s.cont:
                    for seg in s.cont[v]:
                        if seg.op == "seg_pair" and seg.args[0].op == "const":
                            kwargs = [(n, x) for n, x in kwargs if n != seg.args[0].args[0]]
                            kwargs.append((seg.args[0].args[0], seg.args[1]))
                        elif seg.op == "seg_if" and seg.args[1].op == "seg_pair" and seg.args[1].args[0].op == "const":
                            n = seg.args[1].args[0].args[0]
                            old = dict(kwargs).get(n, MISSING)
                            kwargs = [(m, x) for m, x in kwargs if m != n]
                            kwargs.append((n, ite(seg.args[0], seg.args[1].args[1], old)))
                        else:
                            kwargs.append(("**", seg))
                elif v is not NONE:
                    kwargs.append(("**", v))
            else:
                kwargs.append((k.arg, v))
        if base is not None:
            return self.call_method(s, base, e.func.attr, args, kwargs, e)
        return self.call(s, f, args, kwargs, e)

    def call_method(self, s, base, name, args, kwargs, node):
        if base.op == "ite" and (self.distributable(base.args[1]) or self.distributable(base.args[2])):
            return self.fork(s, base.args[0],
                             lambda st: self.call_method(st, base.args[1], name, args, kwargs, node),
                             lambda st: self.call_method(st, base.args[2], name, args, kwargs, node))
        r = self.container_method(s, base, name, args, kwargs, node)
        if r is not None:
            return r
        f = self.getattr_(s, base, name, node)
        return self.call(s, f, args, kwargs, node)

    def fork(self, s, c, fa, fb):
        h = holds(c, set(s.guards))
        if h is True:
            return fa(s)
        if h is False:
            return fb(s)
        s1, s2 = s.copy().guard(c), s.copy().guard(neg(c))
        a, b = fa(s1), fb(s2)
        m = self.merge([s1, s2])
        if m is None:
            s.dead = True
            return a
        s.assign(m)
        if s1.dead:
            return b
        if s2.dead:
            return a
        return ite(c, a, b)

    def mutate(self, s, base, name, args, node, **kw):
        self.event(s, "mutate", node, base=base, name=name, args=tuple(args), value=args[-1] if args else NONE)

    def container_method(self, s, base, name, args, kwargs, node):
        op = base.op
        if op in ("listobj", "setobj") and base in s.cont:
            segs = s.cont[base]
            if name in ("append", "add") and len(args) == 1:
                self.set_cont(s, base, segs + (mk("seg_item", args[0]),))
                self.mutate(s, base, name, args, node)
                return NONE
            if name in ("extend", "update") and len(args) == 1:
                self.set_cont(s, base, segs + tuple(self.segs_of(s, args[0])))
                self.mutate(s, base, name, args, node)
                return NONE
            if name == "insert" and len(args) == 2 and is_const(args[0], 0):
                self.set_cont(s, base, (mk("seg_item", args[1]),) + segs)
                self.mutate(s, base, name, args, node)
                return NONE
            if name == "copy" and not args:
                return self.new_list(s, segs, op, node)
            if name == "pop" and op == "listobj":
                k = self.known_items(s, base)
                self.mutate(s, base, name, args, node)
                if k and (not args or is_const(args[0], -1)):
                    self.set_cont(s, base, segs[:-1])
                    return k[-1]
                if k and is_const(args[0], 0):
                    self.set_cont(s, base, segs[1:])
                    return k[0]
                self.set_cont(s, base, segs + (mk("seg_unknown", "pop"),))
                return mk("elem", base, self.new())
            if name == "union" and op == "setobj":
                out = list(segs)
                for a in args:
                    out += self.segs_of(s, a)
                return self.new_list(s, out, op, node)
            if name == "reverse":
                self.mutate(s, base, name, args, node)
                self.set_cont(s, base, tuple(reversed(segs)) if all(x.op == "seg_item" for x in segs)
                              else (mk("seg_splice", mk("rev", self.expand(base, s.cont))),))
                return NONE
            if name == "sort":
                self.mutate(s, base, name, args, node)
                old = self.expand(base, s.cont)
                if len(segs) == 1 and segs[0].op == "seg_splice":
                    old = segs[0].args[0]
                kw = dict(kwargs)
                key = self.keyval(s, old, kw.get("key", NONE))
                self.set_cont(s, base, (mk("seg_splice", mk("sorted", old, key, kw.get("reverse", FALSE))),))
                return NONE
            if name in ("remove", "clear", "discard", "insert"):
                self.mutate(s, base, name, args, node)
                self.set_cont(s, base, () if name == "clear" else segs + (mk("seg_unknown", name, *args),))
                return NONE
            if name in ("index", "count"):
                return mk("call", mk("attr", base, name), tuple(args), tuple(kwargs))
        if op == "dictobj" and base in s.cont:
            segs = s.cont[base]
            if name == "update":
                new = list(segs)
                for a in args:
                    new += s.cont[a] if a.op == "dictobj" and a in s.cont else [mk("seg_splice", a)]
                for k, v in kwargs:
                    new.append(mk("seg_pair", const(k), v) if k != "**" else mk("seg_splice", v))
                self.set_cont(s, base, tuple(new))
                self.mutate(s, base, name, args, node)
                return NONE
            if name == "copy":
                return self.new_list(s, segs, "dictobj", node)
            if name == "get" and args:
                v = self.item(s, base, args[0])
                d = args[1] if len(args) > 1 else NONE
                if v.op != "item":
                    return v
                return ite(cmp_("in", args[0], base), v, d)
            if name in ("pop", "setdefault", "clear", "popitem"):
                self.mutate(s, base, name, args, node)
                self.set_cont(s, base, segs + (mk("seg_unknown", name),))
                return mk("unknown", f"{name}#{self.new()}")
        if name in ("items", "values", "keys") and not args and self.typeof(base) is None \
                and base.op not in ("ext", "mod", "cls", "super"):
            return mk(name, base)
        if name == "get" and base.op not in ("ext", "mod", "cls", "super", "dictobj") and \
                self.typeof(base) is None and 1 <= len(args) <= 2 and not kwargs and args[0].op == "const":
            d = args[1] if len(args) > 1 else NONE
            return ite(cmp_("in", args[0], base), self.item(s, base, args[0]), d)
        if op == "const" and isinstance(base.args[0], str) and name == "split" and not kwargs and len(args) <= 1 and all(a.op == "const" and isinstance(a.args[0], str) and a.args[0] for a in args):
            return mk("tuple", tuple(const(x) for x in base.args[0].split(*[a.args[0] for a in args])))
        if op == "const" and isinstance(base.args[0], str) and name == "format":
            ps = None if any(a.op.startswith("star") for a in args) or any(k is None for k, _ in kwargs) else self.str_format(base, args, kwargs)
            if ps is not None:
                return mk("fstr", ps)
            return mk("fstr", (base,) + tuple(args) + tuple(v for _, v in kwargs))
        return None

    def call(self, s, f, args, kwargs, node):
        if f.op == "ite":
            c, a, b = f.args
            return self.fork(s, c, lambda st: self.call(st, a, args, kwargs, node),
                             lambda st: self.call(st, b, args, kwargs, node))
        if f.op == "partial":
            pf, pargs, pkw = f.args
            names = {k for k, _ in kwargs}
            kw = [(k, v) for k, v in pkw if k not in names] + list(kwargs)
            return self.call(s, pf, list(pargs) + list(args), kw, node)
        if f.op == "bound":
            fn = self.fnmap.get(f.args[0])
            if fn is not None:
                r = self.try_inline(s, f.args[0], fn, [f.args[1]] + list(args), kwargs, node, f.args[1])
                if r is not None:
                    return r
            return self.opaque_call(s, f, args, kwargs, node)
        if f.op == "fn":
            fn = self.fnmap.get(f)
            if fn is not None:
                r = self.try_inline(s, f, fn, list(args), kwargs, node,
                                    args[0] if fn.cls is not None and args else None)
                if r is not None:
                    return r
            return self.opaque_call(s, f, args, kwargs, node)
        if f.op == "cls":
            return self.instantiate(s, f, args, kwargs, node)
        if f.op == "attrgetter" and len(args) == 1:
            v = args[0]
            for part in str(f.args[0].args[0]).split("."):
                v = self.getattr_(s, v, part, node)
            return v
        if f.op == "itemgetter" and len(args) == 1:
            return self.item(s, args[0], f.args[0])
        if f.op == "ext":
            r = self.builtin(s, f.args[0], args, kwargs, node)
            if r is not None:
                return r
        if f.op == "obj":
            c = self.typeof(f)
            m = c and self.p.find_method(c, "__call__")
            if m:
                return self.call(s, mk("bound", self.ref(m), f), args, kwargs, node)
        return self.opaque_call(s, f, args, kwargs, node)

    def opaque_call(self, s, f, args, kwargs, node):
        name = callee_name(f)
        if name in PURE_EXT:
            r = mk("call", f, tuple(args), tuple(kwargs))
        else:
            r = mk("call", f, tuple(args), tuple(kwargs), self.new())
        self.event(s, "call", node, f=f, args=tuple(args), kwargs=tuple(kwargs), res=r,
                   base=f.args[0] if f.op == "attr" else (f.args[1] if f.op == "bound" else None),
                   name=name)
        return r

    def try_inline(self, s, fterm, fn, args, kwargs, node, selfterm):
        if fn.qual in self.opaque or len(self.stack) >= self.maxdepth or self.in_stack(fn):
            return None
        if fn.is_ctx:
            return None
        if any(not d.split("(")[0].split(".")[-1] in
               ("property", "staticmethod", "classmethod", "abstractmethod", "contextmanager", "wraps",
                "lru_cache", "cache") for d in fn.decorators):
            return None
        return self.call_func(s, fn, args, kwargs, node, fterm.args[1], selfterm)

    def bind(self, s, fn, args, kwargs, fid):
        """Bind parameters; returns list of (name, term)."""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out, extra, kw, stars = {}, [], {}, []
        starred = False
        i = 0
        for x in args:
            if x.op == "star":
                starred = True
                stars.append(x.args[0])
                # unknown number of positionals
                if a.vararg is None:
                    while i < len(pos):
                        out[pos[i]] = mk("item", x.args[0], const(i))
                        i += 1
                else:
                    extra.append(x)
                continue
            if i < len(pos):
                out[pos[i]] = x
                i += 1
            else:
                extra.append(x)
        splat = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = []
        for k, v in kwargs:
            if k == "**":
                splat.append(v)
            elif k in names:
                out[k] = v
            else:
                rest.append((k, v))
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n in out and out[n] is not MISSING:
                if out[n].op == "ite" and contains(out[n], lambda t: t is MISSING) and n in defaults:
                    out[n] = subst(out[n], {MISSING: self.eval_default(s, fn, defaults[n])})
                continue
            dv = self.eval_default(s, fn, defaults[n]) if n in defaults else mk("unknown", f"arg:{n}#{self.new()}")
            if splat:
                sp = splat[-1]
                if sp.op == "seg_splice":
                    sp = sp.args[0]
                dv = ite(cmp_("in", const(n), sp), mk("item", sp, const(n)), dv)
            out[n] = dv
        if a.vararg:
            if any(x.op == "star" for x in extra):
                segs = []
                for x in extra:
                    segs += self.segs_of(s, x.args[0]) if x.op == "star" else [mk("seg_item", x)]
                if len(extra) == 1:
                    out[a.vararg.arg] = extra[0].args[0]
                else:
                    out[a.vararg.arg] = self.new_list(s, segs)
            else:
                out[a.vararg.arg] = mk("tuple", tuple(extra))
        if a.kwarg:
            if not rest and len(splat) == 1 and splat[0].op not in ("seg_splice", "seg_each", "seg_if"):
                out[a.kwarg.arg] = splat[0]
            else:
                segs = [x if x.op.startswith("seg_") else mk("seg_splice", x) for x in splat]
                segs += [mk("seg_pair", const(k), v) for k, v in rest]
                out[a.kwarg.arg] = self.new_list(s, segs, "dictobj")
        return out

    def eval_default(self, s, fn, e):
        lit = literal(e)
        if lit is not None:
            return lit
        fr = Frame(self.new(), fn, fn.parent if fn.parent else 0, fn.cls)
        self.frames[fr.id] = fr
        self.stack.append(fr)
        try:
            return self.eval(s, e)
        finally:
            self.stack.pop()

    def call_func(self, s, fn, args, kwargs, node, closure, selfterm):
        """Inline fn in state s (mutated in place); returns the result term."""
        self.inlined.add(fn.qual)
        fid = self.new()
        fr = Frame(fid, fn, closure, fn.cls if fn.cls is not None else getattr(fn, "encl_cls", None), None)
        if fn.cls is not None and not fn.is_static:
            fr.selfterm = args[0] if args else selfterm
        self.frames[fid] = fr
        bound = self.bind(s, fn, args, kwargs, fid)
        for k, v in bound.items():
            self.set_env(s, fid, k, v)
            self.note_ann(fn, k, v)
        entry_ctx, entry_guards = s.ctx, s.guards
        self.stack.append(fr)
        inner = s.copy()
        inner.ctx = s.ctx + (("fn", fn.qual, getattr(node, "lineno", 0)),)
        gen = fn.is_generator and not isinstance(fn.node, ast.Lambda)
        if gen:
            fr.yields = self.new_list(inner, [], node=fn.node)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(inner, fn.node.body)
                if not inner.dead:
                    fr.returns.append((inner, v))
            else:
                end = self.exec_block(inner, fn.node.body)
                if end is not None:
                    fr.returns.append((end, NONE))
        finally:
            self.stack.pop()
        rets = [(st, v) for st, v in fr.returns if not st.dead]
        if not rets:
            s.dead = True
            return mk("unknown", f"noreturn#{self.new()}")
        for st, v in rets:
            st.env[(fid, "$ret")] = fr.yields if gen else v
        m = self.merge([st for st, _ in rets])
        r = m.env.pop((fid, "$ret"))
        m.ctx = entry_ctx
        if not fr.captured:
            for k in [k for k in m.env if k[0] == fid]:
                del m.env[k]
        s.assign(m)
        return r

    def note_ann(self, fn, name, v):
        if v.op not in ("param", "unknown", "call", "item", "elem", "attr"):
            return
        for x in fn.node.args.args + fn.node.args.kwonlyargs:
            if x.arg == name and x.annotation is not None:
                if self.typeof(v) is None:
                    c = self.p.ann_class(fn.module, x.annotation)
                    if c is not None:
                        self.ptypes[v] = c
                if v not in self.pann and self.p.ann_elem_class(fn.module, x.annotation):
                    self.pann[v] = (fn.module, x.annotation)

    def instantiate(self, s, f, args, kwargs, node):
        c = self.p.resolve_qual(f.args[0])
        if not isinstance(c, Class):
            return self.opaque_call(s, f, args, kwargs, node)
        o = mk("obj", c.qual, self.new())
        self.alloc_site[o] = node
        self.event(s, "new", node, f=f, args=tuple(args), kwargs=tuple(kwargs), res=o, name=c.qual, base=o)
        if c.qual in self.opaque:
            return o
        if c.is_namedtuple:
            names = list(c.ann)
            vals = dict(zip(names, args))
            vals.update({k: v for k, v in kwargs if k != "**"})
            for n in names:
                if n in vals:
                    self.set_heap(s, o, n, vals[n])
                elif n in c.attrs:
                    lit = literal(c.attrs[n])
                    self.set_heap(s, o, n, lit if lit is not None else mk("unknown", n))
            return o
        init = s.heap.get((f, "__init__"))
        m = self.p.find_method(c, "__init__")
        if m is not None and m.qual not in self.opaque and not self.in_stack(m) and len(self.stack) < self.maxdepth:
            self.call_func(s, m, [o] + list(args), kwargs, node, 0, o)
        return o

    # ------------------------------------------------------------ builtins
    def keyval(self, s, it, key):
        """key function applied to an abstract element of `it`."""
        el, g, b = self.iter_elem(s, it, 0)
        if key is NONE:
            return el
        st = s.copy()
        r = self.call(st, key, [el], [], None)
        s.cont, s.heap = st.cont, st.heap
        return r

    def seqbase(self, s, t):
        """Look through copies: list(x) -> x for order-insensitive aggregates."""
        while t.op == "listobj" and t in s.cont and len(s.cont[t]) == 1 and s.cont[t][0].op == "seg_splice":
            t = s.cont[t][0].args[0]
        return t

    def builtin(self, s, q, args, kwargs, node):
        kw = dict(kwargs)
        n = q[9:] if q.startswith("builtins.") else q
        if any(a.op == "star" for a in args):
            if n in ("max", "min") and len(args) == 1:
                args = [args[0].args[0]]
            else:
                return None
        if n == "len" and len(args) == 1:
            return self.length(s, args[0])
        if n in ("list", "tuple"):
            if not args:
                return self.new_list(s, [], node=node) if n == "list" else mk("tuple", ())
            k = self.known_items(s, args[0])
            if n == "tuple":
                if k is not None:
                    return mk("tuple", tuple(k))
                if args[0].op in ("repeat",):
                    return args[0]
            if args[0].op == "repeat" and n == "list":
                return args[0]
            return self.new_list(s, self.segs_of(s, args[0]), node=node)
        if n in ("set", "frozenset"):
            return self.new_list(s, self.segs_of(s, args[0]) if args else [], "setobj", node)
        if n in ("dict", "collections.OrderedDict"):
            segs = []
            for a in args:
                if a.op == "dictobj" and a in s.cont:
                    segs += s.cont[a]
                elif a.op in ("listobj",):
                    for x in s.cont.get(a, ()):
                        segs.append(pairseg(x))
                elif a.op == "zip":
                    for x in self.segs_of(s, a):
                        segs.append(pairseg(x))
                else:
                    segs.append(mk("seg_splice", a))
            for k, v in kwargs:
                segs.append(mk("seg_pair", const(k), v) if k != "**" else
                            (v if v.op.startswith("seg_") else mk("seg_splice", v)))
            return self.new_list(s, segs, "dictobj", node)
        if n == "sorted" and args:
            base = self.seqbase(s, args[0])
            key = kw.get("key", NONE)
            rev = kw.get("reverse", FALSE)
            if base.op == "listobj":
                base = self.expand(base, s.cont)
            r = mk("sorted", base, self.keyval(s, args[0], key), rev)
            return self.new_list(s, [mk("seg_splice", r)], node=node)
        if n == "reversed" and args:
            return mk("rev", self.seqbase(s, args[0]))
        if n == "enumerate" and args:
            return mk("enumerate", args[0], args[1] if len(args) > 1 else kw.get("start", const(0)))
        if n == "zip":
            return mk("zip", tuple(args))
        if n == "map" and len(args) == 2:
            return mk("map", args[0], args[1])
        if n == "filter" and len(args) == 2:
            return mk("filter", args[0], args[1])
        if n in ("itertools.chain",):
            segs = []
            for a in args:
                segs += self.segs_of(s, a)
            return self.new_list(s, segs, node=node)
        if n in ("max", "min"):
            if len(args) == 1:
                key = self.keyval(s, args[0], kw.get("key", NONE))
                return mk(n, self.frz(s, args[0]), key, kw.get("default", MISSING))
            if "key" not in kw:
                if all(a.op == "const" and isinstance(a.args[0], (int, float)) for a in args):
                    return const((max if n == "max" else min)(a.args[0] for a in args))
                return mk(n + "2", tuple(sorted(args, key=lambda t: t.id)))
            return mk(n + "2k", tuple(args), kw["key"])
        if n in ("heapq.nlargest", "heapq.nsmallest") and len(args) >= 2:
            key = self.keyval(s, args[1], kw.get("key", args[2] if len(args) > 2 else NONE))
            self.event(s, "call", node, f=mk("ext", q), args=tuple(args), kwargs=tuple(kwargs), res=NONE, name=q)
            return mk(n.split(".")[1], args[0], self.frz(s, args[1]), key)
        if n in ("any", "all", "sum") and args:
            return mk(n, self.frz(s, args[0]), *args[1:])
        if n == "isinstance" and len(args) == 2:
            return self.isinst(s, args[0], args[1])
        if n == "getattr" and len(args) >= 2 and args[1].op == "const" and isinstance(args[1].args[0], str):
            if len(args) == 2:
                return self.getattr_(s, args[0], args[1].args[0], node)
            return ite(mk("hasattr", args[0], args[1]), self.getattr_(s, args[0], args[1].args[0], node), args[2])
        if n == "getattr" and len(args) == 2:
            if args[1].op == "ite":
                return self.fork(s, args[1].args[0],
                                 lambda st: self.builtin(st, q, [args[0], args[1].args[1]], [], node),
                                 lambda st: self.builtin(st, q, [args[0], args[1].args[2]], [], node))
            return mk("dynattr", args[0], args[1])
        if n == "hasattr":
            return mk("hasattr", *args)
        if n == "setattr" and len(args) == 3 and args[1].op == "const":
            self.setattr_(s, args[0], args[1].args[0], args[2], node)
            return NONE
        if n == "functools.partial" and args:
            f, pa, pk = args[0], args[1:], list(kwargs)
            if f.op == "partial":
                names = {k for k, _ in pk}
                pk = [(k, v) for k, v in f.args[2] if k not in names] + pk
                pa = list(f.args[1]) + list(pa)
                f = f.args[0]
            return mk("partial", f, tuple(pa), tuple(pk))
        if n == "functools.wraps" or n == "typing.cast" and len(args) == 2:
            return args[-1]
        if n in ("str", "repr", "int", "float", "bool", "round", "abs", "id", "hash", "callable",
                 "issubclass", "ord", "chr", "divmod", "pow", "bytes", "isdir", "iter"):
            if n == "iter" and len(args) == 1:
                return args[0]
            if n == "float" and args and args[0].op == "const":
                try:
                    return const(float(args[0].args[0]))
                except (TypeError, ValueError):
                    pass
            if n in ("round", "int", "abs") and len(args) == 1 and args[0].op == "const" and isinstance(args[0].args[0], (int, float)):
                try:
                    return const({"round": round, "int": int, "abs": abs}[n](args[0].args[0]))
                except (OverflowError, ValueError):
                    pass
            if n == "str" and args and args[0].op == "const":
                return const(str(args[0].args[0]))
            if n == "bool" and len(args) == 1:
                return self.truthy(args[0])
            self.event(s, "pure", node, f=mk("ext", q), args=tuple(args), kwargs=tuple(kwargs), name=q)
            return mk("pure", n, tuple(args), tuple(kwargs))
        if n == "type" and len(args) == 1:
            c = self.typeof(args[0])
            if args[0].op == "obj" and c is not None:
                return mk("cls", c.qual)
            return mk("pure", "type", tuple(args), ())
        if n == "range":
            return mk("range", tuple(args))
        if n == "next" and args:
            b = args[0]
            self.event(s, "call", node, f=mk("ext", q), args=tuple(args), kwargs=tuple(kwargs), res=NONE, name=q)
            return mk("next", b, self.new())
        if n == "copy.copy" and args:
            o = args[0]
            c = self.typeof(o)
            if c is not None:
                new = mk("obj", c.qual, self.new())
                self.alloc_site[new] = node
                self.event(s, "copy", node, f=mk("ext", q), args=tuple(args), kwargs=(), res=new, base=o, name="copy.copy")
                fields = {k[1] for k in s.heap if k[0] is o} | self.class_fields(c)
                for n_ in fields:
                    self.set_heap(s, new, n_, s.heap.get((o, n_)) or mk("attr", o, n_))
                return new
        if n == "copy.deepcopy" and args:
            r = mk("deepcopy", args[0], self.new())
            return r
        if n in ("operator.attrgetter",) and len(args) == 1 and args[0].op == "const":
            return mk("attrgetter", args[0])
        if n in ("operator.itemgetter",) and len(args) == 1:
            return mk("itemgetter", args[0])
        return None

    def class_fields(self, c):
        out = set()
        for k in self.p.mro(c):
            self.p.attr_ann(k, "__nothing__")
            for m in k.methods.values():
                for nd in ast.walk(m.node):
                    if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store) and \
                            isinstance(nd.value, ast.Name) and nd.value.id == "self":
                        out.add(nd.attr)
        return out

    def frz(self, s, t):
        return self.expand(self.seqbase(s, t), s.cont)

    def length(self, s, x):
        k = self.known_items(s, x)
        if k is not None:
            return const(len(k))
        if x.op in ("listobj",) and x in s.cont:
            segs = s.cont[x]
            if len(segs) == 1:
                if segs[0].op == "seg_splice":
                    return self.length(s, segs[0].args[0])
                if segs[0].op == "seg_each" and not segs[0].args[2] and not segs[0].args[3].op.startswith("seg_"):
                    return self.length(s, segs[0].args[1])
        if x.op in ("rev", "sorted", "enumerate"):
            return self.length(s, x.args[0])
        if x.op in ("keys", "values", "items"):
            return mk("len", x.args[0])
        if x.op == "obj":
            c = self.typeof(x)
            m = c and self.p.find_method(c, "__len__")
        if x.op in ("listobj", "setobj"):
            return mk("len", self.expand(x, s.cont))
        return mk("len", x)

    def isinst(self, s, x, c):
        cs = list(c.args[0]) if c.op == "tuple" else [c]
        if x.op == "ite":
            a, b = self.isinst(s, x.args[1], c), self.isinst(s, x.args[2], c)
            if a.op == "const" or b.op == "const":
                return ite(x.args[0], a, b)
        if x.op in ("listobj", "dictobj", "setobj", "tuple"):
            n = "builtins." + x.op.replace("obj", "")
            if any(callee_name(k) == n for k in cs):
                return TRUE
        if x.op == "const":
            pyn = type(x.args[0]).__name__
            names = {callee_name(k).replace("builtins.", "") for k in cs}
            if pyn in names:
                return TRUE
            if all(k.op in ("cls",) or callee_name(k).startswith("builtins.") or
                   callee_name(k).split(".")[0] in ("typing", "collections") and pyn in ("int", "float", "bool", "NoneType") for k in cs) and \
                    not (pyn == "bool" and "int" in names):
                return FALSE
        if x.op == "obj":
            t = self.typeof(x)
            quals = {k.qual for k in self.p.mro(t)} if t else set()
            if any(k.op == "cls" and k.args[0] in quals for k in cs):
                return TRUE
            if all(k.op == "cls" for k in cs):
                return FALSE
        return bor([mk("isinstance", x, k) for k in cs])

    # ------------------------------------------------------------ statements
    def exec_block(self, s, body):
        for st in body:
            s = self.exec(s, st)
            if s is None or s.dead:
                return None
        return s

    def exec(self, s, st):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError("analysis budget exceeded")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            return s
        r = m(s, st)
        return None if r is None or r.dead else r

    def s_Expr(self, s, st):
        self.eval(s, st.value)
        return s

    def s_Pass(self, s, st):
        return s

    def s_Assign(self, s, st):
        v = self.eval(s, st.value)
        for t in st.targets:
            self.assign(s, t, v, st)
        return s

    def s_AnnAssign(self, s, st):
        if st.value is not None:
            v = self.eval(s, st.value)
            self.assign(s, st.target, v, st)
        return s

    def s_AugAssign(self, s, st):
        cur = self.eval(s, load(st.target))
        v = self.eval(s, st.value)
        op = self.BIN[type(st.op)]
        self.event(s, "aug", st, base=cur, name=op, value=v)
        if op == "+" and cur.op == "listobj" and cur in s.cont:
            self.set_cont(s, cur, s.cont[cur] + tuple(self.segs_of(s, v)))
            self.mutate(s, cur, "extend", [v], st)
            return s
        if op == "+" and cur.op not in ("const", "tuple", "bin", "len", "loopphi", "listobj") and v.op == "listobj":
            self.mutate(s, cur, "extend", [v], st)
        r = self.binop(s, op, cur, v, st)
        self.assign(s, st.target, r, st, aug=True)
        return s

    def assign(self, s, target, v, node, aug=False):
        if isinstance(target, ast.Name):
            fr = self.stack[-1]
            if target.id in fr.globals:
                s.env[("mod", fr.module.name, target.id)] = v
                self.event(s, "setglobal", node, name=target.id, value=v)
                return
            f = fr
            if target.id in fr.nonlocals:
                f = self.frames.get(fr.parent)
                while f is not None and (f.id, target.id) not in s.env:
                    f = self.frames.get(f.parent)
                f = f or fr
            self.set_env(s, f.id, target.id, v)
        elif isinstance(target, ast.Attribute):
            b = self.eval(s, target.value)
            self.setattr_(s, b, target.attr, v, node)
        elif isinstance(target, ast.Subscript):
            b = self.eval(s, target.value)
            if isinstance(target.slice, ast.Slice):
                parts = [self.eval(s, x) if x is not None else NONE
                         for x in (target.slice.lower, target.slice.upper, target.slice.step)]
                self.event(s, "setslice", node, base=b, name=mk("sl", *parts), value=v)
                if b.op == "listobj" and b in s.cont:
                    if all(x is NONE for x in parts):
                        self.set_cont(s, b, tuple(self.segs_of(s, v)))
                    else:
                        self.set_cont(s, b, s.cont[b] + (mk("seg_unknown", "slice"),))
                return
            i = self.eval(s, target.slice)
            self.event(s, "setitem", node, base=b, name=i, value=v)
            if b.op == "dictobj" and b in s.cont:
                self.set_cont(s, b, s.cont[b] + (mk("seg_pair", i, v),))
            elif b.op == "listobj" and b in s.cont:
                segs = s.cont[b]
                if i.op == "const" and isinstance(i.args[0], int) and all(x.op == "seg_item" for x in segs) \
                        and -len(segs) <= i.args[0] < len(segs):
                    l = list(segs)
                    l[i.args[0]] = mk("seg_item", v)
                    self.set_cont(s, b, tuple(l))
                else:
                    self.set_cont(s, b, segs + (mk("seg_unknown", "setitem"),))
        elif isinstance(target, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)]
            n = len(target.elts)
            for i, x in enumerate(target.elts):
                if isinstance(x, ast.Starred):
                    k = self.known_items(s, v)
                    if k is not None:
                        hi = len(k) - (n - 1 - i)
                        self.assign(s, x.value, self.new_list(s, [mk("seg_item", y) for y in k[i:hi]]), node)
                    else:
                        self.assign(s, x.value, mk("slice", v, const(i), const(i - n + 1) if i - n + 1 else NONE, NONE), node)
                elif star and i > star[0]:
                    self.assign(s, x, self.item(s, v, const(i - n)), node)
                else:
                    self.assign(s, x, self.unpack(s, v, i, n), node)
        elif isinstance(target, ast.Starred):
            self.assign(s, target.value, v, node)

    def unpack(self, s, v, i, n):
        if v.op == "zip":
            return mk("unzip", v, const(i))
        return self.item(s, v, const(i))

    def s_Return(self, s, st):
        v = self.eval(s, st.value) if st.value is not None else NONE
        if s.dead:
            return None
        if any(c[0] == "finally" for c in s.ctx[self.fn_ctx(s):]):
            self.event(s, "finally_return", st, value=v)
        self.stack[-1].returns.append((s, v)) if self.stack[-1] is self.frame() else self.frame().returns.append((s, v))
        self.event(s, "return", st, value=v)
        return None

    def frame(self):
        return self.stack[-1]

    def fn_ctx(self, s):
        for i in range(len(s.ctx) - 1, -1, -1):
            if s.ctx[i][0] == "fn":
                return i
        return 0

    def s_Raise(self, s, st):
        v = self.eval(s, st.exc) if st.exc is not None else mk("reraise", NONE)
        if s.dead:
            return None
        self.event(s, "raise", st, value=v)
        return None

    def s_Assert(self, s, st):
        c = self.cond(s, st.test)
        s.guard(c)
        return s

    def s_If(self, s, st):
        c = self.cond(s, st.test)
        if s.dead:
            return None
        h = holds(c, set(s.guards))
        if h is True:
            return self.exec_block(s, st.body)
        if h is False:
            return self.exec_block(s, st.orelse)
        s1, s2 = s.copy().guard(c), s.copy().guard(neg(c))
        a = self.exec_block(s1, st.body)
        b = self.exec_block(s2, st.orelse)
        return self.merge([a, b])

    def s_Match(self, s, st):
        subj = self.eval(s, st.subject)
        ends, cur = [], s
        for case in st.cases:
            if cur is None:
                break
            p = case.pattern
            if isinstance(p, ast.MatchValue):
                c = cmp_("==", subj, self.eval(cur, p.value))
            elif isinstance(p, ast.MatchSingleton):
                c = cmp_("is", subj, const(p.value))
            elif isinstance(p, ast.MatchOr) and all(isinstance(x, ast.MatchValue) for x in p.patterns):
                c = bor([cmp_("==", subj, self.eval(cur, x.value)) for x in p.patterns])
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                c = TRUE
                if p.name:
                    self.set_env(cur, self.stack[-1].id, p.name, subj)
            else:
                c = mk("match", subj, self.new())
            if case.guard is not None:
                g = cur.copy().guard(c)
                c = band([c, self.cond(g, case.guard)])
            h = holds(c, set(cur.guards))
            if h is False:
                continue
            s1 = cur.copy().guard(c)
            ends.append(self.exec_block(s1, case.body))
            cur = None if (c is TRUE or h is True) else cur.copy().guard(neg(c))
        if cur is not None:
            ends.append(cur)
        return self.merge(ends)

    def s_FunctionDef(self, s, st):
        t = self.make_fn(s, st, st.name)
        self.fnmap[t].decorators = [ast.unparse(d) for d in st.decorator_list]
        self.set_env(s, self.stack[-1].id, st.name, t)
        return s

    def s_ClassDef(self, s, st):
        self.set_env(s, self.stack[-1].id, st.name, mk("unknown", f"class:{st.name}"))
        return s

    def s_Global(self, s, st):
        self.stack[-1].globals |= set(st.names)
        return s

    def s_Nonlocal(self, s, st):
        self.stack[-1].nonlocals |= set(st.names)
        return s

    def s_Import(self, s, st):
        for a in st.names:
            q = a.name if a.asname else a.name.split(".")[0]
            self.set_env(s, self.stack[-1].id, a.asname or q, self.ref(self.p.resolve_qual(q)) or mk("ext", q))
        return s

    def s_ImportFrom(self, s, st):
        m = self.stack[-1].module
        for a in st.names:
            r = self.ref(self.p.resolve_qual(f"{m.abs_from(st)}.{a.name}"))
            self.set_env(s, self.stack[-1].id, a.asname or a.name, r)
        return s

    def s_Delete(self, s, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(s, t.value)
                i = mk("sl") if isinstance(t.slice, ast.Slice) else self.eval(s, t.slice)
                self.event(s, "delitem", st, base=b, name=i, value=NONE)
                if b in s.cont:
                    self.set_cont(s, b, s.cont[b] + (mk("seg_unknown", "del"),))
            elif isinstance(t, ast.Attribute):
                b = self.eval(s, t.value)
                self.event(s, "delattr", st, base=b, name=t.attr, value=NONE)
        return s

    # ---- loops
    def s_For(self, s, st):
        it = self.eval(s, st.iter)
        if s.dead:
            return None
        items = self.known_items(s, it)
        fr = self.stack[-1]
        if items is not None and len(items) <= 8:
            cur, breaks = s, []
            for x in items:
                if cur is None:
                    break
                fr.loops.append({"b": [], "c": []})
                self.assign(cur, st.target, x, st.target)
                end = self.exec_block(cur, st.body)
                l = fr.loops.pop()
                breaks += l["b"]
                cur = self.merge(l["c"] + [end]) if (l["c"] or end) else None
            if cur is not None and st.orelse:
                cur = self.exec_block(cur, st.orelse)
            return self.merge(breaks + [cur])
        return self.loop(s, st, it)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def loop(self, s, st, it):
        fr = self.stack[-1]
        lid = self.new()
        isfor = it is not None
        # pass 1: what does the body change?
        snap = self.snapshot()
        s1 = s.copy()
        ends = self.loop_body(s1, st, it, lid, fr)[0]
        changed_env, changed_heap, changed_cont = set(), set(), set()
        for e in ends:
            if e is None or e.dead:
                continue
            for k, v in e.env.items():
                if k in s.env and s.env[k] is not v:
                    changed_env.add(k)
                elif k not in s.env and k[0] == fr.id:
                    changed_env.add(k)       # first assigned in the body
            if e.heap is not s.heap:
                for k, v in e.heap.items():
                    if s.heap.get(k) is not v:
                        changed_heap.add(k)
            if e.cont is not s.cont:
                for k, v in e.cont.items():
                    if k in s.cont and s.cont[k] != v:
                        changed_cont.add(k)
        self.rollback(snap)
        # pass 2
        head = s.copy()
        phis = {}
        for k in changed_env:
            phi = mk("loopphi", lid, str(k[1]), s.env.get(k, MISSING))
            head.env[k] = phi
            phis[("env", k)] = phi
        h = dict(head.heap)
        for k in changed_heap:
            init = s.heap.get(k) or mk("attr", k[0], k[1])
            phi = mk("loopphi", lid, f"{k[0]!r}.{k[1]}", init)
            if k in s.heap or not self.fresh_in(k[0], snap):
                h[k] = phi
                phis[("heap", k)] = phi
        head.heap = h
        mark = mk("seg_loop", lid)
        for k in changed_cont:
            self.set_cont(head, k, s.cont[k] + (mark,))
        info = dict(kind="for" if isfor else "while", iter=it, node=st, fn=fr.func.qual,
                    phis={}, head_guards=s.guards)
        self.loops[lid] = info
        body = head.copy()
        exit_state = head.copy()
        ends, breaks, cond = self.loop_body(body, st, it, lid, fr, exit_state)
        info["cond"] = cond
        info["breaks"] = [b for b in breaks if b is not None and not b.dead]
        nxt = self.merge(ends)
        info["next_state"] = nxt
        each = {}
        if nxt is not None:
            for (kind, k), phi in phis.items():
                cur = (nxt.env if kind == "env" else nxt.heap).get(k)
                init = phi.args[2]
                info["phis"][phi] = (init, cur)
            for k in changed_cont:
                pre = head.cont[k]
                post = nxt.cont.get(k, ())
                if post[: len(pre)] == pre:
                    segs = []
                    for x in post[len(pre):]:
                        cs = []
                        while x.op == "seg_if":
                            cs += conj(x.args[0])
                            x = x.args[1]
                        rel = tuple(cs)
                        if x.op == "seg_item":
                            segs.append(mk("seg_each", lid, info.get("base") or it or NONE, rel, x.args[0]))
                        else:
                            segs.append(mk("seg_each", lid, info.get("base") or it or NONE, rel, x))
                    each[k] = tuple(segs)
                else:
                    each[k] = (mk("seg_unknown", "loop"),)
        else:
            for k in changed_cont:
                each[k] = ()
        def fix(stt):
            if stt is None:
                return
            for k in changed_cont:
                out = []
                for x in stt.cont.get(k, ()):
                    if x is mark:
                        out += each[k]
                    else:
                        out.append(x)
                self.set_cont(stt, k, tuple(out))
        # filter guards of for-loop elements are part of the body guards
        exits = []
        if not (cond is TRUE):
            fix(exit_state)
            if not isfor:
                exit_state.guard(neg(cond))
            if breaks:
                exit_state.guard(mk("loopend", lid))
            exit_state.ctx = s.ctx
            if st.orelse:
                exit_state = self.exec_block(exit_state, st.orelse)
            exits.append(exit_state)
        for b in breaks:
            fix(b)
            b.ctx = s.ctx
            if cond is not TRUE:
                b.guards = s.guards + (mk("not", mk("loopend", lid)),) + tuple(
                    g for g in b.guards if g not in s.guards)
        # break states first so that their extra guards select them
        return self.merge(breaks + exits)

    def fresh_in(self, t, snap):
        return t.op in ("obj",) and t.args[1] > snap[0]

    def snapshot(self):
        return (self.serial, len(self.events), [(f, len(f.returns), len(f.loops)) for f in self.stack],
                [len(w) for w in self.writes], dict(self.loops))

    def rollback(self, snap):
        del self.events[snap[1]:]
        for f, n, l in snap[2]:
            del f.returns[n:]
            del f.loops[l:]
        for w, n in zip(self.writes, snap[3]):
            del w[n:]

    def loop_body(self, s, st, it, lid, fr, exit_state=None):
        l = {"b": [], "c": []}
        fr.loops.append(l)
        base_ctx = s.ctx
        if it is not None:
            el, g, base = self.iter_elem(s, it, lid)
            if lid in self.loops:
                self.loops[lid]["base"] = base
            s.ctx = s.ctx + (("loop", lid),)
            for c in g:
                s.guard(c)
            self.assign(s, st.target, el, st.target)
            cond = None
        else:
            cond = self.cond(s, st.test)
            if exit_state is not None:
                exit_state.heap, exit_state.cont = s.heap, s.cont
                exit_state.env = dict(s.env)
            s.ctx = s.ctx + (("loop", lid),)
            s.guard(cond)
        end = None
        if cond is not FALSE and not s.dead:
            end = self.exec_block(s, st.body)
        fr.loops.remove(l)
        ends = l["c"] + ([end] if end is not None else [])
        return ends, l["b"], cond

    def s_Break(self, s, st):
        if self.stack[-1].loops:
            self.stack[-1].loops[-1]["b"].append(s)
        if any(c[0] == "finally" for c in s.ctx[self.fn_ctx(s):]):
            self.event(s, "finally_return", st, value=NONE)
        return None

    def s_Continue(self, s, st):
        if self.stack[-1].loops:
            self.stack[-1].loops[-1]["c"].append(s)
        return None

    # ---- exceptions
    def havoc(self, s0, writes):
        h = s0.copy()
        byk = {}
        for kind, k, v in writes:
            byk.setdefault((kind, k), []).append(v)
        heap = dict(h.heap)
        for (kind, k), vs in byk.items():
            if kind == "env":
                if k in h.env:
                    h.env[k] = choice([h.env[k]] + vs)
                else:
                    h.env[k] = choice([MISSING] + vs)
            else:
                init = heap.get(k) or mk("attr", k[0], k[1])
                heap[k] = choice([init] + vs)
        h.heap = heap
        return h

    def s_Try(self, s, st):
        tid = self.new()
        fr = self.stack[-1]
        types = []
        for hnd in st.handlers:
            if hnd.type is None:
                types.append([mk("ext", "builtins.BaseException")])
            else:
                tt = self.eval(s, hnd.type)
                types.append(list(tt.args[0]) if tt.op == "tuple" else [tt])
        info = dict(types=types, node=st, fn=fr.func.qual, module=fr.module.name)
        self.tries[tid] = info
        s0 = s.copy()
        self.writes.append([])
        body = s.copy()
        body.ctx = s.ctx + (("try", tid),)
        end = self.exec_block(body, st.body)
        writes = self.writes.pop()
        if end is not None:
            end.ctx = s.ctx
            for i in range(len(st.handlers)):
                end.guard(neg(mk("exc", tid, i)))
            if st.orelse:
                end = self.exec_block(end, st.orelse)
        # returns recorded inside the body: they are normal completions
        outs = [end]
        hav = self.havoc(s0, writes)
        hav.cont = self.havoc_cont(s0, end)
        for i, hnd in enumerate(st.handlers):
            hs = hav.copy()
            hs.ctx = s.ctx + (("handler", tid, i),)
            hs.guard(mk("exc", tid, i))
            if hnd.name:
                self.set_env(hs, fr.id, hnd.name, mk("excval", tid, i))
            r = self.exec_block(hs, hnd.body)
            if r is not None:
                r.ctx = s.ctx
            outs.append(r)
        live = [o for o in outs if o is not None]
        m = self.merge([o for o in live if o is not end] + ([end] if end is not None else []))
        if st.finalbody:
            if m is not None:
                m.ctx = s.ctx + (("finally", tid),)
                m = self.exec_block(m, st.finalbody)
                if m is not None:
                    m.ctx = s.ctx
            else:
                f = hav.copy()
                f.ctx = s.ctx + (("finally", tid),)
                f2 = self.exec_block(f, st.finalbody)
                if f2 is not None:
                    # effects of finally on the states already returned
                    pass
        return m

    s_TryStar = s_Try

    def havoc_cont(self, s0, end):
        if end is None or end.cont is s0.cont:
            return s0.cont
        d = dict(end.cont)
        for k, v in end.cont.items():
            if k in s0.cont and s0.cont[k] != v:
                m = common_prefix(s0.cont[k], v)
                d[k] = tuple(list(v[:m]) + [mk("seg_if", mk("cond?", self.new()), x) for x in v[m:]])
        return d

    def s_With(self, s, st):
        return self.with_items(s, st, list(st.items))

    s_AsyncWith = s_With

    def with_items(self, s, st, items):
        if not items:
            return self.exec_block(s, st.body)
        it, rest = items[0], items[1:]
        cm = self.eval(s, it.context_expr)
        if s.dead:
            return None
        wid = self.new()
        name = callee_name(cm.args[0]) if cm.op == "call" else ""
        self.withs[wid] = dict(term=cm, node=st, name=name, fn=self.stack[-1].func.qual)
        swallow = None
        if name.startswith("stopit.") and name.endswith("Timeout"):
            swallow = "stopit.TimeoutException"
        elif name == "contextlib.suppress":
            swallow = "suppress"
        self.event(s, "with", it.context_expr, base=cm, name=name, value=NONE)
        val = cm
        c = self.typeof(cm) if cm.op == "obj" else None
        if c is not None and c.qual not in self.opaque:
            m = self.p.find_method(c, "__enter__")
            if m is not None:
                val = self.call(s, mk("bound", self.ref(m), cm), [], [], it.context_expr)
        s0 = s.copy()
        base_ctx = s.ctx
        if it.optional_vars is not None:
            self.assign(s, it.optional_vars, val, st)
            s0 = s.copy()
        s.ctx = s.ctx + (("with", wid),)
        exc = mk("exc", wid, 0)
        if swallow == "stopit.TimeoutException":
            self.with_truth[cm] = neg(exc)
        self.writes.append([])
        end = self.with_items(s, st, rest)
        writes = self.writes.pop()
        if end is not None:
            end.ctx = base_ctx
            if swallow:
                end.guard(neg(exc))
        out = end
        if swallow:
            hs = self.havoc(s0, writes)
            hs.cont = self.havoc_cont(s0, end)
            hs.ctx = base_ctx
            hs.guard(exc)
            out = self.merge([hs, end] if end is not None else [hs])
        if c is not None and c.qual not in self.opaque and out is not None:
            m = self.p.find_method(c, "__exit__")
            if m is not None:
                self.call(out, mk("bound", self.ref(m), cm),
                          [mk("unknown", "exc_type"), mk("unknown", "exc_val"), mk("unknown", "exc_tb")], [], st)
        return out

    # ------------------------------------------------------------ entry
    def start(self, module_name="gama"):
        s = State()
        fr = Frame(0, Func("<entry>", ast.parse("def f(): pass").body[0], self.p.modules[module_name]), None, None)
        self.frames[0] = fr
        self.stack = [fr]
        return s

    def param(self, name, ann=None, module=None, cls=None):
        t = mk("param", name)
        if cls is not None:
            self.ptypes[t] = cls
        elif ann is not None and module is not None:
            c = self.p.ann_class(module, ann)
            if c is not None:
                self.ptypes[t] = c
            self.pann[t] = (module, ann)
        return t

    def run(self, qual, self_cls=None, s=None, overrides=None, selfterm=None):
        """Analyse function `qual` with unconstrained parameters."""
        fn = self.p.func(qual) if isinstance(qual, str) else qual
        if s is None:
            s = self.start(fn.module.name)
        args, kw = [], []
        a = fn.node.args
        names = a.posonlyargs + a.args
        ov = overrides or {}
        for i, x in enumerate(names):
            if i == 0 and fn.cls is not None and not fn.is_static:
                if fn.is_classmethod:
                    t = mk("cls", (self_cls or fn.cls).qual)
                elif selfterm is not None:
                    t = selfterm
                else:
                    t = self.param("self", cls=self_cls or fn.cls)
                    self.exact.add(t)
                args.append(t)
                continue
            args.append(ov[x.arg] if x.arg in ov else self.param(x.arg, x.annotation, fn.module))
        if a.vararg:
            args.append(mk("star", mk("param", a.vararg.arg)))
        for x in a.kwonlyargs:
            kw.append((x.arg, ov[x.arg] if x.arg in ov else self.param(x.arg, x.annotation, fn.module)))
        if a.kwarg:
            kw.append(("**", mk("param", a.kwarg.arg)))
        first = len(self.events)
        depth = len(self.stack)
        r = self.call_func(s, fn, args, kw, None, 0, args[0] if args else None)
        del self.stack[depth:]
        return Result(self, fn, r, s, self.events[first:])


class Result:
    def __init__(self, it, fn, value, state, events):
        self.it, self.fn, self.value, self.state, self.events = it, fn, value, state, events

    def returns(self):
        """Return events of the analysed function itself (not of inlined callees)."""
        return [e for e in self.events if e.kind == "return" and e.fn == self.fn.qual
                and sum(1 for c in e.ctx if c[0] == "fn") == 1 + 0]

    def calls(self, *names):
        out = []
        for e in self.events:
            if e.kind != "call":
                continue
            n = e.callee
            if any(match_name(n, x) for x in names):
                out.append(e)
        return out

    def ex(self, t, e=None):
        return self.it.expand(t, e.cont if e is not None else self.state.cont)


def match_name(n, pat):
    if pat.startswith("."):
        return n == pat or n.endswith(pat)
    return n == pat or n.endswith("." + pat)


def pairseg(x):
    if x.op == "seg_item" and x.args[0].op == "tuple" and len(x.args[0].args[0]) == 2:
        return mk("seg_pair", *x.args[0].args[0])
    if x.op == "seg_each" and x.args[3].op == "tuple" and len(x.args[3].args[0]) == 2:
        return mk("seg_each", x.args[0], x.args[1], x.args[2], mk("seg_pair", *x.args[3].args[0]))
    return mk("seg_unknown", x)


def common_prefix_ctx(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return n


def literal(e):
    if isinstance(e, ast.Constant):
        return const(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return const(-e.operand.value)
    if isinstance(e, ast.Tuple) and all(literal(x) is not None for x in e.elts):
        return mk("tuple", tuple(literal(x) for x in e.elts))
    return None


def load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    else:
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return ast.copy_location(n, t)
