"""Parse the repository and resolve names across modules (nothing is imported)."""
from __future__ import annotations

import ast
import os

REPO = os.environ.get("VP_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis could not find what it needs to give an answer."""


class Func:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual, self.node, self.module, self.cls, self.parent = (
            qual, node, module, cls, parent,
        )
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(ast.unparse(d))
        self.is_generator = has_yield(node)

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    @property
    def is_property(self):
        return any(d in ("property", "cached_property", "functools.cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_ctx(self):
        return any(d.endswith("contextmanager") for d in self.decorators)

    def __repr__(self):
        return f"<Func {self.qual}>"


def has_yield(fn):
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.methods = {}
        self.attrs = {}
        self.ann = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(f"{qual}.{st.name}", st, module, cls=self)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.ann[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
        self.is_namedtuple = any(ast.unparse(b).endswith("NamedTuple") for b in node.bases)
        self._attr_types = None

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, is_pkg, src):
        self.name, self.path, self.tree, self.is_pkg, self.src = name, path, tree, is_pkg, src
        self.imports, self.funcs, self.classes, self.assigns = {}, {}, {}, {}
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[a.asname or a.name] = f"{self.abs_from(st)}.{a.name}"
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(f"{self.name}.{st.name}", st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(f"{self.name}.{st.name}", st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns[e.id] = ast.Subscript(
                                    value=st.value, slice=ast.Constant(i), ctx=ast.Load())
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                self._scan(st.orelse)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)

    def abs_from(self, st):
        if not st.level:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        pkg = os.path.join(self.root, "gama")
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                name = ".".join(rel[:-1] if is_pkg else rel)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                self.modules[name] = Module(name, path, ast.parse(src, path), is_pkg, src)

    # ------------------------------------------------------------ lookup
    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def resolve_qual(self, qual, depth=0):
        """-> Func | Class | Module | ('glob', module, name) | ('ext', qual)"""
        if depth > 20:
            return ("ext", qual)
        if qual in self.modules:
            return self.modules[qual]
        head, _, last = qual.rpartition(".")
        if head in self.modules:
            m = self.modules[head]
            if last in m.funcs:
                return m.funcs[last]
            if last in m.classes:
                return m.classes[last]
            if last in m.assigns:
                return ("glob", m, last)
            if last in m.imports:
                return self.resolve_qual(m.imports[last], depth + 1)
            return ("ext", qual)
        if head:
            r = self.resolve_qual(head, depth + 1)
            if isinstance(r, Module) and r.name != head:
                return self.resolve_qual(f"{r.name}.{last}", depth + 1)
            if isinstance(r, Class):
                mth = self.find_method(r, last)
                if mth:
                    return mth
            if isinstance(r, tuple) and r[0] == "ext":
                return ("ext", f"{r[1]}.{last}")
        return ("ext", qual)

    def resolve_name(self, module, name):
        if name in module.funcs:
            return module.funcs[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            return self.resolve_qual(module.imports[name])
        if name in module.assigns:
            return ("glob", module, name)
        return None

    def func(self, qual):
        r = self.resolve_qual(qual)
        if isinstance(r, Func):
            return r
        raise AnalysisError(f"anchor function {qual} not found")

    def cls(self, qual):
        r = self.resolve_qual(qual)
        if isinstance(r, Class):
            return r
        raise AnalysisError(f"anchor class {qual} not found")

    # ------------------------------------------------------------ classes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if isinstance(r, Class):
                out.append(r)
        return out

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            return self.resolve_name(module, e.id)
        if isinstance(e, ast.Attribute):
            q = dotted(e)
            if q:
                first, _, rest = q.partition(".")
                r = self.resolve_name(module, first)
                if isinstance(r, Module):
                    return self.resolve_qual(f"{r.name}.{rest}")
                if isinstance(r, tuple) and r[0] == "ext":
                    return ("ext", f"{r[1]}.{rest}")
        return None

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo.extend(self.bases(x))
        return out

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, c):
        return [k for k in self.all_classes() if k is not c and c in self.mro(k)]

    def ann_class(self, module, ann):
        """The repo class an annotation denotes (Optional[X] -> X), or None."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).split(".")[-1]
            if base == "Optional":
                return self.ann_class(module, ann.slice)
            if base == "Union" and isinstance(ann.slice, ast.Tuple):
                got = [self.ann_class(module, e) for e in ann.slice.elts]
                got = [g for g in got if g]
                return got[0] if len(got) == 1 and False else None
            return None
        r = self.resolve_expr(module, ann)
        return r if isinstance(r, Class) else None

    def ann_elem_class(self, module, ann):
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).split(".")[-1]
            if base in ("List", "Sequence", "Iterable", "Tuple", "list", "tuple", "Set", "Iterator"):
                e = ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) else ann.slice
                return self.ann_class(module, e)
            if base == "Optional":
                return self.ann_elem_class(module, ann.slice)
        return None

    def attr_ann(self, c, name):
        """(module, annotation) of an instance attribute, from the class body or methods."""
        for k in self.mro(c):
            if name in k.ann:
                return k.module, k.ann[name]
            if k._attr_types is None:
                k._attr_types = {}
                for f in k.methods.values():
                    anns = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                                and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                            k._attr_types.setdefault(n.target.attr, n.annotation)
                        elif isinstance(n, ast.Assign) and len(n.targets) == 1 \
                                and isinstance(n.targets[0], ast.Attribute) \
                                and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self":
                            v = n.value
                            if isinstance(v, ast.Name) and anns.get(v.id) is not None:
                                k._attr_types.setdefault(n.targets[0].attr, anns[v.id])
                            elif isinstance(v, ast.Call):
                                r = self.resolve_expr(k.module, v.func)
                                if isinstance(r, Class):
                                    k._attr_types.setdefault(n.targets[0].attr, v.func)
                            elif isinstance(v, ast.IfExp) and isinstance(v.body, ast.Call):
                                r = self.resolve_expr(k.module, v.body.func)
                                if isinstance(r, Class):
                                    k._attr_types.setdefault(n.targets[0].attr, v.body.func)
            if name in k._attr_types:
                return k.module, k._attr_types[name]
        return None


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None
