"""Exported code (C25): the program text is built symbolically (one generic element per repetition) and parsed."""
from __future__ import annotations

import ast
import re

from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P
from vp.terms import simplify, subst

B = "gama.postprocessing."
BF = B + "best_fit.BestFitPostProcessing"
EP = B + "ensemble.EnsemblePostProcessing"
EX = "gama.utilities.export."
TERM = "gama.genetic_programming.components.terminal."
PRE = mk("param", "preprocessing")
ME = mk("param", "self")


class Text:
    """Symbolic text of a term in a scenario (truth values of some conditions)."""

    def __init__(self, r, e, env):
        self.r, self.e, self.env = r, e, env
        self.holes = {}        # placeholder -> (term, repetitions around it)
        self.vague = False
        self.stack = []

    def expand(self, t):
        for _ in range(6):
            if t.op == "loopphi":
                return t
            objs = [x for x in walk(t) if x.op in ("listobj", "setobj", "dictobj")]
            if not objs:
                return t
            m = {}
            for o in objs:
                v = self.r.ex(o, self.e)
                if v is o:
                    es = [x for x in self.r.events if x.cont and o in x.cont]
                    if es:
                        v = self.r.ex(o, es[-1])
                if v is not o:
                    m[o] = v
            if not m:
                return t
            for x in walk(t):
                if x.op == "loopphi":
                    m[x] = x
            t = subst(t, m)
        return t

    def decide(self, t):
        """Alternatives of t resolved by the scenario."""
        while True:
            t = self.expand(t)
            if t.op == "ite":
                c = foldb(t.args[0], self.env)
                if c is None:
                    return t
                t = t.args[1] if c else t.args[2]
            elif t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
                b, i = self.decide(t.args[0]), cval(t.args[1])
                if b.op not in ("tuple", "list") or any(x.op.startswith("seg_") and x.op != "seg_item" for x in b.args[0]) or not -len(b.args[0]) <= i < len(b.args[0]):
                    return t
                t = b.args[0][i]
                t = t.args[0] if t.op == "seg_item" else t
            else:
                return t

    def hole(self, t):
        n = f"H{len(self.holes)}q"
        self.holes[n] = (t, tuple(self.stack))
        return n

    def text(self, t):
        t = self.decide(t)
        if t.op == "const":
            return t.args[0] if isinstance(t.args[0], str) else repr(t.args[0])
        if t.op == "bin" and t.args[0] == "+":
            return self.text(t.args[1]) + self.text(t.args[2])
        if t.op == "fstr":
            return "".join(self.text(x) for x in t.args[0])
        if t.op == "pure" and t.args[0] in ("str", "builtins.str") and len(t.args[1]) == 1 and self.decide(t.args[1][0]).op in ("const", "fstr", "bin"):
            return self.text(t.args[1][0])
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0].op == "const":
            s, m = t.args[0].args[0].args[0], t.args[0].args[1]
            if m == "join" and len(t.args[1]) == 1:
                if any(r[0] == "?" for rs, _ in self.parts(t.args[1][0]) for r in rs):
                    return self.hole(t)
                return s.join(self.texts(t.args[1][0]))
            if m == "format" and not any(a.op.startswith("star") for a in t.args[1]):
                try:
                    return s.format(*[self.text(a) for a in t.args[1]], **{k: self.text(v) for k, v in t.args[2]})
                except (IndexError, KeyError, ValueError):
                    pass
        if t.op in ("list", "tuple"):
            return "[" + ", ".join(self.texts(t)) + "]"
        if t.op == "ite":
            self.vague = self.vague or any(x.op in ("fstr", "join") for x in walk(t))
        return self.hole(t)

    def texts(self, t):
        out = []
        for reps, el in self.parts(t):
            old = self.stack
            self.stack = old + reps
            out.append(self.text(el))
            self.stack = old
        return out

    def parts(self, t):
        """[(repetitions, element)] in order."""
        t = self.decide(t)
        if t.op in ("list", "tuple", "set", "frozenset"):
            return [x for s in t.args[0] for x in self.seg(s)]
        if t.op == "sorted":
            return [([("sorted", t)] + r, e) for r, e in self.parts(t.args[0])]
        if t.op == "rev":
            return [([("rev", t)] + r, e) for r, e in reversed(self.parts(t.args[0]))]
        if t.op == "slice" and t.args[0].op != "param":
            lo, hi, st = (None if x is NONE or x.op == "missing" else x for x in t.args[1:4])
            ps = self.parts(t.args[0])
            if lo is None and hi is None and st in (None, const(1)):
                return ps
            if lo is None and hi is None and st is const(-1):
                return [([("rev", t)] + r, e) for r, e in reversed(ps)]
            if ps and not any(r[0] == "?" for rs, _ in ps for r in rs):
                return [([("part", t)] + r, e) for r, e in ps]
        if t.op == "map" and len(t.args) == 2 and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.str", "builtins.repr", "str", "repr"):
            return [([("each", t.args[1], (), False)], mk("pure", t.args[0].args[0].rsplit(".", 1)[-1], (mk("elem", t.args[1], -1),), ()))]
        if t.op == "loopphi":
            key = mk("loopphi", t.args[0], t.args[1])
            if key in self.env:
                return []
            L = self.r.it.loops.get(t.args[0])
            phi = [v for k, v in (L or {}).get("phis", {}).items() if k.args[:2] == t.args[:2]]
            if phi:
                init, cur = phi[0]
                a = self.parts(init)
                old, self.env = self.env, {**self.env, key: ()}
                b = self.parts(cur)
                self.env = old
                return a + [([("each", L["base"], (), False)] + r, e) for r, e in b]
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("union", "__or__", "copy"):
            out = self.parts(t.args[0].args[0])
            for a in t.args[1]:
                out += self.parts(a)
            return out
        if t.op == "bin" and t.args[0] in ("+", "|"):
            return self.parts(t.args[1]) + self.parts(t.args[2])
        if is_call(t, "set", "list", "tuple") and len(t.args[1]) == 1:
            return self.parts(t.args[1][0])
        self.vague = True
        return [([("?", t)], t)]

    def seg(self, s):
        if s.op == "seg_item":
            return [([], s.args[0])]
        if s.op == "seg_splice":
            return self.parts(s.args[0])
        if s.op == "seg_if":
            c = foldb(s.args[0], self.env)
            if c is not None:
                return [x for y in s.args[1:2] for x in self.seg(y)] if c else []
            return [([("if", s.args[0])] + r, e) for y in s.args[1:2] for r, e in self.seg(y)]
        if s.op == "seg_each":
            lid, base, guards, el = s.args
            base = self.decide(base)
            gs = [g for g in guards if foldb(g, self.env) is not True]
            if any(foldb(g, self.env) is False for g in gs):
                return []
            if base.op in ("list", "tuple", "set", "sorted") or base.op == "bin":
                out = []
                for reps, x in self.parts(base):
                    m = {y: x for y in walk(el) if y.op == "elem" and (y.args[0] is s.args[1] or y.args[0] is base)}
                    e2 = simplify(subst(el, m), ())
                    g2 = tuple(simplify(subst(g, m), ()) for g in gs)
                    reps = reps + ([("if", band(g2))] if g2 else [])
                    out += [(reps + r, z) for r, z in (self.seg(e2) if e2.op.startswith("seg_") else [([], e2)])]
                return out
            rev = False
            while base.op == "rev":
                rev, base = not rev, base.args[0]
            inner = self.seg(el) if el.op.startswith("seg_") else [([], el)]
            return [([("each", base, tuple(gs), rev)] + r, z) for r, z in inner]
        if s.op.startswith("seg_"):
            self.vague = True
            return [([("?", s)], s)]
        return [([], s)]

    def find(self, node):
        """Holes inside an AST node: [(term, repetitions)]."""
        names = set()
        for x in ast.walk(node):
            for f in ("id", "attr", "arg", "name", "module"):
                v = getattr(x, f, None)
                if isinstance(v, str):
                    names.update(re.findall(r"H\d+q", v))
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                names.update(re.findall(r"H\d+q", x.value))
        return [self.holes[n] for n in sorted(names)]


def norm(t):
    """A base without copies: zip of one sequence with itself, list(x), x.items()..."""
    if t.op == "zip":
        bs = {norm(x) for x in t.args[0]}
        if len(bs) == 1:
            return bs.pop()
    if t.op == "list" and len(t.args[0]) == 1 and t.args[0][0].op == "seg_splice":
        return norm(t.args[0][0].args[0])
    if is_call(t, ".values", ".items"):
        return norm(t.args[0].args[0])
    return t


def kind_of(base):
    return part_of(base)[0]


def part_of(base):
    """(kind, whether only a part of it, reversed)"""
    base = norm(base)
    if base.op == "slice":
        k, p, rv = part_of(base.args[0])
        lo, hi, st = (None if x is NONE or x.op == "missing" else x for x in base.args[1:4])
        if lo is None and hi is None and st in (None, const(1)):
            return k, p, rv
        if lo is None and hi is None and st is const(-1):
            return k, p, not rv
        return k, True, rv
    if base.op == "enumerate":
        return part_of(base.args[0])
    if base is PRE:
        return "pre", False, False
    if is_attr(base, "primitives"):
        return "primitives", False, False
    if is_attr(base, "_terminals") or is_attr(base, "terminals"):
        return "terminals", False, False
    if is_attr(base, "steps"):
        return "steps", False, False
    if is_attr(base, "_models"):
        return "models", False, False
    if base.op == "range":
        ls = [x for x in walk(base) if x.op == "len"]
        if len(ls) == 1 and is_attr(norm(ls[0].args[0]), "_models"):
            full = base in (mk("range", (ls[0],)), mk("range", (const(0), ls[0])))
            arith = all(x.op in ("bin", "const", "len", "tuple") for a in base.args[0] for x in [a])
            return ("models", not full, False) if full or arith else (None, False, False)
    if is_call(base, ".get_params") or any(is_call(x, ".get_params") for x in walk(base)):
        return "params", False, False
    return None, False, False


def reps_of(holes):
    """The repetitions all holes of a node share (longest)."""
    best = ()
    for _, st in holes:
        if len(st) > len(best):
            best = st
    return best


def shape(st):
    """[(kind, reversed, guarded)] of the repetitions, or None when one is not understood."""
    out = []
    for s in st:
        if s[0] == "each":
            k, part, rv = part_of(s[1])
            if k is None:
                return None
            out.append((k, s[3] != rv, bool(s[2]) or part))
        elif s[0] == "sorted":
            out.append(("sorted", False, False))
        elif s[0] in ("rev", "part"):
            out.append((s[0], False, s[0] == "part"))
        else:
            return None
    return out


def entries(tx, call):
    """[(name node, value node)] of Pipeline([...]) or Voting...([...])."""
    if not call.args or not isinstance(call.args[0], ast.List):
        return None
    out = []
    for x in call.args[0].elts:
        if not isinstance(x, ast.Tuple) or len(x.elts) != 2:
            return None
        out.append(x.elts)
    return out


def assigns(tree):
    return [(x.targets[0].id, x.value) for x in tree.body if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)]


def origin(tx, node):
    """Kind of the outermost repetition of a step, whether reversed, whether guarded, and the inner kinds."""
    hs = tx.find(node)
    st = shape(reps_of(hs))
    return st


def check_steps(ctx, tx, where, ents, want, label):
    """The step entries follow `want`: list of kinds, "pre", "primitives" or a constant name."""
    got = []
    for n, v in ents:
        st = origin(tx, ast.Tuple([n, v], ast.Load()))
        if st is None:
            ctx.unk(where, f"{label}: origin of a step not known", "steps")
            return
        outer = [s for s in st if s[0] in ("pre", "primitives", "steps", "rev", "sorted", "part")]
        if not outer:
            got.append((ast.unparse(v), n, v, False, False))
            continue
        k = [s for s in outer if s[0] in ("pre", "primitives", "steps")]
        rev = (sum(s[1] for s in outer) + sum(s[0] == "rev" for s in outer)) % 2 == 1
        got.append((k[0][0] if k else "?", n, v, rev, any(s[2] for s in outer) or any(s[0] == "sorted" for s in outer)))
    kinds = [g[0] for g in got]
    names = {"pre": "the preparation steps", "primitives": "the steps of the pipeline", "ensemble": "the ensemble"}
    if "?" in kinds or "steps" in kinds:
        ctx.unk(where, f"{label}: origin of a step not known", "steps")
        return
    ctx.decide(kinds == want, where, f"{label}: the steps are {', then '.join(names.get(k, k) for k in want)} (they are {', then '.join(names.get(k, k) for k in kinds) or 'none'})", "steps")
    for k, n, v, rev, guarded in got:
        if k not in ("pre", "primitives"):
            continue
        ctx.decide(not guarded, where, f"{label}: {names[k]} are all there, in their order", f"all:{k}")
        # primitives start with the estimator: data flows through them from last to first
        ctx.decide(rev is (k == "primitives"), where, f"{label}: {names[k]} are in the order in which data passes them", f"order:{k}")
        hs = tx.find(n)
        dep = [t for t, _ in hs if any(x.op in ("elem", "idx") for x in walk(t))]
        ctx.decide(True if dep else False if not hs else None, where, f"{label}: {names[k]} have different names", f"names:{k}")
        vs = tx.find(v)
        if k == "primitives":
            if isinstance(v, ast.Call):
                inner = [t for t, st in vs if any(s[0] == "each" and kind_of(s[1]) == "terminals" for s in st)]
                some = any(kind_of(x) == "terminals" for t, _ in vs for x in walk(t) if x.op == "attr")
                ctx.decide(True if inner else None if some else False, where, f"{label}: the steps have their hyperparameter values", "values")
                g = [s for t, st in vs for s in st if s[0] == "each" and kind_of(s[1]) == "terminals" and (s[2] or part_of(s[1])[1])]
                for t, _ in vs:
                    if t.op == "pure" and t.args[0].rsplit(".", 1)[-1] == "repr" and t.args[1][0].op == "elem":
                        q = ctx.run(TERM + "Terminal.__repr__", opaque=(TERM + "format_hyperparameter_value",))
                        pre = any(is_attr(x, "identifier") for e in q.returns() for x in walk(e.value))
                        ctx.decide(False if pre else None, where, f"{label}: hyperparameters are written by name, without the name of the algorithm before it", "named")
                ctx.decide(not g, where, f"{label}: all hyperparameter values are written", "all-values")
                fn = tx.find(v.func)
                prim = [t for t, _ in fn if any(is_attr(x, "_primitive") or is_attr(x, "primitive") for x in walk(t))]
                ctx.decide(True if prim else None, where, f"{label}: the steps are the algorithms of the pipeline", "algorithm")
            else:
                ctx.unk(where, f"{label}: value of a step", "values")
        else:
            if isinstance(v, ast.Name) and len(vs) == 1:
                t = vs[0][0]
                whole = t.op == "pure" and t.args[0].rsplit(".", 1)[-1] in ("str", "repr") or t.op in ("call",) and is_call(t, "str", "repr") or t.op == "item" or t.op == "elem"
                ctx.decide(False if whole else None, where, f"{label}: the settings of preparation steps are written in full (str() of an estimator abbreviates lists of more than 30 values)", "abbreviated")
            elif isinstance(v, ast.Call):
                inner = [t for t, st in vs if any(s[0] == "each" and kind_of(s[1]) == "params" for s in st)]
                ctx.decide(bool(inner), where, f"{label}: the preparation steps have their settings", "settings")
                g = [s for t, st in vs for s in st if s[0] == "each" and kind_of(s[1]) == "params" and s[2]]
                falsy = any(c.op in ("item", "elem") for s in g for c in s[2])      # left out when 0, False, None or empty
                ctx.decide(True if not g else False if falsy else None, where, f"{label}: all settings of preparation steps are written" + (", also 0, False, None and empty ones" if falsy else ""), "all-settings")
                # keyword values must be valid source text
                for kw in v.keywords:
                    for t, _ in tx.find(kw.value):
                        rp = t.op == "pure" and t.args[0].rsplit(".", 1)[-1] == "repr" or is_call(t, "repr") or t.op == "conv" or any(x.op == "pure" and x.args[0].rsplit(".", 1)[-1] == "repr" for x in walk(t))
                        ctx.decide(True if rp else None if t.op not in ("item", "elem") else False, where, f"{label}: settings of preparation steps are written as source text", "literal")


def check_imports(ctx, tx, tree, where, need, label):
    imps = [(x, a) for x in tree.body if isinstance(x, ast.ImportFrom) for a in x.names]
    lit = {(x.module, a.name) for x, a in imps if not re.search(r"H\d+q", (x.module or "") + a.name)}
    for m, n in need["literal"]:
        ctx.decide((m, n) in lit or (None if tx.vague else False), where, f"{label}: `{n}` is imported from {m}", f"import:{n}")
    seen = {}
    for x, a in imps:
        hm, hn = [tx.holes[h] for h in re.findall(r"H\d+q", x.module or "")], [tx.holes[h] for h in re.findall(r"H\d+q", a.name)]
        if not hn:
            continue
        st = shape(hn[0][1])
        if st is None:
            tx.vague = True
            continue
        ks = [s[0] for s in st]
        inner = [k for k in ks if k in ("pre", "primitives", "steps", "terminals")]
        guarded = [s for s in hn[0][1] if s[0] == "each" and (s[2] or part_of(s[1])[1])]
        seen.setdefault(inner[-1] if inner else "?", []).append((hm, hn, guarded, ks))
    for kind, alts, what in need["each"]:
        found = [f for k in alts for f in seen.get(k, [])]
        if kind == "values":
            good = []
            for hm, hn, guarded, ks in found:
                env = {}
                for s in guarded:
                    for g in s[2]:
                        for x in walk(g):
                            if x.op == "pure" and x.args[0].rsplit(".", 1)[-1] == "callable" or x.op == "hasattr" or is_call(x, "callable"):
                                env[x] = True
                            elif x.op == "isinstance" and x.args[1].op == "ext" and x.args[1].args[0] == "builtins.type":
                                env[x] = False      # a function is no class
                v = [on(s[2], env) for s in guarded]
                good.append(False if False in v else None if None in v else True)
            ctx.decide(True if True in good else False if all(g is False for g in good) and not tx.vague else None, where, f"{label}: {what} are imported", f"import:{kind}")
            continue
        good = [f for f in found if not f[2]]
        part = all(any(part_of(s[1])[1] for s in f[2]) for f in found)
        ctx.decide(True if good else (False if part and not tx.vague else None), where, f"{label}: {what} are imported", f"import:{kind}")
        for hm, hn, _, ks in good:
            objs = set()
            for t, _ in hn:
                for x in walk(t):
                    if is_attr(x, "__class__"):
                        objs.add(x.args[0])
            if len(objs) == 1 and hm:
                o = objs.pop()
                mods = mk("attr", o, "__module__")
                clsmod = mk("attr", mk("attr", o, "__class__"), "__module__")
                for path, want in (("sklearn.ensemble._forest", ("sklearn.ensemble", "sklearn.ensemble._forest")), ("category_encoders.one_hot", ("category_encoders.one_hot",)), ("sklearn._x.knn", ("sklearn._x.knn",)), ("xgboost.sklearn", ("xgboost.sklearn",)), ("lightgbm", ("lightgbm",))):
                    try:
                        got = evalstr(hm[0][0], {mods: path, clsmod: path})
                    except CantFold:
                        ctx.unk(where, f"{label}: module of an import", "module")
                        continue
                    ctx.decide(got in want, where, f"{label}: a class of module {path} is imported from {want[0]} (from {got})", "module")


def evalstr(t, env):
    """String value of a term with split, join and slices."""
    if t in env:
        return env[t]
    if t.op == "ite":
        return evalstr(t.args[1] if evalstr(t.args[0], env) else t.args[2], env)
    if t.op == "slice":
        b = evalstr(t.args[0], env)
        lo, hi, st = (None if x is NONE or x.op == "missing" else evalstr(x, env) for x in t.args[1:4])
        return b[lo:hi:st]
    if t.op == "item":
        try:
            return evalstr(t.args[0], env)[evalstr(t.args[1], env)]
        except (IndexError, TypeError):
            raise CantFold
    if t.op == "not":
        return not evalstr(t.args[0], env)
    if t.op == "call" and t.args[0].op == "attr" and not t.args[2]:
        b = evalstr(t.args[0].args[0], env)
        if isinstance(b, str) and t.args[0].args[1] in ("split", "rsplit", "join", "startswith", "endswith", "partition", "rpartition", "rfind", "find", "strip", "lstrip", "replace", "removesuffix"):
            try:
                return getattr(b, t.args[0].args[1])(*[evalstr(a, env) for a in t.args[1]])
            except (TypeError, ValueError):
                raise CantFold
    return fold(t, env)


def scenario(r, pre, classification=None, proba=None):
    env = {}
    if pre:
        env[mk("cmp", "is", PRE, NONE)] = False
        env[PRE] = ["a step"]
    else:
        env[PRE] = None
    for e in r.events:
        for t in ([e.value] if e.value is not None else []) + list(e.guards):
            for x in walk(t):
                if x.op == "isinstance" and is_attr(x.args[0], "_ensemble") and x.args[1].op == "cls":
                    env[x] = x.args[1].args[0].endswith("Classifier") == bool(classification)
                if is_attr(x, "requires_probabilities"):
                    env[x] = bool(proba)
                if is_attr(x, "_selected_individual"):
                    env[mk("cmp", "is", x, NONE)] = False
    return env


def code_of(ctx, r, env, label):
    """(Text, tree, where) of the code returned in a scenario."""
    rets = []
    for e in r.events:
        if e.kind in ("return", "raise") and [c for c in e.ctx if c[0] == "fn"][-1][2] == 0:
            g = on(e.guards, env)
            if g is not False:
                rets.append((g, e))
    if len(rets) != 1 or rets[0][0] is None:
        ctx.unk(fwhere(r), f"{label}: not decided which code is returned", "code")
        return None
    e = rets[0][1]
    if e.kind == "raise":
        ctx.bad(e.where(), f"NOT: {label}: code is returned", "code")
        return None
    tx = Text(r, e, dict(env))
    s = tx.text(e.value)
    if re.fullmatch(r"H\d+q", s):
        ctx.unk(e.where(), f"{label}: text not known", "code")
        return None
    try:
        tree = ast.parse(s)
    except SyntaxError as x:
        ctx.decide(None if tx.vague else False, e.where(), f"{label}: the code is valid Python ({x.msg}: {(x.text or '').strip()[:60]})", "syntax")
        return None
    ctx.ok(e.where(), f"{label}: the code is valid Python", "syntax")
    return tx, tree, e.where()


EACH = [("steps", ("steps", "primitives"), "the classes of the pipeline's steps"), ("values", ("terminals",), "functions used as hyperparameter values")]
PREP = [("pre", ("pre",), "the classes of the preparation steps")]


@rule("C25", "best-fit-code", "the code of a single pipeline: preparation steps, then the pipeline's steps in data order with their hyperparameter values; everything used is imported")
def bestfit(ctx):
    r = ctx.run(BF + ".to_code", self_cls=BF)
    for pre in (True, False):
        label = "single pipeline" + (" with preparation" if pre else "")
        got = code_of(ctx, r, scenario(r, pre), label)
        if got is None:
            continue
        tx, tree, w = got
        pl = [v for n, v in assigns(tree) if n == "pipeline"]
        if not pl:
            ctx.decide(None if tx.vague else False, w, f"{label}: `pipeline` is defined", "defined")
            continue
        ctx.ok(w, f"{label}: `pipeline` is defined", "defined")
        v = pl[-1]
        ents = entries(tx, v) if isinstance(v, ast.Call) and ast.unparse(v.func) == "Pipeline" else None
        if ents is None:
            ctx.unk(w, f"{label}: steps not found", "steps")
            continue
        check_steps(ctx, tx, w, ents, (["pre"] if pre else []) + ["primitives"], label)
        sel = [x for t, st in tx.holes.values() for s in st if s[0] == "each" for x in [s[1]] if kind_of(x) == "primitives"]
        for x in sel[:1]:
            ctx.decide(True if any(is_attr(y, "_selected_individual", ME) for y in walk(x)) else None, w, f"{label}: the code is that of the selected individual", "selected")
        check_imports(ctx, tx, tree, w, {"literal": [("sklearn.pipeline", "Pipeline"), ("numpy", "nan")], "each": EACH + (PREP if pre else [])}, label)
    # what was selected is what was fitted
    if ctx.has(BF + ".post_process"):
        q = ctx.run(BF + ".post_process", self_cls=BF)
        for e in q.returns():
            c = e.value
            sel = attr_at(q, e, ME, "_selected_individual")
            if is_call(c, ".fit") and sel is not None:
                b = c.args[0].args[0]
                ctx.decide(True if b is mk("attr", sel, "pipeline") else None if not is_attr(b, "pipeline") else False, e.where(), "the individual that is exported is the one that was fitted", "same")


@rule("C25", "ensemble-code", "the code of an ensemble: a pipeline for every member, all members with their weights, the kind of vote of the ensemble, and the preparation steps before it; everything used is imported")
def ensemble(ctx):
    r = ctx.run(EP + ".to_code", self_cls=EP)
    for pre in (True, False):
        for cl, proba in ((True, True), (True, False), (False, False)):
            label = f"ensemble of {'classifiers' if cl else 'regressors'}{' (probabilities)' if proba else ''}{' with preparation' if pre else ''}"
            got = code_of(ctx, r, scenario(r, pre, cl, proba), label)
            if got is None:
                continue
            tx, tree, w = got
            asg = assigns(tree)
            voter = "VotingClassifier" if cl else "VotingRegressor"
            ens = [v for n, v in asg if n == "ensemble"]
            if not ens or not isinstance(ens[-1], ast.Call):
                ctx.decide(None if tx.vague else False, w, f"{label}: `ensemble` is defined", "defined")
                continue
            v = ens[-1]
            ctx.decide(ast.unparse(v.func) == voter, w, f"{label}: the ensemble is a {voter} (it is {ast.unparse(v.func)})", "voter")
            kw = {k.arg: k.value for k in v.keywords}
            if cl:
                got_v = kw["voting"].value if isinstance(kw.get("voting"), ast.Constant) else "hard" if "voting" not in kw else None
                ctx.decide(None if got_v is None else got_v == ("soft" if proba else "hard"), w, f"{label}: members vote by {'probability' if proba else 'class'} (voting is {got_v!r})", "voting")
            else:
                ctx.decide("voting" not in kw, w, f"{label}: no voting scheme for regressors", "voting")
            ents = entries(tx, v)
            if ents is None:
                ctx.unk(w, f"{label}: members not found", "members")
            else:
                ok = []
                for n, x in ents:
                    st = origin(tx, ast.Tuple([n, x], ast.Load()))
                    ok.append(None if st is None else [s[0] for s in st] == ["models"] and not st[0][1] and not st[0][2])
                ctx.decide(None if None in ok else ok == [True], w, f"{label}: all members are in the ensemble, in order", "members")
                for n, x in ents:
                    pn = [p for p, _ in asg if re.sub(r"H\d+q", "", p) == re.sub(r"H\d+q", "", ast.unparse(x))]
                    ctx.decide(bool(pn) or (None if tx.vague else False), w, f"{label}: every member is defined before it is used", "member-defined")
                    nn = tx.find(n)
                    ctx.decide(True if nn else False, w, f"{label}: members have different names", "member-names")
            wt = kw.get("weights")
            if wt is None:
                ctx.decide(None if tx.vague else False, w, f"{label}: members have their weights", "weights")
            elif isinstance(wt, ast.List) and len(wt.elts) == 1 and tx.find(wt):
                (t, st), sh = tx.find(wt)[0], shape(tx.find(wt)[0][1])
                if sh is None:
                    ctx.unk(w, f"{label}: weights not decided", "weights")
                else:
                    same = [s[0] for s in sh] == ["models"] and not sh[0][1] and not sh[0][2]
                    one = t.op == "item" and t.args[1] is const(1)
                    ctx.decide(True if same and one else False if not same or (t.op == "item" and t.args[1] is const(0)) or t.op == "const" else None, w, f"{label}: members have their weights, in order", "weights")
            else:
                ctx.decide(False if isinstance(wt, ast.List) and not tx.find(wt) or isinstance(wt, ast.Constant) else None, w, f"{label}: members have their weights", "weights")
            # member pipelines
            mem = [(n, x) for n, x in asg if re.search(r"H\d+q", n)]
            for n, x in mem[:1]:
                st = shape(tx.holes[re.findall(r"H\d+q", n)[0]][1])
                ctx.decide(None if st is None else [s[0] for s in st] == ["models"] and not st[0][2], w, f"{label}: every member has its own pipeline", "own")
                es = entries(tx, x) if isinstance(x, ast.Call) else None
                if es is None:
                    ctx.unk(w, f"{label}: steps of a member", "steps")
                else:
                    check_steps(ctx, tx, w, es, ["primitives"], label + ", member")
            if not mem:
                ctx.decide(None if tx.vague or any(n.startswith("pipeline") for n, _ in asg) and not ents else False, w, f"{label}: every member has its own pipeline", "own")
            if pre:
                pl = [x for n, x in asg if n == "pipeline"]
                es = entries(tx, pl[-1]) if pl and isinstance(pl[-1], ast.Call) else None
                if es is None:
                    ctx.decide(None if tx.vague or pl else False, w, f"{label}: `pipeline` with the preparation steps is defined", "prepared")
                else:
                    check_steps(ctx, tx, w, es, ["pre", "ensemble"], label)
            check_imports(ctx, tx, tree, w, {"literal": [("sklearn.pipeline", "Pipeline"), ("numpy", "nan"), ("sklearn.ensemble", voter)], "each": EACH + (PREP if pre else [])}, label)


@rule("C25", "hyperparameter-text", "hyperparameter values are written as Python source: strings quoted, functions by name, other values as they print")
def values(ctx):
    T = TERM
    r = ctx.run(T + "format_hyperparameter_value")
    v = P(r, "value", 0)
    call = mk("pure", "callable", (v,), ())
    for e0 in [None]:
        for val, want in (("mean", ("'mean'", '"mean"')), ("", ("''", '""')), (5, ("5",)), (0, ("0",)), (0.25, ("0.25",)), (True, ("True",)), (False, ("False",)), (None, ("None",))):
            env = {v: val}
            for e in r.events:
                for t in list(e.guards) + ([e.value] if e.value is not None else []):
                    for x in walk(t):
                        if x.op == "pure" and x.args[0].rsplit(".", 1)[-1] == "callable" or x.op == "hasattr":
                            env[x] = False
            live = [(on(e.guards, env), e) for e in r.returns()]
            live = [x for x in live if x[0] is not False]
            if len(live) != 1 or live[0][0] is None:
                ctx.unk(fwhere(r), f"{val!r}: not decided", "value")
                continue
            try:
                got = txt(live[0][1].value, env)
            except CantFold:
                ctx.unk(live[0][1].where(), f"{val!r}: text not decided", "value")
                continue
            ctx.decide(got in want, live[0][1].where(), f"the value {val!r} is written as {want[0]} (as {got})", "value")
    # each value is written next to the name of its hyperparameter
    for m in ("__str__",):
        q = ctx.run(T + "Terminal." + m, opaque=(T + "format_hyperparameter_value",))
        for e in q.returns():
            t = e.value
            if t.op == "fstr" and len(t.args[0]) == 3:
                a, b, c = t.args[0]
                nm = is_attr(a, "output")
                ctx.decide(True if nm and b is const("=") and contains(c, mk("attr", ME, "value")) else False if is_attr(a, "identifier") or is_attr(a, "value") or b.op == "const" and b is not const("=") else None, e.where(), "a hyperparameter is written as name=value", "named")
            else:
                ctx.unk(e.where(), "text of a hyperparameter", "named")


def txt(t, env):
    if t.op == "pure" and t.args[0].rsplit(".", 1)[-1] == "repr":
        return repr(fold(t.args[1][0], env))
    if t.op == "pure" and t.args[0] == "format":
        try:
            return format(fold(t.args[1][0], env), txt(t.args[1][1], env))
        except (TypeError, ValueError):
            return "an error"
    if t.op == "fstr":
        return "".join(str(txt(x, env)) for x in t.args[0])
    if t.op == "ite":
        return txt(t.args[1] if fold(t.args[0], env) else t.args[2], env)
    return fold(t, env)


@rule("C25", "export", "export_script refuses without a model or when the file must not be overwritten, before anything is written; it writes the code of the preparation steps of this fit and the found model, and returns the same code")
def script(ctx):
    G = "gama.gama.Gama."
    r = ctx.run(G + "export_script")
    model, enc, ext = (mk("attr", ME, n) for n in ("model", "_basic_encoding_pipeline", "_fixed_pipeline_extension"))
    f, rie = P(r, "file", 0), P(r, "raise_if_exists", 1)
    opens = [e for e in r.events if e.kind == "call" and (e.callee == "builtins.open" or e.callee.startswith((".write", "os.remove", "shutil.")))]
    opens = [e for e in opens if e.callee == "builtins.open"] or opens
    exist = {x for e in r.events for g in e.guards for x in walk(g) if is_call(x, "os.path.isfile", "os.path.exists", ".exists", ".is_file")}
    codes = r.calls(".to_code")

    def env(m, fl, flag, there):
        d = {model: m, f: fl, rie: flag, mk("cmp", "is", model, NONE): m is None, enc: "an encoder", mk("cmp", "is", enc, NONE): False}
        for x in exist:
            d[x] = there
        return d
    for m, fl, flag, there in ((None, "a.py", False, False), (None, None, False, False), ("model", "a.py", True, True), ("model", "a.py", True, False), ("model", "a.py", False, True), ("model", "a.py", False, False), ("model", None, True, False), ("model", None, False, False)):
        d = env(m, fl, flag, there)
        refuse = m is None or (flag and there)
        sit = f"{'no model' if m is None else 'model'}, file {fl!r}{' that exists' if there else ''}{', must not exist' if flag else ''}"
        rs = [on(e.guards, d) for e in r.events if e.kind == "raise"]
        ws = [(on(e.guards, d), e) for e in opens]
        rt = [(on(e.guards, d), e) for e in r.returns()]
        if refuse:
            ctx.decide(True if True in rs else None if None in rs else False, fwhere(r), f"{sit}: refused", "refused")
            for g, e in ws:
                ctx.decide(None if g is None else not g, e.where(), f"{sit}: nothing is written", "untouched")
        else:
            ctx.decide(False if True in rs else None if None in rs else True, fwhere(r), f"{sit}: not refused", "accepted")
            if fl is None:
                for g, e in ws:
                    ctx.decide(None if g is None else not g, e.where(), f"{sit}: nothing is written", "nofile")
            else:
                ctx.decide(True if any(g for g, _ in ws) else None if any(g is None for g, _ in ws) or not ws else False, fwhere(r), f"{sit}: the file is written", "written")
            for g, e in rt:
                if g:
                    ctx.decide(True if any(is_call(x, ".to_code") for x in walk(e.value)) else False if e.value is NONE else None, e.where(), f"{sit}: the code is returned", "returned")
    for e in opens:
        if e.callee != "builtins.open":
            continue
        md = e.kw("mode", 1)
        ctx.decide(None if md is None or md.op != "const" else md.args[0] in ("w", "wt", "x", "w+"), e.where(), "the file is replaced by the code", "mode")
        ctx.decide(e.kw("file", 0) is f or None, e.where(), "the file that is named is written", "path")
        for q in r.calls(".write"):
            a = q.args[0] if q.args else None
            ctx.decide(True if a is not None and any(is_call(x, ".to_code") for x in walk(a)) else None, q.where(), "the code is written", "content")
    for e in codes:
        ctx.decide(True if is_attr(e.base, "_post_processing") else None, e.where(), "the code is that of the model found", "model")
        a = e.kw("preprocessing", 0)
        if a is None:
            ctx.bad(e.where(), "NOT: the preparation steps are part of the code", "preparation")
            continue
        none_enc = any(g is mk("cmp", "is", enc, NONE) for g in e.guards) or on(e.guards, {mk("cmp", "is", enc, NONE): False, enc: "x"}) is False
        a = picked(r.ex(a, e), {mk("cmp", "is", enc, NONE): False, enc: "x"})
        if none_enc:
            continue
        steps = mk("attr", enc, "steps")
        pos = {}
        order = list(walk_in_order(a)) if a is not None else []
        ctx.decide(steps in order and ext in order or (None if a is None or vague(a) and not (ext in order or steps in order) else False), e.where(), "encoding and imputation steps are part of the code", "preparation")
        if steps in order and ext in order:
            ctx.decide(order.index(steps) < order.index(ext), e.where(), "encoding comes before the other preparation steps", "preparation-order")


def picked(t, env):
    while t.op == "ite":
        c = foldb(t.args[0], env)
        if c is None:
            return t
        t = t.args[1] if c else t.args[2]
    return t


def walk_in_order(t):
    """Sub-terms in source order."""
    yield t
    for a in t.args:
        if isinstance(a, Term):
            yield from walk_in_order(a)
        elif isinstance(a, (tuple, list)):
            for x in a:
                if isinstance(x, Term):
                    yield from walk_in_order(x)
