"""C02: exception handlers never swallow the timeout that ends the search, nor the user's interrupt."""
from __future__ import annotations

import ast

from vp.check import rule
from vp.project import Class, Func, dotted
from vp.rules.util import *  # noqa: F401,F403

TIMEOUT, INTERRUPT = "timeout", "interrupt"
T_NAMES = {"TimeoutException", "Exception", "BaseException"}
K_NAMES = {"KeyboardInterrupt", "BaseException"}
TIMED_MODULES = ("gama.search_methods", "gama.genetic_programming", "gama.utilities.generic.async_evaluator")
SK = "gama.genetic_programming.compilers.scikitlearn."


def scopes(p):
    """(qualified name, function node, module, class name) of every function, nested ones included."""
    for m in p.modules.values():
        def rec(node, prefix, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{prefix}.{ch.name}"
                    yield q, ch, m, cls
                    yield from rec(ch, q, cls)
                elif isinstance(ch, ast.ClassDef):
                    yield from rec(ch, f"{prefix}.{ch.name}", ch.name)
                else:
                    yield from rec(ch, prefix, cls)
        yield from rec(m.tree, m.name, None)


def own(node):
    """Nodes of a function body without those of nested functions and classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def exc_names(p, m, fn, e):
    """Names of the exception classes an expression denotes; None if not known."""
    if e is None:
        return {"BaseException"}
    if isinstance(e, (ast.Tuple, ast.List)):
        out = set()
        for x in e.elts:
            n = exc_names(p, m, fn, x)
            if n is None:
                return None
            out |= n
        return out
    if isinstance(e, (ast.Name, ast.Attribute)):
        if isinstance(e, ast.Name):
            r = p.resolve_name(m, e.id)
            if r is None:
                loc = [s for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
                if len(loc) == 1:
                    return exc_names(p, m, fn, loc[0].value)
                return {e.id} if not loc else None
            if isinstance(r, tuple) and r[0] == "glob":
                return exc_names(p, r[1], fn, r[1].assigns[r[2]]) if isinstance(r[1].assigns.get(r[2]), ast.AST) else None
            if isinstance(r, Class):
                return {r.qual.split(".")[-1]}
            return {r[1].split(".")[-1]} if isinstance(r, tuple) else None
        d = dotted(e)
        return {d.split(".")[-1]} if d else None
    return None


def signals(names):
    out = set()
    if names & T_NAMES:
        out.add(TIMEOUT)
    if names & K_NAMES:
        out.add(INTERRUPT)
    return out


def always_raises(stmts):
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)) and always_raises(s.body):
            return True
        if isinstance(s, ast.Try) and (always_raises(s.finalbody) or (always_raises(s.body) and not s.handlers)):
            return True
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s)):
            return False
    return False


def gives_up(body):
    """A plain return of the handler before anything is raised, on a condition that has nothing to do with time."""
    for s in body:
        if isinstance(s, ast.Return):
            return s.value is None or isinstance(s.value, ast.Constant)
        if isinstance(s, (ast.Raise, ast.Try, ast.With, ast.For, ast.While)):
            return False
        if isinstance(s, ast.If):
            txt = ast.unparse(s.test).lower()
            if any(w in txt for w in ("limit", "time", "remain", "elapsed", "deadline", "exceed", "(")):
                continue
            if gives_up(s.body) or gives_up(s.orelse):
                return True
    return False


def hands_on(h, p, m):
    """The handler may pass the exception on in a way we do not follow."""
    for n in ast.walk(h):
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, ast.Call):
            f = n.func
            if h.name and any(isinstance(a, ast.Name) and a.id == h.name for a in n.args) and not (isinstance(f, ast.Attribute) and dotted(f) and
                    dotted(f).split(".")[0] in ("log", "logging", "logger", "warnings", "traceback")) and not (isinstance(f, ast.Name) and f.id in ("str", "repr", "type", "print", "isinstance")):
                return True
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self":
                return True
            if isinstance(f, ast.Name) and isinstance(p.resolve_name(m, f.id), Func):
                return True
            if dotted(f) in ("sys.exit", "os._exit", "exit", "quit"):
                return True
    return False


def references(p):
    """simple name -> [(qual of the function the reference is in, kind)]"""
    refs = {}
    for m in p.modules.values():
        parents = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        owner = {}
        for q, fn, mm, _ in scopes(p):
            if mm is m:
                for n in own(fn):
                    owner[n] = q
        for n in ast.walk(m.tree):
            name = n.id if isinstance(n, ast.Name) else (n.attr if isinstance(n, ast.Attribute) else None)
            if not name or not isinstance(getattr(n, "ctx", None), ast.Load):
                continue
            par = parents.get(n)
            kind = "other"
            if isinstance(par, ast.keyword) and par.arg == "target":
                kind = "process"
            elif isinstance(par, ast.Call) and par.args and par.args[0] is n and isinstance(par.func, ast.Attribute) and par.func.attr == "submit":
                kind = "submit"
            refs.setdefault(name, []).append((owner.get(n), kind))
    return refs


def worker_only(p):
    """Functions that only ever run in worker processes (or are not used at all)."""
    refs = references(p)
    alls = [(q, fn) for q, fn, _, _ in scopes(p)]
    count = {}
    for q, fn in alls:
        count[fn.name] = count.get(fn.name, 0) + 1
    out = set()
    for _ in range(4):
        for q, fn in alls:
            if q in out or count[fn.name] > 1 or fn.decorator_list or (fn.name.startswith("__") and fn.name.endswith("__")):
                continue
            rs = refs.get(fn.name, [])
            if not rs and not fn.name.startswith("_") and "." in q and any(isinstance(c, Class) and fn.name in c.methods for c in p.all_classes()):
                continue  # public method: may be called by the user
            if all(k in ("process", "submit") or o in out or o == q for o, k in rs):
                out.add(q)
    return out


def timed(p):
    """Functions that run in the main process while the search's timeout can arrive."""
    out = set()
    gama = {}
    for q, fn, m, cls in scopes(p):
        if m.name.startswith(TIMED_MODULES):
            out.add(q)
        if m.name == "gama.gama":
            gama[fn.name] = (q, fn)
    todo = ["_search_phase", "_safe_outside_call", "_on_evaluation_completed"]
    # any function of the interface that starts the search is a phase
    for n, (q, fn) in gama.items():
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "search" for x in ast.walk(fn)):
            todo.append(n)
    while todo:
        n = todo.pop()
        if n in gama and gama[n][0] not in out:
            out.add(gama[n][0])
            for x in ast.walk(gama[n][1]):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in gama:
                    todo.append(x.attr)
    return out


WORK = ("wait_next", "submit", "search", "create", "individual")


def is_work(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in WORK


def whole_phase(p, m, fn, tr):
    """The try body holds the whole phase, and after it the function does no more search work."""
    def starts(n):
        if isinstance(n, ast.Call):
            d = dotted(n.func) or ""
            return d.split(".")[-1] == "AsyncEvaluator" or (isinstance(n.func, ast.Attribute) and n.func.attr == "search")
        return False
    if not any(starts(n) for s in tr.body for n in ast.walk(s)):
        return False
    for n in own(fn):
        if isinstance(n, (ast.For, ast.While)) and any(x is tr for x in ast.walk(n)):
            return False
    after = max(getattr(x, "end_lineno", 0) for s in tr.body for x in ast.walk(s) if hasattr(x, "end_lineno"))
    for n in own(fn):
        if is_work(n) and n.lineno > after:
            return False
    return True


@rule("C02", "handlers", "every handler that could catch the search's timeout or the user's interrupt passes it on or ends the phase")
def c02_handlers(ctx):
    p = ctx.p
    workers, tm = worker_only(p), timed(p)
    n_try = 0
    for q, fn, m, cls in scopes(p):
        for n in own(fn):
            where = f"{m.path.split('/repo/')[-1] if '/repo/' in m.path else m.name.replace('.', '/') + '.py'}:{q.replace(m.name + '.', '', 1)}:{getattr(n, 'lineno', 0)}"
            if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
                n_try += 1
                taken = set()
                for h in n.handlers:
                    names = exc_names(p, m, fn, h.type)
                    if names is None:
                        ctx.unk(where, "types of a handler not resolved", "types")
                        continue
                    for sig in sorted(signals(names) - taken):
                        judge(ctx, p, m, q, fn, n, h, sig, where, workers, tm)
                    taken |= signals(names)
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Return) and q not in workers and ".dashboard" not in m.name:
                            ctx.bad(where, "a return in a finally block swallows the timeout and the interrupt", "finally-return")
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and (dotted(c.func) or "").split(".")[-1] == "suppress":
                        n_try += 1
                        names = exc_names(p, m, fn, ast.Tuple(elts=list(c.args)))
                        if names is None:
                            ctx.unk(where, "types of suppress() not resolved", "types")
                            continue
                        sg = signals(names)
                        if not sg:
                            ctx.ok(where, "suppress() does not include timeout or interrupt", "suppress")
                        for sig in sorted(sg):
                            judge(ctx, p, m, q, fn, n, None, sig, where, workers, tm)
    if not n_try:
        ctx.abort("no exception handling found")


def judge(ctx, p, m, q, fn, tr, h, sig, where, workers, tm):
    key = f"{sig}"
    if q in workers:
        ctx.ok(where, f"{sig}: only runs in worker processes, not where the phase is timed", key)
    elif sig == TIMEOUT and q not in tm:
        ctx.ok(where, f"{sig}: no timed phase runs this code unprotected", key)
    elif h is not None and always_raises(h.body):
        ctx.ok(where, f"{sig}: the handler always raises", key)
    elif h is not None and gives_up(h.body) and not whole_phase(p, m, fn, tr):
        ctx.bad(where, f"a path of the handler swallows the {'timeout that ends the search' if sig == TIMEOUT else 'interrupt of the user'} and work goes on", key)
    elif h is not None and hands_on(h, p, m):
        ctx.unk(where, f"{sig}: whether the handler passes it on is not followed", key)
    elif whole_phase(p, m, fn, tr):
        ctx.ok(where, f"{sig}: the handler ends the whole phase", key)
    else:
        ctx.bad(where, f"a handler swallows the {'timeout that ends the search' if sig == TIMEOUT else 'interrupt of the user'} and work goes on", key)


@rule("C02", "exits", "context managers of the package do not suppress exceptions")
def c02_exits(ctx):
    p = ctx.p
    n = 0
    for q, fn, m, cls in scopes(p):
        if fn.name != "__exit__" or cls is None:
            continue
        n += 1
        rets = [x for x in own(fn) if isinstance(x, ast.Return) and x.value is not None]
        where = f"{m.name.replace('.', '/')}.py:{cls}.__exit__:{fn.lineno}"
        bad = [x for x in rets if isinstance(x.value, ast.Constant) and x.value.value]
        dub = [x for x in rets if not isinstance(x.value, ast.Constant)]
        ctx.decide(False if bad else (None if dub else True), where, "leaving the context passes exceptions on", "exit")
    if not n:
        ctx.abort("no context managers found")


@rule("C02", "inner-timeout", "a time limit inside the search does not absorb the timeout of the search itself")
def c02_inner(ctx):
    r = ctx.run(SK + "evaluate_pipeline")
    ws = [(w, d["term"]) for w, d in r.it.withs.items() if is_call(d["term"], "ThreadingTimeout", "SignalTimeout")]
    if not ws:
        ctx.abort("time limit not found")
    for w, t in ws:
        st = mk("attr", t, "state")
        inter = [mk("attr", t, "INTERRUPTED"), mk("attr", mk("ext", "stopit.ThreadingTimeout"), "INTERRUPTED")]

        def about(g):
            return contains(g, lambda x: is_attr(x, "INTERRUPTED"))
        after = [e for e in r.events if e.kind in ("raise", "return") and not any(c[0] == "with" and c[1] == w for c in e.ctx) and e.seq > max(
            [x.seq for x in r.events if any(c[0] == "with" and c[1] == w for c in x.ctx)], default=0)]
        rs = [e for e in after if e.kind == "raise" and contains(e.value, lambda x: "TimeoutException" in str(x.args[0]) if x.op in ("ext", "cls") else False)
              and any(about(g) and not (g.op == "not") for g in e.guards)]
        rets = [e for e in after if e.kind == "return"]
        if not rets:
            ctx.unk("evaluate_pipeline", "end of the evaluation not recognised")
            continue
        if rs:
            ok = True
            for e in rets:
                if not any(about(g) for g in e.guards):
                    ok = None
        else:
            ok = False if not any(about(g) for e in after for g in e.guards) and not any(about(x) for e in r.events for x in (list(e.args or ()) + [e.value or NONE])) else None
        ctx.decide(ok, rets[0].where(), "a timeout that is not this limit's own is raised again", "interrupted",
                   "the interrupted state is never looked at" if ok is False else "")


@rule("C02", "after-callback", "after a user callback the timeout is raised again if the phase is over")
def c02_callback(ctx):
    q = "gama.gama.Gama._safe_outside_call"
    if not ctx.has(q):
        ctx.abort("callback wrapper not found")
    from vp import arith
    r = ctx.run(q, opaque=("gama.utilities.generic.timekeeper.Activity.exceeded_limit",))
    calls = [e for e in r.events if e.kind == "call" and e.f is P_(r)]
    rs = [e for e in r.events if e.kind == "raise" and e.value is not None and contains(e.value, lambda x: x.op in ("ext", "cls") and "TimeoutException" in str(x.args[0]))]
    own_ = [e for e in rs if not any(c[0] in ("handler", "try") for c in e.ctx)]
    lim = [e for e in r.events if e.kind == "call" and e.callee.endswith("exceeded_limit")]
    if not calls:
        ctx.abort("callback call not recognised")
    w = calls[0].where()
    if not own_:
        ctx.decide(False if not lim else None, w, "a timeout swallowed by a callback is raised again", "again", "never raised")
        return
    for e in own_:
        over = [g for g in e.guards if contains(g, lambda x: is_call(x, "exceeded_limit"))]
        if not over:
            ctx.unk(e.where(), "condition of the repeated timeout not recognised")
            continue
        g = over[0]
        ctx.decide(False if g.op == "not" else True, e.where(), "the timeout is raised again when the phase has exceeded its limit", "when", show_(g))
        excg = [x for x in e.guards if x.op in ("exc", "not") and contains(x, lambda y: y.op == "exc")]
        ctx.decide(True if not [x for x in excg if x.op == "exc"] and not [x for x in excg if x.op == "not"] else None, e.where(), "whether or not the callback raised", "both-ways")
        others = [x for x in e.guards if x is not g and not contains(x, lambda y: y.op == "exc") and not contains(x, lambda y: is_attr(y, "current_activity"))]
        ctx.decide(True if not others else None, e.where(), "under no further condition", "only", ", ".join(map(show_, others)))
    for e in lim:
        mg = e.kw("margin", 0)
        ctx.decide(True if mg is None or (is_const(mg) and isinstance(cval(mg), (int, float)) and cval(mg) < 60) else (False if is_const(mg) else None), e.where(), "after a short margin", "margin", show_(mg))
        ctx.decide(True if contains(e.base or e.f, lambda x: is_attr(x, "current_activity")) else None, e.where(), "the limit is that of the running phase", "current")


def P_(r):
    from vp.rules.util import P
    return P(r, "fn", 0)
