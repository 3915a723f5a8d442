"""Worker processes: life cycle (C16) and memory limit (C17)."""
from __future__ import annotations

import ast

from vp import arith, logic
from vp.check import rule
from vp.project import dotted
from vp.rules.util import *  # noqa: F401,F403
from vp.conc import conc, Broken, CantFold as CantConc
from vp.rules.util import P

A = "gama.utilities.generic.async_evaluator."
E_ = A + "AsyncEvaluator."
ME = mk("param", "self")
PROCS = mk("attr", ME, "_processes")
KILL = (".terminate", ".kill", ".send_signal")
LOGMEM, GETMEM, STOP, START = E_ + "_log_memory_usage", E_ + "_get_memory_usage", E_ + "_stop_worker_process", E_ + "_start_worker_process"


def procs(t, r=None, e=None):
    """Is the term the list of workers, or a copy of it?"""
    if t is PROCS:
        return "same"
    if r is not None and t.op == "listobj":
        t = r.ex(t, e)
    if t.op == "pure" and t.args[0] in ("list", "tuple", "reversed", "iter") and len(t.args[1]) == 1:
        return "copy" if procs(t.args[1][0], r, e) else None
    if t.op == "rev":
        return "copy" if procs(t.args[0], r, e) else None
    if is_call(t, ".copy") and t.args[0].op == "attr" and t.args[0].args[0] is PROCS:
        return "copy"
    if t.op == "slice" and t.args[0] is PROCS and all(x is NONE or x.op == "missing" for x in t.args[1:4]):
        return "copy"
    if t.op in ("list", "tuple"):
        sq = seqnorm(t)
        if sq and len(sq) == 1 and (sq[0][0] == "splice" and sq[0][2] is PROCS or sq[0][0] == "each" and sq[0][2] is PROCS and is_elem(sq[0][3]) and not sq[0][1]):
            return "copy"
    return None


def stopped(ctx, r, e):
    """How event e (a kill) covers the workers: 'all', 'skips', None."""
    b = e.base
    loops = [c[1] for c in in_ctx(e, "loop")]
    if not loops:
        return None
    lid = loops[-1]
    info = r.it.loops[lid]
    if info["kind"] == "while":
        c = info.get("cond")
        if c is None:
            return None
        about = contains(c, lambda x: x is PROCS)
        if about and (b.op == "item" and b.args[0] is PROCS or is_call(b, ".pop") or b.op == "elem"):
            more = [simplify(c, {cmp_("<", const(0), mk("len", PROCS))}), c]
            if any(x is TRUE for x in more) or c is PROCS or c is cmp_("<", const(0), mk("len", PROCS)) or logic.implies([cmp_("<", const(0), mk("len", PROCS))], c):
                return "all"
            cs = c.args[0] if c.op == "and" and len(c.args) == 1 else (c.args if c.op == "and" else ())
            if any(contains(x, lambda y: y.op == "param" and y.args[0] in ("exc_type", "exc_val", "exc_tb")) and not vague(x) for x in cs):
                return "skips"
            if c.op == "cmp" and c.args[0] == "<" and is_const(c.args[1]) and c.args[1].args[0] > 0:
                return "skips"
        return None
    it = info.get("iter")
    if it is None or not (b.op == "elem"):
        return None
    k = procs(it, r, e)
    if k is None:
        if it.op == "slice" and it.args[0] is PROCS:
            return "skips"
        return None
    if info.get("breaks"):
        return None
    if k == "same":
        rem = [x for x in r.events if x.kind in ("call", "mutate") and x.base is PROCS and (x.callee or x.name or "").split(".")[-1] in ("remove", "pop", "clear") and (("loop", lid) in [c[:2] for c in x.ctx])]
        return "skips" if rem else "all"
    return "all"


def trivial(g):
    """Guards that only say that a loop ended, or an exception was caught."""
    if g.op in ("exc", "loopend"):
        return True
    if g.op == "not":
        return trivial(g.args[0])
    if g.op in ("or", "and"):
        vs = g.args[0] if len(g.args) == 1 and isinstance(g.args[0], (tuple, list)) else g.args
        return any(trivial(x) for x in vs) if g.op == "or" else all(trivial(x) for x in vs)
    if is_call(g, ".empty"):
        return True
    if g.op == "cmp" and contains(g, lambda x: x is PROCS):
        return True
    if g is PROCS:
        return True
    return False


@rule("C16", "stopped-on-exit", "leaving the context stops every worker, whatever the reason for leaving")
def c16_exit(ctx):
    r = ctx.run(E_ + "__exit__")
    kills = [e for e in r.events if e.kind == "call" and e.callee in KILL]
    if not kills:
        odd = [e for e in r.events if e.kind == "call" and (e.callee.startswith("os.kill") or "psutil.wait" in e.callee)]
        ctx.decide(None if odd else False, E_ + "__exit__", "the workers are stopped", "stopped")
        return
    cov = [(e, stopped(ctx, r, e)) for e in kills]
    w = kills[0].where()
    if any(c == "all" for _, c in cov):
        e = [e for e, c in cov if c == "all"][0]
        rest = [g for g in e.guards if not trivial(g)]
        exc = [g for g in rest if contains(g, lambda x: x.op == "param" and x.args[0] in ("exc_type", "exc_val", "exc_tb"))]
        ctx.decide(True if not rest else (False if exc and not vague(exc[0]) else None), e.where(), "the workers are stopped on every way out", "always", show_(rest[0]) if rest else "")
        ctx.decide(True, e.where(), "every worker is stopped", "every")
    else:
        ctx.decide(False if all(c == "skips" for _, c in cov) else None, w, "every worker is stopped", "every")
    for e in r.returns():
        if e.seq < kills[0].seq:
            bad = [g for g in e.guards if not trivial(g)]
            ctx.decide(None if not bad else False, e.where(), "there is no way out that leaves workers running", "early-return", show_(bad[0]) if bad else "")
    # leaving the loop that stops them before all are stopped
    for e, c in cov:
        lids = [x[1] for x in in_ctx(e, "loop")]
        for b in (r.it.loops[lids[-1]].get("breaks") or []) if lids else []:
            hx = [g for g in b.guards if g.op == "exc"]
            ctx.decide(False if hx and len([k for k, _ in cov]) == 1 else None, e.where(), "a worker that is gone already does not keep the others running", "break")
    for e, c in cov:
        lid = [x[1] for x in in_ctx(e, "loop")]
        tr = [x for x in e.ctx if x[0] == "try" and (not lid or e.ctx.index(x) > e.ctx.index(("loop", lid[-1])))]
        types = [t for x in tr for t in handler_types(r, x[1])]
        ok = any(t is None or any(n.split(".")[-1] in ("NoSuchProcess", "Error", "Exception", "BaseException") for n in t) for t in types)
        sup = [x for x in e.ctx if x[0] == "with" and is_call(r.it.withs[x[1]]["term"], "contextlib.suppress")]
        ctx.decide(True if ok or sup else (False if not types else None), e.where(), "a worker that is gone already does not keep the others running", "gone", str(types))
    st = [e for e in r.events if e.kind == "call" and e.callee.endswith(("multiprocessing.Process", "_start_worker_process"))]
    ctx.decide(not st, st[0].where() if st else w, "no worker is started on the way out", "none-started")


@rule("C16", "stop-signal", "every worker is asked to stop, and queued work is discarded")
def c16_signal(ctx):
    r = ctx.run(E_ + "__exit__")
    puts = [e for e in r.events if e.kind == "call" and e.callee in (".put", ".put_nowait") and is_attr(e.base, "_command")]
    kills = [e for e in r.events if e.kind == "call" and e.callee in KILL]
    for e in puts:
        lp = in_ctx(e, "loop")
        it = r.it.loops[lp[-1][1]].get("iter") if lp else None
        full = it is not None and (procs(it, r, e) or it.op == "range" and len(it.args[0]) == 1 and it.args[0][0] in (mk("len", PROCS), mk("attr", ME, "_n_jobs")))
        short = not lp or it is not None and it.op == "slice" and it.args[0] is PROCS
        ctx.decide(True if full else (False if short else None), e.where(), "every worker gets a stop signal", "signal", show_(it))
    if not puts:
        ctx.decide(False if kills else None, E_ + "__exit__", "workers are asked to stop before they are terminated", "signal")
    gets = [e for e in r.events if e.kind == "call" and e.callee in (".get", ".get_nowait") and is_attr(e.base, "_input")]
    new = [e for e in r.events if e.kind == "call" and e.callee in (".cancel_join_thread", ".close", ".join_thread") and is_attr(e.base, "_input")]
    drained = partly = False
    for e in gets:
        lp = in_ctx(e, "loop")
        info = r.it.loops[lp[-1][1]] if lp else None
        if info is not None and info["kind"] == "while" and info.get("cond") is not None and (info["cond"] is TRUE or contains(info["cond"], lambda x: is_call(x, ".empty"))):
            neg_ = info["cond"].op == "not" or info["cond"] is TRUE
            # leaving the loop after an item was taken off, not because there was none
            early = [b for b in info.get("breaks") or () if info["cond"] is not TRUE and not any(g.op == "exc" or is_call(g, ".empty") or contains(g, lambda x: is_call(x, ".qsize")) for g in b.guards)]
            drained = drained or neg_ and not early
            partly = partly or bool(early)
    ctx.decide(True if drained else (False if not gets or partly else None), gets[0].where() if gets else E_ + "__exit__", "queued work is discarded", "discarded")
    if gets and kills and puts:
        ctx.decide(True if max(p.seq for p in puts) < min(k.seq for k in kills) else False, puts[0].where(), "workers are asked to stop before they are terminated", "order")
    sub = ctx.run(A + "evaluator_daemon")
    cq, iq = P(sub, "command_queue", 2), P(sub, "input_queue", 0)
    cg = [e for e in sub.events if e.kind == "call" and e.callee in (".get", ".get_nowait", ".empty") and e.base is cq]
    ig = [e for e in sub.events if e.kind == "call" and e.callee in (".get", ".get_nowait") and e.base is iq]
    if not ig:
        ctx.abort("worker loop not recognised")
    if not cg:
        ctx.decide(False, ig[0].where(), "a worker looks for the stop signal", "obeys")
        return
    lp = in_ctx(ig[0], "loop")
    ctx.decide(True if lp and in_ctx(cg[0], "loop", [c[1] for c in lp]) else (False if lp else None), cg[0].where(), "the stop signal is looked for before every evaluation", "each")
    if lp:
        info = sub.it.loops[lp[-1][1]]
        ends = bool(info.get("breaks")) or any(in_ctx(e, "loop", [lp[-1][1]]) for e in sub.returns()) or info.get("cond") is not TRUE
        ctx.decide(ends, cg[0].where(), "the stop signal ends the worker", "ends")
        ctx.decide(True if cg[0].seq < ig[0].seq else None, cg[0].where(), "the stop signal goes before the next evaluation", "first")
        on = [g for g in ig[0].guards if g.op == "exc" or contains(g, lambda x: x in [e.res for e in cg])]
        ctx.decide(True if on else None, ig[0].where(), "no evaluation is started after the stop signal", "not-after")


@rule("C16", "started", "entering the context starts the configured number of workers, once, on the queues work is submitted to")
def c16_enter(ctx):
    r = ctx.run(E_ + "__enter__", opaque=(LOGMEM,))
    st = [e for e in r.events if e.kind == "call" and e.callee == "multiprocessing.Process"]
    if not st:
        ctx.abort("workers are not started here")
    for e in st:
        lp = in_ctx(e, "loop")
        it = r.it.loops[lp[-1][1]].get("base") if lp else None
        nj = mk("attr", ME, "_n_jobs")
        full = it is not None and it.op == "range" and it.args[0] in ((nj,), (const(0), nj))
        other = it is not None and it.op == "range" and all(arith.poly(x) is not None and {y for k in arith.poly(x) for y in k} <= {nj} for x in it.args[0])
        ctx.decide(True if full else (False if other or not lp else None), e.where(), "as many workers are started as configured", "number", show_(it))
        d = e.kw("daemon", None)
        dm = [x for x in r.events if x.kind == "setattr" and x.name == "daemon" and x.base is e.res]
        v = d if d is not None else (dm[-1].value if dm else None)
        ctx.decide(True if v is TRUE else (False if v is None or v is FALSE else None), e.where(), "workers cannot outlive the main process", "daemon", show_(v))
        args = e.kw("args", None)
        q = {n: (attr_at(r, e, ME, n) or mk("attr", ME, n)) for n in ("_input", "_output", "_command")}
        if args is not None and args.op == "tuple":
            for i, n in enumerate(("_input", "_output", "_command")):
                x = args.args[0][i] if i < len(args.args[0]) else None
                final = attr_at(r, None, ME, n) or mk("attr", ME, n)
                ctx.decide(True if x is final else (False if x in q.values() or x is mk("attr", ME, n) and x is not final else None), e.where(), f"workers use the evaluator's {n[1:]} queue", "queue:" + n, show_(x))
        ad = [x for x in r.events if x.kind in ("call", "mutate") and (x.callee or x.name or "").endswith("append") and x.base is not None and (x.base is PROCS)]
        ctx.decide(True if ad and any(contains(a, lambda y: y is e.res) for x in ad for a in x.args) else (False if not ad and not attr_at(r, None, ME, "_processes") else None), e.where(),
                   "each started worker is remembered", "remembered")
        go = [x for x in r.events if x.kind == "call" and x.callee == ".start" and x.base is e.res]
        ctx.decide(bool(go), e.where(), "each worker is really started", "go")
    he = mk("attr", ME, "_has_entered")
    rs = [e for e in r.events if e.kind == "raise"]
    ctx.decide(True if any(he in e.guards for e in rs) and attr_at(r, None, ME, "_has_entered") is TRUE else (False if not rs and not any(contains(g, lambda x: x.op == "attr") for e in st for g in e.guards) else None), st[0].where(), "an evaluator is entered only once", "once")


@rule("C16", "in-context", "every evaluator is used as a context, so that its workers are stopped")
def c16_with(ctx):
    n = 0
    for f in ctx.p.all_funcs():
        withs = set()
        names = set()
        for node in ast.walk(f.node):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                for it in node.items:
                    withs.add(id(it.context_expr))
                    if isinstance(it.context_expr, ast.Name):
                        names.add(it.context_expr.id)
            if isinstance(node, ast.Call) and (dotted(node.func) or "").endswith("enter_context") and node.args:
                withs.add(id(node.args[0]))
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call):
                q = ctx.p.resolve_expr(f.module, node.func)
                if getattr(q, "qual", None) == A + "AsyncEvaluator":
                    n += 1
                    w = f"{f.qual}:{node.lineno}"
                    if id(node) in withs:
                        ctx.ok(w, "the evaluator is used as a context")
                        continue
                    asg = [s for s in ast.walk(f.node) if isinstance(s, ast.Assign) and s.value is node and isinstance(s.targets[0], ast.Name) and s.targets[0].id in names]
                    entered = any(isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "__enter__" for s in ast.walk(f.node))
                    ret = any(isinstance(s, ast.Return) and s.value is node for s in ast.walk(f.node))
                    ctx.decide(True if asg else (False if entered else None), w, "the evaluator is used as a context", "with")
    if not n:
        ctx.abort("no evaluator is used")


def counted(g):
    """Whether any worker is left: true only when the last one died."""
    x = g.args[0] if g.op == "not" else g
    return g.op == "not" and (is_attr(x, "_processes") or x.op in ("list", "listobj")) or g.op == "cmp" and contains(g, lambda y: y.op == "len") and contains(g, const(0))


@rule("C16", "replaced", "a worker found dead is taken off the list and replaced")
def c16_replaced(ctx):
    r = ctx.run(GETMEM)
    mi = [e for e in r.events if e.kind == "call" and e.callee in (".memory_info", ".memory_full_info")]
    if not mi:
        ctx.abort("memory is not read here")
    for e in mi:
        tr = [c for c in e.ctx if c[0] == "try"]
        ok = False
        for c in tr:
            for i, t in enumerate(handler_types(r, c[1])):
                if t is None or any(n.split(".")[-1] in ("NoSuchProcess", "Error", "Exception") for n in t):
                    ok = (c[1], i)
        ctx.decide(bool(ok), e.where(), "a worker that died does not break the search", "caught")
        if not ok:
            continue
        hx = mk("exc", *ok)
        st = [x for x in r.events if x.kind == "call" and x.callee in ("multiprocessing.Process", START) and hx in x.guards]
        only = [g for x in st[:1] for g in x.guards if g is not hx and contains(g, lambda y: is_attr(y, "_processes") or any(y is z.value for z in r.events if z.kind == "setattr" and z.name == "_processes"))] if len(st) == 1 else []
        ctx.decide(True if st and all(g is hx for x in st[:1] for g in x.guards) else (False if not st or only and all(counted(g) for g in only) else None), st[0].where() if st else e.where(), "a worker that died is replaced", "replaced")
        rm = [x for x in r.events if (x.kind == "setattr" and x.name == "_processes" or x.kind in ("call", "mutate") and (x.callee or x.name or "").split(".")[-1] in ("remove", "pop")) and hx in x.guards]
        ctx.decide(True if rm else False, rm[0].where() if rm else e.where(), "a worker that died is taken off the list", "removed")
        for x in rm:
            if x.kind != "setattr" or not st:
                continue
            ctx.decide(x.seq < st[0].seq, x.where(), "the replacement stays on the list", "kept")
            v = r.ex(x.value, x)
            sq = seqnorm(v)
            if sq and len(sq) == 1 and sq[0][0] == "each":
                g = sq[0][1]
                el = sq[0][3]
                dead_ = e.base
                same = [y for y in g if y.op == "cmp" and y.args[0] == "==" or y.op == "cmp" and y.args[0] == "is"]
                diff = [y for y in g if y.op == "not" and y.args[0].op == "cmp" and y.args[0].args[0] in ("==", "is")]
                ctx.decide(True if diff and not same else (False if same and not diff or not g else None), x.where(), "the others stay on the list", "others", show_(v))
        lp = in_ctx(e, "loop")
        it = r.it.loops[lp[-1][1]].get("iter") if lp else None
        itx = r.ex(it, e) if it is not None else None
        zomb = [x for x in r.events if x.kind == "call" and x.callee in (".status", ".is_running") and x.base is e.base]
        ctx.decide(True if zomb else (False if not any(x.kind == "call" and x.callee in (".poll", ".wait", ".is_alive", "multiprocessing.active_children", "os.waitpid") for x in r.events) else None), e.where(),
                   "a worker that died but was not waited for yet counts as dead", "zombie")
        seen = [x.res for x in zomb if x.callee == ".status"]
        mem = [y for x in r.events for g in x.guards for y in walk(g) if y.op in ("item", "attr") and y.args[0] is e.res]
        env = {**{x: "zombie" for x in seen}, mk("ext", "psutil.STATUS_ZOMBIE"): "zombie", **{y: 0 for y in mem}}
        acts = [x for x in r.events if x.kind in ("raise", "call") and any(contains(g, lambda y: y in seen) for g in x.guards) and (x.kind == "raise" or x.callee.endswith(("_start_worker_process", ".wait")))]
        for x in acts:
            vs = [foldb(g, env) for g in x.guards]
            ctx.decide(True if all(v is True for v in vs) else False if False in vs else None, x.where(), "a worker is replaced when it is a zombie", "zombie-dead", ", ".join(map(show_, x.guards)))
            live = [foldb(g, {**env, **{y: "sleeping" for y in seen}, **{y: 10 ** 8 for y in mem}}) for g in x.guards]
            ctx.decide(True if False in live else False if all(v is True for v in live) else None, x.where(), "a running worker is not taken for dead", "alive", ", ".join(map(show_, x.guards)))
        if itx is not None:
            full = contains(itx, lambda y: y is PROCS)
            ctx.decide(True if full else None, e.where(), "every worker is looked at", "all")


@rule("C16", "stop-one", "stopping a worker terminates it, waits for it, and takes it off the list")
def c16_stop(ctx):
    r = ctx.run(STOP)
    p = P(r, "process", 0)
    k = [e for e in r.events if e.kind == "call" and e.callee in KILL and e.base is p]
    w_ = [e for e in r.events if e.kind == "call" and e.callee in (".wait", ".join") and e.base is p]
    rm = [e for e in r.events if e.kind in ("call", "mutate") and (e.callee or e.name or "").split(".")[-1] == "remove" and e.args and e.args[0] is p]
    oth = [e for e in r.events if e.kind == "setattr" and e.name == "_processes"]
    ctx.decide(True if any(not e.guards for e in k) else (False if not k else None), k[0].where() if k else STOP, "the worker is terminated", "terminated")
    ctx.decide(True if w_ else False, w_[0].where() if w_ else STOP, "the worker is waited for, so that it does not stay as a zombie", "waited")
    ctx.decide(True if any(not e.guards for e in rm) else (False if not rm and not oth else None), rm[0].where() if rm else STOP, "the worker is taken off the list", "removed")
    if k and w_:
        ctx.decide(k[0].seq < w_[0].seq, k[0].where(), "the worker is terminated before it is waited for", "order")


# ---------------------------------------------------------------- C17
@rule("C17", "checked", "memory is checked each time round the loop that awaits a result")
def c17_checked(ctx):
    CTRL = E_ + "_control_memory_usage"
    r = ctx.run(E_ + "wait_next", opaque=(CTRL, LOGMEM))
    gets = [e for e in r.events if e.kind == "call" and e.callee in (".get", ".get_nowait") and is_attr(e.base, "_output")]
    cs = [e for e in r.events if e.kind == "call" and e.callee == CTRL]
    if not gets:
        ctx.abort("results are not awaited here")
    if not cs:
        ctx.decide(None if not ctx.has(CTRL) else False, gets[0].where(), "memory is checked while waiting", "checked")
        return
    lp = in_ctx(gets[0], "loop")
    e = cs[0]
    if lp:
        ctx.decide(bool(in_ctx(e, "loop", [c[1] for c in lp])), e.where(), "memory is checked every time a result is looked for", "each")
        linfo = r.it.loops[lp[-1][1]]
        extra = [g for g in e.guards if g not in linfo.get("head_guards", ()) and g is not linfo.get("cond") and not contains(g, lambda x: x.op == "loopphi") and g.op not in ("exc",) and not (g.op == "not" and g.args[0].op == "exc") and not contains(g, lambda x: is_attr(x, "futures"))]
        ctx.decide(True if not extra else (None if vague(extra[0]) or contains(extra[0], lambda x: is_attr(x, "_memory_limit_mb")) else False), e.where(), "memory is checked unconditionally", "always", show_(extra[0]) if extra else "")


def ctrl(ctx):
    return ctx.run(E_ + "_control_memory_usage", opaque=(LOGMEM, GETMEM, STOP, START))


LIM = mk("attr", ME, "_memory_limit_mb")


@rule("C17", "limit", "workers are stopped exactly when all processes together exceed the limit")
def c17_limit(ctx):
    r = ctrl(ctx)
    stops = [e for e in r.events if e.kind == "call" and (e.callee == STOP or e.callee in KILL)]
    mem = [e for e in r.events if e.kind == "call" and e.callee == GETMEM]
    if not stops or not mem:
        ctx.abort("memory control not recognised")
    M = mem[0].res
    seen = []
    for e in stops:
        gl = [g for g in e.guards if not (arith.lincmp(g) is not None and contains(g, lambda x: x is LIM))]
        nolim = logic.implies(gl, neg(cmp_("is", LIM, NONE)))
        ctx.decide(True if nolim else (None if any(vague(g) for g in gl) or contains(mk("tuple", e.guards), lambda x: x is LIM) and LIM in e.guards else False), e.where(), "without a limit nothing is stopped", "no-limit")
        over = None
        for g in e.guards:
            if g.op in ("cmp", "not") and contains(g, lambda x: x is LIM) and contains(g, lambda x: x is M or x.op == "sum"):
                over = g
        if over is None:
            ctx.decide(False if not any(vague(g) for g in e.guards) and not any(contains(g, lambda x: x is M) and contains(g, lambda x: x is LIM) for g in e.guards) else None, e.where(),
                       "a worker is stopped only when the limit is exceeded", "over")
            continue
        sums = [x for x in walk(over) if x.op == "sum"]
        big = [x for x in walk(over) if x.op in ("max", "min") and contains(x, lambda y: y is M)]
        if big and not sums:
            ctx.bad(e.where(), "NOT: all processes together are compared with the limit", "together")
            continue
        lc = arith.lincmp(over)
        if lc is None or len(sums) != 1:
            ctx.unk(e.where(), "comparison with the limit not recognised: " + show_(over))
            continue
        p, strict = lc
        co = {k[0]: v for k, v in p.items() if len(k) == 1}
        s, l = co.get(sums[0]), co.get(LIM)
        ctx.decide(None if s is None or l is None or len(p) != 2 else (s == -1 and l == 1 or s == l * -1 and l > 0), e.where(), "a worker is stopped when the sum exceeds the limit, not otherwise", "over", show_(over))
        arg = sums[0].args[0]
        part = [x for x in walk(arg) if x.op == "slice"]
        ctx.decide(True if contains(arg, lambda x: x is M) and not part else (False if part else None), e.where(), "all processes count, the main process included", "sum", show_(arg))
    # is a worker stopped whenever the limit is exceeded?
    gs = [tuple(e.guards) for e in stops]
    base = [g for g in gs[0] if all(g in x for x in gs)]
    extra = [bor_([band_([g for g in x if g not in base]) for x in gs])] if len(gs) > 1 else [band_([g for g in gs[0] if not rel(g, M)])]
    ok = logic.implies([], extra[0]) if len(gs) > 1 else None
    oth = [g for g in base if not rel(g, M)]
    one = [g for g in gs[0] if not rel(g, M)] if len(gs) == 1 else []
    alien = [g for g in oth if not vague(g) and not contains(g, lambda x: x is PROCS) and contains(g, lambda x: x.op == "attr" and x.args[0] is ME)]
    skip = bool(alien) or bool(one) and not any(vague(g) for g in one) and not in_ctx(stops[0], "loop")
    ctx.decide(True if (len(gs) > 1 and ok and not oth) or (len(gs) == 1 and not [g for g in gs[0] if not rel(g, M)]) else (False if skip or len(gs) > 1 and not ok and not any(vague(g) for x in gs for g in x) else None), stops[0].where(),
               "whenever the limit is exceeded a worker is stopped", "always-stops")


def bor_(xs):
    from vp.terms import bor
    return bor(xs)


def band_(xs):
    return band(xs)


def conj(t):
    if t.op == "and":
        vs = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], (tuple, list)) else t.args
        return [y for x in vs for y in conj(x)]
    return [t]


def rel(g, M):
    return contains(g, lambda x: x is LIM) or contains(g, lambda x: x is M) or g is LIM


def by_sample(op, key):
    """Does the key put the process with most memory first, for a few workloads of every magnitude?"""
    els = {x.args[0] for x in walk(key) if x.op == "item" and is_elem(x.args[0])} | {x for x in walk(key) if is_elem(x)}
    if len(els) != 1:
        return None
    E = els.pop()
    try:
        for mems in ((30.5, 90.25, 40.0), (100.2, 100.7, 100.1), (512.0, 700.5, 100.0), (5000.0, 4100.5, 6200.0), (20000.0, 90000.0, 3000.0)):
            for pids in ((11, 12, 13), (13, 12, 11), (12, 11, 13), (12, 13, 11)):
                env = lambda m, q: {E: (q, m), mk("item", E, const(1)): m, mk("item", E, const(0)): q, mk("attr", mk("item", E, const(0)), "pid"): q}
                ks = [conc(key, env(m, q)) for m, q in zip(mems, pids)]
                if mems[ks.index((max if op == "max" else min)(ks))] != max(mems):
                    return False
    except (CantConc, Broken, TypeError):
        return None
    return True


@rule("C17", "biggest", "the worker that is stopped is the one using most memory, never the main process")
def c17_biggest(ctx):
    r = ctrl(ctx)
    stops = [e for e in r.events if e.kind == "call" and (e.callee == STOP or e.callee in KILL)]
    mem = [e for e in r.events if e.kind == "call" and e.callee == GETMEM]
    if not stops or not mem:
        ctx.abort("memory control not recognised")
    M = mem[0].res
    r2 = ctx.run(GETMEM)
    main = mk("attr", ME, "_main_process")
    pos = None
    for y in [e for e in r2.events if e.kind == "yield"]:
        lp = in_ctx(y, "loop")
        sq = seqnorm(r2.ex(r2.it.loops[lp[-1][1]].get("iter"), y)) if lp else None
        if sq and len(sq) == 2:
            k = [i for i, x in enumerate(sq) if x[0] == "item" and x[3] is main]
            o = [i for i, x in enumerate(sq) if x[0] in ("splice", "each") and x[2] is PROCS]
            pos = k[0] if len(k) == 1 and len(o) == 1 else None
    for e in stops:
        t = e.kw("process", 0) if e.callee == STOP else e.base
        t = t if t is not None else NONE
        mx = [x for x in walk(t) if x.op in ("max", "min", "sorted", "nlargest", "nsmallest") or x.op in ("max2", "min2")]
        if not mx:
            ctx.decide(False if not vague(t) and t.op in ("item", "elem") and contains(t, lambda x: x is PROCS) else None, e.where(), "the worker with most memory is stopped", "biggest", show_(t))
            continue
        x = mx[0]
        if x.op in ("max", "min"):
            el, key = x.args[0], x.args[1]
            ismem = key.op == "item" and key.args[1] is const(1)
            isproc = not contains(key, lambda y: y.op == "item" and y.args[1] is const(1)) and contains(key, lambda y: y.op == "item" and y.args[1] is const(0)) and not contains(key, lambda y: is_call(y, ".memory_info", ".memory_full_info", ".memory_percent"))
            ctx.decide((x.op == "max") if ismem else (False if isproc else by_sample(x.op, key)), e.where(), "the worker with most memory is stopped", "biggest", show_(x))
            base = [y for y in walk(el) if y.op == "slice"]
            if base:
                b = base[0]
                lo, hi = b.args[1], b.args[2]
                no = lambda x: x is NONE or x.op == "missing"
                front = lo is const(1) and no(hi)
                back = (no(lo) or lo is const(0)) and hi is const(-1)
                known = (no(lo) or is_const(lo)) and (no(hi) or is_const(hi))
                ctx.decide(True if front and pos == 0 or back and pos == 1 else (False if known and pos is not None else None), e.where(), "only workers are candidates", "not-main", show_(b))
            elif contains(el, lambda y: y is M) and not contains(el, lambda y: y.op in ("seg_if", "filter")) and not any(s.op == "seg_each" and s.args[2] for s in walk(el)):
                whole = el is M or el.op == "pure" or el.op in ("list",)
                ctx.decide(False if whole else None, e.where(), "only workers are candidates", "not-main", show_(el))
            pick = t
            ctx.decide(True if pick.op == "item" and pick.args[1] is const(0) and pick.args[0] is x else None, e.where(), "what is stopped is the process, as found", "process", show_(t)[:60])
        else:
            ctx.unk(e.where(), "choice of the worker not recognised: " + show_(x)[:80])
    ys = [e for e in r2.events if e.kind == "yield"]
    for y in ys:
        v = y.value
        lp = in_ctx(y, "loop")
        it = r2.ex(r2.it.loops[lp[-1][1]].get("iter"), y) if lp else None
        sq = seqnorm(it) if it is not None else None
        if sq:
            ctx.decide(True if any(x[0] == "item" and x[3] is main for x in sq) else (False if all(x[0] in ("splice", "each") and x[2] is PROCS for x in sq) else None), y.where(), "the main process is measured too", "main", show_(it))
        if v.op == "tuple" and len(v.args[0]) == 2:
            ctx.decide(True if is_elem(v.args[0][0]) else None, y.where(), "each process is reported with its memory", "pair")
            a = v.args[0][1]
            mi = [x for x in walk(a) if is_call(x, ".memory_info", ".memory_full_info")]
            if mi and is_elem(v.args[0][0]):
                who = mi[0].args[0].args[0] if mi[0].args[0].op == "attr" else None
                ctx.decide(None if who is None else who is v.args[0][0], y.where(), "the memory reported is that of the process", "own-memory")
                lc = arith.poly(a)
                ks = [(k, c) for k, c in lc.items()]
                if len(ks) == 1 and len(ks[0][0]) == 1:
                    f = ks[0][0][0]
                    unit = ks[0][1]
                    ctx.decide(True if abs(unit * 2**20 - 1) < 1e-9 else (False if f.op == "item" else None), y.where(), "memory is measured in megabytes, as the limit is", "unit", str(unit))
                    if f.op == "item":
                        ctx.decide(f.args[1] is const(0), y.where(), "resident memory is measured", "rss", show_(f))


@rule("C17", "one-remains", "a stopped worker is replaced when it was the last one, so at least one remains")
def c17_remains(ctx):
    r = ctrl(ctx)
    stops = [e for e in r.events if e.kind == "call" and (e.callee == STOP or e.callee in KILL)]
    starts = [e for e in r.events if e.kind == "call" and e.callee in (START, "multiprocessing.Process")]
    if not stops:
        ctx.abort("memory control not recognised")
    last = cmp_("==", mk("len", PROCS), const(1))
    for e in stops:
        later = [s for s in starts if s.seq > e.seq]
        if any(set(s.guards) <= set(e.guards) for s in later):
            ctx.decide(True, e.where(), "the stopped worker is replaced", "replaced")
            continue
        g = list(e.guards)
        more = logic.implies(g, neg(last))
        gt = any(x.op == "cmp" and x.args[0] in ("<", "<=") and x.args[2] is mk("len", PROCS) and is_const(x.args[1]) and x.args[1].args[0] >= (1 if x.args[0] == "<" else 2) for x in g)
        cond = [s for s in later if contains(mk("tuple", s.guards), lambda x: x is mk("len", PROCS) or x is PROCS)]
        if more or gt:
            ctx.decide(True, e.where(), "a worker is given up only if others remain", "others")
        elif cond:
            rest = [band_([x for x in s.guards if x not in e.guards]) for s in cond]
            ok = any(logic.implies(g + [last], x) for x in rest)
            # under which circumstances is the last worker not replaced?
            more = [y for x in rest for y in conj(x) if not contains(y, lambda z: z is PROCS) and not vague(y)]
            alien = [y for y in more if contains(y, lambda z: z.op == "attr" and z.args[0] is ME and z.args[1] not in ("_processes", "_mem_violations", "_mem_behaved", "_memory_limit_mb"))]
            ctx.decide(True if ok else (False if alien else None), e.where(), "a worker is given up only if others remain", "others")
        else:
            ctx.decide(False if not any(vague(x) for x in g) else None, e.where(), "a worker is given up only if others remain", "others", show_(g[-1]) if g else "")
    for e in r.events:
        if e.kind == "call" and e.callee == STOP:
            n = [s for s in stops if s.seq != e.seq and not logic.disjoint(list(s.guards), list(e.guards))]
            ctx.decide(True if not n and not in_ctx(e, "loop") else None, e.where(), "one worker is stopped per check", "one")
    mx = [x for e in stops for x in walk(e.kw("process", 0) or NONE) if x.op in ("max", "min")]
    for x in mx[:1]:
        e = stops[0]
        d = x.args[2] if len(x.args) > 2 else None
        M = [y.res for y in r.events if y.kind == "call" and y.callee == GETMEM][0]
        ln = [g for g in e.guards if contains(g, lambda y: y.op == "len" and contains(y, lambda z: z is M)) or contains(g, lambda y: y is x.args[0])]
        tr = [c for c in e.ctx if c[0] == "try"]
        ctx.decide(True if ln or tr or (d is not None and d.op != "missing") else False, e.where(), "that all workers just died does not break the search", "none-left")


@rule("C17", "counts", "how rare violations are is told from all results and violations since the last reduction")
def c17_counts(ctx):
    r = ctx.run(E_ + "wait_next", opaque=(E_ + "_control_memory_usage", LOGMEM))
    c = ctx.run(E_ + "_control_memory_usage", opaque=(LOGMEM, E_ + "_stop_worker_process", E_ + "_start_worker_process", E_ + "_get_memory_usage"))
    for run, a, what in ((r, "_mem_behaved", "every result counts once"), (c, "_mem_violations", "every violation counts once")):
        old = mk("attr", ME, a)
        sets = [e for e in run.events if e.kind == "setattr" and e.base is ME and e.name == a]
        up = [e for e in sets if isinstance(e.value, Term) and not (is_const(e.value) and cval(e.value) == 0)]
        if not contains(mk("tuple", tuple(g for e in c.events for g in e.guards)), lambda x: x is mk("attr", ME, "_mem_behaved") or x.op == "loopphi" and "_mem_behaved" in str(x.args[1])):
            ctx.unk(E_ + "_control_memory_usage", "how rare violations are is judged otherwise", a)
            continue
        if not up:
            ctx.decide(False if not [e for e in run.events if e.kind == "call" and e.base is ME] else None, E_ + "wait_next", what, a)
            continue
        for e in up:
            v = e.value
            one_ = v.op == "bin" and v.args[0] == "+" and const(1) in v.args[1:]
            src = one_ and any(x is old or x.op == "loopphi" for x in v.args[1:])
            ctx.decide(True if src else (False if is_const(v) or one_ is False and v.op == "bin" and not vague(v) else None), e.where(), what, a, show_(v))
