"""The search procedures: what happens with every finished evaluation."""
from __future__ import annotations

import ast

from vp import arith, logic
from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import BROAD, P

AE = "gama.utilities.generic.async_evaluator.AsyncEvaluator"
OS = "gama.genetic_programming.operator_set.OperatorSet"
OPQ = (AE,) + tuple(f"{AE}.{m}" for m in ("submit", "wait_next", "__enter__", "__exit__")) + \
    tuple(f"{OS}.{m}" for m in ("wait_next", "individual", "create", "eliminate", "mate", "mutate", "try_until_new"))
EA = "gama.search_methods.async_ea.async_ea"
RS = "gama.search_methods.random_search.random_search"
AS = "gama.search_methods.asha.asha"
SK = "gama.genetic_programming.compilers.scikitlearn."
SEARCHES = (EA, RS, AS)


def srun(ctx, q):
    return ctx.run(q, opaque=OPQ)


def waits(r):
    return [e for e in r.calls("OperatorSet.wait_next")]


def submits(r):
    return [e for e in r.calls("AsyncEvaluator.submit", ".submit")]


def fut_cases(f):
    """The three kinds of finished evaluation."""
    res, exc = mk("attr", f, "result"), mk("attr", f, "exception")
    err = mk("attr", res, "error")
    rn, en, xn = cmp_("is", res, NONE), cmp_("is", err, NONE), cmp_("is", exc, NONE)
    return {
        "raised": (rn, neg(res), neg(xn), exc),
        "failed": (neg(rn), res, xn, neg(exc), neg(en), err),
        "succeeded": (neg(rn), res, xn, neg(exc), en, neg(err)),
    }


def after_wait(r, w):
    """Events of the loop iteration after the wait."""
    loop = [c for c in w.ctx if c[0] == "loop"]
    if not loop:
        return None
    l = loop[-1]
    return [e for e in r.events if e.seq > w.seq and l in e.ctx]


def sat(guards, facts):
    ms = logic.models([], logic.relevant(list(guards), list(facts)) + list(facts))
    return None if ms is None else bool(ms)


def local(guards, f):
    """The guards that depend on the future."""
    return [g for g in guards if contains(g, f)]


@rule("C30", "failure-safe", "an evaluation that raised or failed never makes the search itself fail")
def c30_safe(ctx):
    n = 0
    for q in SEARCHES:
        r = srun(ctx, q)
        for w in waits(r):
            ev = after_wait(r, w)
            if ev is None:
                ctx.unk(w.where(), "wait outside a loop")
                continue
            f = w.res
            res = mk("attr", f, "result")
            use = lambda t: contains(t, lambda x: x.op == "attr" and x.args[0] is res)
            cases = fut_cases(f)
            for e in ev:
                terms = [t for t in (list(e.args or ()) + [v for _, v in e.kwargs or ()] + [e.f, e.base, e.value, e.name])
                         if isinstance(t, Term)]
                # subject terms outside nested conditions
                if not any(use_plain(t, res) for t in terms) and not any(use(g) for g in e.guards):
                    continue
                bad = None
                pre = []
                for g in e.guards:
                    if use(g) and g.op not in ("or", "ite"):
                        s = sat(local(pre, f), cases["raised"])
                        if s and not _shortcircuit(g, res):
                            bad = f"{show_(g)} is evaluated for an evaluation that raised"
                    pre.append(g)
                if any(use_plain(t, res) for t in terms) and sat(local(e.guards, f), cases["raised"]):
                    bad = "the result of an evaluation that raised is used"
                n += 1
                ctx.decide(bad is None, e.where(), "results are used only when there is one", short(q), bad or "")
    if not n:
        ctx.abort("no use of evaluation results found")


def short(q):
    return q.split(".")[-1]


def use_plain(t, res):
    """res.<attr> occurs in t outside of ite conditions/branches."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            if x.op == "ite":
                continue
            if x.op == "attr" and x.args[0] is res:
                return True
            stack.extend(x.args)
    return False


def _shortcircuit(g, res):
    return False


@rule("C30", "search-continues", "the search submits new work after a failed evaluation just as after a successful one")
def c30_cont(ctx):
    for q in SEARCHES:
        r = srun(ctx, q)
        for w in waits(r):
            ev = after_wait(r, w)
            if ev is None:
                continue
            subs = [e for e in ev if e in submits(r)]
            if not subs:
                ctx.bad(w.where(), "NOT: new work is submitted after an evaluation finished", short(q))
                continue
            f = w.res
            pre = set(w.guards)
            got = {}
            for nm, facts in fut_cases(f).items():
                gl = [[g for g in e.guards if g not in pre] for e in subs]
                # population size tests vary with the outcome; only the dependence on the future matters
                got[nm] = logic.counts([[g for g in gg if contains(g, f)] for gg in gl], facts)
            if None in got.values():
                ctx.unk(w.where(), f"{short(q)}: submission not understood")
                continue
            ok = got["raised"] == got["succeeded"] == got["failed"]
            d = True if ok else (False if max(got["raised"]) == 0 or max(got["failed"]) == 0 else None)
            ctx.decide(d, subs[0].where(), f"{short(q)}: work is submitted whatever the outcome was", short(q), str(got))


@rule("C30", "only-successes-breed", "only successfully evaluated individuals enter the evolving population")
def c30_pop(ctx):
    r = srun(ctx, EA)
    for w in waits(r):
        f = w.res
        ev = after_wait(r, w) or []
        adds = [e for e in ev if grows(e) and any(contains(a, f) for a in (e.args or ()))]
        if not adds:
            ctx.bad(w.where(), "NOT: successfully evaluated individuals enter the population", "added") if not any(
                contains(x, f) for e in ev for x in (e.args or ())) else ctx.unk(w.where(), "population update not recognised")
            continue
        for nm, facts in fut_cases(f).items():
            c = logic.counts([local(e.guards, f) for e in adds], facts)
            want = {1} if nm == "succeeded" else {0}
            d = None if c is None else (True if c == want else False)
            ctx.decide(d, adds[0].where(), f"an individual whose evaluation {nm} is "
                       f"{'added to' if nm == 'succeeded' else 'kept out of'} the population", nm, f"added {c} times")
        for e in adds:
            a = e.args[-1]
            want = mk("attr", mk("attr", f, "result"), "individual")
            ctx.decide(True if a is want else (None if vague(a) else False), e.where(),
                       "the evaluated individual (with its fitness) is what enters the population", "which", show_(a))


def grows(e):
    return (e.kind == "call" and e.f.op == "attr" and e.f.args[1] in ("append", "insert", "extend", "add", "appendleft")) or \
        (e.kind == "mutate" and e.name in ("append", "insert", "extend", "add"))


def grown(e):
    return e.f.args[0] if e.kind == "call" else e.base


@rule("C30", "enough-parents", "offspring are only created from a population large enough to select parents from")
def c30_parents(ctx):
    r = srun(ctx, EA)
    cr = r.calls("OperatorSet.create")
    if not cr:
        ctx.abort("no offspring creation")
    need = sample_size(ctx)
    for e in cr:
        pop = e.args[0]
        ok = None
        small = cmp_("<", mk("len", pop), const(need))
        # try: guards imply len(pop) >= need
        for g in e.guards:
            lc = arith.lincmp(g)
            if lc is None:
                continue
            p, strict = lc
            k = {m: v for m, v in p.items() if m != ()}
            if list(k) == [(mk("len", pop),)] and k[(mk("len", pop),)] == -1:
                # c - len < 0  or <= 0
                c = p.get((), 0)
                least = c + 1 if strict else c
                ok = least >= need if ok is not True else True
        if ok is None:
            lens = [g for g in e.guards if contains(g, lambda x: x.op == "len")]
            ok = False if not any(contains(g, pop) for g in lens) else None
        ctx.decide(ok, e.where(), f"parents are selected from at least {need} individuals", "min-parents")


def sample_size(ctx):
    """How many distinct individuals parent selection draws at once."""
    best = 1
    try:
        r = ctx.run("gama.genetic_programming.nsga2.nsga2_select")
        for e in r.calls("random.sample"):
            k = e.kw("k", 1)
            if k is not None and k.op == "const":
                best = max(best, k.args[0])
    except Exception:
        pass
    return best


# ---------------------------------------------------------------- C18 search bounds
@rule("C18", "population-bound", "the population never exceeds its maximum size")
def c18_pop(ctx):
    r = srun(ctx, EA)
    size = P(r, "population_size", 5)
    adds = [e for e in r.events if grows(e) and any(in_ctx(w, "loop") for w in waits(r)) and
            in_ctx(e, "loop") and any(contains(a, w.res) for w in waits(r) for a in (e.args or ()))]
    if not adds:
        ctx.abort("no population update")
    for e in adds:
        pop = grown(e)
        rem = [x for x in r.events if x.kind == "call" and x.f.op == "attr" and x.f.args[0] is pop and
               x.f.args[1] in ("remove", "pop") and x.seq > e.seq]
        rem += [x for x in r.events if x.kind in ("mutate", "delitem", "setslice") and x.base is pop and x.seq > e.seq]
        if not rem:
            ctx.bad(e.where(), "NOT: an individual is removed when the population is over its maximum size", "remove")
            continue
        x = rem[0]
        extra = [g for g in x.guards if g not in e.guards]
        d = None
        for g in extra:
            lc = arith.lincmp(g)
            if lc is None:
                continue
            p, strict = lc
            lens = (mk("len", pop),)
            if p.get(lens) == -1 and p.get((size,)) == 1 and set(p) <= {lens, (size,), ()}:
                # size - len + c < 0 : removal when len > size + c ; must trigger at len == size+1
                c = p.get((), 0)
                d = (c - 1 < 0) if strict else (c - 1 <= 0)
                # and must not trigger at len <= size - 1 ... (shrinking below the maximum is a lost individual)
                if d and ((c < 0) if strict else (c <= 0)):
                    d = False
            elif p.get(lens) == 1 and p.get((size,)) == -1:
                d = False
        el0 = r.calls("OperatorSet.eliminate")
        other = [g for g in extra if not contains(g, size) and not vague(g) and contains(g, lambda t: t.op == "cmp" and t.args[0] in ("is", "==", "in") and (any(contains(t, w.res) for w in waits(r)) or any(contains(t, c.res) for c in el0)))]
        other += [g for g in extra if not contains(g, size) and not contains(g, pop) and contains(g, lambda t: is_attr(t, "job_queue_size"))]
        if d and other:
            d = False
        ctx.decide(d if extra else None, x.where(), "an individual is removed exactly when the population exceeds its maximum",
                   "when", ", ".join(map(show_, extra)))
        if x.kind == "call":
            a = x.args[0] if x.args else NONE
            el = r.calls("OperatorSet.eliminate")
            ok = any(is_item(a, 0, c.res) for c in el) or any(a is c.res for c in el)
            ctx.decide(True if ok else (False if not contains(a, lambda t: any(t is c.res for c in el)) and not vague(a) else None),
                       x.where(), "the individual removed is the one elimination selected", "which", show_(a))
            for c in el:
                ctx.decide(c.args[0] is pop if c.args else None, c.where(), "elimination considers the current population", "elim-pop")


def _starts_over(v):
    """A count that is, on some path, a constant (plus a constant)."""
    if v.op == "const":
        return True
    if v.op == "ite":
        return any(_starts_over(x) for x, _ in leaves(v))
    if v.op == "bin" and v.args[0] in ("+", "-"):
        return all(_starts_over(x) for x in v.args[1:])
    return False


@rule("C18", "evaluation-cap", "the search stops after the requested number of evaluations, counted over restarts")
def c18_cap(ctx):
    r = srun(ctx, EA)
    cap = P(r, "max_n_evaluations", 4)
    w = waits(r)
    if len(w) != 1:
        ctx.abort("no single wait")
    w = w[0]
    none = cmp_("is", cap, NONE)
    g = [x for x in w.guards if contains(x, cap) and contains(x, lambda t: t.op == "loopphi")]
    if not g:
        ctx.bad(w.where(), "NOT: waiting is limited by the maximum number of evaluations", "cap")
        return
    cond = simplify(g[-1], {neg(none)})
    lc = arith.lincmp(cond)
    if lc is None:
        ctx.unk(w.where(), "limit not understood " + show_(cond))
        return
    p, strict = lc
    phis = [m for m in p if len(m) == 1 and m[0].op == "loopphi"]
    if len(phis) != 1 or (cap,) not in p:
        ctx.unk(w.where(), "limit not understood " + show_(cond))
        return
    phi = phis[0][0]
    if p[(phi,)] == -1 and p[(cap,)] == 1:
        # counts down? not recognised
        ctx.unk(w.where(), "limit not understood")
        return
    off = p.get((), 0) + (0 if strict else -1)   # phi - cap + off < 0
    # initial value across all enclosing loops
    init, step = phi, None
    chain = []
    while init.op == "loopphi":
        lid = init.args[0]
        chain.append((lid, init))
        init = init.args[2]
    start = arith.const_diff(init, const(0))
    inner = r.it.loops[phi.args[0]]["phis"].get(phi)
    if inner is None:
        ctx.unk(w.where(), "counter not understood")
        return
    outer = [c[1] for c in w.ctx if c[0] == "loop"]
    if len(chain) == 1 and len(outer) > 1 and init.op == "const" and outer[-1] == phi.args[0]:
        ctx.bad(w.where(), "NOT: the count carries over a restart", "reset")
    dl = deep_leaves(inner[1])
    steps = {None} if dl is None else {arith.const_diff(v, phi) for v in dl}
    ctx.decide(True if steps == {1} else (False if None not in steps else None), w.where(),
               "every finished evaluation is counted exactly once", "step", str(steps))
    ctx.decide(None if start is None else (start - 0 + off == 0), w.where(), "exactly the requested number of evaluations is awaited",
               "limit", f"starts at {start}, stops at limit{'' if not off else ' ' + str(-off)}")
    for lid, ph in chain[1:]:
        info = r.it.loops[lid]["phis"].get(ph)
        if info is None:
            continue
        # next value of the outer counter must come from the inner counter, not a reset
        resets = [v for v, _ in leaves(info[1]) if _starts_over(v)]
        ctx.decide(not resets, w.where(), "the count carries over a restart", "reset")
    breaks = r.it.loops[phi.args[0]].get("breaks", [])
    for b in breaks:
        if not set(w.guards) <= set(b.guards):
            continue        # leaves before waiting
        vals = [v for k, v in b.env.items() if isinstance(v, Term) and contains(v, phi) and arith.const_diff(v, phi) is not None]
        if vals:
            ds = {arith.const_diff(v, phi) for v in vals}
            ctx.decide(1 in ds, w.where(), "the evaluation that triggers a restart is counted", "break-step")
    # invalid caps refused
    rs = [e for e in top(r, "raise")]
    ctx.decide(bool([e for e in rs if any(contains(x, cap) for x in e.guards)]) or None, w.where(), "a non-positive limit is refused", "invalid")


@rule("C18", "start-candidates", "every start candidate is submitted exactly once before the search waits")
def c18_start(ctx):
    for q in (EA, RS):
        r = srun(ctx, q)
        sc = P(r, "start_candidates", 2)
        subs = [e for e in submits(r) if len(e.args) >= 2 and contains(e.args[1], sc) and
                not contains(e.args[1], lambda x: is_call(x, "OperatorSet.wait_next"))]
        if not subs:
            ctx.bad(q, "NOT: the start candidates are submitted", short(q))
            continue
        ws = waits(r)
        for e in subs:
            lids = [c[1] for c in e.ctx if c[0] == "loop"]
            base = e.args[1]
            if base.op != "elem":
                ctx.unk(e.where(), "submission not understood")
                continue
            b = base.args[0]
            while b.op == "loopphi":
                b = b.args[2]
            d = True if b is sc else (False if b.op == "slice" or b.op in ("item",) else None)
            ctx.decide(d, e.where(), "all start candidates are submitted", short(q) + "-all", show_(b))
            il = r.it.loops[lids[-1]]
            brk = il.get("breaks")
            it = il.get("iter")
            if isinstance(it, Term):
                ctx.decide(False if it.op in ("set", "setobj") or it.op == "pure" and str(it.args[0]).split(".")[-1] in ("set", "frozenset") or is_call(it, "builtins.set", "frozenset") else None, e.where(), "all start candidates are submitted, in their order", short(q) + "-set", show_(it))
            ctx.decide(not brk, e.where(), "no start candidate is skipped", short(q) + "-break")
            extra = [g for g in e.guards if contains(g, base)]
            ctx.decide(not extra, e.where(), "no start candidate is skipped", short(q) + "-cond", ", ".join(map(show_, extra)))
        if ws:
            n = logic.counts([[] for _ in subs])
            ctx.decide(len(subs) == 1, subs[0].where(), "start candidates are submitted once", short(q) + "-once")
            ctx.decide(all(e.seq < ws[0].seq for e in subs), subs[0].where(), "start candidates come first", short(q) + "-first")


@rule("C18", "restart", "a restart discards the population and starts from new random individuals")
def c18_restart(ctx):
    r = srun(ctx, EA)
    out = P(r, "output", 1)
    cl = [e for e in r.events if (e.kind == "setslice" and e.base is out) or
          (e.kind == "call" and e.f.op == "attr" and e.f.args[0] is out and e.f.args[1] == "clear") or
          (e.kind == "mutate" and e.base is out and e.name == "clear")]
    w = waits(r)
    if not w:
        ctx.abort("no wait")
    outer = [c for c in w[0].ctx if c[0] == "loop"]
    good = [e for e in cl if e.seq < w[0].seq and [c for c in e.ctx if c[0] == "loop"] == outer[:-1]]
    ctx.decide(bool(good), (good or w)[0].where(), "the population is emptied whenever the search (re)starts", "cleared")
    for e in r.returns():
        ctx.decide(True if e.value is out else None, e.where(), "the final population is the result of the search", "result")
    # what does it start from again?
    sc = P(r, "start_candidates", 2)
    for e in submits(r):
        if len(e.args) < 2 or e.args[1].op != "elem" or e.args[1].args[0].op != "loopphi":
            if len(e.args) >= 2 and e.args[1].op == "elem" and e.args[1].args[0] is sc:
                gr = [x for x in r.events if (grows(x) or x.kind in ("mutate", "setslice")) and (x.base is sc or x.kind == "call" and x.f.op == "attr" and x.f.args[0] is sc)]
                ctx.decide(False if [x for x in gr if x.seq > w[0].seq] else None, (gr or [e])[0].where(), "after a restart only new individuals are submitted", "again")
            continue
        phi = e.args[1].args[0]
        nxt = r.it.loops[phi.args[0]]["phis"].get(phi)
        if nxt is None or not isinstance(nxt[1], Term):
            continue
        ok = True
        for v in deep_leaves(nxt[1]) or [NONE]:
            ns = r.it.loops[phi.args[0]].get("next_state")
            if v.op == "listobj" and ns is not None and v in ns.cont:
                v = mk("list", tuple(ns.cont[v]))
            while v.op == "loopphi":
                v = v.args[2]
            if v is sc:
                continue
            old = contains(v, lambda t: t is sc or t is phi) or any(
                x is out for t in walk(v) for x in (t.args[1:] if t.op == "bin" else [t.args[0]] if t.op in ("seg_splice", "slice") else [t] if t is v else []))
            new = contains(v, lambda t: is_call(t, "OperatorSet.individual"))
            ok = False if old and new and not vague(v) else (ok if new and not old else None if ok is not False else ok)
        ctx.decide(ok, e.where(), "after a restart only new individuals are submitted", "again", show_(nxt[1]))
    # restart criterion decides
    cb = P(r, "restart_callback", 3)
    calls = [e for e in r.events if e.kind == "call" and e.f is cb]
    for e in calls:
        ctx.decide(sat(e.guards, [cmp_("is", cb, NONE)]) is False, e.where(), "the restart criterion is optional", "optional")


@rule("C18", "keeps-working", "each finished evaluation is replaced so that workers do not run dry")
def c18_work(ctx):
    for q in SEARCHES:
        r = srun(ctx, q)
        for w in waits(r):
            subs = [e for e in (after_wait(r, w) or []) if e in submits(r)]
            if not subs:
                ctx.bad(w.where(), "NOT: new work is submitted after an evaluation finished", short(q))
                continue
            pre = set(w.guards)
            gl = [[g for g in e.guards if g not in pre] for e in subs]
            c = logic.counts([[g for g in x if not contains(g, lambda t: t.op == "len" or is_attr(t, "job_queue_size"))]
                              for x in gl]) if q == EA else logic.counts(gl)
            if q == EA:
                qs = [g for x in gl for g in x if contains(g, lambda t: is_attr(t, "job_queue_size"))]
                for g in qs:
                    lc = arith.lincmp(g)
                    if lc:
                        p, strict = lc
                        m = [k for k in p if k and k[0].op in ("attr", "loopphi")]
                        if len(m) == 1:
                            # a * queued + c < 0 (or <= 0) has to hold when all workers are busy and nothing is queued
                            c0 = p.get((), 0)
                            low = p[m[0]] > 0 and (None if set(p) - {m[0], ()} else (c0 < 0 if strict else c0 <= 0))
                            ctx.decide(low, subs[0].where(), "work is added when few jobs are queued", "queue-low")
                continue
            ctx.decide(None if c is None else (True if c == {1} else (False if 0 in c and len(c) == 1 else None)),
                       subs[0].where(), f"{short(q)}: one new evaluation per finished evaluation", short(q), str(c))


# ---------------------------------------------------------------- C03 delivery (search side)
@rule("C03", "via-operator-set", "search procedures receive finished evaluations only through the operator set, "
      "which forwards them to the observers")
def c03_via(ctx):
    for q in SEARCHES:
        r = srun(ctx, q)
        direct = r.calls("AsyncEvaluator.wait_next")
        ws = waits(r)
        if not direct and not ws:
            ctx.unk(q, "no wait found")
            continue
        for e in direct:
            ctx.bad(e.where(), "NOT: finished evaluations are received through the operator set", short(q))
        for e in ws:
            ctx.ok(e.where(), "finished evaluations are received through the operator set", short(q))


@rule("C03", "forwarded-once", "each finished evaluation with a result is forwarded exactly once, unchanged")
def c03_once(ctx):
    r = ctx.run(OS + ".wait_next", opaque=(AE + ".wait_next",))
    me = mk("param", "self")
    w = [e for e in r.events if e.kind == "call" and e.callee in (".wait_next", AE + ".wait_next")]
    if len(w) != 1:
        ctx.decide(False if len(w) > 1 else None, OS + ".wait_next", "one evaluation is awaited per call", "one")
        return
    f = w[0].res
    cb = mk("attr", me, "_evaluate_callback")
    calls = [e for e in r.events if e.kind == "call" and e.f is cb]
    for nm, facts in fut_cases(f).items():
        c = logic.counts([e.guards for e in calls], list(facts) + [cb, neg(cmp_("is", cb, NONE))])
        want = {0} if nm == "raised" else {1}
        ctx.decide(None if c is None else c == want, w[0].where(), f"an evaluation that {nm} is forwarded {want} times", nm, str(c))
    for e in calls:
        a = e.args[0] if e.args else NONE
        ctx.decide(a is mk("attr", f, "result"), e.where(), "the evaluation itself is forwarded", "what", show_(a))
        ctx.decide(not in_ctx(e, "loop"), e.where(), "the evaluation is forwarded once", "loop")
    for e in r.returns():
        ctx.decide(e.value is f, e.where(), "the finished evaluation is returned to the search", "returned", show_(e.value))


@rule("C03", "record", "what the search receives for a submitted evaluation is that evaluation's own outcome")
def c03_record(ctx):
    r = ctx.run(AE + ".wait_next", opaque=(AE + "._control_memory_usage", AE + "._log_memory_usage"))
    me = mk("param", "self")
    gets = [e for e in r.events if e.kind == "call" and e.f.op == "attr" and e.f.args[1] in ("get", "get_nowait") and
            is_attr(e.f.args[0], "_output")]
    if len(gets) != 1:
        ctx.abort("no single read of finished work")
    got = gets[0].res
    for e in r.returns():
        v0 = e.value
        v = unphi(r, v0, e.guards)
        d = None
        if is_call(v, ".pop") and is_attr(v.args[0].args[0], "futures"):
            d = bool(v.args[1]) and v.args[1][0] is mk("attr", got, "id")
            if not d and contains(v, lambda x: x.op == "loopphi"):
                d = None
        elif v is got:
            # returning the transferred future itself: must still be removed from the pending ones
            d = bool([x for x in r.events if (x.kind == "call" and x.callee == ".pop" and is_attr(x.f.args[0], "futures")) or
                      x.kind == "delitem"])
        elif v.op == "item" and is_attr(v.args[0], "futures"):
            d = True if any(x.kind == "delitem" or (x.kind == "call" and x.callee == ".pop") for x in r.events) else False
        elif contains(v, lambda x: is_attr(x, "futures")) and not contains(v, lambda x: x is got) and not contains(v, lambda x: x.op == "loopphi") and not vague(v):
            d = False
        ctx.decide(d, e.where(), "the returned future is the one that finished, and it is no longer pending", "match", show_(v))
        if v is not got:
            for a in ("result", "exception", "traceback"):
                x = e.heap.get((v0, a))
                if x is not None:
                    x = unphi(r, x, e.guards)
                if x is not None and contains(x, lambda y: y.op == "loopphi"):
                    x = mk("unknown", "loop")
                ctx.decide(True if x is mk("attr", got, a) else (False if x is None or not vague(x) else None), e.where(),
                           f"the future's {a} is the one recorded by the worker", a, show_(x))
    rs = [e for e in top(r, "raise")]
    fz = mk("len", mk("attr", me, "futures"))
    ctx.decide(any(any(contains(g, fz) or contains(g, mk("attr", me, "futures")) for g in e.guards) for e in rs) or None, gets[0].where(),
               "waiting without pending work is an error instead of waiting forever", "empty")


@rule("C03", "submit", "every submitted call is queued for the workers exactly once and remembered as pending")
def c03_submit(ctx):
    r = ctx.run(AE + ".submit")
    me = mk("param", "self")
    puts = [e for e in r.events if e.kind == "call" and e.f.op == "attr" and e.f.args[1] in ("put", "put_nowait") and
            is_attr(e.f.args[0], "_input")]
    ctx.decide(logic.counts([e.guards for e in puts]) == {1} and not any(in_ctx(e, "loop") for e in puts), AE + ".submit",
               "the call is queued exactly once", "put")
    ret = r.returns()
    for e in ret:
        for p in puts:
            ctx.decide(p.args[0] is e.value, e.where(), "the returned future is the queued one", "same")
    sets = [e for e in top(r, "setitem") if is_attr(e.base, "futures")]
    ctx.decide(bool(sets) and all(puts and s.value is puts[0].args[0] for s in sets), AE + ".submit", "the queued future is remembered", "pending")
    for s in sets:
        if puts and puts[0].args[0].op == "obj":
            fid = s.heap.get((puts[0].args[0], "id"))
            ctx.decide(True if s.name is fid or is_attr(s.name, "id") else None, s.where(), "it is remembered under its own id", "id")
    for p in puts:
        o = p.args[0]
        if o.op == "obj":
            for a, nm in (("fn", "fn"), ("args", "args"), ("kwargs", "kwargs")):
                v = p.heap.get((o, a))
                ok = v is not None and contains(r.ex(v, p), mk("param", nm))
                ctx.decide(ok, p.where(), f"the queued call has the submitted {nm}", nm, show_(v))


@rule("C03", "worker-returns", "a worker hands every call it took back exactly once, after executing it")
def c03_worker(ctx):
    from vp.rules.evaluation import AE as AEM
    r = ctx.run(AEM + "evaluator_daemon", opaque=(AEM + "AsyncFuture.execute",))
    out, inp = P(r, "output_queue", 1), P(r, "input_queue", 0)
    puts = [e for e in r.events if e.kind == "call" and e.f.op == "attr" and e.f.args[0] is out and e.f.args[1] in ("put", "put_nowait")]
    gets = [e for e in r.events if e.kind == "call" and e.f.op == "attr" and e.f.args[0] is inp and e.f.args[1] in ("get", "get_nowait")]
    ex = r.calls(".execute")
    if len(gets) != 1 or not ex:
        ctx.abort("worker loop not recognised")
    norm = [p for p in puts if not in_ctx(p, "handler")]
    fut = gets[0].res
    if in_ctx(ex[0], "loop") != in_ctx(gets[0], "loop"):
        ctx.unk(ex[0].where(), "loops")
    for p in norm:
        ctx.decide(True if p.args[0] is fut else None, p.where(), "the executed call is handed back", "what", show_(p.args[0]))
    # exactly once on the normal path
    c = logic.counts([[g for g in p.guards if g not in gets[0].guards] for p in norm])
    ctx.decide(None if c is None else c == {1}, gets[0].where(), "every executed call is handed back exactly once", "once", str(c))
    e = ex[0]
    ctx.decide(e.guards == gets[0].guards or None, e.where(), "every call taken is executed", "executed")
    a = e.args[0] if e.args else NONE
    ctx.decide(True if a is P(r, "default_parameters", 3) else None, e.where(), "the shared parameters are passed", "defaults")


# ---------------------------------------------------------------- C04 time limit of an evaluation
@rule("C04", "deadline", "an evaluation gets at most the per-evaluation limit and never more than the time to the deadline")
def c04_deadline(ctx):
    dl = mk("param", "deadline")
    for given in (False, True):
        r = ctx.run(SK + "evaluate_individual", overrides={} if given else {"deadline": NONE},
                    facts=(neg(cmp_("is", dl, NONE)),) if given else ())
        ep = P(r, "evaluate_pipeline", 1)
        calls = [e for e in r.events if e.kind == "call" and e.f is ep]
        if len(calls) != 1:
            ctx.abort("evaluation call not found")
        e = calls[0]
        t = e.kw("timeout")
        to = P(r, "timeout", 2)
        if t is None:
            ctx.bad(e.where(), "NOT: the evaluation is given a time limit", f"timeout-{given}")
            continue
        got = _limits(r.ex(t, e), to, dl) if given else None
        if got is not None:
            ctx.decide(True if got == "" else (False if got else None), e.where(),
                       "the limit is the smaller of per-evaluation limit and time to the deadline", "deadline", got or show_(t))
            continue
        for v, facts in leaves(t, e.guards):
            if not given:
                ctx.decide(True if v is to else (None if vague(v) else False), e.where(),
                           "without deadline the limit is the per-evaluation limit", "limit", show_(v))
                continue
            d = None
            if v.op in ("min2", "min"):
                parts = v.args[0] if v.op == "min2" else [s.args[0] for s in (segs(v.args[0]) or []) if s.op == "seg_item"]
                has_to = any(x is to for x in parts)
                has_dl = any(_remaining(x, dl) for x in parts)
                d = True if has_to and has_dl else False
            elif v is to:
                # allowed if the guards establish timeout <= remaining
                d = True if any(_cmp_remaining(f, to, dl) for f in facts) else False
            elif _remaining(v, dl):
                d = True if any(_cmp_remaining(f, to, dl) for f in facts) else False
            elif v.op in ("max2", "max"):
                d = False
            ctx.decide(d, e.where(), "the limit is the smaller of per-evaluation limit and time to the deadline", "deadline", show_(v))


def _limits(t, to, dl):
    """Where the limit exceeds what is allowed, "" if it is as it should be; None if that is not known."""
    from vp.conc import conc, CantFold, Broken
    now = [z for z in walk(t) if is_call(z, "time.time")]
    exact = True
    for limit in (10, 60, 1e6):
        for left in (0.5, 7, 30, 59, 61, 3600):
            env = {to: limit, dl: 1000 + left, **{z: 1000 for z in now}}
            try:
                v = conc(t, env)
            except (CantFold, Broken, TypeError, RecursionError):
                return None
            if not isinstance(v, (int, float)) or isinstance(v, bool):
                return None
            if v > min(limit, left) + 1e-6:
                return f"a limit of {limit}s with {left}s to the deadline gives {v}s"
            exact = exact and abs(v - min(limit, left)) < 1e-6
    return "" if exact else None


def _remaining(x, dl):
    return x.op == "bin" and x.args[0] == "-" and x.args[1] is dl and is_call(x.args[2], "time.time")


def _cmp_remaining(f, to, dl):
    return contains(f, to) and contains(f, dl) and f.op in ("cmp", "not")


@rule("C04", "enforced", "everything an evaluation does happens under its time limit")
def c04_enforced(ctx):
    from vp.rules.evaluation import WORK
    r = ctx.run(SK + "evaluate_pipeline")
    to = P(r, "timeout", 3)
    ws = {w: i for w, i in r.it.withs.items() if i["name"].startswith("stopit.") and i["name"].endswith("Timeout")}
    if not ws:
        ctx.bad(SK + "evaluate_pipeline", "NOT: the evaluation runs under a time limit", "with")
        return
    for w, i in ws.items():
        a = kwarg(i["term"], "seconds", 0)
        ctx.decide(True if a is to else (None if a is None or vague(a) else False), SK + "evaluate_pipeline",
                   "the time limit is the one given", "limit", show_(a))
    for e in r.calls(*WORK):
        ctx.decide(bool(in_ctx(e, "with", ws)), e.where(), f"{e.callee} runs under the time limit", e.callee)
    inv = [e for e in top(r, "raise") if any(contains(g, to) for g in e.guards)]
    ctx.decide(bool(inv), SK + "evaluate_pipeline", "a non-positive limit is refused", "positive")


@rule("C04", "not-overridden", "no search procedure replaces the user's per-evaluation limit or the search deadline")
def c04_override(ctx):
    n = 0
    for q in SEARCHES:
        r = srun(ctx, q)
        for e in submits(r):
            names = [k for k, _ in e.kwargs]
            f = e.args[0] if e.args else NONE
            if f.op == "partial":
                names += [k for k, _ in f.args[2]]
            bad = [k for k in names if k in ("timeout", "deadline")]
            n += 1
            ctx.decide(not bad, e.where(), f"{short(q)}: evaluations keep the configured time limits", short(q) + ("-" + "-".join(bad) if bad else ""),
                       f"passes {bad}")
    if not n:
        ctx.abort("no submissions")


@rule("C04", "configured", "evaluations are configured with the user's per-evaluation limit and the end of the search phase")
def c04_conf(ctx):
    r = ctx.run("gama.gama.Gama._search_phase", opaque=(OS + ".individual",))
    me = mk("param", "self")
    sets = [e for e in top(r, "setattr", "evaluate")]
    if not sets:
        ctx.abort("evaluation function not configured here")
    for e in sets:
        v = e.value
        if v.op != "partial":
            ctx.unk(e.where(), "evaluation function not understood")
            continue
        kw = dict(v.args[2])
        t, d = kw.get("timeout"), kw.get("deadline")
        ctx.decide(False if t is None else (True if t is mk("attr", me, "_max_eval_time") else None), e.where(),
                   "the limit per evaluation is the configured one", "timeout", show_(t))
        ok = None
        if d is None or d is NONE:
            ok = False
        elif d.op == "bin" and d.args[0] == "+":
            a, b = d.args[1], d.args[2]
            ok = (is_call(a, "time.time") and b is P(r, "timeout", 1)) or (is_call(b, "time.time") and a is P(r, "timeout", 1))
            ok = True if ok else (False if not vague(d) else None)
        ctx.decide(ok, e.where(), "evaluations are cut off at the end of the search phase", "deadline", show_(d))


# ---------------------------------------------------------------- C33 successive halving
@rule("C33", "partial-evaluations", "evaluations below the top rung are marked as not usable, without hiding a real error")
def c33_partial(ctx):
    r = ctx.run("gama.search_methods.asha.evaluate_on_rung")
    ev = [e for e in r.events if e.kind == "call" and e.f is P(r, "evaluate_individual", 3)]
    if len(ev) != 1:
        ctx.abort("evaluation call not found")
    e0 = ev[0]
    res = e0.res
    ctx.decide(bool(e0.args) and e0.args[0] is P(r, "individual", 0), e0.where(), "the given individual is evaluated", "individual")
    ctx.decide(any(k == "**" and v is mk("param", "kwargs") for k, v in e0.kwargs), e0.where(), "evaluation options are passed on", "kwargs")
    err = mk("attr", res, "error")
    atmax = cmp_("==", P(r, "rung", 1), P(r, "max_rung", 2))
    none = cmp_("is", err, NONE)
    sets = [e for e in top(r, "setattr", "error") if e.base is res]
    for nm, facts, want in (("a failed evaluation keeps its error", (neg(none), err), {0}),
                            ("a full evaluation is usable", (none, neg(err), atmax), {0}),
                            ("a partial evaluation is marked", (none, neg(err), neg(atmax)), {1})):
        c = logic.counts([e.guards for e in sets], facts)
        ctx.decide(None if c is None else c == want, r.fn.qual, nm, nm, str(c))
    for e in sets:
        ctx.decide(nonnull(e.value), e.where(), "the mark is an error", "mark")
    for e in r.returns():
        ctx.decide(e.value is res, e.where(), "the evaluation is returned", "ret")
    st = {e.name.args[0]: e for e in top(r, "setitem") if e.name.op == "const" and is_attr(e.base, "meta")}
    other = [x for x in r.events if x.kind in ("call", "mutate") and isinstance(x.base, Term) and is_attr(x.base, "meta")]
    up = [v for x in other for k, v in (x.kwargs or ()) if k == "rung"] + ([st["rung"].value] if "rung" in st else [])
    kept = [x for x in other if x.name == ".setdefault" and x.args and x.args[0] is const("rung")]
    ctx.decide(False if kept and not up else True if any(v is P(r, "rung", 1) for v in up) else None if other and not up else False, r.fn.qual, "the rung is recorded with the individual", "rung")


def _apart(a, b):
    """Two rungs of the same pass over the rungs which differ by a constant."""
    pa, pb = arith.poly(a), arith.poly(b)

    def shape(p):
        out = set()
        for k, v in p.items():
            if k:
                e_ = k[0] if k[0].op in ("elem", "key") else k[0].args[0]
                lid = {e_.args[1]} if e_.op in ("elem", "key") else set()
                if len(k) != 1 or len(lid) != 1 or k[0].op not in ("item", "elem", "key"):
                    return None
                out.add((k[0].op, k[0].args[1] if k[0].op == "item" else None, lid.pop(), v))
        return out
    sa, sb = shape(pa), shape(pb)
    return bool(sa) and sa == sb and pa.get((), 0) != pb.get((), 0)


@rule("C33|C13", "promotion", "promoted to the next rung is the best not yet promoted individual, and only the top fraction")
def c33_promote(ctx):
    r = srun(ctx, AS)
    rf = P(r, "reduction_factor", 2)
    subs = submits(r)
    if not subs:
        ctx.abort("no submission")
    prom = [e for e in r.events if grows(e) and e.args and e.args[-1].op in ("max", "min")]
    sel = [x for e in subs for a in e.args for x in walk(a) if x.op in ("max", "min") and
           x.args[1].op == "item" and x.args[1].args[0].op == "elem"]
    if not sel:
        ctx.abort("promotion not recognised")
    for m in set(sel):
        ctx.decide(m.op == "max", subs[0].where(), "the highest scoring candidate is promoted", "best")
        ctx.decide(is_item(m.args[1], 0), subs[0].where(), "candidates are ranked by their score", "key", show_(m.args[1]))
        base = m.args[0]
        d = None
        if base.op == "bin" and base.args[0] == "-":
            d = True
        elif base.op in ("set", "list") and len(base.args[0]) == 1 and base.args[0][0].op == "seg_splice":
            d = False
        elif base.op in ("list", "set") and base.args[0] and base.args[0][0].op == "seg_each" and base.args[0][0].args[2]:
            d = True
            for e in [e for e in prom if e.args[-1] is m]:
                tgt = grown(e)
                back = [x for g in base.args[0][0].args[2] for x in walk(g) if x.op == "cmp" and x.args[0] == "in" and x.args[2].op == "item"]
                if tgt.op == "item" and back and all(x.args[2].args[0].op in ("dictobj", "dict") and _apart(x.args[2].args[1], tgt.args[1]) for x in back):
                    d = False   # remembered under another rung than it is looked up in
                ins = [x.args[2] for g in base.args[0][0].args[2] for x in walk(g) if x.op == "cmp" and x.args[0] == "in"]
                if ins and tgt.op == "item" and tgt.args[0].op == "dictobj":
                    if any(x is tgt.args[0] or x.op == "dict" for x in ins):
                        d = False   # the keys of the dictionary, not what is in it
                    elif all(x.op == "item" and x.args[0].op == "dictobj" and (x.args[0] is not tgt.args[0] or x.args[1] is not tgt.args[1] and not vague(x.args[1]) and not vague(tgt.args[1])) for x in ins):
                        d = False
        ctx.decide(d, subs[0].where(), "already promoted candidates are not promoted again", "not-again", show_(base))
        rec = [e for e in prom if e.args[-1] is m]
        ctx.decide(bool(rec), subs[0].where(), "a promotion is remembered", "remembered")
        for e in rec:
            gs = [g for g in e.guards if contains(g, lambda x: is_call(x, "math.floor") or x.op == "floordiv" or (x.op == "bin" and x.args[0] == "//"))]
            if not gs:
                lens = [g for g in e.guards if contains(g, rf)]
                up = [g for g in lens if contains(g, lambda x: is_call(x, "math.ceil"))]
                ctx.decide(False if not lens or up else None, e.where(), "only the top 1/reduction_factor of a rung is promoted", "fraction")
                continue
            for g in gs:
                lc = arith.lincmp(g)
                d = None
                if lc:
                    p, strict = lc   # p < 0  i.e. len(promoted) - floor(...) < 0
                    fl = [k for k in p if k and (is_call(k[0], "math.floor") or k[0].op == "bin")]
                    ln = [k for k in p if k and k[0].op == "len"]
                    if len(fl) == 1 and len(ln) == 1:
                        f = fl[0][0]
                        arg = f.args[1][0] if f.op == "call" else f
                        frac = arg.op == "bin" and arg.args[0] in ("/", "//") and arg.args[1].op == "len" and arg.args[2] is rf
                        frac = frac and arg.args[1].args[0].op not in ("set", "setobj", "pure", "slice")
                        c = p.get((), 0)
                        tight = (strict and c == 0) or (not strict and c == 1)
                        d = (p[fl[0]] == -1 and p[ln[0]] == 1 and frac and tight) or False
                ctx.decide(d, e.where(), "only the top 1/reduction_factor of a rung is promoted", "fraction", show_(g))
    # a start candidate is taken once
    sc = P(r, "start_candidates", 1)
    gone = [x for x in r.events if (x.kind in ("mutate", "delitem", "setslice") and x.base is sc) or
            (x.kind == "call" and x.f.op == "attr" and x.f.args[0] is sc and x.f.args[1] in ("pop", "remove", "clear", "popleft"))]
    for e in subs:
        for v in deep_leaves(e.args[1]) or [] if len(e.args) > 1 else []:
            if v.op == "item" and v.args[0] is sc and v.args[1].op == "const":
                ctx.decide(None if gone else False, e.where(), "a start candidate is taken off the list when it is submitted", "start-once", show_(v))
    # the rung of a promoted individual is one higher
    for e in subs:
        ind, rung = e.args[1] if len(e.args) > 1 else NONE, e.args[2] if len(e.args) > 2 else e.kw("rung") or NONE
        for v, facts in leaves(rung):
            if v.op == "bin" and contains(v, lambda x: x.op in ("elem", "key")):
                k = arith.poly(v).get((), 0)
                ctx.decide(k == 1, e.where(), "a promoted individual moves up one rung", "rung+1", show_(v))
            elif v is P(r, "minimum_early_stopping_rate", 5):
                ctx.ok(e.where(), "new individuals start at the lowest rung", "lowest")
            elif v.op == "const" or (v.op == "item" and contains(v, lambda x: x.op in ("elem",))):
                ctx.bad(e.where(), "NOT: a promoted individual moves up one rung, a new one starts at the lowest: " + show_(v), "rung+1")
        ss = e.kw("subsample")
        if ss is None:
            ctx.bad(e.where(), "NOT: evaluations use the rung's subsample", "subsample")
        else:
            ok = None
            if ss.op == "item" or contains(ss, rung):
                ok = contains(ss, rung) if not vague(ss) else None
            elif ss in (P(r, "maximum_resource", 4), P(r, "minimum_resource", 3)) or ss.op == "const":
                ok = False
            ctx.decide(ok, e.where(), "an evaluation uses the resources of its rung", "subsample", show_(ss))


@rule("C33", "resources", "rung resources grow by the reduction factor up to the maximum")
def c33_res(ctx):
    r = srun(ctx, AS)
    e = submits(r)[0]
    ss = r.ex(e.kw("subsample"), e)
    ms = [x for x in walk(ss) if x.op in ("min2", "max2") and contains(x, P(r, "maximum_resource", 4))
          and contains(x, P(r, "minimum_resource", 3))]
    if not ms:
        ctx.abort("resources not understood: " + show_(ss))
    for m in ms:
        ctx.decide(m.op == "min2", e.where(), "no rung uses more than the maximum resource", "cap", show_(m))
        parts = [x for x in m.args[0] if x is not P(r, "maximum_resource", 4)]
        d = None
        if len(parts) == 1:
            pr = arith.poly(parts[0])
            if len(pr) == 1:
                (k, v), = pr.items()
                pw = [x for x in k if x.op == "bin" and x.args[0] == "**"]
                d = v == 1 and P(r, "minimum_resource", 3) in k and len(k) == 2 and len(pw) == 1 and \
                    pw[0].args[1] is P(r, "reduction_factor", 2) and pw[0].args[2].op == "elem"
                d = True if d else (False if pw or len(k) == 2 or
                                    any(P(r, "reduction_factor", 2) is x for x in k) else None)
        ctx.decide(d, e.where(), "a rung uses minimum * factor**rung", "growth", show_(m))


@rule("C33", "bookkeeping", "results are filed under the rung they were evaluated at; the result is the highest rung reached")
def c33_book(ctx):
    r = srun(ctx, AS)
    for w in waits(r):
        f = w.res
        res = mk("attr", f, "result")
        adds = [e for e in (after_wait(r, w) or []) if grows(e) and any(contains(a, res) for a in e.args)]
        if not adds:
            ctx.unk(w.where(), "results not filed")
            continue
        for e in adds:
            tgt = grown(e)
            moved = tgt.op == "item" and [v for v, _ in leaves(tgt.args[1]) if v.op in ("max2", "min2", "bin") and
                                          contains(v, lambda x: x.op == "const" and x.args[0] == "rung")]
            ctx.decide(False if moved else True if tgt.op == "item" and contains(tgt.args[1], lambda x: x.op == "const" and x.args[0] == "rung")
                       and contains(tgt.args[1], res) else (False if tgt.op == "item" and not vague(tgt) else None), e.where(),
                       "a result is filed under its own rung", "rung", show_(tgt))
            v = e.args[-1]
            if v.op == "tuple" and len(v.args[0]) == 2:
                s, i = v.args[0]
                ctx.decide(is_item(s, 0, mk("attr", res, "score")) or (None if vague(s) else False), e.where(),
                           "filed with its score on the first metric", "score", show_(s))
                ctx.decide(i is mk("attr", res, "individual"), e.where(), "filed with the evaluated individual", "ind", show_(i))
    filed = {grown(e).args[0] for w in waits(r) for e in (after_wait(r, w) or []) if grows(e) and any(contains(a, mk("attr", w.res, "result")) for a in e.args) and grown(e).op == "item"}
    for e in r.returns():
        v0 = r.it.expand(e.value, {k: c for k, c in r.state.cont.items() if k.op == "listobj"})
        from_ = {x for x in walk(v0) if x.op == "dictobj"}
        if filed and from_ and all(x.op == "dictobj" for x in filed):
            ctx.decide(True if from_ <= filed else False, e.where(), "the result is taken from the rungs results were filed under", "from", show_(v0))
        v = r.ex(e.value, e)
        mx = [x for x in walk(v) if x.op in ("max", "min") and len(x.args) > 2]
        rungs = [x for x in mx if not (x.args[1].op == "item")]
        for m in rungs:
            ctx.decide(m.op == "max", e.where(), "the highest rung reached is reported", "highest", show_(m))
