"""The public interface: constructor, fit, prediction, clean-up, callbacks, and time keeping."""
from __future__ import annotations

from vp import arith, logic
from vp.check import rule
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import BROAD, P

G = "gama.gama.Gama."
TK = "gama.utilities.generic.timekeeper."
SW = "gama.utilities.generic.stopwatch.Stopwatch"
OS = "gama.genetic_programming.operator_set.OperatorSet"
FMT = "gama.data_formatting.format_x_y"
ENC = "gama.utilities.preprocessing.basic_encoding"
EXT = "gama.utilities.preprocessing.basic_pipeline_extension"
REM = TK + "TimeKeeper.total_time_remaining"
FITOPQ = (FMT, ENC, EXT, OS + ".individual", "#" + REM, G + "cleanup")
ME = mk("param", "self")


def fit_run(ctx):
    return ctx.run(G + "fit", opaque=FITOPQ)


def search_call(r):
    out = [e for e in r.events if e.kind == "call" and e.callee == ".search" and is_attr(e.base, "_search_method")]
    return out or [e for e in r.events if e.kind == "call" and e.callee == ".search"]


def post_call(r):
    return [e for e in r.events if e.kind == "call" and e.callee == ".post_process"]


def activity_of(r, e, name=None):
    """The start_activity call terms of the phases around event e, outermost first."""
    out = []
    for c in e.ctx:
        if c[0] == "with":
            t = r.it.withs.get(c[1], {}).get("term")
            if t is not None and is_call(t, "start_activity"):
                out.append(t)
    return out


def unint(t):
    while t.op == "pure" and t.args[0] in ("int", "float", "floor", "math.floor", "trunc") or is_call(t, "math.floor", "numpy.floor", "math.trunc"):
        t = t.args[1][0]
    return t


def reads(r, t):
    """total_time_remaining reads inside t."""
    return [x for x in walk(t) if is_call(x, "total_time_remaining")]


@rule("C05", "fresh-budget", "every fit starts with a time keeper that has used none of the budget")
def c05_fresh(ctx):
    r = fit_run(ctx)
    starts = r.calls("start_activity")
    if not starts:
        ctx.abort("phases not found")
    e = starts[0]
    k = e.base
    if k is not None and k.op == "obj":
        tt, acts = attr_at(r, e, k, "total_time"), attr_at(r, e, k, "activities")
        acts = r.ex(acts, e) if acts is not None else None
        want = mk("attr", mk("attr", ME, "_time_manager"), "total_time")
        ctx.decide(True if tt is want else (False if tt is NONE or is_const(tt) else None), e.where(), "the new budget is the configured one", "budget", show_(tt))
        ctx.decide(True if acts is not None and acts.op in ("list", "tuple") and not acts.args[0] else None, e.where(), "no phase is recorded in it yet", "empty", show_(acts))
    elif is_attr(k, "_time_manager"):
        reset = [x for x in r.events if x.seq < e.seq and ((x.kind == "setattr" and x.name == "activities") or
                                                          (x.kind in ("call", "mutate", "delitem", "setslice") and x.base is not None and is_attr(x.base, "activities")))]
        ctx.decide(None if reset else False, e.where(), "the time used by earlier fits does not count", "reset", "the time keeper of earlier fits is used")
    else:
        ctx.unk(e.where(), "time keeper not recognised")
    now = [x.base for x in starts]
    ctx.decide(True if len(set(now)) == 1 else None, e.where(), "all phases are timed by the same time keeper", "one-keeper")


@rule("C05", "division", "the search gets the part of the remaining time that is not reserved for post-processing")
def c05_division(ctx):
    r = fit_run(ctx)
    ss = search_call(r)
    if not ss:
        ctx.abort("search call not found")
    for s in ss:
        tos = [r.it.withs[c[1]]["term"] for c in s.ctx if c[0] == "with"]
        tos = [t for t in tos if is_call(t, "stopit.ThreadingTimeout", "ThreadingTimeout", "SignalTimeout")]
        ctx.decide(bool(tos) or None if any(c[0] == "with" and vague(r.it.withs[c[1]]["term"]) for c in s.ctx) else bool(tos), s.where(),
                   "the search is interrupted when its time is over", "interrupted", "no timeout around the search")
        frac = None
        for t in tos:
            v = unint(kwarg(t, "seconds", 0) or NONE)
            rd = reads(r, v)
            if not rd:
                ctx.decide(False if not vague(v) else None, s.where(), "the search time depends on the remaining time", "division", show_(v))
                continue
            fr = [x for x in walk(v) if is_attr(x, "time_fraction")]
            if len(set(rd)) != 1 or len(set(fr)) > 1:
                ctx.unk(s.where(), "division of time not recognised")
                continue
            rem = rd[0]
            if not fr:
                p = arith.poly(v)
                ctx.decide(False if set(p) <= {(), (rem,)} else None, s.where(), "time is reserved for post-processing", "division", show_(v))
                continue
            frac = fr[0]
            want = mk("bin", "*", mk("bin", "-", const(1), frac), rem)
            ctx.decide(True if arith.same(v, want) else (False if {y for k in arith.poly(v) for y in k} <= {rem, frac} else None), s.where(),
                       "the search time is (1 - post-processing fraction) of the remaining time", "division", show_(v))
            ctx.decide(True if is_attr(frac.args[0], "_post_processing") else None, s.where(), "the fraction is that of the configured post-processing", "fraction", show_(frac))
            rev = [x for x in r.events if x.kind == "call" and x.res is rem]
            pre = [x for x in r.events if x.kind == "call" and is_call(x.res, "basic_encoding", "format_x_y")]
            if rev and pre:
                ctx.decide(rev[0].seq > max(x.seq for x in pre) and not any(c[0] == "with" and is_call(r.it.withs[c[1]]["term"], "start_activity") for c in rev[0].ctx) or None, rev[0].where(),
                           "the remaining time is read after preprocessing is over", "after-preprocessing")
                ctx.decide(rev[0].seq > max(x.seq for x in pre), rev[0].where(), "time used by preprocessing is taken off first", "preprocessing-counted")
            acts = activity_of(r, s)
            if acts:
                lim = kwarg(acts[-1], "time_limit", 1)
                ctx.decide(False if lim is None or lim is NONE else (True if arith.same(unint(lim), v) else None), s.where(), "the search phase is recorded with its limit", "limit", show_(lim))
        acts = activity_of(r, s)
        ctx.decide(True if acts else (None if any(c[0] == "with" and vague(r.it.withs[c[1]]["term"]) for c in s.ctx) else False), s.where(), "the time of the search is measured", "measured")


@rule("C05", "rest", "post-processing gets what is left after the search")
def c05_rest(ctx):
    r = fit_run(ctx)
    pc, ss = post_call(r), search_call(r)
    if not pc or not ss:
        ctx.abort("post-processing call not found")
    for e in pc:
        v = e.kw("timeout", 2)
        if v is None:
            ctx.unk(e.where(), "time for post-processing not recognised")
            continue
        rd = reads(r, v)
        p = arith.poly(unint(v))
        if not rd:
            ctx.decide(None if vague(v) else False, e.where(), "post-processing gets the remaining time", "rest", show_(v))
            continue
        ctx.decide(True if len(rd) == 1 and p == {(rd[0],): 1} else (False if set(p) <= {(), (rd[0],)} and (p.get((), 0) > 0 or p.get((rd[0],), 1) > 1) else None), e.where(),
                   "post-processing gets the remaining time", "rest", show_(v))
        rev = [x for x in r.events if x.kind == "call" and x.res is rd[0]]
        if rev:
            ctx.decide(rev[0].seq > max(s.seq for s in ss), rev[0].where(), "the time used by the search is taken off first", "after-search")
        acts = activity_of(r, e)
        ctx.decide(True if acts else None, e.where(), "the time of post-processing is measured", "measured")
        if acts:
            lim = kwarg(acts[-1], "time_limit", 1)
            ctx.decide(False if lim is None or lim is NONE else (True if reads(r, lim) and all(k == (reads(r, lim)[0],) for k in arith.poly(unint(lim))) else None), e.where(),
                       "the post-processing phase is recorded with its limit", "limit", show_(lim))


@rule("C05", "remaining", "the remaining time is the total minus the time of all phases so far")
def c05_remaining(ctx):
    r = ctx.run(REM)
    rets = [e for e in r.returns() if e.value is not NONE]
    tt, acts = mk("attr", ME, "total_time"), mk("attr", ME, "activities")
    for e in rets:
        v = r.ex(e.value, e)
        p = arith.poly(v)
        phis = [k for k in p if len(k) == 1 and k[0].op == "loopphi"]
        if phis:
            ph = phis[0][0]
            lp = r.it.loops[ph.args[0]]
            i0, nx = lp["phis"].get(ph, (NONE, NONE))
            step = arith.diff(nx, ph)
            st = list(step)
            plain = len(st) == 1 and len(st[0]) == 1 and step[st[0]] == 1 and contains(st[0][0], lambda t: is_attr(t, "stopwatch")) and not lp.get("breaks")
            cond = nx.op in ("ite", "choice")
            over = lp.get("iter")
            ok = None
            if plain and arith.poly(i0) == {} and (tt,) in p and p[(tt,)] == 1:
                ok = (p[phis[0]] == -1 and len(p) == 2) if over is acts else (False if over is not None and over.op == "slice" and over.args[0] is acts else None)
            ctx.decide(False if cond and not vague(nx) and any(l is ph for l, _ in leaves(nx)) else ok, e.where(), "every recorded phase is taken off the total", "loop", show_(nx))
            continue
        sums = [k for k in p if len(k) == 1 and k[0].op in ("sum", "pure", "call") and contains(k[0], lambda t: t is acts)]
        if (tt,) not in p or len(sums) != 1:
            part = [k for k in p if len(k) == 1 and contains(k[0], lambda t: is_attr(t, "activities"))]
            ctx.decide(False if not vague(v) and not part else None, e.where(), "all recorded phases are taken off the total", "sum", show_(v))
            continue
        s = sums[0][0]
        ctx.decide(p[(tt,)] == 1 and p[sums[0]] == -1 and len(p) == 2 or (False if len(p) == 2 or set(p) == {(), (tt,), sums[0]} else None), e.where(),
                   "the remaining time is total - used", "difference", show_(v))
        seq = s.args[0] if s.op == "sum" else (s.args[1][0] if s.op == "pure" else s.args[1][0])
        if seq.op == "map" and seq.args[0].op in ("fn", "lam", "closure"):
            pieces = None
        else:
            pieces = seqnorm(seq)
        full = None
        if pieces is not None and len(pieces) == 1 and pieces[0][0] == "each":
            _, g, base, el, _ = pieces[0]
            full = True if base is acts and not g else (False if g and not any(vague(x) for x in g) or base.op == "slice" and contains(base, lambda t: t is acts) else None)
            elapsed = is_attr(el, "elapsed_time") and is_attr(el.args[0], "stopwatch") or contains(el, lambda t: is_attr(t, "stopwatch"))
            ctx.decide(True if elapsed else None, e.where(), "each phase counts with its elapsed time", "elapsed", show_(el))
        elif seq.op == "map":
            base = seq.args[1]
            full = True if base is acts else (False if base.op == "slice" and base.args[0] is acts else None)
        ctx.decide(full, e.where(), "every recorded phase counts", "all-phases", show_(s))
    if not rets:
        ctx.abort("remaining time not returned")


@rule("C05", "phases", "each phase is recorded with a running stopwatch that stops when the phase ends, also by an error")
def c05_phases(ctx):
    r = ctx.run(TK + "TimeKeeper.start_activity")
    ys = [e for e in r.events if e.kind == "yield"]
    apps = [e for e in r.events if e.kind in ("call", "mutate") and e.base is not None and is_attr(e.base, "activities") and (e.callee == ".append" or e.name in ("append", ".append"))]
    if not ys:
        ctx.abort("phase body not found")
    for y in ys:
        sws = [r.it.withs[c[1]]["term"] for c in y.ctx if c[0] == "with"]
        sw = [t for t in sws if t.op == "obj" and r.it.typeof(t) is not None and r.it.typeof(t).qual == SW]
        fin = [e for e in r.events if e.kind == "setattr" and e.name == "_end" and in_ctx(e, "finally")]
        ctx.decide(True if sw else (None if fin or any(vague(t) for t in sws) else False), y.where(), "a stopwatch runs during the phase and is stopped at its end", "stopwatch",
                   "no stopwatch around the phase")
        mine = [e for e in apps if e.seq < y.seq]
        ctx.decide(True if mine else (False if not [e for e in r.events if e.kind in ("setattr", "mutate", "call") and e.seq < y.seq and
                                                    (e.name == "activities" or contains(e.base or NONE, lambda t: is_attr(t, "activities")))] else None), y.where(),
                   "the phase is recorded before it starts", "recorded")
        for a in mine:
            act = a.args[0] if a.args else a.value
            if act is None or act.op != "obj":
                continue
            news = [e for e in r.events if e.kind == "new" and e.res is act]
            w = attr_at(r, a, act, "stopwatch")
            lim = attr_at(r, a, act, "time_limit")
            if news and w is None and news[0].args is not None:
                w, lim = news[0].kw("stopwatch", 1), news[0].kw("time_limit", 2)
            ctx.decide(True if sw and w is sw[0] else (None if w is None or vague(w) or not sw else False), a.where(), "the recorded phase has the stopwatch that is running", "same-stopwatch", show_(w))
            ctx.decide(True if lim is P(r, "time_limit", 1) else (False if lim is NONE or lim is not None and is_const(lim) else None), a.where(), "the recorded phase has the given limit", "limit", show_(lim))
            cur = [e for e in r.events if e.kind == "setattr" and e.name == "current_activity" and e.seq < y.seq]
            ctx.decide(True if cur and cur[-1].value is act else (False if not cur else None), y.where(), "the running phase is the current one", "current")
        ends = [e for e in r.events if e.kind == "setattr" and e.name == "current_activity" and e.seq > y.seq]
        ok = None
        if not ends:
            ok = False if not any(c[0] == "with" for c in y.ctx if vague(r.it.withs[c[1]]["term"])) else None
        elif any(e.value is NONE and in_ctx(e, "finally") for e in ends):
            ok = True
        elif all(e.value is NONE and not any(c[0] in ("finally", "handler") for c in e.ctx) for e in ends):
            ok = False
        ctx.decide(ok, y.where(), "after the phase, however it ended, it is no longer current", "ended", "not in a finally block" if ends else "never reset")


@rule("C05", "stopwatch", "a stopwatch gives the time since its start while running and its total afterwards")
def c05_stopwatch(ctx):
    def run(m):
        return ctx.run(f"{SW}.{m}")
    r = run("__enter__")
    last = r.events[-1] if r.events else None
    st = attr_at(r, None, ME, "_start")
    clock = mk("attr", ME, "_get_time")
    ctx.decide(True if st is not None and st.op == "call" and st.args[0] is clock else (False if st is None or is_const(st) or is_attr(st, "_start", ME) else None),
               r.where if isinstance(getattr(r, "where", None), str) else last.where(), "entering notes the start", "start", show_(st))
    run_ = attr_at(r, None, ME, "_is_running")
    r2 = run("__exit__")
    en = attr_at(r2, None, ME, "_end")
    w2 = r2.events[-1].where()
    ctx.decide(True if en is not None and en.op == "call" and en.args[0] is clock else (False if en is None or is_const(en) or is_attr(en, "_end", ME) else None), w2, "leaving notes the end", "end", show_(en))
    run2 = attr_at(r2, None, ME, "_is_running")
    for e in r2.returns():
        ctx.decide(True if e.value is NONE or e.value is FALSE else (False if e.value is TRUE else None), e.where(), "leaving does not suppress exceptions", "no-suppress", show_(e.value))
    r3 = run("elapsed_time")
    s0, e0 = mk("attr", ME, "_start"), mk("attr", ME, "_end")
    flag = [x for x in (run_, run2) if x is not None and is_const(x)]
    for e in r3.returns():
        p = arith.poly(e.value)
        now = [k for k in p if len(k) == 1 and k[0].op == "call" and k[0].args[0] is clock]
        if p == {(e0,): 1, (s0,): -1}:
            kind = "total"
        elif len(p) == 2 and now and p[now[0]] == 1 and p.get((s0,)) == -1:
            kind = "running"
        elif {y for k in p for y in k} <= {s0, e0} | {k[0] for k in now}:
            ctx.bad(e.where(), f"elapsed time is {show_(e.value)}", "value")
            continue
        else:
            other = [k for k in p if len(k) == 1 and k[0].op == "call" and k[0].args[0].op == "ext" and k[0].args[0].args[0].startswith("time.") and k[0].args[0].args[0] != "time.time"]
            if other and not now and (s0,) in p:
                ctx.bad(e.where(), f"NOT: start and end are read from the same clock: {show_(e.value)}", "clock")
                continue
            ctx.unk(e.where(), "elapsed time not recognised")
            continue
        if len(flag) == 2 and run_ is TRUE and run2 is FALSE:
            f = mk("attr", ME, "_is_running")
            on = logic.implies(list(e.guards), f)
            off = logic.implies(list(e.guards), neg(f))
            # a first run: nothing noted as the end yet; a later one: the end of the run before
            first, later, done = {f: True, s0: 5.0, e0: 0}, {f: True, s0: 5.0, e0: 3.0}, {f: False, s0: 5.0, e0: 7.5}
            at = [all(foldb(g, env) is True for g in e.guards) for env in (first, later, done)]
            on, off = (on or at[0], off and not at[0]) if kind == "total" else (on and not at[2], off or at[2])
            ctx.decide({"total": True if off else (False if on else None), "running": True if on else (False if off else None)}[kind], e.where(),
                       "the right formula is used while running and afterwards", kind)
        else:
            ctx.ok(e.where(), "elapsed time", kind)


@rule("C05", "limits", "a phase has exceeded its limit exactly when it used more than limit plus margin")
def c05_limits(ctx):
    el = mk("attr", mk("attr", ME, "stopwatch"), "elapsed_time")
    lim = mk("attr", ME, "time_limit")
    r = ctx.run(TK + "Activity.exceeded_limit")
    n = 0
    for e in r.returns():
        lc = arith.lincmp(e.value)
        has = logic.implies(list(e.guards), neg(cmp_("is", lim, NONE)))
        if lc:
            n += 1
            p, strict = lc
            atoms_ = {k[0]: v for k, v in p.items() if len(k) == 1}
            t = [v for k, v in atoms_.items() if contains(k, lambda x: x is mk("attr", ME, "stopwatch"))]
            m = atoms_.get(P(r, "margin", 0))
            l = atoms_.get(lim)
            ok = len(p) == 3 and len(t) == 1 and m is not None and l is not None
            # elapsed - limit - margin > 0   <=>   limit + margin - elapsed < 0
            ctx.decide((t[0] == -1 and m == 1 and l == 1) if ok else None, e.where(), "exceeded means elapsed > limit + margin", "exceeded", show_(e.value))
        elif is_const(e.value):
            nolim = logic.implies(list(e.guards), cmp_("is", lim, NONE))
            if nolim:
                ctx.decide(e.value is FALSE, e.where(), "without a limit nothing is exceeded", "no-limit")
            elif has:
                ctx.decide(False, e.where(), "with a limit the elapsed time decides", "with-limit", show_(e.value))
    if not n:
        ctx.abort("limit comparison not found")
    if ctx.has(TK + "Activity.time_left"):
        r = ctx.run(TK + "Activity.time_left")
        for e in r.returns():
            p = arith.poly(e.value)
            t = [v for k, v in p.items() if len(k) == 1 and contains(k[0], lambda x: x is mk("attr", ME, "stopwatch"))]
            ok = len(p) == 2 and len(t) == 1 and (lim,) in p
            ctx.decide((t[0] == -1 and p[(lim,)] == 1) if ok else None, e.where(), "time left is limit minus elapsed", "left", show_(e.value))


@rule("C05", "configured", "the total budget is the user's and the reserved fraction is the post-processing's own")
def c05_conf(ctx):
    r = init_run(ctx)
    last = None
    for e in r.events:
        if e.kind == "setattr" and e.name == "_time_manager" and e.base is ME:
            last = e
    if last is None:
        ctx.abort("time keeper not configured")
    v = attr_at(r, last, last.value, "total_time") if last.value.op == "obj" else None
    lv = [x for x, _ in leaves(v)] if v is not None else [None]
    ctx.decide(True if all(x is P(r, "max_total_time") for x in lv) else (False if any(x is not None and (is_const(x) or x.op == "param" and x is not P(r, "max_total_time")) for x in lv) else None), last.where(),
               "the budget is max_total_time", "total", show_(v))
    for c in ("gama.postprocessing.base_post_processing.BasePostProcessing", "gama.postprocessing.best_fit.BestFitPostProcessing",
              "gama.postprocessing.ensemble.EnsemblePostProcessing", "gama.postprocessing.NoPostProcessing"):
        if not ctx.has(c + ".__init__"):
            continue
        r = ctx.run(c + ".__init__")
        v = attr_at(r, None, ME, "time_fraction")
        w = r.events[-1].where() if r.events else c
        ctx.decide(True if v is P(r, "time_fraction", 0) else (False if v is NONE or v is not None and is_const(v) else None), w, f"{c.split('.')[-1]} reserves the given fraction", "fraction", show_(v))


def init_run(ctx):
    return ctx.run(G + "__init__", opaque=("gama.configuration.parser.pset_from_config", "gama.utilities.metrics.scoring_to_metric", G + "cleanup",
                                           "gama.utilities.evaluation_library.EvaluationLibrary", "gama.logging.utility_functions.register_stream_log"))
