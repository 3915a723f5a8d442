"""Rules about generating pipelines: C06 (length), C07 (parents untouched), C08 (stays in the search space),
C29 (selection and dominance)."""
from __future__ import annotations

import ast

from vp import arith, logic
from vp.check import rule
from vp.terms import (FALSE, NONE, TRUE, cmp_, const, contains, holds, is_const, leaves, mk, neg, simplify, walk)
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P

G = "gama.genetic_programming."
MUT, CX, OPS, SEL, NS = G + "mutation.", G + "crossover.", G + "operations.", G + "selection.", G + "nsga2."
IND, PN = G + "components.individual.Individual", G + "components.primitive_node.PrimitiveNode"
OS = G + "operator_set.OperatorSet"
PF = "gama.utilities.generic.paretofront.ParetoFront"
ME = mk("param", "self")
CHOICE = ("random.choice", "random.choices", "random.sample")


def drawn_from(r, t, e=None):
    """For a randomly drawn value: the list of (base, guards, elem) pieces it is drawn from, else None."""
    x = r.ex(t, e)
    if not is_call(x, "random.choice") or not x.args[1]:
        return None
    ps = seqnorm(x.args[1][0])
    if ps is None:
        return None
    out = []
    for k, g, b, el, rev in ps:
        if k == "splice":
            out.append((b, g, None))
        elif k == "each":
            out.append((b, g, el))
        else:
            return None
    return out


def plen(t):
    """Is t the number of primitives of something? Returns that something."""
    if t.op == "len" and t.args[0].op == "attr" and t.args[0].args[1] == "primitives":
        return t.args[0].args[0]
    return None


def upper(guards, a, b):
    """Largest c with guards => a - b <= c known (integers); None when no guard bounds it."""
    best = None
    for g in guards:
        for x in _conj(g):
            lc = arith.lincmp(x)
            if lc is None:
                continue
            p, strict = lc
            if set(p) <= {(a,), (b,), ()} and p.get((a,)) == 1 and p.get((b,)) == -1:
                c = -p.get((), 0) - (1 if strict else 0)
                best = c if best is None else min(best, c)
    return best


def lower(guards, a, b):
    u = upper(guards, b, a)
    return None if u is None else -u


def _conj(g):
    if g.op == "and":
        out = []
        for x in (g.args[0] if len(g.args) == 1 and isinstance(g.args[0], tuple) else g.args):
            out += _conj(x)
        return out
    return [g]


def under(guards, facts):
    return [simplify(g, set(facts)) for g in guards]


# ---------------------------------------------------------------- C06 maximum pipeline length
def effect(ctx, q):
    """How a mutation changes the length: '+', '0', '-' or None."""
    r = ctx.run(q)
    kinds = set()
    news = {e.base if e.kind == "new" else None for e in r.events if e.kind == "new"}
    for e in top(r, "setattr", "_data_node"):
        v = r.ex(e.value, e)
        if "__init__" in e.where():
            continue
        if v is const("data"):
            if e.base.op != "obj":
                kinds.add("-")
        elif v.op == "obj":
            # the new node takes over what came before: insertion if its own data node is the parent's old one
            d = e.heap.get((v, "_data_node"))
            if e.base.op == "obj":
                continue
            if d is not None and d.op == "attr" and d.args[1] == "_data_node" and d.args[0] is e.base:
                kinds.add("+")
            else:
                kinds.add("0" if e.base.op == "loopphi" or contains(e.base, lambda x: is_elem(x)) else "?")
        elif e.base.op == "obj":
            continue
        else:
            kinds.add("?")
    for e in top(r, "setitem"):
        if is_attr(e.base, "_terminals"):
            kinds.add("0")
    if len(kinds) == 1:
        k = kinds.pop()
        return None if k == "?" else k
    return None


@rule("C06", "mutation", "a mutation never produces a pipeline longer than the maximum length")
def c06_mut(ctx):
    q = MUT + "random_valid_mutation_in_place"
    r = ctx.run(q)
    ind, mx = P(r, "individual", 0), P(r, "max_length", 2)
    n = mk("len", mk("attr", ind, "primitives"))
    given = neg(cmp_("is", mx, NONE))
    applied = [e for e in r.events if e.kind == "call" and e.args and e.args[0] is ind and e.f.op not in ("ext",)
               and not is_call(mk("call", e.f, (), (), 0), "random.choice")]
    adds = [e for e in top(r, "mutate", "append")]
    opts = []
    for e in adds:
        for a in e.args or [e.value]:
            opts.append((a, e.guards, e))
    if not opts:
        # options given as one list expression
        for e in r.calls("random.choice"):
            ps = seqnorm(r.ex(e.args[0], e))
            for p in ps or []:
                if p[0] == "item":
                    opts.append((p[3], tuple(e.guards) + tuple(p[1]), e))
    if not opts:
        ctx.abort("mutation options not recognised")
    seen = 0
    for f, gs, e in opts:
        shrink_by = None
        if f.op == "partial":
            shrink_by = dict(f.args[2]).get("shrink_by")
            f = f.args[0]
        if f.op not in ("fn", "glob", "ext"):
            ctx.unk(e.where(), "mutation option not understood " + show_(f))
            continue
        name = f.args[0] if f.op == "fn" else ".".join(map(str, f.args))
        if not ctx.has(name):
            ctx.unk(e.where(), "mutation option not understood " + show_(f))
            continue
        kind = effect(ctx, name)
        g = under(gs, {given})
        if any(x is FALSE for x in g):
            ctx.ok(e.where(), f"{name.split('.')[-1]} is not used with a maximum length", "unused")
            continue
        seen += 1
        short = name.split(".")[-1]
        up = upper(g, n, mx)
        touched = [x for x in g if contains(x, mx)]
        if kind == "+":
            d = True if up is not None and up <= -1 else (False if not touched or up is not None else None)
            ctx.decide(d, e.where(), f"{short} is only an option when there is room below the maximum", short,
                       ", ".join(map(show_, touched)) or "no condition on the maximum length")
        elif kind == "0":
            d = True if up is not None and up <= 0 else (False if not touched or up is not None else None)
            ctx.decide(d, e.where(), f"{short} is only an option for a pipeline within the maximum", short)
        elif kind == "-":
            if shrink_by is None:
                lo = lower(g, n, mx)
                d = True if up is not None and up <= 0 else (False if not touched or up is not None or (lo is not None and lo >= 1) else None)
                ctx.decide(d, e.where(), "an oversize pipeline is shrunk to the maximum", short)
            else:
                dd = arith.const_diff(shrink_by, mk("bin", "-", n, mx))
                ctx.decide((False if is_const(shrink_by) else None) if dd is None else dd == 0, e.where(), "an oversize pipeline is shrunk to the maximum",
                           short + "-by", show_(shrink_by))
        else:
            ctx.unk(e.where(), f"effect of {short} on the length unknown", short)
    if not seen:
        ctx.abort("no options")


@rule("C06|C08", "shrink", "shrinking removes exactly the requested number of steps and always leaves the estimator")
def c06_shrink(ctx):
    q = MUT + "mut_shrink"
    r = ctx.run(q)
    ind, by = P(r, "individual", 0), P(r, "shrink_by", 2)
    n = mk("len", mk("attr", ind, "primitives"))
    none = cmp_("is", by, NONE)
    ws = [e for e in top(r, "setattr", "_data_node")]
    if len(ws) != 1:
        ctx.abort("no single cut")
    e = ws[0]
    ctx.decide(True if e.value is const("data") else (None if vague(e.value) else False), e.where(), "the pipeline is cut at the data",
               "data", show_(e.value))
    raises = [x for x in top(r, "raise")]
    lim = [upper(under([neg(b) for b in x.guards], {neg(none)}), by, n) for x in raises]
    # explicit: shrink_by <= n - 1 on the continuing path
    u = upper(under(e.guards, {neg(none)}), by, n)
    ctx.decide(True if u is not None and u <= -1 else (False if u is not None or not raises else None), e.where(),
               "removing all steps is refused", "refuse", f"shrink_by <= n {u if u is not None else ''}")
    for c in r.calls("random.randint", "random.randrange"):
        hi = c.args[-1]
        k = arith.const_diff(hi, n)
        if k is not None and c.callee.endswith("randrange"):
            k -= 1
        ctx.decide(None if k is None else k <= -1, c.where(), "a random number of steps leaves at least the estimator", "random", show_(hi))
        if len(c.args) == 2:
            k = arith.const_diff(c.args[0], const(1))
            ctx.decide(None if k is None else k >= 0, c.where(), "at least one step is removed", "random-low")
    node = e.base
    if node.op != "loopphi":
        ctx.unk(e.where(), "cut position not understood " + show_(node))
        return
    lp = r.it.loops[node.args[0]]
    init, nxt = lp["phis"][node]
    kept0 = None
    if init is mk("attr", ind, "main_node"):
        kept0 = const(1)
    step = nxt is mk("attr", node, "_data_node")
    if kept0 is None or not step:
        ctx.unk(e.where(), "walk not understood")
        return
    count = None
    if lp["kind"] == "while":
        lc = arith.lincmp(lp["cond"])
        if lc:
            p, strict = lc
            ph = [k for k in p if len(k) == 1 and k[0].op == "loopphi" and k[0].args[0] == node.args[0]]
            if len(ph) == 1:
                phi = ph[0][0]
                i0, n0 = lp["phis"][phi]
                d = arith.const_diff(n0, phi)
                c = p[ph[0]]
                if d in (1, -1) and c * d == 1:   # moves towards p >= 0
                    # iterations = number of k >= 0 with p(i0 + d*k) < 0 = -(p at i0) [strict] (+1 if not)
                    rest = dict(p)
                    del rest[ph[0]]
                    val = arith.poly(i0)
                    tot = dict(rest)
                    for m, v in val.items():
                        tot[m] = tot.get(m, 0) + c * v
                    count = {m: -v for m, v in tot.items() if v}
                    if not strict:
                        count[()] = count.get((), 0) + 1
    elif lp["kind"] == "for" and lp.get("iter") is not None:
        it = lp["iter"]
        if it.op == "range" and len(it.args[0]) == 1:
            count = arith.poly(it.args[0][0])
    if count is None:
        ctx.unk(e.where(), "number of kept steps not understood")
        return
    for facts, nm in (({neg(none)}, "given"), ({none}, "random")):
        if nm == "random":
            rc = r.calls("random.randint")
            target = rc[0].res if rc else None
        else:
            target = by
        if target is None:
            continue
        got = {}
        for m, v in count.items():
            m2 = tuple(simplify(x, facts) for x in m)
            got[m2] = got.get(m2, 0) + v
        want = {(n,): 1, (target,): -1, (): -1}
        got = {k: v for k, v in got.items() if v}
        ks = set(got) | set(want)
        diff = {k: got.get(k, 0) - want.get(k, 0) for k in ks if got.get(k, 0) != want.get(k, 0)}
        ctx.decide(True if not diff else (False if set(diff) == {()} else None), e.where(),
                   "exactly the requested number of steps is removed", "amount-" + nm, str(diff))


@rule("C06", "creation", "a random pipeline has at least the minimum and at most the maximum number of steps")
def c06_new(ctx):
    r = ctx.run(OPS + "create_random_expression")
    mn, mx = P(r, "min_length", 1), P(r, "max_length", 2)
    adds = [e for e in top(r, "setattr", "_data_node") if e.value.op == "obj" and "__init__" not in e.where()]
    rets = r.returns()
    if not rets or not adds:
        ctx.abort("construction not recognised")
    e = adds[0]
    lids = [c[1] for c in e.ctx if c[0] == "loop"]
    if len(adds) > 1:
        c = logic.counts([x.guards for x in adds]) if all(x.ctx == e.ctx for x in adds) else None
        ctx.decide(None if c is None else (True if c <= {0, 1} else False), e.where(), "each round adds one step", "one")
    if len(lids) != 1:
        ctx.abort("no single loop adds steps")
    lp = r.it.loops[lids[0]]
    if lp["kind"] != "for" or lp.get("iter") is None or lp["iter"].op != "range":
        ctx.abort("rounds not understood")
    a = lp["iter"].args[0]
    cnt = arith.poly(a[0]) if len(a) == 1 else ({k: v for k, v in _sub(arith.poly(a[1]), arith.poly(a[0])).items() if v} if len(a) == 2 else None)
    rd = r.calls("random.randint", "random.randrange")
    if cnt is None or len(rd) != 1:
        ctx.abort("length not understood")
    rd = rd[0]
    diff = _sub(cnt, {(rd.res,): 1, (): -1})
    diff = {k: v for k, v in diff.items() if v}
    off = 0 if not diff else (diff.get(()) if set(diff) == {()} else None)
    if off is None:
        from vp.conc import conc, CantFold, Broken
        for lo, hi in ((1, 1), (1, 3), (2, 3), (3, 3)):
            for n in range(lo, hi + 1):
                try:
                    env = {rd.res: n, mn: lo, mx: hi}
                    vs = [conc(x, env) for x in a]
                except (CantFold, Broken, TypeError):
                    ctx.abort("length not understood")
                made = 1 + len(range(*vs))
                if not lo <= made <= hi:
                    ctx.bad(e.where(), f"NOT: a pipeline has between {lo} and {hi} steps as asked (drawn {n}, {made} steps made)", "steps")
                    return
        ctx.ok(e.where(), "number of steps within limits", "steps")
        return
    hi = arith.const_diff(rd.args[-1], mx)
    lo = arith.const_diff(rd.args[0], mn)
    if rd.callee.endswith("randrange") and hi is not None:
        hi -= 1
    ctx.decide(None if hi is None else hi + off <= 0, rd.where(), "at most the maximum number of steps is created", "max",
               f"maximum+{hi + off}" if hi is not None else show_(rd.args[-1]))
    ctx.decide((False if is_const(rd.args[0]) and contains(mn, lambda x: x.op == "param") else None) if lo is None else lo + off >= 0, rd.where(), "at least the minimum number of steps is created", "min")
    phis = [(p, iv) for p, iv in lp["phis"].items() if p is e.base]
    if phis:
        ctx.decide(True if phis[0][1][1] is e.value else (False if phis[0][1][1] is e.base else None), e.where(),
                   "each new step is chained to the previous one", "chain", show_(phis[0][1][1]))
    elif e.base.op == "obj":
        ctx.bad(e.where(), "NOT: each new step is chained to the previous one", "chain")


def _sub(p, q):
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, 0) - v
    return out


@rule("C06", "crossover", "the individual a crossover hands back is within the maximum length")
def c06_cx(ctx):
    r = ctx.run(CX + "random_crossover", opaque=(CX + "_valid_crossover_functions",))
    i1, i2, mx = P(r, "ind1", 0), P(r, "ind2", 1), P(r, "max_length", 2)
    given = neg(cmp_("is", mx, NONE))
    cx = [e for e in r.events if e.kind == "call" and e.f.op == "call" and len(e.args) == 2]
    if len(cx) != 1:
        ctx.abort("crossover call not recognised")
    c = cx[0]
    # inputs
    for i, nm in ((i1, "first"), (i2, "second")):
        u = upper(under(c.guards, {given}), mk("len", mk("attr", i, "primitives")), mx)
        ctx.decide(True if u is not None and u <= 0 else (False if u is not None else None), c.where(),
                   f"an oversize {nm} parent is refused", nm)
    pre = set(c.guards)
    rets = [e for e in r.returns() if e.seq > c.seq]
    anyg = False
    for e in rets:
        g = under([x for x in e.guards if x not in pre], {given})
        if any(x is FALSE for x in g):
            continue
        v = e.value
        cases = [(v, g)]
        if v.op == "ite":
            cases = [(x, g + list(under(f, {given}))) for x, f in leaves(v)]
        for v, g in cases:
            if v.op != "tuple" or len(v.args[0]) != 2:
                ctx.unk(e.where(), "result not understood " + show_(v))
                continue
            a, b = (unite(x, g) for x in v.args[0])
            first, second = mk("item", c.res, const(0)), mk("item", c.res, const(1))
            la = mk("len", mk("attr", first, "primitives"))
            lb = mk("len", mk("attr", second, "primitives"))
            anyg = anyg or any(contains(x, mx) for x in g)
            if a is first:
                u, lw = upper(g, la, mx), lower(g, la, mx)
                if u is None and upper(g, lb, mx) is not None:
                    lw = 0
                d = True if u is not None and u <= 0 else (False if u is not None or lw is not None or
                                                             not any(contains(x, mx) for x in g) else None)
                ctx.decide(d, e.where(), "the first child is returned first only if it is within the maximum", "fits",
                           ", ".join(map(show_, g)))
            elif a is second:
                lw = lower(g, la, mx)
                u = upper(g, lb, mx)
                d = True if (lw is not None and lw >= 1) or (u is not None and u <= 0) else \
                    (False if lw is not None or upper(g, la, mx) is not None or lower(g, lb, mx) is not None or not any(contains(x, mx) for x in g) else None)
                ctx.decide(d, e.where(), "otherwise the other child is returned first", "other", ", ".join(map(show_, g)))
            else:
                ctx.unk(e.where(), "result not understood " + show_(a))


def unite(x, g):
    return simplify(x, set(g))


@rule("C06", "configured", "the user's maximum length reaches every operation that creates pipelines")
def c06_conf(ctx):
    r = ctx.run("gama.gama.Gama.__init__", opaque=("gama.configuration.parser.pset_from_config",))
    mx = P(r, "max_pipeline_length")
    o = [e for e in top(r, "setattr", "_operator_set")]
    if not o or o[-1].value.op != "obj":
        ctx.abort("operators not found")
    e = o[-1]
    ob = e.value
    ins = [c for c in walk(mk("tuple", tuple(e.guards))) if c.op == "cmp"]
    for attr, fnarg in (("_mutate", "max_length"), ("_mate", "max_length"), ("_create_new", "max_length")):
        v = e.heap.get((ob, attr))
        if v is None or v.op not in ("partial", "fn"):
            ctx.unk(e.where(), f"{attr} not understood")
            continue
        m = dict(v.args[2]).get(fnarg) if v.op == "partial" else None
        if m is None:
            ctx.bad(e.where(), f"NOT: {attr} is given the maximum length", attr)
            continue
        given = {neg(cmp_("is", mx, NONE))}
        for val, facts in leaves(simplify(m, given), given):
            d = True if val is mx else (None if vague(val) else False)
            if d is False and not is_const(val):
                k = arith.const_diff(val, mx)
                d = None if k is None else k <= 0
            if d is False and is_const(val) and val.args[0] == 1:
                d = True
            ctx.decide(d, e.where(), f"{attr} uses the user's maximum length", attr, show_(val))


# ---------------------------------------------------------------- C07 parents are never modified
def fresh_ind(r, t, e):
    """Is t an individual made in this run, sharing no mutable part with an existing one?"""
    t = r.ex(t, e)
    if t.op == "obj":
        main = e.heap.get((t, "main_node"))
        if main is None:
            return None
        return fresh_node(r, main, e)
    if is_call(t, "copy.deepcopy", "pickle.loads"):
        return True
    if t.op == "param":
        return False
    if is_call(t, "copy.copy"):
        return False
    return None


def fresh_node(r, t, e):
    if is_call(t, "copy.deepcopy", "pickle.loads"):
        return True
    if is_call(t, PN + ".copy", ".copy"):
        return True
    if t.op == "obj":
        d = e.heap.get((t, "_data_node"))
        tm = e.heap.get((t, "_terminals"))
        out = True
        for v, facts in leaves(d) if d is not None else []:
            if v.op in ("missing",) or (v.op == "const"):
                continue
            if holds(mk("isinstance", v, mk("ext", "builtins.str")), facts):
                continue
            x = fresh_node(r, v, e)
            if x is False:
                if any(f.op == "not" and f.args[0].op == "isinstance" and f.args[0].args[0] is v and "PrimitiveNode" in show_(f.args[0].args[1])
                       for f in facts):
                    continue
                if any(f.op == "isinstance" and f.args[0] is v and "str" in show_(f.args[1]) for f in facts) or \
                        any(f.op == "cmp" and v in f.args and const("data") in f.args for f in facts):
                    continue
                return False
            if x is None:
                out = None
        if tm is None:
            return None
        if tm.op == "listobj":
            return out
        if tm.op in ("call", "sorted", "list"):
            return out
        return False if tm.op in ("attr", "param") else None
    if t.op == "attr" and t.args[1] in ("main_node", "_data_node"):
        return False
    return None


@rule("C07", "copies", "variation operators work on copies of the parents, made anew for every attempt")
def c07_copies(ctx):
    for meth, attr in (("mate", "_mate"), ("mutate", "_mutate")):
        r = ctx.run(f"{OS}.{meth}")
        calls = [e for e in r.events if e.kind == "call" and is_attr(e.f, attr, ME)]
        if not calls:
            ctx.unk(f"{OS}.{meth}", "operator not found")
            continue
        nn = 2 if meth == "mate" else 1
        for e in calls:
            for i, a in enumerate(e.args[:nn]):
                d = fresh_ind(r, a, e)
                ctx.decide(d, e.where(), f"{meth} works on a copy of the parent", f"{meth}-{i}", show_(a))
                if d and a.op == "obj":
                    born = [x for x in r.events if x.kind == "new" and (x.base is a or x.res is a)]
                    if born:
                        inloop = [c for c in e.ctx if c[0] == "loop"]
                        bl = [c for c in born[-1].ctx if c[0] == "loop"]
                        ctx.decide(bl == inloop, e.where(), "each attempt starts from a new copy", f"{meth}-attempt")
                    for at, want in (("fitness", NONE),):
                        v = e.heap.get((a, at))
                        ctx.decide(True if v is want else (False if v is not None and not vague(v) else None), e.where(),
                                   "the offspring has no fitness yet", f"{meth}-fitness", show_(v))
                    v = e.heap.get((a, "_id"))
                    ctx.decide(True if v is not None and is_call(v, "uuid.uuid4", "uuid.uuid1") else (False if v is not None and is_attr(v, "_id") else None),
                               e.where(), "the offspring has its own identity", f"{meth}-id", show_(v))
        writes = [e for e in r.events if e.kind in ("setattr", "setitem", "delitem", "mutate", "setslice") and e.base is not None]
        for e in writes:
            b = e.base
            root = b
            while root.op in ("attr", "item", "elem", "slice"):
                root = root.args[0]
            if root.op == "param" and root in (mk("param", "ind1"), mk("param", "ind2"), mk("param", "ind"),
                                               P(r, "ind1", 0), P(r, "ind2", 1) if meth == "mate" else P(r, "ind", 0)):
                ctx.bad(e.where(), f"NOT: {meth} leaves its parents unchanged: writes {show_(b)}.{e.name}", f"{meth}-write")
        ctx.ok(f"{OS}.{meth}", f"{len(writes)} writes, none to a parent", f"{meth}-writes")


@rule("C07", "deep-copy", "a copied individual shares no mutable part with the original")
def c07_deep(ctx):
    r = ctx.run(IND + ".copy_as_new")
    for e in r.returns():
        ctx.decide(fresh_ind(r, e.value, e), e.where(), "a copied individual has its own steps", "individual", show_(e.value))
        if e.value.op == "obj":
            m = e.heap.get((e.value, "meta"))
            ctx.decide(True if m is not None and m.op in ("dictobj", "dict", "call") else (False if m is not None and is_attr(m, "meta") else None),
                       e.where(), "a copied individual has its own meta-information", "meta", show_(m))
            c = e.heap.get((e.value, "_to_pipeline"))
            ctx.decide(True if c is mk("attr", ME, "_to_pipeline") else (False if c is NONE else None), e.where(),
                       "a copied individual compiles the same way", "compile", show_(c))
    r = ctx.run(PN + ".copy")
    for e in r.returns():
        v = e.value
        ctx.decide(fresh_node(r, v, e), e.where(), "a copied step has its own hyperparameters and its own predecessors", "node", show_(v))
        if v.op == "obj":
            ctx.decide(e.heap.get((v, "_primitive")) is mk("attr", ME, "_primitive"), e.where(), "a copied step is the same algorithm", "prim")
            t = r.ex(e.heap.get((v, "_terminals"), NONE), e)
            ctx.decide(True if contains(t, mk("attr", ME, "_terminals")) else (None if vague(t) else False), e.where(),
                       "a copied step has the same hyperparameters", "terminals", show_(t))
            d = e.heap.get((v, "_data_node"))
            if d is not None:
                own = mk("attr", ME, "_data_node")
                nonstr = {neg(mk("isinstance", own, mk("ext", "builtins.str"))), neg(cmp_("==", own, const("data"))),
                          mk("isinstance", own, mk("cls", PN))}
                for x, f in leaves(d, nonstr):
                    if x.op == "missing":
                        continue
                    ctx.decide(True if contains(x, own) else (None if vague(x) else False), e.where(),
                               "a copied step keeps its predecessors", "preds", show_(x))


@rule("C07", "population", "creating offspring does not modify the population")
def c07_pop(ctx):
    r = ctx.run(SEL + "create_from_population", opaque=(NS + "nsga2_select", OS + ".mate", OS + ".mutate", CX + "_valid_crossover_functions"))
    pop = P(r, "pop", 1)
    for e in r.events:
        if e.kind in ("setattr", "setitem", "mutate", "delitem", "setslice") and e.base is not None:
            b = e.base
            while b.op in ("attr", "item", "elem", "slice"):
                b = b.args[0]
            if b is pop or is_call(b, NS + "nsga2_select"):
                ctx.bad(e.where(), f"NOT: the population is left unchanged: {show_(e.base)}.{e.name}", "write")
    ch = r.calls(OS + ".mate", OS + ".mutate")
    ctx.decide(bool(ch) or None, SEL + "create_from_population", "offspring are made by the copying operators", "operators")
    for e in r.returns():
        v = r.ex(e.value, e)
        ps = seqnorm(v)
        for p in ps or []:
            if p[0] == "each":
                for x, f in leaves(p[3]):
                    ctx.decide(True if is_call(x, OS + ".mate", OS + ".mutate") else (None if vague(x) or x.op == "call" else False),
                               e.where(), "what is returned are offspring, not parents", "offspring", show_(x))


# ---------------------------------------------------------------- C08 generated pipelines stay in the search space
@rule("C08", "random-step", "a generated step is an algorithm of the search space with one value from the search space for each of its hyperparameters")
def c08_node(ctx):
    r = ctx.run(OPS + "random_primitive_node")
    ot, ps = P(r, "output_type", 0), P(r, "primitive_set", 1)
    ex = P(r, "exclude", 2)
    for e in r.returns():
        v = e.value
        if v.op != "obj":
            ctx.unk(e.where(), "result not understood")
            continue
        prim = e.heap.get((v, "_primitive"))
        df = drawn_from(r, prim, e)
        if not df:
            ctx.unk(e.where(), "algorithm not understood " + show_(prim))
            continue
        for b, g, el in df:
            ctx.decide(True if b is mk("item", ps, ot) else (None if vague(b) or not contains(b, ps) else False), e.where(),
                       "the algorithm comes from the search space and produces the wanted output", "from", show_(b))
            ctx.decide(True if el is None or is_elem(el, b) else None, e.where(), "the algorithm is one of the search space", "el")
            exg = [x for x in g if contains(x, ex)]
            elem = el or mk("elem", b)
            d = any(x.op == "not" and x.args[0].op == "cmp" and ex in x.args[0].args for x in exg)
            ctx.decide(True if d else (False if not exg or all(x.op == "cmp" for x in exg) else None), e.where(),
                       "the excluded algorithm is not chosen", "exclude", ", ".join(map(show_, g)))
        dn = e.heap.get((v, "_data_node"))
        ctx.decide(True if dn is const("data") else (None if vague(dn) else False), e.where(), "a new step works on the data", "data", show_(dn))
        t = r.ex(e.heap.get((v, "_terminals"), NONE), e)
        _terms(ctx, r, e, t, r.ex(prim, e), ps)


def _terms(ctx, r, e, t, prim, ps):
    while True:
        if t.op == "list" and len(t.args[0]) == 1 and t.args[0][0].op == "seg_splice":
            t = t.args[0][0].args[0]
        elif t.op == "sorted":
            t = t.args[0]
        else:
            break
    seq = seqnorm(t)
    if not seq or len(seq) != 1 or seq[0][0] != "each":
        ctx.unk(e.where(), "hyperparameters not understood " + show_(t))
        return
    _, g, b, el, _ = seq[0]
    ctx.decide(True if b.op == "attr" and b.args[1] == "input" and b.args[0] is prim else (False if b.op == "slice" else None), e.where(),
               "every hyperparameter of the algorithm gets a value", "all", show_(b))
    ctx.decide(True if not g else False, e.where(), "no hyperparameter is left out", "none-left-out", ", ".join(map(show_, g)))
    if is_call(el, "random.choice"):
        src = el.args[1][0]
        ctx.decide(True if src.op == "item" and src.args[0] is ps and is_elem(src.args[1], b) else (None if vague(src) else False), e.where(),
                   "the value comes from the search space of that hyperparameter", "value", show_(src))
    elif el.op == "item" and el.args[0].op == "item" and el.args[0].args[0] is ps:
        ctx.ok(e.where(), "the value comes from the search space of that hyperparameter", "value")
    else:
        ctx.unk(e.where(), "value not understood " + show_(el))


@rule("C08", "expression", "a generated pipeline ends in an estimator and has only preprocessing steps before it")
def c08_expr(ctx):
    opq = (OPS + "random_primitive_node",)
    r = ctx.run(OPS + "create_random_expression", opaque=opq)
    ps = P(r, "primitive_set", 0)

    def out(e):
        return e.kw("output_type", 0)
    news = r.calls(OPS + "random_primitive_node")
    if not news:
        ctx.abort("steps not recognised")
    for e in news:
        p = e.kw("primitive_set", 1)
        ctx.decide(True if p is ps else (None if vague(p) else False), e.where(), "steps come from the search space", "pset", show_(p))
    for e in r.returns():
        n = [x for x in news if x.res is e.value]
        if not n:
            ctx.unk(e.where(), "result not understood")
            continue
        ctx.decide(True if out(n[0]) is const("prediction") else (None if not is_const(out(n[0])) else False), e.where(),
                   "a pipeline ends in an estimator", "estimator", show_(out(n[0])))
    for e in top(r, "setattr", "_data_node"):
        n = [x for x in news if x.res is e.value]
        if not n:
            ctx.unk(e.where(), "step not understood")
            continue
        ctx.decide(True if out(n[0]) is const("data") else (None if not is_const(out(n[0])) else False), e.where(),
                   "what comes before a step transforms data", "preprocessing", show_(out(n[0])))
    r = ctx.run(MUT + "mut_insert", opaque=opq)
    ps = P(r, "primitive_set", 1)
    ind = P(r, "individual", 0)
    news = r.calls(OPS + "random_primitive_node")
    sets = top(r, "setattr", "_data_node")
    for e in sets:
        n = [x for x in news if x.res is e.value]
        if n:
            ctx.decide(True if out(n[0]) is const("data") else (None if not is_const(out(n[0])) else False), e.where(),
                       "an inserted step transforms data", "insert", show_(out(n[0])))
            p = n[0].kw("primitive_set", 1)
            ctx.decide(True if p is ps else (None if vague(p) else False), n[0].where(), "an inserted step comes from the search space", "insert-pset")
            old = mk("attr", e.base, "_data_node")
            nd = e.heap.get((e.value, "_data_node"))
            ctx.decide(True if nd is old else (False if nd is None or not vague(nd) else None), e.where(),
                       "an inserted step keeps the steps before it", "insert-chain", show_(nd))
    if not [e for e in sets if [x for x in news if x.res is e.value]]:
        ctx.unk(MUT + "mut_insert", "insertion not recognised")
    for e in top(r, "setattr", "main_node"):
        ctx.bad(e.where(), "NOT: an insertion keeps the estimator last", "insert-root")


@rule("C08", "replace-step", "replacing a step keeps its output type and the steps before it")
def c08_repl(ctx):
    r = ctx.run(IND + ".replace_primitive")
    new, pos = P(r, "new_primitive", 1), P(r, "position", 0)
    prims = mk("attr", ME, "primitives")

    def old(t):
        return is_elem(t) and t.args[0] is prims or (t.op == "item" and t.args[0] is prims)
    ws = [e for e in r.events if e.kind == "setattr" and e.name in ("_data_node", "main_node")]
    link = [e for e in ws if e.value is new]
    keep = [e for e in ws if e.base is new and e.name == "_data_node"]
    ck = [e for e in top(r, "raise") if any(contains(g, lambda t: is_attr(t, "output")) for g in e.guards)]
    ctx.decide(bool(ck), r.fn.qual, "a step with another output type is refused", "type")
    for e in ck:
        gs = [g for g in e.guards if contains(g, lambda t: is_attr(t, "output"))]
        ctx.decide(True if any(g.op == "not" for g in gs) else (False if all(g.op == "cmp" for g in gs) else None), e.where(),
                   "refused when the output types differ", "type-differs", ", ".join(map(show_, gs)))
    ctx.decide(bool(keep), r.fn.qual, "the new step takes over the steps before the old one", "keep")
    for e in keep:
        v = r.ex(e.value, e)
        b = v
        if is_call(v, PN + ".copy", ".copy", "copy.deepcopy"):
            b = v.args[0].args[-1] if v.args[0].op == "bound" else (v.args[0].args[0] if v.args[0].op == "attr" else (v.args[1][0] if v.args[1] else v))
            if b.op == "ext":
                b = v.args[1][0]
        d = is_attr(b, "_data_node") and (old(b.args[0]) or b.args[0].op == "loopphi")
        ctx.decide(True if d else (False if is_const(v) else None), e.where(), "the steps before the replaced one stay", "keep-what", show_(v))
    if keep:
        common = [g for g in keep[0].guards if all(g in k.guards for k in keep) and not contains(g, lambda t: t.op == "isinstance")]
        c = logic.counts([k.guards for k in keep], common)
        ctx.decide(None if c is None else (True if c == {1} else (False if 0 in c and len(keep) < 3 and
                   all(contains(g, lambda t: t.op == "isinstance") for k in keep for g in k.guards if g not in common) else None)), keep[0].where(),
                   "the new step takes over the steps before the old one, whatever they are", "keep-always", str(c))
    ctx.decide(bool(link), r.fn.qual, "the new step is put in place", "link")
    for e in link:
        if e.name == "main_node":
            g = [x for x in e.guards if (x.op == "cmp" and NONE in x.args) or contains(x, pos)]
            ctx.decide(True if g else None, e.where(), "only the first step becomes the estimator", "root")
    r = ctx.run(MUT + "mut_replace_primitive", opaque=(OPS + "random_primitive_node", IND + ".replace_primitive"))
    for c in r.calls(IND + ".replace_primitive"):
        n = [x for x in r.calls(OPS + "random_primitive_node") if x.res is c.kw("new_primitive", 1)]
        if not n:
            ctx.unk(c.where(), "replacement not understood")
            continue
        n = n[0]
        ot, ex = n.kw("output_type", 0), n.kw("exclude", 2)
        od = ot.args[0].args[0] if is_attr(ot, "output") and is_attr(ot.args[0], "_primitive") else None
        ctx.decide(True if od is not None else (False if is_const(ot) else None), n.where(), "a step is replaced by one with the same output", "same-output", show_(ot))
        ctx.decide(False if ex is None or ex is NONE else (True if od is not None and ex is mk("attr", od, "_primitive") else None), n.where(),
                   "a step is replaced by a different algorithm", "different", show_(ex))
        p = c.kw("position", 0)
        if od is not None and p.op == "item" and od.op == "item":
            ctx.decide(p.args[0] is od.args[0] and p.args[1] is const(0) and od.args[1] is const(1), c.where(),
                       "the step replaced is the one selected", "which", show_(p))


def _ways(t):
    """Whether the steps of an individual are gone through from the estimator (0) or from the data (1)."""
    n = 0
    while not is_attr(t, "primitives"):
        if t.op == "rev":
            n += 1
        elif t.op not in ("attr", "elem") and not (t.op == "pure" and t.args[0] in ("list", "tuple", "iter")):
            return None
        t = t.args[1][0] if t.op == "pure" else t.args[0]
        if not isinstance(t, Term):
            return None
    return n % 2


@rule("C08", "replace-value", "a hyperparameter value is only replaced by a value of the same hyperparameter")
def c08_term(ctx):
    r = ctx.run(IND + ".replace_terminal")
    new, pos = P(r, "new_terminal", 1), P(r, "position", 0)
    sets = [e for e in top(r, "setitem") if is_attr(e.base, "_terminals")]
    if not sets:
        ctx.abort("replacement not recognised")
    for e in sets:
        slot = mk("item", e.base, e.name)
        want = cmp_("==", mk("attr", slot, "identifier"), mk("attr", new, "identifier"))
        d = any(g is want for g in e.guards)
        rel = [g for g in e.guards if contains(g, mk("attr", new, "identifier"))]
        ctx.decide(True if d else (False if not rel or all(contains(g, lambda t: is_attr(t, "output")) or g.op == "not" for g in rel) else None), e.where(),
                   "a value of another hyperparameter is refused", "identifier", ", ".join(map(show_, rel)) or "no such condition")
        ctx.decide(True if e.value is new else (None if vague(e.value) else False), e.where(), "the new value is stored", "value")
        # positions count the values in the order in which they are listed
        own, listed = _ways(e.base), None
        rt = ctx.run(IND + ".terminals")
        for x in rt.returns():
            lst = rt.ex(x.value, x)
            eachs = [z for z in walk(lst) if z.op == "seg_each" and contains(z.args[1], lambda q: is_attr(q, "primitives"))
                     and not contains(z.args[1], lambda q: is_attr(q, "_terminals"))]
            listed = _ways(eachs[0].args[1]) if len(eachs) == 1 else None
        ctx.decide(None if own is None or listed is None else own == listed, e.where(),
                   "steps are searched in the order in which their values are listed", "order", show_(e.base))
        # position arithmetic: index = position - (number of values in earlier steps)
        pl = arith.poly(e.name)
        ph = [k for k in pl if len(k) == 1 and k[0].op == "loopphi"]
        if len(ph) == 1:
            phi = ph[0][0]
            i0, nx = r.it.loops[phi.args[0]]["phis"][phi]
            d1 = pl.get((pos,)) == 1 and pl[ph[0]] == -1 and set(pl) == {(pos,), ph[0]} and arith.const_diff(i0, const(0)) == 0
            st = _sub(arith.poly(nx), {(phi,): 1})
            st = {k: v for k, v in st.items() if v}
            d2 = st == {(mk("len", e.base),): 1}
            u = upper(e.guards, pos, phi)
            g = None
            for x in e.guards:
                lc = arith.lincmp(x)
                if lc and (pos,) in lc[0] and (phi,) in lc[0]:
                    p, strict = lc
                    # pos - phi - len < 0 (strict) required
                    want = {(pos,): 1, (phi,): -1, (mk("len", e.base),): -1}
                    dd = {k: v for k, v in _sub(p, want).items() if v}
                    k = 0 if not dd else (dd.get(()) if set(dd) == {()} else None)
                    if k is not None:
                        g = (k == 0 and strict) or (k == 1 and not strict)
            ctx.decide(None if not d2 and not st else (True if d1 and d2 and g else (False if (d1 is False and set(pl) <= {(pos,), ph[0], ()}) or g is False else None)),
                       e.where(), "the value replaced is the one at the given position", "position", show_(e.name))
    r = ctx.run(MUT + "mut_replace_terminal", opaque=(IND + ".replace_terminal",))
    ps, ind = P(r, "primitive_set", 1), P(r, "individual", 0)
    for c in r.calls(IND + ".replace_terminal"):
        nv, p = c.kw("new_terminal", 1), c.kw("position", 0)
        df = drawn_from(r, nv, c)
        if not df or len(df) != 1:
            ctx.unk(c.where(), "new value not understood " + show_(nv))
            continue
        b, g, el = df[0]
        d = b.op == "item" and b.args[0] is ps and is_attr(b.args[1], "identifier")
        ctx.decide(True if d else (None if vague(b) or not contains(b, ps) else False), c.where(), "the new value comes from the search space of that hyperparameter", "mutate-from", show_(b))
        if d:
            old = b.args[1].args[0]
            ctx.decide(True if old.op == "item" and p.op == "item" and old.args[0] is r.ex(p, c).args[0] and r.ex(p, c).args[1] is const(0) and old.args[1] is const(1)
                       else None, c.where(), "the value replaced is the one selected", "mutate-which")
            dif = [x for x in g if x.op == "not" and x.args[0].op == "cmp" and contains(x, mk("attr", old, "value"))]
            # pipelines come back from the workers as copies: what is not the same object may be the same value
            same = g and all(x.op == "not" and x.args[0].op == "cmp" and x.args[0].args[0] == "is" and old in x.args[0].args[1:] for x in g)
            ctx.decide(True if dif else (False if not g or same or any(x.op == "cmp" for x in g) else None), c.where(), "the new value differs from the old one",
                       "mutate-differs", ", ".join(map(show_, g)))


@rule("C08", "crossover", "crossover only exchanges values of the same hyperparameter, or preprocessing steps")
def c08_cx(ctx):
    r = ctx.run(CX + "crossover_terminals", opaque=(IND + ".replace_terminal",))
    i1, i2 = P(r, "ind1", 0), P(r, "ind2", 1)
    calls = r.calls(IND + ".replace_terminal")
    tgt = {}
    for c in calls:
        who = c.f.args[-1] if c.f.op == "bound" else c.f.args[0]
        tgt[who] = (r.ex(c.kw("position", 0), c), r.ex(c.kw("new_terminal", 1), c), c)
    if set(tgt) != {i1, i2} or len(calls) != 2:
        ctx.decide(None if not calls else (False if len(tgt) < 2 else None), r.fn.qual, "both individuals exchange a value", "both")
    else:
        (p1, v1, c1), (p2, v2, c2) = tgt[i1], tgt[i2]
        ok = None
        if all(x.op == "item" and is_const(x.args[1]) for x in (p1, v1, p2, v2)):
            idx = tuple(x.args[1].args[0] for x in (p1, v1, p2, v2))
            base = {x.args[0] for x in (p1, v1, p2, v2)}
            if len(base) == 1:
                b = base.pop()
                el = None
                if is_call(b, "random.choice"):
                    ps = seqnorm(b.args[1][0])
                    el = ps
                els = [x for x in walk(b) if x.op == "tuple" and len(x.args[0]) == 4]
                if els:
                    t = els[0].args[0]
                    def own(x):
                        s = {p for p in walk(x) if p in (i1, i2)}
                        return s.pop() if len(s) == 1 else None
                    isidx = [x.op == "idx" for x in t]
                    ow = [own(x) for x in t]
                    a, bb, c, d = idx
                    ok = isidx[a] and ow[a] is i1 and not isidx[bb] and ow[bb] is i2 and isidx[c] and ow[c] is i2 and not isidx[d] and ow[d] is i1
                    gs = [g for g in walk(b) if g.op == "cmp" and contains(g, lambda y: is_attr(y, "identifier"))]
                    segs_ = [x for x in walk(b) if x.op == "seg_each"]
                    gg = [g for s in segs_ for g in s.args[2]]
                    same = [g for g in gg if g.op == "cmp" and g.args[0] == "==" and contains(g, lambda y: is_attr(y, "identifier"))]
                    if gg or segs_:
                        ctx.decide(True if same else (False if not any(contains(g, lambda y: is_attr(y, "identifier")) for g in gg) else None), c1.where(),
                                   "only values of the same hyperparameter are exchanged", "same", ", ".join(map(show_, gg)))
                        diff = [g for g in gg if contains(g, lambda y: is_attr(y, "value"))]
                        ctx.decide(True if any(g.op == "not" or g.op == "or" for g in diff) else (False if not diff else None), c1.where(),
                                   "only different values are exchanged", "different")
        ctx.decide(ok, c1.where(), "each individual receives the other's value at its own position", "exchange")
    r = ctx.run(CX + "crossover_primitives")
    i1, i2 = P(r, "ind1", 0), P(r, "ind2", 1)
    sets = [e for e in r.events if e.kind == "setattr" and e.name in ("_data_node", "main_node")]
    dn = [e for e in sets if e.name == "_data_node"]
    for e in sets:
        if e.name == "main_node":
            ctx.bad(e.where(), "NOT: the estimators stay", "estimator")
    if len(dn) == 2:
        a, b = dn
        ok = a.value is mk("attr", b.base, "_data_node") and b.value is mk("attr", a.base, "_data_node")
        lost = b.value is mk("attr", b.base, "_data_node") or b.value is a.value
        ctx.decide(True if ok else (False if lost else None), a.where(), "the steps before two nodes are exchanged", "swap", f"{show_(a.value)} / {show_(b.value)}")
        for e, i in ((a, None), (b, None)):
            own = {p for p in walk(r.ex(e.base, e)) if p in (i1, i2)}
            ctx.decide(True if len(own) == 1 else None, e.where(), "a node of one individual", "node")
        o = [{p for p in walk(r.ex(e.base, e)) if p in (i1, i2)} for e in dn]
        if all(len(x) == 1 for x in o):
            ctx.decide(o[0] != o[1], a.where(), "one node of each individual", "each")
    else:
        ctx.unk(r.fn.qual, "exchange not recognised")
    for q in ("crossover_primitives", "crossover_terminals"):
        r = ctx.run(CX + q, opaque=(IND + ".replace_terminal",))
        i1, i2 = P(r, "ind1", 0), P(r, "ind2", 1)
        for e in r.returns():
            ctx.decide(True if e.value.op == "tuple" and e.value.args[0] == (i1, i2) else (None if vague(e.value) else (False if e.value.op != "tuple" or set(e.value.args[0]) != {i1, i2} else None)),
                       e.where(), "both individuals are returned", q, show_(e.value))
    r = ctx.run(CX + "_valid_crossover_functions", opaque=(CX + "_shared_terminals",))
    i1, i2 = P(r, "ind1", 0), P(r, "ind2", 1)
    for e in top(r, "mutate", "append"):
        a = (e.args or [e.value])[0]
        if a.op == "fn" and a.args[0].endswith("crossover_primitives"):
            for i in (i1, i2):
                l = lower(e.guards, mk("len", mk("attr", i, "primitives")), const(0))
                l = _lowc(e.guards, mk("len", mk("attr", i, "primitives")))
                ctx.decide(False if l is None or l < 2 else True, e.where(), "steps are exchanged only between pipelines that have preprocessing", "needs-two", str(l))
        if a.op == "fn" and a.args[0].endswith("crossover_terminals"):
            ctx.decide(True if any(contains(r.ex(g, e), lambda t: is_call(t, CX + "_shared_terminals")) for g in e.guards) else False, e.where(),
                       "values are exchanged only between pipelines that share a hyperparameter", "needs-shared")


def _lowc(guards, a):
    """Largest constant c with guards => a >= c."""
    best = None
    for g in guards:
        for x in _conj(g):
            lc = arith.lincmp(x)
            if lc is None:
                continue
            p, strict = lc
            if set(p) <= {(a,), ()} and p.get((a,)) == -1:
                c = p.get((), 0) + (1 if strict else 0)
                best = c if best is None else max(best, c)
    return best


@rule("C08|C31", "traversal", "the steps of a pipeline are found from the estimator back to the data")
def c08_walk(ctx):
    r = ctx.run(IND + ".primitives")
    for e in r.returns():
        v = r.ex(e.value, e)
        main = mk("attr", ME, "main_node")
        has = contains(v, main) or any(x is main for x in walk(v))
        ctx.decide(True if has else (False if not vague(v) else None), e.where(), "the estimator is one of the steps", "main")
    ap = [e for e in top(r, "mutate", "append")]
    for e in ap:
        a = (e.args or [e.value])[0]
        if a.op == "loopphi":
            init, nxt = r.it.loops[a.args[0]]["phis"][a]
            good = (init is mk("attr", mk("attr", ME, "main_node"), "_data_node") or init is mk("attr", ME, "main_node")) and nxt is mk("attr", a, "_data_node")
            ctx.decide(True if good else None, e.where(), "each next step is the one whose output is used", "next")
            few = [g for g in e.guards if arith.lincmp(g) is not None and contains(g, lambda t: t.op in ("len", "loopphi")) and
                   all(is_const(k[0]) or k[0].op in ("len", "loopphi") for k in arith.lincmp(g)[0] if k) and len(arith.lincmp(g)[0]) == 2 and arith.lincmp(g)[0].get(()) is not None]
            ctx.decide(False if few else None, e.where(), "steps are found however many there are", "all", show_(few[0]) if few else "")
    r = ctx.run(IND + ".terminals")
    for e in r.returns():
        v = r.ex(e.value, e)
        seq = seqnorm(v)
        ok = None
        if seq and len(seq) == 1 and seq[0][0] == "each":
            ok = seq[0][2] is mk("attr", ME, "primitives") and not seq[0][1] and not seq[0][4]
        ctx.decide(True if ok else None, e.where(), "hyperparameters of all steps, in order", "terminals", show_(v))


def _inside_out(r, e):
    """Nodes are built from the data outwards: the data node of a new step is the step built before."""
    for x in r.events:
        if x.kind == "new" and x.seq > e.seq:
            d = x.heap.get((x.res, "_data_node")) if x.res is not None else None
            if d is None and len(x.args or ()) > 1:
                d = x.args[1]
            if d is not None and d.op == "loopphi":
                return True
    return any(n.op == "loopphi" and contains(v, lambda t: t is n) for l in r.it.loops.values() for n, (i, v) in l["phis"].items() if isinstance(v, Term) and v.op in ("obj", "call")) or \
        any(x.heap.get((v, "_data_node")) is n for x in r.events for l in r.it.loops.values() for n, (i, v) in l["phis"].items() if isinstance(v, Term) and v.op == "obj")


@rule("C08", "values-complete", "no change to a pipeline leaves a step without the values it needs")
def c08_complete(ctx):
    n = 0
    for q in sorted(f.qual for f in ctx.p.all_funcs() if f.qual.startswith((MUT, CX))):
        try:
            r = ctx.run(q)
        except Exception:
            continue
        n += 1
        for e in r.events:
            if e.kind == "setattr" and e.name == "_terminals":
                cut = [v for v, _ in leaves(r.ex(e.value, e)) if v.op == "slice" and contains(v, lambda t: is_attr(t, "_terminals")) and
                       any(is_const(x) and cval(x) not in (None, 0) for x in v.args[1:3])]
                ctx.decide(False if cut else None, e.where(), "a step keeps all its values", "cut", show_(e.value))
    ctx.ok(MUT, f"{n} operators", "seen")


@rule("C08", "from-text", "a pipeline read from text is built from the search space only, and missing values are refused")
def c08_text(ctx):
    r = ctx.run(PN + ".from_string", opaque=(G + "components.primitive_node.find_primitive", G + "components.primitive_node.find_terminal"))
    ps = P(r, "primitive_set", 1)
    for e in r.calls("find_primitive", "find_terminal"):
        ctx.decide(e.args and e.args[0] is ps or None, e.where(), "looked up in the search space", "lookup")
    rs = [e for e in top(r, "raise")]
    st = P(r, "strict", 2)
    d = [e for e in rs if any(contains(g, st) for g in e.guards)]
    ctx.decide(bool(d), r.fn.qual, "missing hyperparameters are refused", "strict")
    for e in d:
        for g in e.guards:
            lc = arith.lincmp(r.ex(g, e))
            ln = [k for k in lc[0] if k and k[0].op == "len" and contains(k[0], lambda t: is_attr(t, "input"))] if lc else []
            if len(ln) == 1 and set(lc[0]) <= {ln[0], ()}:
                one_ = lc[0][ln[0]] + lc[0].get((), 0)
                ctx.decide(True if (one_ < 0 or one_ == 0 and not lc[1]) else False, e.where(), "a single missing hyperparameter is refused", "strict-one", show_(g))
    # the name of the step that data passes first is written last
    for e in r.calls("find_primitive"):
        nm = r.ex(e.args[1], e) if len(e.args) > 1 else NONE
        if nm.op == "elem":
            bs = nm.args[0]
            back = bs.op == "rev" or bs.op == "slice" and bs.args[3] is const(-1)
            src = bs.args[0] if bs.op in ("rev", "slice") else bs
            ctx.decide(True if back else (False if contains(src, lambda t: is_call(t, ".split")) and not vague(bs) and not contains(bs, lambda t: t.op in ("rev",) or t.op == "slice" and t.args[3] is const(-1)) and _inside_out(r, e) else None),
                       e.where(), "names are read from the data outwards", "order", show_(bs))
    for q, n in (("find_primitive", "primitive_string"), ("find_terminal", "terminal_string")):
        r = ctx.run(G + "components.primitive_node." + q)
        ps, s = P(r, "primitive_set", 0), P(r, n, 1)
        for e in r.returns():
            v, gs = r.ex(e.value, e), list(e.guards)
            if v.op in ("item", "call") and v.args:
                b = v.args[0] if v.op == "item" else (v.args[1][0] if v.args[1] else v)
                sq = seqnorm(b)
                if sq and len(sq) == 1 and sq[0][0] == "each":
                    v, gs = sq[0][3], gs + list(sq[0][1])
            ok = is_elem(v) and contains(v, ps)
            ctx.decide(True if ok else (None if vague(v) or not v.op == "obj" else False), e.where(), "the result is part of the search space", q, show_(v))
            g = [x for x in gs if contains(x, s) and contains(x, v)]
            pre = [x for x in g if is_call(x, ".startswith", ".endswith", ".find") or (x.op == "cmp" and x.args[0] == "in")]
            ctx.decide(True if any(x.op == "cmp" and x.args[0] == "==" and s in x.args[1:] for x in g) else
                       (False if pre or (ok and not g) or (g and all(x.op == "not" or (x.op == "cmp" and x.args[0] != "==") for x in g)) else None), e.where(),
                       "the result matches the text exactly", q + "-match", ", ".join(map(show_, e.guards)))
        ctx.decide(bool(top(r, "raise")), q, "an unknown name is an error", q + "-unknown")


@rule("C08", "configured", "generation and mutation use the search space the user configured")
def c08_conf(ctx):
    r = ctx.run("gama.gama.Gama.__init__", opaque=("gama.configuration.parser.pset_from_config",))
    pc = r.calls("gama.configuration.parser.pset_from_config")
    o = [e for e in top(r, "setattr", "_operator_set")]
    if len(pc) != 1 or not o or o[-1].value.op != "obj":
        ctx.abort("operators not found")
    e, ob = o[-1], o[-1].value
    ss, cf = P(r, "search_space"), P(r, "config")
    a = simplify(pc[0].args[0], {neg(cf)}) if pc[0].args else NONE
    ctx.decide(True if a is ss else (None if vague(a) else False), pc[0].where(), "the search space is the user's", "space", show_(a))
    want = mk("item", pc[0].res, const(0))
    for attr in ("_mutate", "_create_new"):
        v = e.heap.get((ob, attr))
        if v is None or v.op != "partial":
            ctx.unk(e.where(), f"{attr} not understood")
            continue
        m = dict(v.args[2]).get("primitive_set")
        ctx.decide(True if m is want else (None if m is None or vague(m) else False), e.where(), f"{attr} uses the user's search space", attr, show_(m))


# ---------------------------------------------------------------- C29 selection and dominance
def _allcmp(t, a, b):
    """For all<[... a-elem (op) b-elem ...]>: 'gt','ge','lt','le' for a versus b, None otherwise."""
    if t.op not in ("all", "any"):
        return None, None
    sq = seqnorm(t.args[0])
    if not sq or len(sq) != 1 or sq[0][0] != "each" or sq[0][1]:
        return t.op, None
    _, g, base, el, _ = sq[0]
    n = False
    x = el
    if x.op == "not":
        n, x = True, x.args[0]
    if x.op != "cmp" or x.args[0] != "<":
        return t.op, None
    l, r = x.args[1], x.args[2]

    def side(y):
        y = strip_neg(y)
        if is_elem(y, a):
            return "a"
        if is_elem(y, b):
            return "b"
        return None
    sl, sr = side(l), side(r)
    if {sl, sr} != {"a", "b"}:
        return t.op, None
    rel = "lt" if sl == "a" else "gt"
    if n:
        rel = {"lt": "ge", "gt": "le"}[rel]
    if neg_parity(l) != neg_parity(r):
        return t.op, None
    if neg_parity(l):
        rel = {"lt": "gt", "gt": "lt", "ge": "le", "le": "ge"}[rel]
    return t.op, rel


def strip_neg(y):
    while y.op == "un" and y.args[0] == "USub":
        y = y.args[1]
    return y


def neg_parity(y):
    n = 0
    while y.op == "un" and y.args[0] == "USub":
        y, n = y.args[1], n + 1
    return n % 2


@rule("C29|C13", "dominance", "one candidate dominates another only when it is better on every objective")
def c29_dom(ctx):
    r = ctx.run(NS + "NSGAMeta.dominates")
    a, b = mk("attr", ME, "values"), mk("attr", P(r, "other", 0), "values")
    for e in r.returns():
        q, rel = _allcmp(e.value, a, b)
        d = None
        if q == "all" and rel is not None:
            d = rel == "gt"
        elif q == "any":
            d = False
        ctx.decide(d, e.where(), "dominates means better on every objective", "dominates", f"{q} {rel}")
    r = ctx.run(NS + "NSGAMeta.__init__")
    v = r.ex(attr_at(r, None, ME, "values"), None) if attr_at(r, None, ME, "values") is not None else None
    sq = seqnorm(v) if v is not None else None
    ok = sq and len(sq) == 1 and sq[0][0] == "each" and sq[0][2] is P(r, "metrics", 1) and not sq[0][1]
    ctx.decide(True if ok else None, r.fn.qual, "candidates are compared on all metrics", "metrics")


@rule("C29|C13", "crowding", "between two candidates the one with the better front wins, then the less crowded one")
def c29_crowd(ctx):
    r = ctx.run(NS + "NSGAMeta.crowd_compare")
    o = P(r, "other", 0)
    sr, orr = mk("attr", ME, "rank"), mk("attr", o, "rank")
    sd, od = mk("attr", ME, "distance"), mk("attr", o, "distance")

    def facts(rank, dist):
        f = set()
        for x, y, v in ((sr, orr, rank), (sd, od, dist)):
            lt, gt, eq = cmp_("<", x, y), cmp_("<", y, x), cmp_("==", x, y)
            f |= {lt if v < 0 else neg(lt), gt if v > 0 else neg(gt), eq if v == 0 else neg(eq)}
        return f
    for rank, dist, want, nm in ((-1, -1, -1, "better front"), (-1, 1, -1, "better front, less crowded"), (1, 1, 1, "worse front"),
                                 (1, -1, 1, "worse front, more crowded"),
                                 (0, 1, -1, "same front, less crowded"), (0, -1, 1, "same front, more crowded")):
        got = set()
        fs = facts(rank, dist)
        env = {}
        for f in fs:
            env[f.args[0] if f.op == "not" else f] = f.op != "not"
        for e in r.returns():
            if any(logic.ev(g, env) is False for g in e.guards):
                continue
            for v, f2 in leaves(simplify(e.value, fs), fs):
                if any(logic.ev(g, env) is False for g in f2):
                    continue
                got.add(v)
        d = None
        if len(got) == 1:
            v = got.pop()
            v = v if v.op == "const" else v
            if v.op == "un" and v.args[0] == "USub" and is_const(v.args[1]):
                x = -v.args[1].args[0]
            else:
                x = v.args[0] if is_const(v) else None
            if x is not None:
                d = (x < 0) == (want < 0)
        ctx.decide(d, r.fn.qual, f"{nm}: {'wins' if want < 0 else 'loses'}", nm)


@rule("C29|C13", "fronts", "a candidate is in the first front exactly when nothing dominates it; later fronts follow")
def c29_fronts(ctx):
    r = ctx.run(NS + "fast_non_dominated_sort", opaque=(NS + "NSGAMeta.dominates",))
    dom = [e for e in r.events if e.kind == "call" and e.callee.endswith("dominates")]
    if not dom:
        ctx.abort("dominance comparison not found")

    def who(e):
        return (e.f.args[0] if e.f.op == "attr" else e.f.args[-1]), e.args[0]
    inc = [e for e in top(r, "setattr", "domination_counter")]
    ups = [e for e in inc if arith.poly(e.value).get((), 0) == 1]
    downs = [e for e in inc if arith.poly(e.value).get((), 0) == -1]
    apps = [e for e in r.events if e.kind == "call" and e.callee == ".append" and is_attr(e.f.args[0], "dominating")]
    if not ups or not apps:
        ctx.abort("bookkeeping not recognised")
    for d in dom:
        a, b = who(d)
        g = d.res
        mine = [e for e in ups if g in e.guards]
        ma = [e for e in apps if g in e.guards]
        if not mine and not ma:
            ctx.unk(d.where(), "what follows from dominance is not recognised")
            continue
        ctx.decide(bool(mine) and all(e.base is b for e in mine), d.where(), "the dominated candidate counts its dominators", "counter",
                   ", ".join(show_(e.base) for e in mine))
        ctx.decide(bool(ma) and all(e.f.args[0] is mk("attr", a, "dominating") and e.args[0] is b for e in ma), d.where(),
                   "the dominating candidate remembers whom it dominates", "remember")
    pairs = {tuple(who(d)) for d in dom}
    both = all((b, a) in pairs for a, b in pairs)
    perm = any(is_call(x, "itertools.permutations", "itertools.product") for d in dom for x in walk(who(d)[0]))
    ctx.decide(True if both or perm else (False if any(is_call(x, "itertools.combinations") for d in dom for x in walk(who(d)[0])) else None), dom[0].where(),
               "every pair is compared in both directions", "both")
    ranks = top(r, "setattr", "rank")
    for e in ranks:
        zero = [g for g in e.guards if contains(g, lambda t: is_attr(t, "domination_counter") or (t.op == "loopphi" and "domination_counter" in str(t.args[1])))]
        eq0 = [g for g in zero if g.op == "cmp" and g.args[0] == "==" and any(x is const(0) for x in g.args[1:])]
        ctx.decide(True if eq0 else (False if not zero or all(g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "==" for g in zero) else None), e.where(),
                   "a candidate joins a front when nothing outside earlier fronts dominates it", "zero", ", ".join(map(show_, zero)) or "unconditional")
        if is_const(e.value) and contains(e.base, lambda t: is_attr(t, "dominating")):
            ctx.bad(e.where(), f"candidates of every later front get the same rank {show_(e.value)}", "rank-next")
        elif is_const(e.value):
            ctx.ok(e.where(), "first front", "rank-first")
        else:
            p = arith.poly(e.value)
            ph = [k for k in p if k and k[0].op == "loopphi"]
            first = [x.value for x in ranks if is_const(x.value)]
            if len(ph) == 1 and len(first) == 1:
                phi = ph[0][0]
                i0, nx = r.it.loops[phi.args[0]]["phis"].get(phi, (NONE, NONE))
                s0 = arith.const_diff(i0, const(0))
                ok = s0 is not None and p[ph[0]] == 1 and s0 + p.get((), 0) == first[0].args[0] + 1
                ctx.decide(ok if s0 is not None else None, e.where(), "each next front has the next rank", "rank-next", show_(e.value))


@rule("C29|C13", "selection", "selection keeps the best fronts and fills up with the least crowded; exactly the requested number")
def c29_sel(ctx):
    q = NS + "nsga2"
    r = ctx.run(q, opaque=(NS + "fast_non_dominated_sort", NS + "crowding_distance_assignment", NS + "NSGAMeta.crowd_compare", NS + "NSGAMeta"))
    n, pop = P(r, "n", 1), P(r, "population", 0)
    srt = [x for e in r.events for a in list(e.args or []) + ([e.value] if e.value is not None else []) for x in walk(r.ex(a, e)) if x.op == "sorted"]
    for x in set(srt):
        ctx.decide(True if x.args[2] is FALSE or x.args[2] is False or str(x.args[2]) == "False" else (False if str(x.args[2]) == "True" else None), q,
                   "the least crowded come first", "order", show_(x))
    ext = [e for e in r.events if e.kind == "mutate" and e.name in ("extend", "append", "__iadd__")]
    sl = [e for e in ext if any(x.op == "slice" for a in (e.args or [e.value]) for x in [r.ex(a, e)])]
    for e in sl:
        x = r.ex((e.args or [e.value])[0], e)
        hi, lo = x.args[2], x.args[1]
        p = arith.poly(hi)
        ok = p.get((n,)) == 1 and len(p) == 2 and any(v == -1 and k and k[0].op == "len" for k, v in p.items())
        ctx.decide(True if ok and lo is NONE else (False if lo is not NONE or (p.get((n,)) == 1 and len(p) == 1) or p.get((), 0) else None), e.where(), "filled up to exactly the requested number", "fill", show_(x))
    cr = r.calls(NS + "crowding_distance_assignment")
    ctx.decide(bool(cr), q, "crowding is computed before it is used", "crowding")
    q = NS + "nsga2_select"
    r = ctx.run(q, opaque=(NS + "nsga2", NS + "NSGAMeta.crowd_compare"))
    n = P(r, "n", 1)
    sm = r.calls("random.sample")
    for e in sm:
        k = e.kw("k", 1)
        if is_const(k):
            ctx.decide(k.args[0] >= 3, e.where(), "enough candidates are drawn to leave two after excluding one", "three", show_(k))
    for e in r.calls(NS + "nsga2"):
        a = e.kw("n", 1)
        ctx.decide(True if a is mk("len", P(r, "population", 0)) else None, e.where(), "all candidates take part", "all", show_(a))
    ps = [e for e in top(r, "mutate", "append")]
    for e in ps:
        a = (e.args or [e.value])[0]
        if a.op != "tuple" or len(a.args[0]) != 2:
            ctx.unk(e.where(), "pair not understood")
            continue
        f, s = a.args[0]
        if not (is_attr(f, "obj") and is_attr(s, "obj")):
            ctx.unk(e.where(), "pair not understood")
            continue
        f0, s0 = f.args[0], r.ex(s.args[0], e)
        segs_ = [x for x in walk(s0) if x.op == "seg_each"]
        fx = r.ex(f0, e)
        ex = [g for x in segs_ for g in x.args[2] if contains(g, f0) or contains(g, fx)]
        d = any(g.op == "not" and g.args[0].op == "cmp" for g in ex)
        trivially = f0 is s.args[0] or (not segs_ and not contains(s0, f0) and not contains(s0, fx) and not vague(s0)
                                         and not contains(s0, lambda t: t.op == "loopphi")
                                         and contains(s0, lambda t: is_call(t, "random.sample", "random.choice")))
        ctx.decide(True if d else (False if trivially or (segs_ and not ex) or (ex and all(g.op == "cmp" for g in ex)) else None), e.where(),
                   "the two parents of a pair are different", "distinct")
        lids = [c[1] for c in e.ctx if c[0] == "loop"]
        it = r.it.loops[lids[-1]].get("iter") if lids else None
        if it is not None and it.op == "range":
            ctx.decide(True if it.args[0][-1] is n and len(it.args[0]) == 1 else (None if arith.const_diff(it.args[0][-1], n) is None else False), e.where(),
                       "as many pairs as requested", "count", show_(it))
    cc = [e for e in r.events if e.kind == "call" and e.callee.endswith("crowd_compare")]
    for e in [x for x in r.returns(nested=True)] if False else []:
        pass
    for e in cc:
        a, b = (e.f.args[0] if e.f.op == "attr" else e.f.args[-1]), e.args[0]
        res = e.res
        uses = [x for ev_ in r.events if ev_.kind == "return" and ev_.value is not None for x in walk(ev_.value) if x.op == "ite" and contains(x.args[0], res)]
        for x in set(uses):
            lc = arith.lincmp(x.args[0])
            if lc is None:
                continue
            p, strict = lc
            if set(p) == {(res,)}:
                low = p[(res,)] > 0      # res < 0 : a wins
                want = (a, b) if low else (b, a)
                ctx.decide((x.args[1], x.args[2]) == want, e.where(), "the tournament winner is selected", "winner", show_(x))


@rule("C29|C13", "elimination", "the individual removed from the population is one that no other is worse than on every objective")
def c29_elim(ctx):
    r = ctx.run(SEL + "eliminate_from_pareto", opaque=(PF,))
    pop, n = P(r, "pop", 0), P(r, "n", 1)
    new = [e for e in r.events if e.kind == "new" and PF in str(e.value or e.name or e)]
    fr = [e for e in r.events if e.kind == "new"] or r.calls(PF)
    if not fr:
        ctx.abort("front of worst not found")
    for e in fr:
        a = e.kw("start_list", 0)
        ctx.decide(True if a is pop else None, e.where(), "the whole population is considered", "pop", show_(a))
    fn = fr[0].kw("get_values_fn", 1)
    if fn is not None and fn.op == "fn":
        x = ctx.run(fn.args[0]) if ctx.has(fn.args[0]) else None
    else:
        x = None
    vals = None
    for e in r.returns():
        v = r.ex(e.value, e)
        sq = seqnorm(v)
        ok = None
        if sq and len(sq) == 1 and sq[0][0] == "item":
            el = sq[0][3]
            ok = is_call(el, "random.choice") and contains(el, fr[0].res if fr[0].res is not None else fr[0].base) or None
        ctx.decide(ok, e.where(), "one of the worst is selected", "one-of", show_(v))
    _inverse(ctx)


def _inverse(ctx):
    r = ctx.run(SEL + "eliminate_from_pareto")
    pop = P(r, "pop", 0)
    done = False
    for e in [x for x in r.events if x.kind == "return"]:
        v = e.value
        if v is None:
            continue
        x = r.ex(v, e)
        sq = seqnorm(x)
        if sq and len(sq) == 1 and sq[0][0] == "each" and contains(sq[0][2], lambda t: is_attr(t, "values")) and is_elem(strip_neg(sq[0][3])):
            done = True
            ctx.decide(neg_parity(sq[0][3]) == 1, e.where(), "the worst are found by inverting every objective", "inverse", show_(sq[0][3]))
            ctx.decide(not sq[0][1] and is_attr(sq[0][2], "values"), e.where(), "every objective is inverted", "every", show_(sq[0][2]))
            break
        if sq and len(sq) == 1 and sq[0][0] == "each" and contains(sq[0][2], lambda t: is_attr(t, "values")) and contains(sq[0][3], lambda t: t.op == "abs" or is_call(t, "abs", "math.fabs", "numpy.abs") or t.op == "pure" and t.args[0] in ("abs", "builtins.abs")):
            done = True
            ctx.bad(e.where(), "NOT: the worst are found by inverting every objective, whatever its sign: " + show_(sq[0][3]), "inverse")
            break
    if not done:
        ctx.unk(SEL + "eliminate_from_pareto", "inverse objective not recognised")
    for e in top(r, "raise"):
        pass


@rule("C29|C13", "front-update", "the Pareto front keeps exactly the items that no other item is at least as good as on every objective")
def c29_front(ctx):
    q = PF + ".update"
    r = ctx.run(q, heap={(ME, "_get_values_fn"): NONE})
    new = P(r, "new_item", 0)
    front = mk("attr", ME, "_front")
    old = [x for e in r.events for g in e.guards for x in walk(g) if is_elem(x, front)]
    if not old:
        ctx.abort("comparison not recognised")
    old = old[0]
    rej = [e for e in r.returns() if e.value is FALSE]
    for e in rej:
        gs = [g for g in e.guards if g.op in ("all", "any")]
        if not gs:
            ctx.unk(e.where(), "rejection not understood")
        for g in gs:
            op, rel = _allcmp(g, new, old)
            d = None if rel is None and op == "all" else (op == "all" and rel == "le")
            ctx.decide(d, e.where(), "a new item is rejected when an existing one is at least as good on every objective", "reject", f"{op} {rel}")
    ctx.decide(bool(rej), q, "a dominated item is rejected", "rejects")
    for lid, L in r.it.loops.items():
        if L.get("base") is not front or L.get("kind") != "for":
            continue
        for b in L.get("breaks") or ():
            rels = [_allcmp(g, new, old) for g in b.guards if g.op in ("all", "any")]
            if rels and all(x == ("all", "ge") or x == ("all", "gt") for x in rels):
                ctx.bad(q, "NOT: the new item is compared with every item of the front: it stops at the first one it dominates", "every-item")
    for e in [e for e in r.events if e.kind in ("call", "mutate") and (e.callee == ".remove" if e.kind == "call" else e.name == "remove")]:
        for c in e.ctx:
            b = r.it.loops[c[1]].get("base") if c[0] == "loop" else None
            if b is not None and b.op in ("slice", "sl") and (b.args[1] is not NONE or b.args[2] is not NONE):
                ctx.bad(e.where(), "NOT: every dominated item is dropped: only some of them are", "every-drop")
    rem = [e for e in r.events if e.kind in ("call", "mutate") and (e.callee == ".remove" if e.kind == "call" else e.name == "remove")]
    app = [e for e in r.events if (e.kind == "call" and e.callee == ".append" and e.f.args[0] is not front) or (e.kind == "mutate" and e.name == "append")]
    for e in app:
        a = (e.args or [e.value])[0]
        if a is not old:
            continue
        gs = [g for g in e.guards if g.op in ("all", "any")]
        for g in gs:
            op, rel = _allcmp(g, new, old)
            d = None if rel is None and op == "all" else (op == "all" and rel in ("ge", "gt"))
            ctx.decide(d, e.where(), "an existing item is dropped when the new one is at least as good on every objective", "drop", f"{op} {rel}")
    ctx.decide(True if rem else (False if not any(e.kind == "setattr" and e.name == "_front" for e in r.events) and not
                                 any(e.kind == "setslice" for e in r.events) else None), q, "dominated items are dropped", "drops")
    adds = [e for e in r.events if e.kind == "call" and e.callee == ".append" and e.f.args[0] is front and e.args[0] is new]
    ok = [e for e in r.returns() if e.value is TRUE]
    if adds and ok:
        c = logic.counts([e.guards for e in adds])
        ctx.decide(len(ok) >= 1 and len(adds) >= 1, q, "an accepted item joins the front", "joins")
    ln = [e for e in adds if not any(g.op == "not" and (g.args[0] is front) for g in e.guards)]
    if rem and ln:
        ctx.ok(q, "a non-dominated item joins a non-empty front", "joins-nonempty")
    elif not ln and rem:
        ctx.bad(q, "NOT: a non-dominated item joins a non-empty front", "joins-nonempty")


@rule("C29|C13", "objectives", "the functions which read the objectives each read their own, not all the one a loop ended with")
def c29_objectives(ctx):
    n = 0
    for name, m in sorted(ctx.p.modules.items()):
        if not name.startswith("gama.genetic_programming.") or name.split(".")[-1] not in ("selection", "nsga2"):
            continue
        for node in ast.walk(m.tree):
            if not isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp)):
                continue
            n += 1
            el = node.value if isinstance(node, ast.DictComp) else node.elt
            if not isinstance(el, ast.Lambda):
                continue
            loop = {x.id for g in node.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            own = {a.arg for a in el.args.args + el.args.kwonlyargs + el.args.posonlyargs}
            late = sorted({x.id for x in ast.walk(el.body) if isinstance(x, ast.Name) and x.id in loop - own})
            ctx.decide(not late, f"{name.replace('.', '/')}.py:{node.lineno}", "each function reads its own objective", "late", ", ".join(late))
    ctx.ok("gama.genetic_programming", f"{n} comprehensions", "seen")


@rule("C29|C13", "offspring", "offspring come from selected pairs, as many as requested, compared on all fitness values")
def c29_off(ctx):
    r = ctx.run(SEL + "create_from_population", opaque=(NS + "nsga2_select", OS + ".mate", OS + ".mutate", CX + "_valid_crossover_functions"))
    pop, n = P(r, "pop", 1), P(r, "n", 2)
    s = r.calls(NS + "nsga2_select")
    if len(s) != 1:
        ctx.abort("selection not found")
    s = s[0]
    ctx.decide(True if s.args[0] is pop else None, s.where(), "parents come from the population", "pop")
    ctx.decide(True if s.kw("n", 1) is n else (None if arith.const_diff(s.kw("n", 1), n) is None else False), s.where(), "as many pairs as offspring", "n")
    m = r.ex(s.kw("metrics", 2), s)
    sq = seqnorm(m)
    if sq and len(sq) == 1 and sq[0][0] == "each" and sq[0][2].op == "range":
        a = sq[0][2].args[0]
        ok = len(a) == 1 and a[0].op == "len" and is_attr(a[0].args[0], "values")
        ctx.decide(True if ok else (False if is_const(a[-1]) or (len(a) > 1 and is_const(a[0]) and a[0].args[0] != 0) else None), s.where(),
                   "all fitness values count", "metrics", show_(sq[0][2]))
    else:
        ctx.unk(s.where(), "metrics not understood")
    pr = s.res
    for e in r.calls(OS + ".mate"):
        a, b = e.args[0], e.args[1]
        ok = is_item(a, 0) and is_item(b, 1) and is_elem(a.args[0], pr) and a.args[0] is b.args[0]
        ctx.decide(True if ok else (False if a is b else None), e.where(), "the two parents of a pair are mated", "mate", f"{show_(a)}, {show_(b)}")
        v = [g for g in e.guards if contains(g, lambda t: is_call(t, CX + "_valid_crossover_functions"))]
        ctx.decide(True if v and not any(g.op == "not" and is_call(g.args[0], CX + "_valid_crossover_functions") for g in v) else False, e.where(),
                   "only parents that can mate are mated", "can-mate")
    off = [e for e in top(r, "mutate", "append")]
    lp = [[c[1] for c in e.ctx if c[0] == "loop"] for e in off]
    if off:
        c = logic.counts([e.guards for e in off])
        ctx.decide(None if c is None else c == {1}, off[0].where(), "each pair gives one offspring", "one", str(c))
