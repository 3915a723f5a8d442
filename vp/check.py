"""python3 -m vp.check <ID> : decide one property of /repo from its current source."""
from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vp.absint import Interp, State  # noqa: E402
from vp.project import AnalysisError, Project  # noqa: E402
from vp.terms import mk  # noqa: E402

RULES = {}
INFO = {}


def rule(prop, name, text):
    """Register an obligation-producing function for a property."""
    def deco(fn):
        for pr in prop.split("|"):
            RULES.setdefault(pr, []).append((name, text, fn))
        return fn
    return deco


class Abort(Exception):
    """The construct a rule needs is not there (or not understood)."""


class Ctx:
    def __init__(self, prop, project):
        self.prop, self.p = prop, project
        self.items = []           # (status, rule, where, key, message)
        self.rule = ""
        self.funcs, self.events, self.runs = set(), 0, 0
        self._cache = {}

    # -- results
    def _add(self, status, where, key, msg):
        self.items.append((status, self.rule, str(where), f"{self.rule}:{key}", msg))

    def ok(self, where, msg, key=""):
        self._add("ok", where, key, msg)

    def bad(self, where, msg, key=""):
        self._add("bad", where, key or str(where).rsplit(":", 1)[0], msg)

    def unk(self, where, msg, key=""):
        self._add("unk", where, key, msg)

    def decide(self, verdict, where, msg, key="", why=""):
        """verdict: True -> ok, False -> violation, None -> not decided."""
        if verdict is True:
            self.ok(where, msg, key)
        elif verdict is False:
            self.bad(where, "NOT: " + msg + (f" [{why}]" if why else ""), key)
        else:
            self.unk(where, msg + (f" [{why}]" if why else ""), key)

    def abort(self, msg):
        raise Abort(msg)

    # -- analysis
    def run(self, qual, self_cls=None, facts=(), heap=None, overrides=None, opaque=(),
            transparent=(), selfterm=None, fresh=False, prep=None):
        key = (qual, self_cls, tuple(facts), tuple(sorted(heap.items(), key=repr)) if heap else (),
               tuple(sorted(overrides.items())) if overrides else (), tuple(sorted(opaque)),
               tuple(sorted(transparent)), selfterm)
        if not fresh and prep is None and key in self._cache:
            return self._cache[key]
        it = Interp(self.p, opaque=opaque, transparent=transparent)
        fn = self.p.func(qual)
        s = it.start(fn.module.name)
        if prep is not None:
            prep(it, s)
        for k, v in (heap or {}).items():
            s.heap = {**s.heap, k: v}
        for f in facts:
            s.guard(f)
        cls = self.p.cls(self_cls) if isinstance(self_cls, str) else self_cls
        r = it.run(qual, self_cls=cls, s=s, overrides=overrides, selfterm=selfterm)
        self.runs += 1
        self.funcs |= it.inlined | {qual}
        self.events += len(r.events)
        if prep is None:
            self._cache[key] = r
        return r

    def has(self, qual):
        from vp.project import Func
        return isinstance(self.p.resolve_qual(qual), Func)


def load_rules():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("vp.rules." + f[:-3])


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                rest = line.split(" ", 2)[2]
                key, _, msg = rest.partition(" :: ")
                out[key.strip()] = msg.strip()
    return out


class TooLong(Exception):
    pass


BUDGET = float(os.environ.get("VP_BUDGET", "600"))      # seconds for a check; a rule gets at most a third of it


def limited(fn, ctx, seconds):
    def stop(*_):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, seconds))
    try:
        fn(ctx)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def decide(prop, project=None):
    ctx = Ctx(prop, project or Project())
    sys.setrecursionlimit(20000)
    t0 = time.time()
    for name, text, fn in RULES.get(prop, []):
        ctx.rule = name
        try:
            limited(fn, ctx, min(BUDGET / 3, BUDGET - (time.time() - t0)))
        except TooLong:
            ctx.unk(name, "the code is too complex for this rule: stopped after its share of time")
        except Abort as e:
            ctx.unk(name, f"rule not applicable to the code as found: {e}")
        except AnalysisError as e:
            ctx.unk(name, f"analysis could not follow the code: {e}")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.unk(name, f"analysis error {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
    return ctx


def main(argv):
    import vp.check as me
    me.load_rules()
    verbose = "-v" in argv
    props = [a for a in argv if not a.startswith("-")]
    rc = 0
    for prop in props:
        rc = max(rc, run_one(me, prop, verbose))
    return rc


def run_one(me, prop, verbose):
    t0 = time.time()
    if prop not in me.RULES:
        print(f"no rules registered for {prop}")
        return 2
    try:
        ctx = me.decide(prop)
    except SyntaxError as e:
        print(f"cannot parse /repo: {e}")
        return 2
    known = known_findings(prop)
    oks = [i for i in ctx.items if i[0] == "ok"]
    unk = [i for i in ctx.items if i[0] == "unk"]
    bad, kn, seen = [], [], set()
    for i in ctx.items:
        if i[0] != "bad":
            continue
        (kn if i[3] in known else bad).append(i)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rules = [{"rule": n, "text": t,
              "obligations": sum(1 for i in ctx.items if i[1] == n),
              "held": sum(1 for i in oks if i[1] == n)} for n, t, _ in me.RULES[prop]]
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Static value-flow analysis of /repo's current source (no code is run): each rule "
                           "instance below is an obligation decided on all paths of the analysed functions. "
                           f"{len(oks)} obligations hold, {len(bad)} are violated, {len(kn)} are known findings, "
                           f"{len(unk)} could not be decided on this tree.",
            "obligations": len(ctx.items), "discharged": len(oks), "undecided": len(unk),
            "functions_analysed": len(ctx.funcs), "modules_parsed": len(ctx.p.modules),
            "effects_recorded": ctx.events, "abstract_runs": ctx.runs,
            "rules": rules,
            "samples": [f"{i[1]} @ {i[2]}: {i[4]}" for i in oks[:40]],
            "undecided_list": [f"{i[1]} @ {i[2]}: {i[4]}" for i in unk],
            "functions": sorted(ctx.funcs),
        },
        "assumptions": [
            "Third-party libraries (scikit-learn, pandas, stopit, multiprocessing, heapq) behave as documented.",
            "Python attribute writes other than those in the parsed package do not occur (no monkey-patching by users).",
        ],
        "violations": len(bad),
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    rep = os.path.join(HERE, "evidence", f"{prop}.report.txt")
    with open(rep, "w") as fh:
        for st, rl, where, key, msg in ctx.items:
            fh.write(f"[{st}] {key} @ {where}\n      {msg}\n")
    print(f"{prop}: {len(ctx.items)} obligations over {len(ctx.funcs)} functions "
          f"({ctx.events} effects): {len(oks)} hold, {len(unk)} undecided, {len(kn)} known, {len(bad)} violated")
    for i in unk:
        print(f"UNDECIDED property={prop} rule={i[1]} at {i[2]}: {i[4]}")
    if verbose:
        for i in oks:
            print(f"  held {i[1]} @ {i[2]}: {i[4]}")
    for i in {x[3]: x for x in kn}.values():
        print(f"KNOWN-FINDING: property={prop} {known[i[3]]}")
    for i in dict.fromkeys(bad):
        print(f"  violated rule {i[1]} at {i[2]} ({i[3]}): {i[4]}")
    if bad:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if not oks and not kn:
        print(f"{prop}: nothing could be decided on this tree")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
