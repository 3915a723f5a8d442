"""The constructor and clean-up: settings, output directory, stored artifacts, seeding, registration of observers."""
from __future__ import annotations

import ast

from vp import logic
from vp.check import rule
from vp.project import dotted
from vp.rules.api import FITOPQ, G, ME, init_run, post_call
from vp.rules.util import *  # noqa: F401,F403
from vp.rules.util import P, fold, foldb
from vp.terms import bor

OPQ = ("gama.configuration.parser.pset_from_config", "gama.utilities.metrics.scoring_to_metric",
       "gama.utilities.evaluation_library.EvaluationLibrary", "gama.logging.utility_functions.register_stream_log")
EXISTS = ("os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.lexists", ".exists", ".is_dir", ".is_file")
DELETE = {"os.remove": "file", "os.unlink": "file", "os.rmdir": "rmdir", "os.removedirs": "parents", "shutil.rmtree": "tree",
          ".unlink": "file", ".rmdir": "rmdir", "os.truncate": "file", "os.rename": "file", "os.replace": "file", "shutil.move": "tree"}


def settings(ctx, cleanup=True, **ov):
    opq = OPQ + ((G + "cleanup",) if cleanup else ())
    return ctx.run(G + "__init__", opaque=opq, overrides={k: const(v) for k, v in ov.items()})


# ---------------------------------------------------------------- paths
class Path_:
    """A path relative to the output directory: kind 'dir', 'child' (name), 'each' (entry term), 'match' (pattern), 'other'."""

    def __init__(self, kind, name=None, term=None):
        self.kind, self.name, self.term = kind, name, term


def path(t, isdir):
    if isdir(t):
        return Path_("dir", term=t)
    if is_call(t, "os.path.join") and len(t.args[1]) >= 2:
        b = path(t.args[1][0], isdir)
        rest = t.args[1][1:]
        if b.kind == "dir" and len(rest) == 1:
            return child(rest[0], isdir)
        if b.kind == "child" and all(is_const(x) for x in rest):
            return Path_("below", b.name)
        if b.kind in ("dir", "child") and all(is_const(x) for x in rest):
            return Path_("child" if len(rest) == 1 else "below", rest[0].args[0])
        return Path_("?" if b.kind != "other" else "other", term=t)
    if is_call(t, "os.path.abspath", "os.path.realpath", "os.path.normpath", "os.fspath", "pathlib.Path", "pathlib.PurePath") and len(t.args[1]) == 1:
        return path(t.args[1][0], isdir)
    if t.op == "pure" and t.args[0] == "str" and len(t.args[1]) == 1:
        return path(t.args[1][0], isdir)
    if t.op == "bin" and t.args[0] == "/":
        b = path(t.args[1], isdir)
        return child(t.args[2], isdir) if b.kind == "dir" else Path_("?", term=t)
    if t.op == "fstr":
        ps = list(t.args[0])
        if ps and isdir(ps[0]) and len(ps) > 1 and is_const(ps[1]) and str(ps[1].args[0])[:1] == "/":
            if len(ps) == 2:
                return Path_("child", ps[1].args[0][1:])
            if len(ps) == 3 and ps[1].args[0] == "/":
                return child(ps[2], isdir)
        return Path_("?", term=t)
    if t.op == "bin" and t.args[0] == "+":
        return path(mk("fstr", tuple(flat(t))), isdir)
    if t.op == "attr" and t.args[1] == "path" and is_elem(t.args[0]) and is_call(t.args[0].args[0], "os.scandir") and isdir(t.args[0].args[0].args[1][0]):
        return Path_("each", term=t.args[0])
    if is_elem(t) and is_call(t.args[0], "glob.glob", "glob.iglob", ".glob") and t.args[0].args[1]:
        c = t.args[0]
        if is_call(c, ".glob") and isdir_path(c.args[0], isdir) and is_const(c.args[1][0]):
            return Path_("match", c.args[1][0].args[0])
        b = path(c.args[1][0], isdir)
        if b.kind == "child":
            return Path_("match", b.name)
    if is_call(t, "os.path.dirname", "os.getcwd", "tempfile.gettempdir", "os.path.expanduser") or t.op == "attr" and t.args[1] == "parent":
        return Path_("other", term=t)
    if is_elem(t) and is_call(t.args[0], ".iterdir"):
        return Path_("each", term=t)
    if vague(t):
        return Path_("?", term=t)
    if contains(t, isdir):
        return Path_("?", term=t)
    return Path_("other", term=t)


def isdir_path(f, isdir):
    return f.op == "attr" and path(f.args[0], isdir).kind == "dir"


def flat(t):
    if t.op == "bin" and t.args[0] == "+":
        return flat(t.args[1]) + flat(t.args[2])
    return [t]


def child(n, isdir):
    if is_const(n) and isinstance(n.args[0], str):
        if n.args[0] in ("", ".", ".."):
            return Path_("dir" if n.args[0] != ".." else "other", term=n)
        return Path_("child" if "/" not in n.args[0] else "below", n.args[0])
    if is_elem(n) and is_call(n.args[0], "os.listdir") and n.args[0].args[1] and isdir(n.args[0].args[1][0]):
        return Path_("each", term=n)
    if is_elem(n) and n.args[0].op in ("tuple", "list", "set"):
        return Path_("each", term=n)
    if n.op == "attr" and n.args[1] == "name" and is_elem(n.args[0]):
        return Path_("each", term=n)
    return Path_("?", term=n)


def me_dir(t):
    return is_attr(t, "output_directory", ME)


def deletions(r):
    out = []
    for e in r.events:
        if e.kind != "call":
            continue
        for n, k in DELETE.items():
            if e.callee == n or (n.startswith(".") and e.callee == n) or (not n.startswith(".") and e.callee.endswith("." + n)):
                if n.startswith("."):
                    tgt = e.base
                else:
                    tgt = e.args[0] if e.args else e.kw("path", 0)
                out.append((e, k, tgt))
                break
    return out


LOGS = ("gama.log", "evaluations.log", "memory.log")
FOREIGN = ("cache", "notes.txt", "data.csv", "catalog", "gama.log.bak", "model.pkl", "log", "x.logs")


def removed(ctx, r, isdir, logs, es=None):
    """Kinds of artifacts certainly removed; records violations for anything else that is removed."""
    got, maybe = set(), set()
    for e, k, tgt in (deletions(r) if es is None else es):
        if tgt is None:
            maybe |= {"?"}
            continue
        if any(g is FALSE for g in e.guards):
            continue
        if e.callee in ("os.replace", "os.rename", "shutil.move", "os.truncate"):
            maybe.add("?")
            continue
        lvs = [x for x, _ in leaves(tgt)]
        for lf in lvs:
            pth = path(lf, isdir)
            if pth.kind == "other":
                ctx.bad(e.where(), "something outside the output directory is deleted: " + show_(lf), "outside")
            elif k == "parents":
                ctx.bad(e.where(), "parent directories are deleted too", "outside")
            elif pth.kind == "dir" and k == "tree":
                ctx.bad(e.where(), "the whole output directory is deleted, whatever the user stored in it", "own-files")
            elif pth.kind == "dir":
                got.add("dir")
            elif pth.kind == "child" and pth.name == "cache" and k == "tree":
                got.add("cache")
            elif pth.kind == "child" and k == "file" and pth.name in logs:
                got.add(pth.name)
            elif pth.kind == "child" and k in ("tree", "file"):
                ctx.decide(None if pth.name.endswith(".log") else False, e.where(), "only logs and the model cache are deleted", "own-files", pth.name)
            elif pth.kind == "match" and k == "file":
                import fnmatch
                for n in logs:
                    if fnmatch.fnmatchcase(n, pth.name):
                        got.add(n)
                alien = [n for n in FOREIGN if fnmatch.fnmatchcase(n, pth.name)]
                ctx.decide(False if alien else True, e.where(), "only logs and the model cache are deleted", "own-files", ", ".join(alien))
            elif pth.kind == "each":
                el = pth.term
                gs = [g for g in e.guards if contains(g, lambda x: x is el)]
                base = el.args[0] if el.op == "elem" else None
                if base is not None and base.op in ("tuple", "list", "set"):
                    try:
                        names = fold(base, {})
                    except Exception:
                        names = None
                    if names is None:
                        maybe.add("?")
                        continue
                    for n in names:
                        if all(foldb(g, {el: n}) is True or is_exists(g) for g in gs):
                            if n in logs or n == "cache":
                                got.add(n)
                            else:
                                ctx.decide(None if n.endswith(".log") else False, e.where(), "only logs and the model cache are deleted", "own-files", n)
                    continue
                for n in logs:
                    vs = [foldb(g, {el: n}) for g in gs]
                    if all(v is True for v in vs):
                        got.add(n)
                    elif None in vs and False not in vs:
                        maybe.add(n)
                alien = [n for n in FOREIGN if all(foldb(g, {el: n}) is True for g in gs)]
                unsure = any(foldb(g, {el: n}) is None for g in gs for n in FOREIGN)
                ctx.decide(False if alien else (None if unsure else True), e.where(), "only logs and the model cache are deleted", "own-files", ", ".join(alien))
            else:
                maybe.add("?")
    return got, maybe


def is_exists(g):
    if g.op == "not":
        g = g.args[0]
    return is_call(g, *EXISTS)


@rule("C14", "cleanup", "each kind of clean-up removes exactly what it names, inside the output directory")
def c14_cleanup(ctx):
    want = {"logs": set(LOGS), "evaluations": {"cache"}, "all": {*LOGS, "cache", "dir"}}
    for which, exp in want.items():
        r = ctx.run(G + "cleanup", overrides={P(ctx.run(G + "cleanup"), "which", 0).args[0]: const(which)})
        got, maybe = removed(ctx, r, me_dir, LOGS)
        w = f"Gama.cleanup({which!r})"
        for x in sorted(got | exp):
            if x in exp:
                ctx.decide(True if x in got else (None if maybe else False), w, f"clean-up of {which} removes {x}", f"{which}:{x}")
            else:
                ctx.decide(False, w, f"clean-up of {which} keeps {x}", f"{which}:{x}")
        dels = deletions(r)
        for e, k, tgt in dels:
            stray = [g for g in e.guards if not is_exists(g) and not contains(g, lambda x: x.op == "elem") and g is not TRUE]
            if stray and any(g is FALSE for g in e.guards):
                continue
            ctx.decide(True if not stray else None, e.where(), f"clean-up of {which} depends on nothing but the existence of the files", f"{which}:cond", show_(stray[0]) if stray else "")
            mine = [path(x, me_dir) for x, _ in leaves(tgt)] if tgt is not None else []
            for g in e.guards:
                if is_exists(g) and g.op != "not" and g.args[1]:
                    on_ = path(g.args[1][0], me_dir)
                    if on_.kind == "child" and mine and all(m.kind in ("child", "each", "match", "dir") and not (m.kind == "child" and m.name == on_.name) for m in mine):
                        ctx.bad(e.where(), f"NOT: clean-up of {which} does not depend on another file ({on_.name}) being there", f"{which}:other")
            neg_ = [g for g in e.guards if g.op == "not" and is_exists(g)]
            ctx.decide(False if neg_ and not vague(neg_[0]) else True, e.where(), "what exists is deleted", f"{which}:exists", show_(neg_[0]) if neg_ else "")
        if which == "all":
            rm = [e for e, k, t in dels if k == "rmdir"]
            other = [e for e, k, t in dels if k in ("file", "tree")]
            if rm and other:
                ctx.decide(min(e.seq for e in rm) > max(e.seq for e in other), rm[0].where(), "the directory is removed after its contents", "order")


@rule("C14", "stored", "after fit exactly what the storage setting asks for is left, and nothing is removed before the model is ready")
def c14_stored(ctx):
    want = {"nothing": {*LOGS, "cache", "dir"}, "logs": {"cache"}, "models": set(LOGS), "all": set()}
    opq = tuple(x for x in FITOPQ if not x.endswith("cleanup"))
    for store, exp in want.items():
        r = ctx.run(G + "fit", opaque=opq, heap={(ME, "_store"): const(store)})
        post = post_call(r)
        if not post:
            ctx.abort("post-processing not found")
        # Files of evaluations of an earlier fit may go before this fit's search.
        begin = [e.seq for e in r.events if e.kind == "call" and (e.callee == ".search" or e.callee.endswith("_search_phase"))] or [0]
        old = [e for e, k, t in deletions(r) if e.seq < begin[0] and t is not None and contains(t, lambda x: is_attr(x, "_cache_file") and is_elem(x.args[0]))]
        dels = [d for d in deletions(r) if d[0] not in old]
        got, maybe = removed(ctx, r, me_dir, LOGS, dels)
        w = f"Gama.fit with store={store!r}"
        for x in sorted({*LOGS, "cache", "dir"}):
            if x in exp:
                ctx.decide(True if x in got else (None if maybe else False), w, f"{x} is removed", f"{store}:{x}")
            elif x in got:
                ctx.decide(False, w, f"{x} is kept", f"{store}:{x}")
            else:
                ctx.decide(None if "?" in maybe or x in maybe else True, w, f"{x} is kept", f"{store}:{x}")
        for e, k, t in dels:
            ctx.decide(e.seq > post[-1].seq, e.where(), "nothing is removed before post-processing is done", f"{store}:after")
            extra = [g for g in e.guards if g not in post[-1].guards and not is_exists(g) and not contains(g, lambda x: x.op == "elem") and g is not FALSE]
            ctx.decide(True if not extra else None, e.where(), "clean-up after fit is unconditional", f"{store}:cond", show_(extra[0]) if extra else "")


def dirterm(r):
    """Predicate: is the term the output directory, inside the constructor?"""
    v = [e.value for e in r.events if e.kind == "setattr" and e.name == "output_directory" and e.base is ME]
    return (lambda t: t in v or is_attr(t, "output_directory", ME)) if v else None


@rule("C14", "refuse", "a directory that already holds files is refused before anything is written to it")
def c14_refuse(ctx):
    for store in ("nothing", "models", "logs", "all"):
        refuse(ctx, settings(ctx, store=store))


def refuse(ctx, r):
    d = dirterm(r)
    if d is None:
        ctx.abort("output directory not found")
    dv = [e for e in r.events if e.kind == "setattr" and e.name == "output_directory"][-1]
    inner = [x for x in walk(dv.value) if x is P(r, "output_directory")]
    ctx.decide(True if inner else (None if vague(dv.value) else False), dv.where(), "the output directory is the one the user names", "named", show_(dv.value))
    looks = [e for e in r.events if e.kind == "call" and e.callee in ("os.listdir", "os.scandir", ".iterdir", "glob.glob", ".glob", "os.walk") and
             (e.args and d(e.args[0]) or e.base is not None and path(e.base, d).kind == "dir")]
    w = dv.where()
    if not looks:
        odd = [e for e in r.events if e.kind == "call" and e.callee.endswith((".rmdir", "subprocess.run"))]
        ctx.decide(None if odd else False, w, "the contents of an existing directory are looked at", "looked")
        return
    writes = [e for e in r.events if e.kind in ("call", "new") and (
        e.callee.endswith(("FileHandler", "EvaluationLibrary", ".logger", "open")) or e.kind == "new" and str(e.name).endswith("EvaluationLibrary"))]
    nonempty = []
    for e in looks:
        L = e.res
        if e.callee == "os.listdir":
            nonempty.append(L)
    if not nonempty:
        ctx.unk(w, "emptiness test not recognised")
        return
    L = nonempty[0]
    ex = [e.res for e in r.events if e.kind == "call" and e.callee in ("os.path.exists", "os.path.isdir") and e.args and d(e.args[0])]
    facts = {cmp_("<", const(0), mk("len", L)): True}
    for e in writes:
        v = blocked(e.guards, L, ex)
        ctx.decide(v, e.where(), "nothing is written to a directory that holds files", "refused:" + e.callee.split(".")[-1], show_(e.guards[-1]) if e.guards else "")
    if not writes:
        ctx.abort("nothing is written")
    mk_ = [e for e in r.events if e.kind == "call" and e.callee in ("os.mkdir", "os.makedirs", ".mkdir")]
    for e in mk_:
        ctx.decide(True if e.args and d(e.args[0]) or e.base is not None and path(e.base, d).kind == "dir" else None, e.where(), "only the output directory is created", "created")


def blocked(guards, L, ex):
    """Do the guards exclude that directory exists (ex) and its listing L is non-empty?"""
    env = {x: True for x in ex}
    env[L] = ["notes.txt"]
    vs = []
    rel = [g for g in guards if contains(g, lambda x: x is L or x in ex)]
    for g in rel:
        vs.append(foldb(g, env))
    if False in vs:
        return True
    if None in vs:
        return None
    return False


@rule("C14", "inside", "everything a run writes lies in the output directory under the names clean-up looks for")
def c14_inside(ctx):
    for store in ("nothing", "models", "logs", "all"):
        r = settings(ctx, store=store)
        d = dirterm(r)
        if d is None:
            ctx.abort("output directory not found")
        fh = [e for e in r.events if e.kind in ("call", "new") and e.callee.endswith("FileHandler")]
        if store in ("nothing", "models"):
            end = [e for e in r.events if e.kind == "setattr" and e.name == "_evaluator_configuration"]
            sure = [e for e in fh if end and set(e.guards) <= set(end[-1].guards)]
            ctx.decide(True if not fh else False if sure else None, fh[0].where() if fh else f"store={store}", "no log file is opened when logs are not to be kept", f"{store}:no-log")
        else:
            odd = [e for e in r.events if e.kind in ("call", "new") and any(w in e.callee for w in ("Handler", "dictConfig", "basicConfig", "fileConfig")) and not contains(e.res or NONE, lambda x: x.op == "ext" and "StreamHandler" in x.args[0])]
            ctx.decide(True if fh else None if odd else False, f"store={store}", "the log is written when it is to be kept", f"{store}:log")
            for e in fh:
                p_ = path(e.args[0] if e.args else NONE, d)
                ctx.decide(True if p_.kind == "child" and p_.name in LOGS else (False if p_.kind == "other" or p_.kind == "child" and not p_.name.endswith(".log") else None), e.where(),
                           "the log is written to a .log file in the output directory", f"{store}:log-file", show_(e.args[0]) if e.args else "")
    r = settings(ctx)
    d = dirterm(r)
    for e in r.events:
        if e.kind == "call" and e.callee == ".logger" and e.args:
            p_ = path(e.args[0], d)
            ctx.decide(True if p_.kind == "child" and p_.name in LOGS else (False if p_.kind == "other" or p_.kind == "child" and not p_.name.endswith(".log") else None), e.where(),
                       "evaluations are logged to a .log file in the output directory", "evaluations", show_(e.args[0]))
        if str(e.callee if e.kind == "call" else e.name).endswith("EvaluationLibrary"):
            c = e.kw("cache", 2)
            if c is None:
                ctx.decide(False, e.where(), "models are cached in the output directory", "cache", "default cache directory")
                continue
            p_ = path(c, d)
            ctx.decide(True if p_.kind == "child" and p_.name == "cache" else (False if p_.kind in ("other", "dir", "child") else None), e.where(),
                       "models are cached where clean-up looks for them", "cache", show_(c))
    cfg = attr_at(r, None, ME, "_evaluator_configuration")
    v = dict_get(r, cfg, "logfile")
    if v is not None:
        p_ = path(v, d)
        ctx.decide(True if p_.kind == "child" and p_.name in LOGS else (False if p_.kind == "other" or p_.kind == "child" and not p_.name.endswith(".log") else None), "Gama.__init__",
                   "memory use is logged to a .log file in the output directory", "memory", show_(v))


def closed(r, t):
    """Is t a dictionary of which every key is known?"""
    t = r.ex(t) if t is not None else None
    ss = segs(t) if t is not None else None
    return bool(ss) and all(s.op == "seg_pair" and is_const(s.args[0]) for s in ss)


def dict_get(r, t, key):
    """Value under a constant key of a dictionary built in the constructor."""
    if t is None:
        return None
    t = r.ex(t)
    ss = segs(t)
    out = None
    for s in ss or []:
        if s.op == "seg_pair" and s.args[0] is const(key):
            out = s.args[1]
    return out


# ---------------------------------------------------------------- C27
BAD = [("store", "x"), ("store", ""), ("store", "log"), ("n_jobs", 0), ("n_jobs", -2), ("n_jobs", -100), ("max_total_time", 0), ("max_total_time", -1), ("max_total_time", None),
       ("max_eval_time", 0), ("max_eval_time", -1), ("max_eval_time", -3600)]
GOOD = [("store", "nothing"), ("store", "models"), ("store", "logs"), ("store", "all"), ("n_jobs", None), ("n_jobs", -1), ("n_jobs", 1), ("n_jobs", 4),
        ("max_total_time", 1), ("max_total_time", 3600), ("max_eval_time", None), ("max_eval_time", 1), ("max_eval_time", 60), ("random_state", 0), ("regularize_length", False)]


def raises(r):
    return {(e.where(), e.guards) for e in r.events if e.kind == "raise"}


def dead(r):
    return r.state is None or getattr(r.state, "dead", False)


@rule("C27", "refused", "every invalid setting makes the constructor raise, every valid one is accepted")
def c27_refused(ctx):
    good = {}
    for k, v in GOOD:
        r = settings(ctx, **{k: v})
        good.setdefault(k, set()).update(raises(r))
        ctx.decide(False if dead(r) else True, "Gama.__init__", f"{k}={v!r} is accepted", f"accept:{k}={v}")
    for k, v in BAD:
        r = settings(ctx, **{k: v})
        same = raises(r) <= good[k] and not any(vague(g) for g in r.state.guards)
        ctx.decide(True if dead(r) else (False if same else None), "Gama.__init__", f"{k}={v!r} is refused", f"refuse:{k}={v}")
    for ps, ok in (("simple", True), ("performance", True), ("x", False), ("", False)):
        r = settings(ctx, preset=ps, post_processing=None)
        if ok:
            ctx.decide(not dead(r), "Gama.__init__", f"preset={ps!r} is accepted", f"accept:preset={ps}")
            v = attr_at(r, None, ME, "_post_processing")
            cls = {"simple": "BestFitPostProcessing", "performance": "EnsemblePostProcessing"}[ps]
            ctx.decide(None if v is None or v.op != "obj" else v.args[0].endswith("." + cls), "Gama.__init__", f"preset {ps} means {cls}", f"preset:{ps}", show_(v))
        else:
            base = settings(ctx, preset="simple", post_processing=None)
            same = raises(r) <= raises(base) and not any(vague(g) for g in r.state.guards)
            ctx.decide(True if dead(r) else (False if same else None), "Gama.__init__", f"preset={ps!r} is refused", f"refuse:preset={ps}")


@rule("C27", "no-trace", "a wrong time limit or number of workers leaves no output directory behind")
def c27_trace(ctx):
    for k, v in BAD:
        if k == "store":
            continue
        r = settings(ctx, **{k: v})
        if not dead(r):
            continue
        ref = settings(ctx, **{k: dict(GOOD)[k]})
        rs = [e for e in r.events if e.kind == "raise" and (e.where(), e.guards) not in raises(ref)]
        for e in rs:
            made = [x for x in r.events if x.kind == "call" and x.callee in ("os.mkdir", "os.makedirs", ".mkdir") and x.seq < e.seq]
            if not made:
                ctx.decide(True, e.where(), f"{k}={v!r} is refused before the directory is created", f"trace:{k}")
                continue
            cl = [x for x in r.events if x.kind == "call" and x.callee.endswith("cleanup") and made[0].seq < x.seq < e.seq and set(x.guards) <= set(e.guards)]
            full = [x for x in cl if x.kw("which", 0) is const("all")]
            direct = [x for x, _, _ in deletions(r) if x.seq < e.seq]
            ctx.decide(True if full else (None if direct or any(not is_const(x.kw("which", 0) or const(0)) for x in cl) else False), e.where(),
                       f"{k}={v!r}: the directory is removed before the error is raised", f"trace:{k}")


@rule("C27", "as-given", "accepted settings take effect as given")
def c27_given(ctx):
    r = settings(ctx)
    def attr(name, want, msg, bad=None):
        v = attr_at(r, None, ME, name)
        lv = [x for x, _ in leaves(v)] if v is not None else []
        ctx.decide(True if lv and all(want(x) for x in lv) else (False if lv and any(is_const(x) or x.op == "param" for x in lv if not want(x)) else None), "Gama.__init__", msg, name, show_(v))
    attr("_regularize_length", lambda x: x is P(r, "regularize_length"), "the regularization setting is the user's")
    attr("_store", lambda x: x is P(r, "store"), "the storage setting is the user's")
    attr("_search_method", lambda x: x is P(r, "search") or x.op == "obj", "the search method is the user's, or a new default")
    attr("_post_processing", lambda x: x is P(r, "post_processing") or x.op == "obj", "the post-processing is the user's, or a new default")
    m = attr_at(r, None, ME, "_metrics")
    ctx.decide(True if m is not None and is_call(m, "scoring_to_metric") and kwarg(m, "scoring", 0) is P(r, "scoring") else (False if m is not None and (is_const(m) or m is NONE) else None),
               "Gama.__init__", "the metrics are those the user asked for", "metrics", show_(m))
    for name in ("search", "post_processing"):
        r2 = ctx.run(G + "__init__", opaque=OPQ + (G + "cleanup",), facts=(neg(cmp_("is", P(r, name), NONE)),))
        v = attr_at(r2, None, ME, {"search": "_search_method", "post_processing": "_post_processing"}[name])
        ctx.decide(True if v is P(r, name) else (False if v is not None and (v.op == "obj" or v is NONE) else None), "Gama.__init__", f"a given {name} is used", "given:" + name, show_(v))
    cfg = attr_at(r, None, ME, "_evaluator_configuration")
    mm = dict_get(r, cfg, "memory_limit_mb")
    ctx.decide(True if mm is P(r, "max_memory_mb") else (False if mm is not None and (is_const(mm) or mm.op == "param") or mm is None and closed(r, cfg) else None), "Gama.__init__", "the memory limit is the user's", "memory", show_(mm))
    CPU = "multiprocessing.cpu_count"
    for nj, chk in ((1, lambda v: v is const(1)), (4, lambda v: v is const(4)), (-1, lambda v: is_call(v, CPU, "os.cpu_count")), (None, None)):
        r2 = settings(ctx, n_jobs=nj)
        v = dict_get(r2, attr_at(r2, None, ME, "_evaluator_configuration"), "n_workers")
        if v is None:
            ctx.decide(False if closed(r2, attr_at(r2, None, ME, "_evaluator_configuration")) else None, "Gama.__init__", "the number of workers is given to the evaluators", "n_jobs:given")
            continue
        if nj is None:
            cpu = [x for x in walk(v) if is_call(x, CPU, "os.cpu_count")]
            if not cpu:
                ctx.decide(False if is_const(v) else None, "Gama.__init__", "by default half the cores are used, at least one", "n_jobs:None", show_(v))
                continue
            for n in (1, 2, 3, 8, 64):
                x = numeric(v, {c: n for c in cpu})
                ctx.decide(None if x is None else isinstance(x, int) and x == max(1, n // 2), "Gama.__init__", f"by default half of {n} cores are used, at least one", f"n_jobs:None:{n}", show_(v))
        else:
            ctx.decide(True if chk(v) else (False if is_const(v) else None), "Gama.__init__", f"n_jobs={nj} is used as given", f"n_jobs:{nj}", show_(v))
    for tot, ev, exp in ((1, None, 1), (5, None, 1), (14, None, 1), (100, None, 10), (3600, None, 360), (86400, None, 8640), (100, 7, 7), (100, 100, 100), (100, 200, 100), (10, 3600, 10), (3600, 1, 1)):
        r2 = settings(ctx, max_total_time=tot, max_eval_time=ev)
        v = attr_at(r2, None, ME, "_max_eval_time")
        ctx.decide(None if v is None or not is_const(v) else v.args[0] == exp, "Gama.__init__", f"max_total_time={tot}, max_eval_time={ev}: an evaluation may take {exp} s", f"eval:{tot}:{ev}", show_(v))
    r2 = ctx.run(G + "__init__", opaque=OPQ + (G + "cleanup",))
    v = attr_at(r2, None, ME, "_max_eval_time")
    T, E = P(r2, "max_total_time"), P(r2, "max_eval_time")
    for lf, facts in leaves(v) if v is not None else ():
        if lf is E:
            g = [simplify(x, set(facts) - {x}) for x in facts] + list(r2.state.guards)
            big = cmp_("<", T, E)
            ctx.decide(True if logic.implies(g, neg(big)) else None, "Gama.__init__", "a given evaluation time is used only if it does not exceed the total", "capped")


def numeric(t, env):
    """Numeric value of an arithmetic term when the terms in env have the given values."""
    if t in env:
        return env[t]
    if t.op == "const" and isinstance(t.args[0], (int, float)):
        return t.args[0]
    if t.op in ("max2", "min2"):
        vs = [numeric(x, env) for x in t.args[0]]
        return None if None in vs else (max if t.op == "max2" else min)(vs)
    if t.op == "bin":
        a, b = numeric(t.args[1], env), numeric(t.args[2], env)
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b, ">>": lambda: a >> b}[t.args[0]]()
        except (KeyError, ZeroDivisionError, TypeError):
            return None
    if t.op == "pure" and t.args[0] in ("int", "round", "abs", "float") and len(t.args[1]) == 1:
        a = numeric(t.args[1][0], env)
        return None if a is None else {"int": int, "round": round, "abs": abs, "float": float}[t.args[0]](a)
    if is_call(t, "math.floor", "math.ceil") and len(t.args[1]) == 1:
        import math
        a = numeric(t.args[1][0], env)
        return None if a is None else (math.floor if is_call(t, "math.floor") else math.ceil)(a)
    if t.op == "ite":
        c = ncond(t.args[0], env)
        return None if c is None else numeric(t.args[1] if c else t.args[2], env)
    if t.op == "or":
        return None
    return None


def ncond(c, env):
    if c.op == "not":
        v = ncond(c.args[0], env)
        return None if v is None else not v
    if c.op == "cmp":
        if c.args[0] == "is" and c.args[2] is NONE:
            return False if numeric(c.args[1], env) is not None else None
        a, b = numeric(c.args[1], env), numeric(c.args[2], env)
        if a is None or b is None:
            return None
        return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}.get(c.args[0])
    v = numeric(c, env)
    return None if v is None else bool(v)


@rule("C27", "metrics", "only metrics, names of metrics, or collections of them are accepted")
def c27_metrics(ctx):
    M = "gama.utilities.metrics."
    r = ctx.run(M + "scoring_to_metric", overrides={P(ctx.run(M + "scoring_to_metric"), "scoring", 0).args[0]: const(5)})
    ctx.decide(True if dead(r) else (False if not any(vague(g) for e in r.returns() for g in e.guards) and not any(e.guards for e in r.returns()) else None),
               M + "scoring_to_metric", "something that is no metric is refused", "other")
    r = ctx.run(M + "Metric.__init__")
    tt = attr_at(r, None, ME, "task_type")
    sc = attr_at(r, None, ME, "scorer")
    for lf, facts in leaves(tt) if tt is not None else ():
        g = list(facts) + list(r.state.guards)
        mem = [x for y in g for x in walk(y) if x.op == "cmp" and x.args[0] == "in" and contains(x.args[2], lambda z: "_metrics" in str(z.args[-1] if z.args else ""))]
        mem = list(dict.fromkeys(mem))
        if not mem:
            ctx.decide(None if vague(lf) or any(vague(x) for x in g) else False, M + "Metric.__init__", "a metric of unknown type is refused", "type", show_(lf))
            continue
        ctx.decide(True if logic.implies(g, bor(mem)) else (False if not any(vague(x) for x in g) and logic.implies([], TRUE) and not logic.implies(g, bor(mem)) and len(mem) <= 2 else None),
                   M + "Metric.__init__", "a metric of unknown type is refused", "type", show_(lf))
    if tt is None:
        ctx.unk(M + "Metric.__init__", "type of metric not found")
    rs = [e for e in r.events if e.kind == "raise"]
    ctx.decide(bool(rs) or None, M + "Metric.__init__", "something that is no scorer is refused", "scorer")


# ---------------------------------------------------------------- C15
@rule("C15", "seeded", "a given random state, 0 included, seeds both generators; without one nothing is seeded")
def c15_seeded(ctx):
    GEN = {"random": ("random.seed",), "numpy": ("numpy.random.seed",)}
    for seed in (0, 1, 42):
        r = settings(ctx, random_state=seed)
        if dead(r):
            continue
        for gen, names in GEN.items():
            es = [e for e in r.events if e.kind == "call" and e.callee in names]
            w = es[0].where() if es else "Gama.__init__"
            sure = [e for e in es if set(e.guards) <= set(r.state.guards) and not in_ctx(e, "loop")]
            val = [e for e in sure if (e.kw("a", 0) or e.kw("seed", 0)) is const(seed)]
            if val:
                ctx.decide(True, w, f"random_state={seed} seeds the {gen} generator", f"{gen}:{seed}")
            else:
                odd = [e for e in r.events if e.kind == "call" and "seed" in e.callee and e.callee not in GEN["random"] + GEN["numpy"]] or [e for e in sure if not is_const(e.args[0] if e.args else NONE)]
                ctx.decide(None if odd or (es and not sure and any(vague(g) for e in es for g in e.guards)) else False, w, f"random_state={seed} seeds the {gen} generator", f"{gen}:{seed}")
            for e in val[-1:]:
                later = [x for x in es if x.seq > e.seq and (x.kw("a", 0)) is not const(seed)]
                ctx.decide(not later, e.where(), "the seed is not replaced afterwards", f"{gen}:last")
                early = [x for x in r.events if x.kind == "call" and x.seq < e.seq and (x.callee.startswith("random.") or x.callee.startswith("numpy.random.")) and not x.callee.endswith(".seed")]
                ctx.decide(not early, e.where(), "nothing random happens before seeding", f"{gen}:first")
    r = settings(ctx, random_state=None)
    es = [e for e in r.events if e.kind == "call" and e.callee in ("random.seed", "numpy.random.seed")]
    ctx.decide(not es, es[0].where() if es else "Gama.__init__", "without a random state nothing is seeded", "none")


FRESH = ("random.Random", "random.SystemRandom", "os.urandom", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.SeedSequence")


@rule("C15", "one-source", "no other source of randomness decides anything")
def c15_source(ctx):
    n = 0
    for m in ctx.p.modules.values():
        if ".dashboard" in m.name or ".configuration" in m.name:
            continue
        parents = {}
        for node in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(node):
                parents[ch] = node
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            q = ctx.p.resolve_expr(m, node.func)
            q = q[1] if isinstance(q, tuple) and q[0] == "ext" else None
            if q is None:
                continue
            fn = node
            while fn in parents and not isinstance(fn, (ast.FunctionDef, ast.ClassDef)):
                fn = parents[fn]
            w = f"{m.name}.{getattr(fn, 'name', '')}:{node.lineno}"
            q = q.replace("np.", "numpy.") if q.startswith("np.") else q
            if q.startswith(("random.", "numpy.random.")) or q.startswith("secrets.") or q == "os.urandom":
                n += 1
                if q.startswith("secrets.") or q in ("os.urandom", "random.SystemRandom"):
                    ctx.bad(w, f"{q} does not follow the seed", "source:" + q)
                elif q in FRESH:
                    seeded = bool(node.args or node.keywords)
                    ctx.decide(None if seeded else False, w, "no freshly seeded generator is used", "fresh:" + q)
                elif q.endswith(".seed"):
                    inside = getattr(fn, "name", "")
                    if not node.args and not node.keywords or (node.args and isinstance(node.args[0], ast.Constant) and node.args[0].value is None):
                        ctx.bad(w, "the generator is seeded afresh", "reseed")
                    elif node.args and any(isinstance(x, ast.Call) and dotted(x.func) in ("time.time", "os.getpid", "time.time_ns", "time.perf_counter", "id", "hash") for x in ast.walk(node.args[0])):
                        ctx.bad(w, "the generator is seeded with something other than the random state", "reseed")
                    else:
                        ctx.decide(True if m.name == "gama.gama" else None, w, "generators are seeded by the constructor only", "reseed")
                else:
                    ctx.ok(w, f"{q} uses a seeded generator")
    if not n:
        ctx.abort("no use of random generators found")


DRAWS = ("random.choice", "random.sample", "random.choices", "random.shuffle", "numpy.random.choice", "numpy.random.permutation", "numpy.random.shuffle")


@rule("C15", "no-hash-order", "no choice depends on the order of a set, which is random for each run")
def c15_order(ctx):
    seen = 0
    for f in ctx.p.all_funcs():
        if ".dashboard" in f.module.name or ".logging" in f.module.name or ".configuration" in f.module.name:
            continue
        sets = {}
        for node in ast.walk(f.node):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
                sets.setdefault(node.targets[0].id, []).append(node.value)
        stores = {}
        for node in ast.walk(f.node):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
                stores[node.id] = stores.get(node.id, 0) + 1

        def setlike(e, depth=0):
            if isinstance(e, (ast.Set, ast.SetComp)):
                return True
            if isinstance(e, ast.Call):
                d = dotted(e.func)
                if d in ("set", "frozenset"):
                    return True
                if d in ("list", "tuple", "reversed", "enumerate", "iter") and e.args:
                    return setlike(e.args[0], depth)
                if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "difference", "intersection", "symmetric_difference", "copy"):
                    return setlike(e.func.value, depth)
                return False
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
                return setlike(e.left, depth) or setlike(e.right, depth) and not isinstance(e.op, ast.Sub)
            if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
                return setlike(e.generators[0].iter, depth)
            if isinstance(e, ast.Name) and depth < 4 and stores.get(e.id) == len(sets.get(e.id, ())) and sets.get(e.id):
                return all(setlike(v, depth + 1) for v in sets[e.id])
            return False
        for node in ast.walk(f.node):
            if not isinstance(node, ast.Call) or not node.args:
                continue
            q = ctx.p.resolve_expr(f.module, node.func)
            q = q[1] if isinstance(q, tuple) and q[0] == "ext" else dotted(node.func) or ""
            w = f"{f.qual}:{node.lineno}"
            key = any(k.arg == "key" for k in node.keywords)
            if q in DRAWS:
                seen += 1
                ctx.decide(False if setlike(node.args[0]) else True, w, f"the candidates of {q} have an order that follows the seed", "draw")
            elif q.split(".")[-1] in ("max", "min", "sorted", "nlargest", "nsmallest") and key:
                a = node.args[1] if "est" in q and len(node.args) > 1 else node.args[0]
                seen += 1
                ctx.decide(False if setlike(a) and m_search(f) else True, w, "equally good candidates are ordered independently of their identity", "ties")
            elif isinstance(node.func, ast.Attribute) and node.func.attr == "pop" and False:
                pass
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "pop" and not node.args and setlike(node.func.value) and m_search(f):
                ctx.bad(f"{f.qual}:{node.lineno}", "an arbitrary element of a set is taken", "set-pop")
    if not seen:
        ctx.abort("no random choices found")


def m_search(f):
    return f.module.name.startswith(("gama.search_methods", "gama.genetic_programming", "gama.postprocessing", "gama.utilities.evaluation_library", "gama.gama"))


# ---------------------------------------------------------------- C03: observers
@rule("C03", "observers", "every registered observer is called once with every reported evaluation, isolated from the others")
def c03_observers(ctx):
    r = ctx.run(G + "_on_evaluation_completed")
    ev = P(r, "evaluation", 0)
    subs = mk("attr", ME, "_subscribers")
    cs = [e for e in r.events if e.kind == "call" and e.f is not None and is_elem(e.f)]
    cs = [e for e in cs if contains(e.f, lambda x: x is subs)] or cs
    if not cs:
        ctx.abort("callbacks not found")
    key = None
    for e in cs:
        base = e.f.args[0]
        ctx.decide(True if e.args == (ev,) and not e.kwargs else (False if not any(vague(a) for a in e.args) and ev not in e.args and all(a is not ev for _, a in e.kwargs) else None), e.where(),
                   "the observer gets the evaluation itself", "argument", str([show_(a) for a in e.args]))
        if base.op == "item":
            key = base.args[1]
        if base.op == "slice":
            ctx.bad(e.where(), "some observers are left out: " + show_(base), "all")
        lp = in_ctx(e, "loop")
        gs = [g for g in e.guards if not g.op == "exc"]
        ctx.decide(True if not gs else (False if any(contains(g, lambda x: x is e.f or x is ev) for g in gs) and not any(vague(g) for g in gs) else None), e.where(), "every observer is called for every evaluation", "unguarded", show_(gs[0]) if gs else "")
        inner = [c[1] for c in lp]
        ctx.decide(len(lp) == 1 or None, e.where(), "each observer is called once", "once")
        tr = [c for c in e.ctx if c[0] == "try"]
        types = [t for c in tr for t in handler_types(r, c[1])]
        ctx.decide(True if any(t is None or set(t) & BROAD_ for t in types) else (False if not types else None), e.where(), "an observer that raises is isolated from the rest", "isolated", str(types))
        li = e.ctx.index(lp[-1]) if lp else -1
        if tr and lp:
            ctx.decide(any(e.ctx.index(c) > li for c in tr), e.where(), "an observer that raises does not keep the others from being called", "isolated-each")
        for lid in inner:
            br = r.it.loops[lid].get("breaks")
            ctx.decide(True if not br else None, e.where(), "no observer stops the loop", "no-break")
    ctx.decide(True if len(cs) == 1 else None, cs[0].where(), "observers are called at one place", "once-only")
    r2 = ctx.run(G + "evaluation_completed")
    cb = P(r2, "callback", 0)
    ap = [e for e in r2.events if e.kind in ("mutate", "call", "setitem", "setattr") and (any(a is cb for a in (e.args or ())) or e.value is not None and contains(e.value, lambda x: x is cb))]
    if not ap:
        ctx.decide(False if not any(vague(a) for e in r2.events for a in (e.args or ())) else None, G + "evaluation_completed", "a registered observer is remembered", "register")
    else:
        e = ap[-1]
        b = e.base
        okk = e.callee.endswith("append") or e.name == "append"
        gs = [g for g in e.guards]
        k2 = b.args[1] if b is not None and b.op == "item" else None
        ctx.decide(None if k2 is None or key is None else k2 is key, e.where(), "observers are registered where reports look for them", "register-key", f"{show_(k2)} / {show_(key)}")
        named = [g for g in gs if contains(g, lambda x: is_attr(x, "__name__", lambda z: z is cb) or is_attr(x, "__qualname__", lambda z: z is cb) or x.op == "len")]
        ctx.decide(True if okk and not gs else (False if named else None), e.where(), "every observer is registered", "register", show_(named[0]) if named else "")


BROAD_ = {"Exception", "BaseException", "builtins.Exception", "builtins.BaseException"}


@rule("C03", "registered", "the evaluation library and the evaluation log are observers of every run")
def c03_registered(ctx):
    r = ctx.run(G + "__init__", opaque=OPQ + (G + "cleanup", G + "evaluation_completed"))
    cs = [e for e in r.events if e.kind == "call" and e.callee.endswith("evaluation_completed") and not e.callee.endswith("_on_evaluation_completed")]
    what = {"save_evaluation": [], "log_evaluation": []}
    other = 0
    for e in cs:
        a = e.kw("callback", 0)
        n = bound_name(a) if a is not None else None
        if n in what:
            what[n].append(e)
        else:
            other += 1
    for n, es in what.items():
        nm = {"save_evaluation": "the evaluation library", "log_evaluation": "the evaluation log"}[n]
        if not es:
            ctx.decide(None if other else False, G + "__init__", f"{nm} observes the run", n)
            continue
        sure = [e for e in es if set(e.guards) <= set(r.state.guards)]
        ctx.decide(True if sure else (False if all(any(not vague(g) and g not in r.state.guards for g in e.guards) for e in es) and len(es) == 1 else None), es[0].where(), f"{nm} observes every run", n, show_(es[0].guards[-1]) if es[0].guards else "")
        ctx.decide(True if len(es) == 1 else (False if len(sure) > 1 else None), es[0].where(), f"{nm} is registered once", n + ":once")
    ops = [e for e in r.events if e.kind == "new" and str(e.name).endswith("OperatorSet")]
    for e in ops:
        v = e.kw("evaluate_callback", 6)
        ctx.decide(True if v is not None and bound_name(v) == "_on_evaluation_completed" else (False if v is None or v is NONE or is_const(v) else None), e.where(), "finished evaluations are reported to the observers", "callback", show_(v))
    if not ops:
        ctx.unk(G + "__init__", "operator set not found")
    lib = [e for e in what["save_evaluation"]]
    for e in lib:
        b = e.kw("callback", 0)
        mine = attr_at(r, None, ME, "_evaluation_library")
        ls = {x for x, _ in leaves(mine)} if mine is not None else set()
        bs = set()
        for x, _ in leaves(b):
            y = x.args[1] if x.op == "bound" else (x.args[0] if x.op == "attr" else None)
            bs |= {z for z, _ in leaves(y)} if y is not None else {None}
        if None in bs:
            bs = set()
        ctx.decide(None if not ls or not bs else bs <= ls, e.where(), "the library that is told is the one that is used afterwards", "same-library")


def bound_name(t):
    if t is None:
        return None
    if t.op == "bound":
        f = t.args[0]
        q = f.args[0] if isinstance(f, Term) else f
        return str(getattr(q, "qual", q)).split(".")[-1]
    if t.op == "attr":
        return t.args[1]
    if t.op == "ite":
        ns = {bound_name(x) for x, _ in leaves(t)}
        return ns.pop() if len(ns) == 1 else None
    return None
