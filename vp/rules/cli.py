"""The command line interface (C21)."""
from __future__ import annotations

import argparse
import logging
import os
from itertools import product

from vp.check import rule
from vp.conc import Broken, CantFold as Unknown, Record, Sym, conc
from vp.rules.util import *  # noqa: F401,F403

MAIN = "gama.utilities.cli.main"
OPAQUE = ("gama.gama.Gama.__init__", "gama.GamaClassifier.GamaClassifier.__init__", "gama.GamaRegressor.GamaRegressor.__init__",
          "gama.data_loading.X_y_from_file", "gama.gama.Gama.fit", "gama.gama.Gama.cleanup", "gama.gama.Gama.export_script")
TYPES = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool}
LEVELS = {mk("ext", f"logging.{n}"): getattr(logging, n) for n in ("DEBUG", "INFO", "WARNING", "WARN", "ERROR", "CRITICAL", "NOTSET")}
MISSING = mk("missing")
ABSENT = Sym("absent")


class Refused(Exception):
    pass


class Parser(argparse.ArgumentParser):
    """The library's parser, which the options found in the source are given to."""
    def error(self, message):
        raise Refused(message)

    def exit(self, *a, **k):
        raise Refused("exit")

    def print_help(self, file=None):
        pass


def root(t):
    """The parser a group belongs to."""
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("add_argument_group", "add_mutually_exclusive_group"):
        t = t.args[0].args[0]
    return t


def opt(v):
    if v.op == "ext" and v.args[0] in TYPES:
        return TYPES[v.args[0]]
    if v.op == "ext" and v.args[0] == "argparse.BooleanOptionalAction":
        return argparse.BooleanOptionalAction
    if v.op == "ext" and v.args[0] == "argparse.SUPPRESS":
        return argparse.SUPPRESS
    return conc(v, {})


def bindings(r, e):
    """The assignments to loop elements under which an event happens."""
    envs = [{}]
    for c in e.ctx:
        if c[0] != "loop":
            continue
        info = r.it.loops[c[1]]
        base = info.get("base", info.get("iter"))
        if base is None:
            raise Unknown(e)
        new = []
        for env in envs:
            v = conc(r.it.expand(base, e.cont) if hasattr(r.it, "expand") else base, env)
            for i, x in enumerate(v.items() if isinstance(v, dict) else v):
                b = {**env, mk("idx", c[1], base): i, mk("elem", base, c[1]): x}
                if isinstance(v, dict):
                    b.update({mk("key", base, c[1]): x[0], mk("elem", base, c[1]): x[0], mk("item", base, mk("key", base, c[1])): x[1]})
                new.append(b)
        envs = new
    return envs


def parser(r):
    """(parser with the options in the source, its term, [events])"""
    made = [e for e in r.calls("argparse.ArgumentParser")]
    if len(made) != 1 or made[0].guards:
        raise Unknown("parser")
    P_ = made[0].res
    try:
        kw = {k: opt(v) for k, v in made[0].kwargs if k in ("allow_abbrev", "prefix_chars", "add_help", "argument_default")}
    except Broken as x:
        raise Unknown(str(x))
    ps = Parser(**kw)
    groups = {P_: ps}
    evs = []
    for e in r.events:
        if e.kind != "call" or e.f is None or e.f.op != "attr" or root(e.f.args[0]) is not P_ or e.f.args[0] not in groups:
            continue
        m, g = e.f.args[1], groups[e.f.args[0]]
        if e.guards and m.startswith("add_"):
            raise Unknown(e)
        if m == "add_argument_group":
            groups[e.res] = g.add_argument_group()
        elif m == "add_mutually_exclusive_group":
            groups[e.res] = g.add_mutually_exclusive_group(**{k: opt(v) for k, v in e.kwargs})
        elif m == "add_argument":
            for env in bindings(r, e):
                a, k = [], {}
                for x in e.args:
                    a += list(conc(x.args[0], env)) if x.op == "star" else [conc(x, env)]
                for n, v in e.kwargs:
                    if n in ("help", "metavar"):
                        continue
                    if n in ("**", None):
                        k.update({q: w for q, w in conc(r.ex(v, e), env).items() if q not in ("help", "metavar")})
                    else:
                        v = r.ex(v, e)
                        k[n] = opt(v) if not env else conc(v, env) if v.op != "ext" else opt(v)
                g.add_argument(*a, **k)
            evs.append(e)
        elif m == "set_defaults":
            ps.set_defaults(**{k: opt(v) for k, v in e.kwargs})
    return ps, P_, evs


CLASSES = ("GamaClassifier", "GamaRegressor")


class DType(Sym):
    """Type of the target column."""
    def __init__(self, path, cat):
        super().__init__(*path)
        self.cat = cat

    def __eq__(self, o):
        if o == "category":
            return self.cat
        raise Unknown(o)

    __hash__ = Sym.__hash__


class Run:
    """What main does for one command line."""
    def __init__(self, r, ps, P_, argv, exists=True, cat=True):
        self.r = r
        ns = Record(vars(ps.parse_args(argv)))
        env = {**LEVELS, MISSING: ABSENT, mk("param", "command"): " ".join(argv)}
        for c in CLASSES:
            for t in (mk("mod", "gama." + c), mk("cls", f"gama.{c}.{c}"), mk("ext", "gama." + c)):
                env[t] = Sym(c)
        self.alias, self.mystery, self.wrong = {}, False, None
        self.env = env
        for e in r.events:
            if e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[0] is P_ and e.f.args[1] == "parse_args":
                env[e.res] = ns
            elif e.kind in ("call", "new"):
                n = self.called(e)
                if e.callee in ("os.path.exists", "os.path.isfile"):
                    env[e.res] = exists
                elif e.f is not None and e.f.op == "attr" and e.f.args[1] in ("exists", "is_file"):
                    env[e.res] = exists
                elif n == "is_categorical_dtype" and (e.args or e.kwargs):
                    try:
                        of = self.val(e.args[0] if e.args else e.kwargs[0][1])
                        if isinstance(of, Sym) and of.path[:2] == ("X_y_from_file", 1):
                            env[e.res] = cat
                        elif isinstance(of, Sym) and of.path[:2] == ("X_y_from_file", 0):
                            env[e.res] = not cat
                            self.wrong = e
                    except (Unknown, Broken):
                        pass
                elif e.f is not None and e.f.op == "attr" and e.f.args[1] == "nunique" and e.f.args[0].op == "item" and e.f.args[0].args[1] is const(1) and is_call(e.f.args[0].args[0], "X_y_from_file"):
                    env[e.res] = 2          # a target of two values
                elif n in ("X_y_from_file", "GamaClassifier", "GamaRegressor", "open"):
                    env[e.res] = Sym(n)
                if n == "X_y_from_file":
                    y = mk("item", e.res, const(1))
                    env[mk("attr", y, "dtype")] = DType(("X_y_from_file", 1, "dtype"), cat)
                    env[mk("attr", mk("attr", y, "dtype"), "name")] = DType(("X_y_from_file", 1, "dtype", "name"), cat)
                    for k in ("pandas.CategoricalDtype", "pandas.api.types.CategoricalDtype"):
                        env[mk("isinstance", mk("attr", y, "dtype"), mk("ext", k))] = cat
        self.done = []
        self.unsure = []
        self.error = None
        for e in r.events:
            v = True
            try:
                v = all([self.val(g) for g in e.guards])
            except Unknown:
                v = None
                for g in e.guards:
                    try:
                        if not self.val(g):
                            v = False
                    except (Unknown, Broken):
                        pass
            except Broken:
                v = None
            if v is False:
                continue
            stop = e.kind == "raise" or e.kind == "call" and (e.callee in ("sys.exit", "builtins.exit", "os._exit") or e.f is not None and e.f.op == "attr" and e.f.args[0] is P_ and e.f.args[1] in ("error", "exit"))
            if v is True and stop:
                self.error = e
                break
            if e.kind in ("call", "new", "raise", "with", "setattr"):
                (self.done if v else self.unsure).append(e)
            if e.kind == "return" and v is True and len([c for c in e.ctx if c[0] == "fn"]) == 1:
                break

    def called(self, e):
        """Last part of the name of what is called."""
        if e in self.alias:
            return self.alias[e]
        f, n = e.f, None
        if f is not None and f.op == "mod":
            n = f.args[0].rsplit(".", 1)[-1]
        elif f is not None and f.op in ("item", "ite", "call", "choice") and not e.callee.strip("."):
            n = ""
            try:
                v = conc(self.r.ex(f, e), self.env)
                if isinstance(v, Sym):
                    n = v.path[-1]
            except (Unknown, Broken):
                self.mystery = True
        else:
            n = e.callee.rsplit(".", 1)[-1]
        self.alias[e] = n
        return n

    def val(self, t):
        return conc(t, self.env)

    def of(self, *names):
        """(events that happen, events that may) by name of what is called."""
        def f(e):
            return e.kind in ("call", "new") and self.called(e) in names
        return [e for e in self.done if f(e)], [e for e in self.unsure if f(e)]

    def one(self, *names):
        a, b = self.of(*names)
        if b:
            raise Unknown(names)
        return a[0] if len(a) == 1 else None if not a else a

    def arg(self, e, name, pos=None, default=ABSENT):
        for k, v in e.kwargs or ():
            if k == name:
                x = self.val(v)
                return default if x is ABSENT else x
            if k in ("**", None):
                d = self.val(self.r.ex(v, e))
                if name in d:
                    return d[name]
        if pos is not None and len(e.args) > pos:
            if any(a.op == "star" for a in e.args[:pos + 1]):
                raise Unknown(e)
            return self.val(e.args[pos])
        return default

    def names(self, e):
        out = set()
        for k, v in e.kwargs or ():
            if k in ("**", None):
                out |= {n for n in self.val(self.r.ex(v, e))}
            elif not (v.op == "ite" or v is MISSING) or self.val(v) is not ABSENT:
                out.add(k)
        return out


FILES = ("data.csv", "data.arff", "my data/DATA.CSV", "my.data.csv", "x.Arff")


def lines(tier):
    """Command lines: every option alone and every pair of options, for both kinds of files."""
    opts = [("-sep", ";"), ("--target", "tgt"), ("-o", "out/m.pkl"), ("-py", "out/p.py"), ("--mode", "classification"), ("--mode", "regression"),
            ("-m", "accuracy"), ("--long",), ("-t", "90"), ("--time_pipeline", "9"), ("-n", "4"), ("-outdir", "logs"), ("-v",), ("-dry",)]
    if tier == "thorough":
        combos = []
        for bits in product((0, 1), repeat=len(opts)):
            if bits[4] and bits[5]:
                continue
            combos.append([o for o, b in zip(opts, bits) if b])
    else:
        combos = [[]] + [[o] for o in opts] + [[a, b] for i, a in enumerate(opts) for b in opts[i + 1:] if a[0] != b[0]] + [[o for o in opts if o[0] != "--mode" and o != ("-dry",)], [o for o in opts if o[1:] != ("regression",)]]
    combos += [[("-t", "7")], [("--time_pipeline", "3")], [("-n", "-1")], [("-t", "1"), ("--time_pipeline", "2")]]
    for c in combos:
        for f in FILES if len(c) < 2 else FILES[:2]:
            for cat in ((True, False) if len(c) < 2 else (True,)):
                yield [f] + [w for o in c for w in o], f, {o[0]: (o[1] if len(o) > 1 else True) for o in c}, cat


def init_defaults(ctx, cls):
    """Default values of the constructor's settings."""
    import ast
    out = {}
    for q in ("gama.gama.Gama.__init__", f"gama.{cls}.{cls}.__init__"):
        try:
            a = ctx.p.func(q).node.args
        except Exception:
            continue
        for x, d in zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1]):
            try:
                out[x.arg] = ast.literal_eval(d)
            except ValueError:
                out[x.arg] = LEVELS.get(mk("ext", ast.unparse(d)), ABSENT)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                try:
                    out[x.arg] = ast.literal_eval(d)
                except ValueError:
                    out[x.arg] = ABSENT
    return out


class Tally:
    def __init__(self, ctx):
        self.ctx, self.t = ctx, {}

    def add(self, key, msg, line, fn, where):
        """fn() -> True/False/None/(False, why)"""
        why = ""
        try:
            v = fn()
        except Unknown as x:
            v, why = None, str(x)[:80]
        except Broken as x:
            v, why = False, str(x)
        if isinstance(v, tuple):
            v, why = v
        ent = self.t.setdefault(key, [msg, 0, None, None, where])
        if v is True:
            ent[1] += 1
        elif v is False and ent[2] is None:
            ent[2] = ("gama " + " ".join(line), why, where)
        elif v is None and ent[3] is None:
            ent[3] = ("gama " + " ".join(line), why)

    def flush(self):
        for key, (msg, n, bad, unk, where) in self.t.items():
            if bad:
                self.ctx.bad(bad[2], f"NOT: {msg} [{bad[0]}{': ' + bad[1] if bad[1] else ''}]", key)
            elif unk:
                self.ctx.unk(where, f"{msg} [{unk[0]}: {unk[1]}]", key)
            else:
                self.ctx.ok(where, f"{msg} ({n} command lines)", key)


def same(got, want):
    """Is the value the one asked for?"""
    if isinstance(got, Sym) or isinstance(want, Sym):
        return got.path == want.path if isinstance(got, Sym) and isinstance(want, Sym) else None
    ok = got == want and isinstance(got, bool) == isinstance(want, bool)
    return True if ok else (False, f"{got!r} instead of {want!r}")


@rule("C21", "options", "each option, given or not, has the effect it documents on reading the file, the settings of the run, the search and the export")
def options(ctx):
    r = ctx.run(MAIN, opaque=OPAQUE)
    try:
        ps, P_, evs = parser(r)
    except (Unknown, Broken, TypeError, ValueError) as x:
        ctx.unk(fwhere(r), f"which options there are [{str(x)[:80]}]", "options")
        return
    w0 = fwhere(r)
    T = Tally(ctx)
    dflt = {c: init_defaults(ctx, c) for c in ("GamaClassifier", "GamaRegressor")}
    for argv, file, given, cat in lines(os.environ.get("VERIF_TIER", "quick")):
        try:
            run = Run(r, ps, P_, argv, True, cat)
        except (Refused, argparse.ArgumentError) as x:
            T.add("accepted", "the documented options are accepted", argv, lambda: (False, str(x)), w0)
            continue
        T.add("accepted", "the documented options are accepted", argv, lambda: True, w0)
        dry = "-dry" in given
        mode = given.get("--mode") or ("classification" if cat else "regression")
        cls = "GamaClassifier" if mode == "classification" else "GamaRegressor"

        def fine():
            if run.error is not None:
                return False, "stops at " + str(run.error.where())
            return None if any(e.kind == "raise" for e in run.unsure) else True
        T.add("works", "a valid command line is carried out", argv, fine, w0)

        rd = ev = None
        try:
            rd = run.one("X_y_from_file")
            ev = run.one("GamaClassifier", "GamaRegressor")
        except Unknown:
            pass
        W = rd.where() if rd is not None and not isinstance(rd, list) else w0
        if rd is None and run.of("X_y_from_file") == ([], []):
            others = any(e.callee.startswith("gama.data_loading") or e.callee.startswith("pandas.") and "read" in e.callee for e in run.done + run.unsure if e.kind == "call")
            T.add("file", "the given file is read", argv, lambda: None if others else False, w0)
        elif rd is not None and not isinstance(rd, list):
            T.add("file", "the given file is read", argv, lambda: same(run.arg(rd, "file_path", 0), file), W)
            T.add("target", "the target column is the one given with --target, otherwise left to the default", argv, lambda: same(run.arg(rd, "split_column", 1, None), given.get("--target")), W)

            def sep():
                s = run.arg(rd, "sep", None, None)
                if file.lower().endswith(".csv"):
                    return same(s, given.get("-sep"))
                return True if s is None else (False, "an ARFF file is read with a separator")
            T.add("separator", "CSV files are read with the separator given, detected when none is given", argv, sep, W)
            T.add("reading", "no other choice is made for reading the file", argv, lambda: True if run.names(rd) <= {"file_path", "split_column", "sep", "encoding"} else None, W)

        W = ev.where() if ev is not None and not isinstance(ev, list) else w0
        if ev is None or isinstance(ev, list):
            a, b = run.of("GamaClassifier", "GamaRegressor")
            T.add("mode", "the run is one of the kind asked for, or fits the type of the target", argv, lambda: None if b or run.mystery or len(a) != 1 and a else (False, "nothing is run"), w0)
            continue
        T.add("mode", "the run is one of the kind asked for, or fits the type of the target", argv, lambda: (False, 'the type of a feature decides') if run.wrong is not None and '--mode' not in given else same(run.called(ev), cls), W)
        D = dflt[cls]
        sets = [("regularize_length", "--long" not in given, "--long"), ("max_total_time", int(given.get("-t", 60)) * 60, "-t"),
                ("max_eval_time", int(given.get("--time_pipeline", 5)) * 60, "--time_pipeline"), ("n_jobs", int(given.get("-n", 1)), "-n"),
                ("verbosity", logging.INFO if "-v" in given else logging.WARNING, "-v"), ("output_directory", given.get("-outdir"), "-outdir")]
        for name, want, flag in sets:
            T.add("setting:" + name, f"{name} is what {flag} says, or its documented default", argv, lambda: same(run.arg(ev, name, None, D.get(name, ABSENT)), want), W)

        def scoring():
            s = run.arg(ev, "scoring", None, None)
            if "-m" in given:
                return same(s, given["-m"])
            d = D.get("scoring")
            return True if s is None and "scoring" not in run.names(ev) or s == d else (False, f"scoring={s!r} though none was asked for")
        T.add("setting:scoring", "the metric is the one given with -m, otherwise the default of the library", argv, scoring, W)

        def extra():
            for n in run.names(ev) - {s[0] for s in sets} - {"scoring", "store"}:
                v = run.arg(ev, n)
                if n not in D or isinstance(D[n], Sym) or isinstance(v, Sym):
                    return None
                if v != D[n]:
                    return False, f"{n}={v!r} though nobody asked for it"
            return True
        T.add("setting:others", "other settings keep the default of the library", argv, extra, W)
        if not dry:
            def store():
                v = run.arg(ev, "store", None, D.get("store", ABSENT))
                if isinstance(v, Sym):
                    return None
                return True if v in ("logs", "all") else (False, f"store={v!r}")
            T.add("setting:store", "the logs of a run are kept", argv, store, W)

        fit, fitu = run.of("fit", "_fit")
        fw = fit[0].where() if fit else w0
        if dry:
            def nothing():
                bad = [e for n in ("fit", "dump", "dumps", "export_script", "to_pickle") for e in run.of(n)[0]]
                if bad:
                    return False, f"{bad[0].callee} at {bad[0].where()}"
                return None if any(run.of(n)[1] for n in ("fit", "dump", "export_script")) else True
            T.add("dry", "a dry run neither searches nor exports", argv, nothing, w0)

            def clean():
                a, b = run.of("cleanup", "rmtree")
                if not a:
                    return None if b else (False, "output directory stays")
                if a[0].callee.endswith("rmtree"):
                    return None
                v = run.arg(a[0], "which", 0, "all")
                return True if v == "all" else (False, f"cleanup({v!r})") if isinstance(v, str) else None
            T.add("dry-clean", "a dry run leaves no output directory behind", argv, clean, w0)
            continue

        def searched():
            if not fit:
                return None if fitu else (False, "fit is not called")
            if len(fit) > 1:
                return None
            e = fit[0]
            xs, ys = run.arg(e, "x", 0), run.arg(e, "y", 1)
            ok = isinstance(xs, Sym) and isinstance(ys, Sym) and xs.path == ("X_y_from_file", 0) and ys.path == ("X_y_from_file", 1)
            if ok:
                return True
            sw = isinstance(xs, Sym) and isinstance(ys, Sym) and xs.path == ("X_y_from_file", 1) and ys.path == ("X_y_from_file", 0)
            return (False, "x and y exchanged") if sw else None
        T.add("search", "the search is run on the data of the file", argv, searched, fw)
        dmp, dmpu = run.of("dump")

        def saved():
            if not dmp:
                others = any(e.kind == "call" and e.callee.split(".")[0] in ("joblib", "cloudpickle", "pickle", "dill") for e in run.done + run.unsure)
                return None if dmpu or others else (False, "no model is written")
            if len(dmp) > 1 or not dmp[0].callee.startswith("pickle."):
                return None
            e = dmp[0]
            if fit and fit[0].seq > e.seq:
                return False, "written before the search"
            m = run.arg(e, "obj", 0)
            if not isinstance(m, Sym):
                return None
            if m.path != (cls, "model"):
                return False if m.path[0] in ("GamaClassifier", "GamaRegressor") and (len(m.path) == 1 or m.path[1] != "model") else None
            fh = run.arg(e, "file", 1)
            op = [o for o in run.done if o.kind == "call" and o.callee == "builtins.open" and o.seq < e.seq]
            if not (isinstance(fh, Sym) and fh.path == ("open",) and op):
                return None
            md = run.arg(op[-1], "mode", 1, "r")
            if md not in ("wb", "bw", "w+b", "wb+"):
                return False, f"opened with mode {md!r}"
            return same(run.arg(op[-1], "file", 0), given.get("-o", "gama_model.pkl"))
        T.add("model", "the final model is pickled to the path given with -o, or gama_model.pkl", argv, saved, dmp[0].where() if dmp else w0)
        ex, exu = run.of("export_script")

        def exported():
            if "-py" not in given:
                return (False, "exported though nobody asked for it") if ex else None if exu else True
            if not ex:
                return None if exu else (False, "no code is exported")
            if fit and fit[0].seq > ex[0].seq:
                return False, "exported before the search"
            if run.arg(ex[0], "raise_if_exists", 1, False) is True:
                return False, "fails after the search if the file exists"
            return same(run.arg(ex[0], "file", 0), given["-py"])
        T.add("export", "code is exported to the path given with -py, and only when it is given", argv, exported, ex[0].where() if ex else w0)

        def keep():
            a, b = run.of("cleanup", "rmtree", "remove", "unlink")
            if not a and not b:
                return True
            if a and a[0].callee.endswith("cleanup") and run.arg(a[0], "which", 0, "all") in ("all", "logs"):
                return False, f"at {a[0].where()}"
            return None
        T.add("kept", "the logs of a run are not removed at the end", argv, keep, w0)
    T.flush()


BAD = [(["data.csv", "-t", "long"], "a time that is no number"), (["data.csv", "-n", "two"], "a number of jobs that is no number"),
       (["data.csv", "--time_pipeline", "x"], "an evaluation time that is no number"), ([], "no input file"), (["data.csv", "--unknown", "1"], "an unknown option"),
       (["data.csv", "-t"], "an option without its value"), (["data.csv", "other.csv"], "several input files")]


@rule("C21", "refused", "invalid command lines are refused before any model search")
def refused(ctx):
    r = ctx.run(MAIN, opaque=OPAQUE)
    try:
        ps, P_, evs = parser(r)
    except (Unknown, Broken, TypeError, ValueError) as x:
        ctx.unk(fwhere(r), f"which options there are [{str(x)[:80]}]", "options")
        return
    lenient = any(e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[1].startswith("parse_known") for e in r.events)
    for argv, what in BAD:
        try:
            ps.parse_args(argv)
            v = False
        except (Refused, argparse.ArgumentError):
            v = None if lenient and "--unknown" in argv else True
        ctx.decide(v, fwhere(r), f"{what} is refused", "refused:" + what)
    T = Tally(ctx)
    work = ("fit", "dump", "export_script")
    cases = [("missing", "a file that does not exist is refused before any work", False, ["nofile.csv"]), ("missing", "", False, ["nofile.csv", "-dry"]),
             ("extension", "a file that is neither CSV nor ARFF is refused", True, ["data.txt"]), ("extension", "", True, ["data.json", "--mode", "classification"]),
             ("extension", "", True, ["data.csv.gz"]), ("extension", "", True, ["data"]),
             ("mode", "a mode other than classification and regression is refused", True, ["data.csv", "--mode", "clustering"]), ("mode", "", True, ["data.arff", "--mode", "Regression"]),
             ("mode", "", True, ["data.csv", "--mode", "class", "-dry"])]
    for key, msg, exists, argv in cases:
        if not msg:
            msg = next(c[1] for c in cases if c[0] == key and c[1])

        def go():
            try:
                run = Run(r, ps, P_, argv, exists)
            except (Refused, argparse.ArgumentError):
                return True
            bad = [e for n in work + (("X_y_from_file",) if key == "missing" else ()) for e in run.of(n)[0]]
            if run.error is not None:
                return (False, f"only after {bad[0].callee}") if bad else True
            if any(e.kind == "raise" for e in run.unsure):
                return None
            rd, _ = run.of("X_y_from_file")
            if rd and key in ("extension", "missing"):
                return None if key == "extension" else False      # the loader refuses the file by itself (C24)
            return False
        T.add("refused:" + key, msg, argv, go, fwhere(r))
    T.flush()


@rule("C21", "command", "the command can be given as a list, as a string, or on the command line of the process")
def command(ctx):
    r = ctx.run(MAIN, opaque=OPAQUE)
    made = [e for e in r.calls("argparse.ArgumentParser")]
    if len(made) != 1:
        ctx.unk(fwhere(r), "one parser", "parser")
        return
    P_ = made[0].res
    cmd = mk("param", r.fn.node.args.args[0].arg) if r.fn.node.args.args else None
    evs = [e for e in r.events if e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[0] is P_ and e.f.args[1] == "parse_args"]
    T = Tally(ctx)
    for what, val, words in (("a string", "data.csv -n 2", ["data.csv", "-n", "2"]), ("a list", ["my data.csv", "-n", "2"], ["my data.csv", "-n", "2"]), ("nothing", "", None)):
        def go():
            env = {cmd: val}
            on_ = [e for e in evs if all([conc(g, env) for g in e.guards])]
            if len(on_) != 1:
                return False if not on_ else None
            a = on_[0].kw("args", 0)
            v = None if a is None else conc(a, env)
            if v is not None and not isinstance(v, str):
                v = list(v)
            return True if v == words or words is None and v is None else (False, f"{v!r} is parsed instead of {words!r}")
        T.add("command:" + what, f"given {what}, exactly its options are used" if words else "given nothing, the options of the process are used", [], go, evs[0].where() if evs else fwhere(r))
    T.flush()
