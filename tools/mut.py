"""Self-test of the rules on small edits of a scratch copy (not a check).

python3 tools/mut.py [-p C01] [-m module] [-k substring] [-t M|R] [-v]
Mutants (tools/mutants/*.py: M) must be reported by the property they name;
refactorings (R) must not be reported by any property."""
import importlib.util, os, shutil, sys, tempfile, glob
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SRC = "/repo"


def load():
    out = []
    which = [sys.argv[i + 1] for i, a in enumerate(sys.argv) if a == "-m"]
    for f in sorted(glob.glob(os.path.join(HERE, "tools/mutants/*.py"))):
        if which and os.path.basename(f)[:-3] not in which:
            continue
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for x in getattr(m, "M", []):
            out.append(("M",) + tuple(x))
        for x in getattr(m, "R", []):
            out.append(("R", "") + tuple(x))
    return out


def run(job):
    i, x, only = job
    kind, props, edits = x[0], x[1], x[2:]
    if len(edits) == 3 and isinstance(edits[0], str):
        edits = [edits]
    else:
        edits = edits[0]
    d = tempfile.mkdtemp(prefix="vpmut")
    try:
        shutil.copytree(SRC + "/gama", d + "/gama", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "gama", f)
            s = open(p).read()
            if old not in s:
                return i, "STALE", f + ": " + old[:60], {}
            if s.count(old) > 1 and not old.startswith("@ALL"):
                return i, "AMBIG", f + ": " + old[:60], {}
            open(p, "w").write(s.replace(old, new))
        for f, _, _ in edits:
            compile(open(os.path.join(d, "gama", f)).read(), f, "exec")
        import vp.check as C
        from vp.project import Project
        C.load_rules()
        pr = Project(d)
        res = {}
        for prop in sorted(C.RULES):
            if only and prop not in only:
                continue
            c = C.decide(prop, pr)
            known = C.known_findings(prop)
            res[prop] = ([f"{b[3]} {b[4]}" for b in c.items if b[0] == "bad" and b[3] not in known],
                         [f"{b[3]} {b[4]}" for b in c.items if b[0] == "unk"],
                         sum(1 for b in c.items if b[0] == "ok"))
        return i, "OK", "", res
    except Exception as e:
        import traceback
        return i, "ERROR", traceback.format_exc()[-600:], {}
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    only = [a[i + 1] for i, x in enumerate(a) if x == "-p"]
    ks = [a[i + 1] for i, x in enumerate(a) if x == "-k"]
    kind = [a[i + 1] for i, x in enumerate(a) if x == "-t"]
    v = "-v" in a
    ids = [int(y) for i, x in enumerate(a) if x == "-n" for y in a[i + 1].split(",")]
    xs = load()
    import vp.check as C
    C.load_rules()
    jobs = [(i, x, only) for i, x in enumerate(xs)
            if (not ks or any(k in repr(x) for k in ks)) and (not only or x[0] == "R" or set(x[1].split("|")) & set(only))
            and (not kind or x[0] in kind) and (not ids or i in ids)]
    miss = alarms = caught = quiet = 0
    # baseline undecided
    from vp.project import Project
    base = {}
    with ProcessPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for i, st, msg, res in ex.map(run, jobs, chunksize=2):
            x = xs[i]
            label = f"#{i} {x[0]} {x[1]} {repr(x[2:])[:230]}"
            if st != "OK":
                print(st, label, msg)
                continue
            hit = [p for p in res if res[p][0]]
            err = sorted({u[-110:] for p in res for u in res[p][1] if "analysis error" in u})
            if err:
                print("CRASH", label[:120], err[:2])
            if x[0] == "M":
                want = x[1].split("|")
                ok = any(p in hit for p in want)
                caught += ok
                miss += not ok
                if not ok:
                    print("MISSED", label, "hit:", hit)
                    for p in want:
                        for u in res.get(p, ([], [], 0))[1][:3]:
                            print("      undecided:", u[:200])
                elif v:
                    print("caught", label, [b[:150] for p in hit for b in res[p][0][:1]])
            else:
                if hit:
                    alarms += 1
                    print("FALSE ALARM", label)
                    for p in hit:
                        for b in res[p][0][:2]:
                            print("     ", p, b[:300])
                else:
                    quiet += 1
                nun = {p: len(res[p][1]) for p in res if res[p][1]}
                if nun and v:
                    print("quiet, undecided", label)
                    for p in res:
                        for b in res[p][1][:3]:
                            print("     ", p, b[:200])
                zero = [p for p in res if not res[p][2]]
                if zero:
                    print("NO ANSWER", zero, label)
    print(f"mutants caught {caught} missed {miss}; refactorings quiet {quiet} alarms {alarms}")


if __name__ == "__main__":
    main()
