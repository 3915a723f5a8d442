"""Seeded changes: `new` writes /verif/seeded/<id> from a spec, `verify` confirms one in a scratch copy, `checks` runs our checks on it."""
import difflib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def new(id_, prop, edits, needs, what, demo, base="/repo"):
    d = os.path.join(SEED, id_)
    os.makedirs(d, exist_ok=True)
    patch, texts = "", {}
    for f, old, new_ in edits:
        t = texts.setdefault(f, open(os.path.join(base, f)).read())
        assert t.count(old) == 1, (id_, f, t.count(old), old)
        texts[f] = t.replace(old, new_)
    for f, t in texts.items():
        o = open(os.path.join(base, f)).read()
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    for f in texts:
        orig = set(subprocess.run(["git", "-C", base, "show", "942f358:" + f], capture_output=True, text=True).stdout.splitlines())
        gone = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine = [l for l in gone if l.strip() and not any(l in set(subprocess.run(["git", "-C", base, "show", "942f358:" + g], capture_output=True, text=True).stdout.splitlines()) for g in texts)]
        if mine:
            print(id_, "REMOVES LINES OF OUR FIXES", mine)
        break
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, capture_output=True, text=True, **kw)


def verify(id_, tests=True):
    d = os.path.join(SEED, id_)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        dd = os.path.join(w, "demo"); shutil.copytree(d, dd)
        a = sh("bash %s/demo.sh" % dd, r)
        p = sh("git apply %s/patch.diff" % d, r)
        b = sh("bash %s/demo.sh" % dd, r)
        out = ["clean=%d" % a.returncode, "apply=%d" % p.returncode, "patched=%d" % b.returncode]
        if a.returncode or p.returncode or not b.returncode:
            out.append((a.stderr[-400:] if a.returncode else "") + p.stderr[-200:] + b.stdout[-300:] + b.stderr[-300:])
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            py = "python -m pytest -q -p no:cacheprovider -x --timeout=150 "
            u = sh(py + "tests --ignore=tests/system", r)
            out.append("unit=" + (u.stdout.strip().splitlines() or ["?"])[-1])
            if u.returncode:
                out.append("\n".join(l for l in u.stdout.splitlines() if l.startswith("FAILED"))[:500])
            else:
                s = sh(py + "-n 4 --dist load --maxschedchunk=1 tests/system", r)
                out.append("system=" + (s.stdout.strip().splitlines() or ["?"])[-1])
                out.append("\n".join(l for l in s.stdout.splitlines() if l.startswith("FAILED"))[:500])
        print(id_, " ".join(out), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def checks(id_):
    d = os.path.join(SEED, id_)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seedc-")
    try:
        shutil.copytree("/repo/gama", os.path.join(w, "gama"))
        subprocess.run(["git", "apply", "--directory", "", os.path.join(d, "patch.diff")], cwd=w, check=True)
        env = dict(os.environ, VP_REPO=w, VP_EVIDENCE=w)
        r = subprocess.run([sys.executable, "-m", "vp.check", prop], cwd=HERE, env=env, capture_output=True, text=True)
        print(id_, prop, r.returncode, [l[:230] for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  "))][:3], r.stderr[-200:], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEED))
    from concurrent.futures import ThreadPoolExecutor
    fn = {"verify": verify, "demo": lambda i: verify(i, False), "checks": checks}[cmd]
    with ThreadPoolExecutor(3 if cmd == "verify" else 6) as ex:
        list(ex.map(fn, ids))
