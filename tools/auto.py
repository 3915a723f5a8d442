"""Automatic single-edit mutants of every module (self-test, not a check): lists those no property reports.

python3 tools/auto.py OUT.txt [file-substring ...]"""
import ast, os, sys, random
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools")); sys.path.insert(0, HERE)
import mut
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "append": "remove", "sorted": "list", "list": "set", "reversed": "list", "deepcopy": "copy", "union": "intersection", "fit_transform": "transform", "rmtree": "rmdir", "argmax": "argmin", "index": "columns", "loc": "iloc", "iloc": "loc"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def rep(n, new, what):
        i, j = pos(n)
        out.append((n.lineno, what, (b[:i] + new.encode() + b[j:]).decode(), seg(n)[:80], new[:80]))

    def walk(n, fn):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = seg(n.value.func)
            if t.startswith("log.") or t.startswith("warnings.") or t in ("print",):
                return
        if isinstance(n, ast.Raise):
            rep(n, "pass", "del-raise")
            return
        if isinstance(n, ast.arguments):
            for d in n.defaults + [x for x in n.kw_defaults if x]:
                walk(d, fn)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                walk(n.value, fn)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = n.name
            walk(n.args, fn)
            for x in n.body:
                walk(x, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)) and type(n.op) in BIN:
            rep(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join("(" + seg(v) + ")" for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + seg(v) + ")" for i, v in enumerate(n.values) if i != k) + ")", "drop-operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, "(" + seg(n.operand) + ")", "drop-unary")
        if isinstance(n, (ast.If, ast.While)):
            rep(n.test, "(not (" + seg(n.test) + "))", "negate")
            rep(n.test, "True" if isinstance(n, ast.If) else "False", "true")
            if isinstance(n, ast.If):
                rep(n.test, "False", "false")
        if isinstance(n, ast.IfExp):
            rep(n, "(%s if %s else %s)" % (seg(n.orelse), seg(n.test), seg(n.body)), "swap-arms")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "const")
            elif isinstance(v, (int, float)):
                rep(n, "(%r)" % (v + 1), "const")
                rep(n, "(%r)" % (v - 1), "const")
            elif isinstance(v, str) and v and fn and b[pos(n)[0]:pos(n)[0] + 1] in (b'"', b"'"):
                rep(n, repr(v + "_x"), "str")
            elif v is None and fn:
                rep(n, "0", "none")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                i, j = pos(n.args[0])[0], pos(n.args[1])[1]
                m0, m1 = pos(n.args[0])[1], pos(n.args[1])[0]
                out.append((n.lineno, "swap-args", (b[:i] + seg(n.args[1]).encode() + b[m0:m1] + seg(n.args[0]).encode() + b[j:]).decode(), seg(n)[:80], "swapped"))
            for k in n.keywords:
                i, j = pos(k)
                while b[j:j + 1] in (b" ", b"\n"):
                    j += 1
                if b[j:j + 1] == b",":
                    j += 1
                else:
                    while b[i - 1:i] in (b" ", b"\n", b","):
                        i -= 1
                out.append((k.lineno, "drop-kw", (b[:i] + b[j:]).decode(), seg(n)[:60], "without " + str(k.arg)))
            if isinstance(n.func, ast.Name) and n.func.id in NAMES:
                rep(n.func, NAMES[n.func.id], "name")
            if isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
                rep(n.func, seg(n.func.value) + "." + NAMES[n.func.attr], "name")
        if isinstance(n, ast.Attribute) and n.attr in ("iloc", "loc") and isinstance(n.ctx, ast.Load):
            rep(n, seg(n.value) + "." + NAMES[n.attr], "name")
        if isinstance(n, ast.Slice):
            lo, hi = seg(n.lower) if n.lower else "", seg(n.upper) if n.upper else ""
            rep(n, hi + ":" + lo, "slice") if not n.step else None
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            if fn and not (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Name, ast.Tuple))):
                rep(n, "pass", "del-stmt")
        if isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass", "del-stmt")
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
            rep(n, seg(n.target) + " -= " + seg(n.value), "aug")
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "True", "drop-filter")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, "BaseException", "broaden")
            rep(n.type, "ZeroDivisionError", "narrow")
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            walk(x, None)
    return out


def job(j):
    import tempfile, shutil
    i, f, text = j
    try:
        compile(text, f, "exec")
    except SyntaxError:
        return i, "SYNTAX", []
    old = open("/repo/gama/" + f).read()
    _, st, msg, res = mut.run((i, ("M", "", [(f, old, text)]), None))
    if st != "OK":
        return i, st + " " + msg[-200:], []
    return i, "OK", [p for p in res if res[p][0]] + ["?" + p for p in res if res[p][1] and not res[p][0]]


def main():
    out, subs = sys.argv[1], sys.argv[2:]
    jobs, info = [], []
    for d, _, fs in os.walk("/repo/gama"):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), "/repo/gama")
            if not f.endswith(".py") or rel.startswith("configuration/") and rel != "configuration/parser.py" or subs and not any(s in rel for s in subs):
                continue
            for ln, what, text, a, b in mutants(open(os.path.join(d, f)).read()):
                info.append((rel, ln, what, a, b))
                jobs.append((len(jobs), rel, text))
    print(len(jobs), "mutants", flush=True)
    with ProcessPoolExecutor(7) as ex, open(out, "w") as fh:
        n = 0
        for i, st, hit in ex.map(job, jobs, chunksize=4):
            rel, ln, what, a, b = info[i]
            real = [h for h in hit if h[0] != "?"]
            n += bool(real)
            if not real:
                fh.write("%s:%d %s [%s] -> [%s] %s %s\n" % (rel, ln, what, a.replace("\n", " "), b.replace("\n", " "), "" if st == "OK" else st, ",".join(hit)))
                fh.flush()
        print("caught", n, "of", len(jobs))


if __name__ == "__main__":
    main()
