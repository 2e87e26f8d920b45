"""Development aid: operator mutants of the package, each run against a reduced set of checks.

mutants.py FILE.py [--n 0.05] [--par 8] [--only I,J] [--list] [--show I]
"""
import argparse, ast, concurrent.futures as cf, os, pathlib, shutil, subprocess, sys, tempfile
R = pathlib.Path(__file__).resolve().parent.parent
PKG = pathlib.Path("/repo/pyGCodeDecode")
PY = "/opt/venv/bin/python"
SKIP = {"plot_2d", "plot_2d_position", "avoid_overspeed", "calc_results", "update_progress", "_print_progress", "custom_print", "run_example", "__str__", "__repr__", "select_printer"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"]}
ORDER = {
    "state_generator.py": "C01,C02,C03,C04,C05", "junction_handling.py": "C12,C13,C07", "planner_block.py": "C09,C13,C07,C14,C21,C17,C20,C23",
    "utils.py": "C24,C07,C15,C21", "gcode_interpreter.py": "C06,C15,C16,C17,C18,C22,C25,C20", "tools.py": "C20,C21", "abaqus_file_generator.py": "C19,C16", "cli.py": "C26",
    "state.py": "C01,C02,C22", "helpers.py": "C05",
}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, co: off[ln - 1] + co
    S = lambda n: pos(n.lineno, n.col_offset)
    E = lambda n: pos(n.end_lineno, n.end_col_offset)
    out = []

    def add(n, s, e, new, what):
        out.append((n.lineno, what, b[:s] + new.encode() + b[e:]))

    def between(n, l, r, old_new):
        s, e = E(l), S(r)
        t = b[s:e].decode()
        for new in old_new:
            core = t.strip(" ()\n\\\t")
            if core:
                k = t.index(core)
                add(n, s + k, s + k + len(core), new, f"{core} -> {new}")

    def stmt_replace(n, new):
        add(n, S(n), E(n), new, f"{b[S(n):E(n)].decode().splitlines()[0][:60]} -> {new[:20]}")

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP:
                return
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d is not None:
                        visit(d, n.name)
                body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
                for c in body:
                    visit(c, n.name)
                return
        if isinstance(n, ast.Raise):
            stmt_replace(n, "pass")
            return
        if isinstance(n, ast.AnnAssign):
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call):
                f = n.value.func
                name = getattr(f, "id", getattr(f, "attr", ""))
                if name in ("custom_print", "print"):
                    return
            if fn:
                stmt_replace(n, "pass")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
            stmt_replace(n, "pass")
        if isinstance(n, (ast.Break, ast.Continue)):
            stmt_replace(n, "pass")
        if isinstance(n, ast.Return) and n.value is not None:
            stmt_replace(n, "return None")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and fn:
            for v in ("True", "False"):
                if isinstance(n, ast.While) and v == "True":
                    continue
                add(n, S(n.test), E(n.test), v, f"if {b[S(n.test):E(n.test)].decode()[:50]} -> {v}")
        if isinstance(n, ast.Compare):
            l = n.left
            for o, r in zip(n.ops, n.comparators):
                between(n, l, r, CMP.get(type(o), []))
                l = r
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Add) and any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))):
            between(n, n.left, n.right, BIN.get(type(n.op), []))
        if isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                between(n, l, r, ["or" if isinstance(n.op, ast.And) else "and"])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, S(n), S(n.operand), "", f"drop {type(n.op).__name__}")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, S(n), E(n), str(not v), f"{v} -> {not v}")
            elif isinstance(v, (int, float)):
                for w in {0: [1], 1: [2, 0]}.get(v, [v + 1 if isinstance(v, int) else v * 1.1]):
                    add(n, S(n), E(n), repr(w), f"{v} -> {w}")
            return
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            visit(n, None)
    # class-level visit passes fn None for methods' parents; FunctionDef sets it
    good = []
    for ln, what, code in out:
        try:
            compile(code, "m", "exec")
            good.append((ln, what, code))
        except SyntaxError:
            pass
    return good


def run(f, i, m, n, order):
    d = pathlib.Path(tempfile.mkdtemp(prefix="mm_", dir="/tmp"))
    try:
        shutil.copytree(PKG, d / "pyGCodeDecode", ignore=shutil.ignore_patterns("__pycache__", "examples/output"))
        (d / "pyGCodeDecode" / f).write_bytes(m[2])
        try:
            r = subprocess.run([PY, str(R / "tools" / "mutone.py"), order, str(n)], capture_output=True, text=True, timeout=900,
                               env=dict(os.environ, VF_REPO=str(d), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1"), cwd=R)
            res = (r.stdout.strip().splitlines() or ["KILLED? " + r.stderr[-200:]])[-1]
        except subprocess.TimeoutExpired:
            res = "KILLED timeout"
        return i, m[0], m[1], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("--n", type=float, default=0.05); ap.add_argument("--par", type=int, default=8)
    ap.add_argument("--only"); ap.add_argument("--props"); ap.add_argument("--list", action="store_true"); ap.add_argument("--show", type=int)
    a = ap.parse_args()
    src = (PKG / a.file).read_text()
    ms = mutants(src)
    if a.show is not None:
        import difflib
        print("".join(difflib.unified_diff(src.splitlines(True), ms[a.show][2].decode().splitlines(True), n=2))); return
    sel = [int(x) for x in a.only.split(",")] if a.only else range(len(ms))
    if a.list:
        for i in sel: print(i, *ms[i][:2])
        return
    first = ORDER[a.file].split(",")
    order = ",".join(first + [p for p in ["C%02d" % k for k in range(1, 28)] if p not in first])
    if a.props: order = a.props
    k = 0
    with cf.ThreadPoolExecutor(a.par) as ex:
        for fu in cf.as_completed([ex.submit(run, a.file, i, ms[i], a.n, order) for i in sel]):
            i, ln, what, res = fu.result()
            k += res.startswith("KILLED")
            if not res.startswith("KILLED") or a.only: print(f"{a.file}#{i} line {ln}: {what!r}: {res}", flush=True)
    print(f"{a.file}: {k} of {len(sel)} detected")

main()
