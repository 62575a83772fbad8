#!/opt/venv/bin/python
"""mutate.py: small syntactic changes to the library, to find behaviour that no check watches (development aid, not a check).

  mutate.py list FILE                     mutants of src/pytorch_kinematics/FILE
  mutate.py run OUT FILE... [-j N] [-f F] run the mapped checks on every mutant; one line per mutant in OUT
"""
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pytorch_kinematics/"
MAP = {
    "chain.py": "C13 C01 C02 C14 C15 C16 C06 C17 C08 C04 C03 C05",
    "frame.py": "C13 C01 C08 C06 C12 C07 C02 C04 C14",
    "ik.py": "C19 C20 C21 C22",
    "jacobian.py": "C15 C17",
    "mjcf.py": "C10 C12 C08 C14 C13",
    "sdf.py": "C09 C12 C08 C11 C14",
    "urdf.py": "C07 C12 C08 C11 C14",
    "transforms/math.py": "C24 C26 C03 C04 C25",
    "transforms/perturbation.py": "C31 C04",
    "transforms/so3.py": "C26 C03 C25 C04",
    "transforms/rotation_conversions.py": "C23 C24 C27 C25 C31 C03 C04 C30 C01",
    "transforms/transform3d.py": "C28 C29 C30 C04 C03 C06 C01",
    "urdf_parser_py/urdf.py": "C32 C07 C11 C08 C12",
    "urdf_parser_py/sdf.py": "C32 C09 C11 C08 C12",
    "urdf_parser_py/xml_reflection/core.py": "C32 C11 C07 C09 C12",
    "urdf_parser_py/xml_reflection/basics.py": "C32 C11 C07 C09",
}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: None, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def mutants(text):
    """(line, description, new text)"""
    tree = ast.parse(text)
    out = []

    def emit(node, what, change):
        """change(node in a copy of the tree)"""
        t = copy.deepcopy(tree)
        for a, b in zip(ast.walk(tree), ast.walk(t)):
            if a is node:
                if change(b) is False:
                    return
                try:
                    new = ast.unparse(ast.fix_missing_locations(t))
                    compile(new, "m", "exec")
                except Exception:
                    return
                out.append((node.lineno, what, new))
                return

    def body_of(node):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(node, field, None)
            if isinstance(b, list):
                yield field, b

    for node in ast.walk(tree):
        if isinstance(node, ast.BinOp):
            op = type(node.op)
            if BIN.get(op):
                if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) and not isinstance(node.left, ast.JoinedStr):
                    emit(node, f"{op.__name__}->{BIN[op].__name__}: {ast.unparse(node)[:60]}", lambda b, op=op: setattr(b, "op", BIN[op]()))
            if op in (ast.MatMult, ast.Sub):
                def swap(b):
                    b.left, b.right = b.right, b.left
                emit(node, f"swap: {ast.unparse(node)[:60]}", swap)
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP.get(type(node.ops[0]), []):
                emit(node, f"{type(node.ops[0]).__name__}->{new.__name__}: {ast.unparse(node)[:60]}", lambda b, new=new: setattr(b, "ops", [new()]))
        elif isinstance(node, ast.BoolOp):
            emit(node, f"and<->or: {ast.unparse(node)[:60]}", lambda b: setattr(b, "op", ast.Or() if isinstance(b.op, ast.And) else ast.And()))
            for i in range(len(node.values)):
                emit(node, f"drop operand {i}: {ast.unparse(node)[:60]}", lambda b, i=i: b.values.pop(i) and None if len(b.values) > 2 else b.values.__setitem__(i, b.values[1 - i]))
        elif isinstance(node, ast.UnaryOp):
            if isinstance(node.op, ast.USub):
                emit(node, f"drop minus: {ast.unparse(node)[:60]}", lambda b: setattr(b, "op", ast.UAdd()))
            elif isinstance(node.op, ast.Invert):
                pass
        elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not None and node.value is not Ellipsis:
            v = node.value
            if isinstance(v, bool):
                emit(node, f"const {v}", lambda b: setattr(b, "value", not v))
            elif isinstance(v, int):
                for w in ({0: [1], 1: [0, 2]}.get(v, [v + 1, v - 1])):
                    emit(node, f"const {v}->{w}", lambda b, w=w: setattr(b, "value", w))
            elif isinstance(v, float):
                for w in ([v * 1.1 + (v == 0), v * 30] if v else [1.0]):
                    emit(node, f"const {v}->{w}", lambda b, w=w: setattr(b, "value", w))
        elif isinstance(node, ast.If) or isinstance(node, ast.IfExp):
            emit(node, f"if True: {ast.unparse(node.test)[:60]}", lambda b: setattr(b, "test", ast.Constant(True)))
            emit(node, f"if False: {ast.unparse(node.test)[:60]}", lambda b: setattr(b, "test", ast.Constant(False)))
        elif isinstance(node, ast.Call):
            for i, k in enumerate(node.keywords):
                if k.arg:
                    emit(node, f"drop kw {k.arg}: {ast.unparse(node)[:60]}", lambda b, i=i: b.keywords.pop(i) and None)
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in ("clone", "squeeze", "contiguous", "detach", "any", "all", "transpose", "strip", "deepcopy"):
                pass
            if len(node.args) == 2 and isinstance(f, (ast.Attribute, ast.Name)) and not any(isinstance(a, ast.Starred) for a in node.args):
                def swap(b):
                    b.args.reverse()
                emit(node, f"swap args: {ast.unparse(node)[:60]}", swap)
            if isinstance(f, ast.Attribute) and f.attr in ("any", "all"):
                emit(node, f"any<->all: {ast.unparse(node)[:60]}", lambda b: setattr(b.func, "attr", "all" if b.func.attr == "any" else "any"))
            if isinstance(f, ast.Attribute) and f.attr in ("clone", "copy", "deepcopy"):
                # x.clone() -> x ; copy.deepcopy(x) -> x
                def ident(b, f=f):
                    inner = b.args[0] if b.args else b.func.value
                    b.func, b.args, b.keywords = ast.Lambda(ast.arguments([], [ast.arg("z")], None, [], [], None, []), ast.Name("z", ast.Load())), [inner], []
                emit(node, f"drop copy: {ast.unparse(node)[:60]}", ident)
        for field, b in body_of(node):
            for i, st in enumerate(b):
                if isinstance(st, (ast.Assign, ast.AugAssign)) or (isinstance(st, ast.Expr) and not isinstance(st.value, ast.Constant)) or isinstance(st, (ast.Raise, ast.For)):
                    def drop(x, field=field, i=i):
                        getattr(x, field)[i] = ast.Pass()
                    if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.While, ast.Try)):
                        emit(node, "", drop)
                        if out and out[-1][1] == "":
                            out[-1] = (st.lineno, f"drop: {ast.unparse(st)[:70]}", out[-1][2])
    seen, res = set(), []
    for m in sorted(out, key=lambda m: m[0]):
        if m[2] not in seen:
            seen.add(m[2])
            res.append(m)
    return res


RUNNER = r'''
import sys, os, importlib, io, contextlib
sys.path.insert(0, %r)
os.environ.setdefault("OMP_NUM_THREADS", "1")
import random
from pkverif import common
frac, seed = float(sys.argv[1]), int(sys.argv[2])
for p in sys.argv[3:]:
    mod = importlib.import_module("pkverif.checks." + p.lower())
    cases = max(len(mod.FAMILIES) * 6, int(mod.CONFIG["quick"]["cases"] * frac))
    r = common._shard(p, "quick", seed, 0, 1, cases, 200)
    if r.get("violation") or r.get("error") or r.get("violations"):
        print("KILLED", p, str(r.get("violation") or r.get("violations") or r.get("error"))[:150].replace("\n", " ")); sys.exit(0)
print("SURVIVED")
'''


def run_one(job):
    f, line, what, text, frac = job
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/src/pytorch_kinematics/" + f, "w").write(text)
        env = {**os.environ, "PKVERIF_REPO": d, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "TORCHINDUCTOR_CACHE_DIR": d + "/ind"}
        try:
            r = subprocess.run([sys.executable, "-c", RUNNER % HERE, str(frac), "7", *MAP[f].split()], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=400)
            res = (r.stdout.strip().splitlines() or ["KILLED import " + r.stderr.strip()[-100:].replace("\n", " ")])[-1] if r.returncode == 0 else "KILLED crash " + r.stderr.strip()[-120:].replace("\n", " ")
        except subprocess.TimeoutExpired:
            res = "KILLED timeout"
        return f"{res.split(' ')[0]} {f}:{line} [{what}] {res[9:]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "list":
        for m in mutants(open(SRC + sys.argv[2]).read()):
            print(m[0], m[1])
        return
    out = sys.argv[2]
    args = sys.argv[3:]
    n = int(args[args.index("-j") + 1]) if "-j" in args else 7
    frac = float(args[args.index("-f") + 1]) if "-f" in args else 0.3
    files = [a for a in args if a.endswith(".py")]
    jobs = []
    for f in files:
        jobs += [(f, line, what, text, frac) for line, what, text in mutants(open(SRC + f).read())]
    if "-m" in args:
        random.Random(1).shuffle(jobs)
        jobs = jobs[: int(args[args.index("-m") + 1])]
    print(len(jobs), "mutants", flush=True)
    with cf.ThreadPoolExecutor(n) as ex, open(out, "a") as o:
        for r in cf.as_completed([ex.submit(run_one, j) for j in jobs]):
            o.write(r.result() + "\n")
            o.flush()


if __name__ == "__main__":
    main()
