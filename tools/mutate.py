"""Random small edits of a source file, to find what the checks miss.
usage: mutate.py run FILE[:FUNC,FUNC] N SEED CHECK...   N edits, each judged by the checks in turn (in a scratch copy of /repo, MUT_JOBS at a time); prints the survivors"""
import ast, random, re, shutil, subprocess, sys, tempfile, os
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SKIP = re.compile(r"plot|display|print|timer|tic|toc|verbose|show|version|import|__main__|warn", re.I)


def candidates(path, funcs):
    src = open(path).read()
    lines = src.splitlines(True)
    if path.endswith(".cl"):
        return cl_candidates(src, lines, funcs)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    # ast columns are bytes; the sources are ascii up to few characters, lines with others are skipped
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(a, b, new, n):
        l = lines[n.lineno - 1]
        if SKIP.search(l) or not l.isascii() or src[a:b] == new:
            return
        out.append((a, b, new, n.lineno))

    def visit(n, stack):
        name = getattr(n, "name", None) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else None
        if name:
            if SKIP.search(name) and isinstance(n, ast.FunctionDef):
                return
            stack = stack + [name]
        inside = any(isinstance(x, str) for x in stack) and (not funcs or any(s in funcs for s in stack))
        if inside:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
                if m:
                    a, b = pos(n.left)[1], pos(n.comparators[0])[0]
                    t = re.sub(r"[<>=!]=?", m, src[a:b], count=1); add(a, b, t, n)
            if isinstance(n, ast.BinOp):
                m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+"}.get(type(n.op))
                if m:
                    a, b = pos(n.left)[1], pos(n.right)[0]
                    t = re.sub(r"//|[-+*/%]", m, src[a:b], count=1); add(a, b, t, n)
            if isinstance(n, ast.BoolOp):
                a, b = pos(n.values[0])[1], pos(n.values[1])[0]
                o, m = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                add(a, b, src[a:b].replace(o, m, 1), n)
            if isinstance(n, ast.Constant):
                a, b = pos(n)
                if n.value is True or n.value is False:
                    add(a, b, str(not n.value), n)
                elif isinstance(n.value, int) and abs(n.value) < 1000:
                    add(a, b, str(n.value + 1), n)
                    if n.value > 0: add(a, b, str(n.value - 1), n)
                elif isinstance(n.value, float):
                    add(a, b, repr(n.value * (1.5 if abs(n.value) > 1e-3 else 100)), n)
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                m = dict(min="max", max="min", floor="ceil", ceil="floor", sum="mean", argmax="argmin", argmin="argmax", abs="", copy="", sin="cos", cos="sin", zeros="ones", clip=None, round="floor").get(nm)
                if m:
                    b = pos(f)[1]; add(b - len(nm), b, m, n)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                a = pos(n)[0]; b = pos(n.operand)[0]; add(a, b, "", n)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                a, b = pos(n)
                if isinstance(n, (ast.AugAssign, ast.Expr)) or isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                    if "\n" not in src[a:b]: add(a, b, "pass", n)
        for c in ast.iter_child_nodes(n):
            visit(c, stack)
    visit(ast.parse(src), [])
    return src, sorted(set(out))


def cl_candidates(src, lines, funcs):
    out, o, fn, com = [], 0, "", False
    for k, l in enumerate(lines):
        m = re.match(r"\s*(?:__kernel )?\w[\w ]*?(\w+)\s*\(", l)
        if m and ("__kernel" in l or (not l.startswith(" ") and "{" in l)):
            fn = m.group(1)
        code = l.split("//")[0]
        if code.strip() and "printf" not in code and "print16" not in code and not fn.startswith(("morphDilateKernelX", "morphDilateKernelY")) and (not funcs or fn in funcs) and "__kernel" not in code:
            for m in re.finditer(r"<=|>=|==|<|>|\+=|-=|(?<= )[-+*/](?= )|(?<=\w)[-+*](?=\w)|\b\d+\b(?!\.)", code):
                t = m.group(0)
                n = {"<=": "<", ">=": ">", "<": "<=", ">": ">=", "==": "!=", "+=": "-=", "-=": "+=", "+": "-", "-": "+", "*": "+", "/": "*"}.get(t) or (str(int(t) + 1) if t.isdigit() else None)
                if n and not re.search(r"[a-z]$", code[:m.start()]) or (n and not t.isdigit()):
                    out.append((o + m.start(), o + m.end(), n, k + 1))
        o += len(l)
    return src, out


def judge(args):
    rel, src, c, checks, tag = args
    T = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", REPO + "/.", T], check=True)
        a, b, new, line = c
        t = src[:a] + new + src[b:]
        p = os.path.join(T, rel)
        open(p, "w").write(t)
        if rel.endswith(".py"):
            try:
                compile(t, p, "exec")
            except SyntaxError:
                return None
        l = t.splitlines()[line - 1].strip()
        res = []
        for k in checks:
            r = subprocess.run(["./check", k], cwd=V, env=dict(os.environ, VERIF_REPO=T, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            m = re.search(r"^\s+\[(.*?)\]", r.stdout, re.M)
            res.append("%s:%d:%s" % (k, r.returncode, m.group(1) if m else (r.stdout.strip().splitlines() or [""])[-1][:150] if r.returncode == 2 else ""))
            if r.returncode == 1:
                return "caught   %s:%d %s   [%s]" % (os.path.basename(rel), line, l[:120], res[-1])
        return "SURVIVED %s:%d %r -> %r in: %s   %s" % (os.path.basename(rel), line, src[a:b], new, l[:160], res)
    finally:
        shutil.rmtree(T, ignore_errors=True)


if __name__ == "__main__":
    rel, n, seed, checks = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
    rel, _, funcs = rel.partition(":")
    src, cand = candidates(os.path.join(REPO, rel), set(funcs.split(",")) if funcs else set())
    random.Random(seed).shuffle(cand)
    print(rel, len(cand), "candidates", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "2"))) as ex:
        for r in ex.map(judge, [(rel, src, c, checks, i) for i, c in enumerate(cand[:n])]):
            if r: print(r, flush=True)
