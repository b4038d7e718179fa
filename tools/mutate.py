"""Mutants of the repository that no check notices (run by hand, from a copy of /verif):
   python3-vt tools/mutate.py N SEED [file substring]  -> prints survivors as diffs to look at."""
import ast, copy, difflib, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = {"types.py": "C14 C13 C10 C16", "inventory_wrapper.py": "C13 C14 C16", "loader.py": "C12 C13", "utils.py": "C13 C12 C15", "connection.py": "C03 C04 C10 C15", "main.py": "C15",
       "remote_settings.py": "C10 C03", "connectors/tunnel_dispatcher.py": "C01 C02 C04 C03", "connectors/tunnel_connector.py": "C02 C04 C03 C15", "connectors/ssh.py": "C16 C15",
       "connectors/connector.py": "C16 C04", "connectors/local.py": "C16 C15", "operations/api.py": "C11 C07 C06", "operations/files.py": "C05 C08 C06 C07", "operations/utils.py": "C05 C08 C07 C06 C09",
       "operations/system.py": "C09 C06 C07", "operations/local.py": "C12 C11", "operations/git.py": "C17 C06 C07", "operations/apt.py": "C09 C06 C07", "operations/pacman.py": "C09 C07", "operations/portage.py": "C09 C07",
       "operations/systemd.py": "C09 C07 C06", "logger.py": "C05 C11"}


class Mutator(ast.NodeTransformer):
    def __init__(self, pick=None):
        self.n, self.pick, self.what = 0, pick, None

    def hit(self, what):
        self.n += 1
        if self.n - 1 == self.pick:
            self.what = what
            return True
        return False

    def visit_Compare(self, node):
        self.generic_visit(node)
        sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if self.hit("compare"):
            node.ops[0] = sw[type(node.ops[0])]()
        c = node.comparators[0]
        if isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(c, ast.Constant) and c.value is None and self.hit("truthiness instead of None"):
            return ast.UnaryOp(ast.Not(), node.left) if isinstance(node.ops[0], ast.Is) else ast.Call(ast.Name("bool", ast.Load()), [node.left], [])
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit("and/or"):
            node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        elif self.hit("drop first"):
            node.values = node.values[1:] if len(node.values) > 2 else node.values
            return node if len(node.values) > 1 and len(node.values) != 2 else node.values[-1]
        elif self.hit("drop last"):
            return node.values[0]
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and self.hit("not"):
            return node.operand
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.hit("ifexp"):
            return node.body
        if self.hit("ifexp else"):
            return node.orelse
        return node

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit("bool"):
                return ast.Constant(not v)
        elif isinstance(v, int):
            if self.hit("int"):
                return ast.Constant(v + 1)
        elif isinstance(v, str) and 0 < len(v) < 25 and getattr(node, "keep", False) is False:
            if self.hit("text"):
                return ast.Constant(v[:-1] if len(v) > 1 else v + v)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if len(node.args) >= 2 and self.hit("swap args"):
            node.args[0], node.args[1] = node.args[1], node.args[0]
        if node.keywords and self.hit("drop keyword"):
            node.keywords = node.keywords[:-1]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub)) and self.hit("binop"):
            node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        return node

    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if self.hit("remove statement"):
                    out.append(ast.Pass())
                    continue
            if isinstance(s, ast.If) and self.hit("if always"):
                out += s.body
                continue
            if isinstance(s, ast.Raise):
                out.append(s)           # its message does not matter
                continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                if f == "body" and isinstance(node, (ast.Module, ast.ClassDef)):
                    new = []
                    for s in v:
                        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            new.append(self.visit(s))
                        else:
                            new.append(s)
                    setattr(node, f, new)
                else:
                    setattr(node, f, self.stmts(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST) and f not in ("annotation", "returns"):
                setattr(node, f, self.visit(v))
        return node

    def visit_FunctionDef(self, node):
        node.body = self.stmts(node.body)
        return node


def mutants(path):
    tree = ast.parse(open(path).read())
    m = Mutator()
    m.visit(copy.deepcopy(tree))
    base = ast.unparse(tree)
    for i in range(m.n):
        t = copy.deepcopy(tree)
        k = Mutator(i)
        t = k.visit(t)
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, path, "exec")
        except Exception:
            continue
        if new != base:
            yield k.what, base, new


def run(job):
    rel, what, base, new = job
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree(f"{REPO}/src", f"{d}/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/src/fora/{rel}", "w").write(new)
        for c in MAP[rel].split():
            try:
                r = subprocess.run(["python3-vt", f"{V}/check.py", c], env={**os.environ, "VERIF_REPO": d, "VERIF_SEED": "1"}, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return f"TIMEOUT {c}", job
            if r.returncode == 1:
                return f"caught {c}", job
            if r.returncode:
                return f"BROKEN {c} {r.returncode} {r.stderr[-300:]}", job
        return "SURVIVED", job
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    jobs = []
    rnd = random.Random(seed)
    for rel in MAP:
        if only in rel:
            ms = [(rel, *m) for m in mutants(f"{REPO}/src/fora/{rel}")]
            print(rel, len(ms), flush=True)
            jobs += ms
    jobs = rnd.sample(jobs, min(n, len(jobs)))
    with ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
        for verdict, (rel, what, base, new) in ex.map(run, jobs):
            print("==", verdict, rel, what, flush=True)
            if not verdict.startswith("caught"):
                for l in difflib.unified_diff(base.split("\n"), new.split("\n"), "a", "b", "", "", 3, ""):
                    print("   ", l, flush=True)
