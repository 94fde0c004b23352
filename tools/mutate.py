"""mutate.py PROP [-k N] [--seed S] [--func SUBSTR]: random small changes to the functions a property's jobs
execute, each checked with the jobs that execute it; prints the ones no job objects to.

Works on copies of /repo under /tmp/w/mr*, never on /repo."""
import argparse, ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V, R = "/verif", "/repo"
PY = "/opt/venv/bin/python"
sys.path.insert(0, V)
W = "/tmp/w"


def fmap(prop):
    f = f"{W}/map_{prop}.json"
    subprocess.run([PY, "-W", "ignore", "check.py", prop, "--map", f, "--job", ""], cwd=V, capture_output=True, timeout=1500)
    return json.load(open(f))


PAIRS = [("by", "bz"), ("W", "W"), ]


class Sites(ast.NodeVisitor):
    """every (line, col, end_line, end_col, new text, kind) within a function"""
    def __init__(self, src):
        self.src = src
        self.out = []

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def rep(self, n, new, kind):
        self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, kind))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            o = n.ops[0]
            m = {ast.Lt: ("<=", ">="), ast.LtE: ("<", ">"), ast.Gt: (">=", "<="), ast.GtE: (">", "<"), ast.Eq: ("!=",), ast.NotEq: ("==",)}
            for s in m.get(type(o), ())[-1:]:
                self.rep(n, f"({self.seg(n.left)}) {s} ({self.seg(n.comparators[0])})", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
        l, r = self.seg(n.left), self.seg(n.right)
        if type(n.op) in m and not isinstance(n.left, ast.Constant) or isinstance(n.op, (ast.Add, ast.Sub)):
            if type(n.op) in m and not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
                self.rep(n, f"(({l}) {m[type(n.op)]} ({r}))", "op")
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant):
            self.rep(n, f"(({l}) ** {n.right.value + 1})", "pow")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.rep(n, "(" + op.join(f"({self.seg(v)})" for v in n.values) + ")", "bool")
        if len(n.values) > 1:
            self.rep(n, f"({self.seg(n.values[0])})", "bool1")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.rep(n, str(not n.value), "const")
        elif isinstance(n.value, (int, float)) and getattr(n, "lineno", 0):
            if isinstance(n.value, int) and abs(n.value) <= 3:
                self.rep(n, str(n.value + 1), "const")
            else:
                self.rep(n, repr(n.value * 1.1), "const")

    def visit_Call(self, n):
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if nm == "abs" and n.args:
            self.rep(n, f"({self.seg(n.args[0])})", "abs")
        if nm in ("max", "min", "amax", "amin"):
            t = {"max": "min", "min": "max", "amax": "amin", "amin": "amax"}[nm]
            self.rep(f, self.seg(f)[:-len(nm)] + t, "minmax")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, f"({self.seg(n.orelse)} if {self.seg(n.test)} else {self.seg(n.body)})", "ifexp")
        self.generic_visit(n)

    def stmt(self, n):
        if n.lineno == n.end_lineno:
            self.rep(n, "pass", "drop")

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        op = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
        if op:
            self.rep(n, f"{self.seg(n.target)} {op} {self.seg(n.value)}", "aug")
        self.rep(n, f"{self.seg(n.target)} = {self.seg(n.value)}", "aug=")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and self.seg(n.value)[:5] != "print":
            self.stmt(n)
            self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.rep(n, f"({self.seg(n.operand)})", "un")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        s = n.attr
        for a, b in (("y", "z"), ("z", "y"), ("1", "2"), ("2", "1"), ("top", "bottom"), ("min", "max"), ("max", "min")):
            if s.endswith(a) and len(s) > 1 and s[-len(a) - 1:-len(a)] in "_fINMVWEnl0123456789":
                t = s[:-len(a)] + b
                if t in self.src:
                    self.rep(n, f"{self.seg(n.value)}.{t}", "attr")
        self.generic_visit(n)

    def visit_Raise(self, n):
        pass

    def visit_Subscript(self, n):
        self.generic_visit(n)


def apply(src, site):
    l0, c0, l1, c1, new, k = site
    lines = src.split("\n")
    pre = lines[l0 - 1].encode()[:c0].decode()
    post = lines[l1 - 1].encode()[c1:].decode()
    lines[l0 - 1:l1] = [pre + new + post]
    return "\n".join(lines)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("-k", type=int, default=30)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--func", default="")
    ap.add_argument("-w", type=int, default=4)
    ap.add_argument("--unexecuted", action="store_true")
    a = ap.parse_args()
    m = fmap(a.prop)
    spec = next(json.loads(l) for l in open(f"{V}/properties.jsonl") if json.loads(l)["id"] == a.prop)
    files = spec["anchors"]["files"]
    jobs_of = {}
    for key, d in m.items():
        for f in d["f"]:
            jobs_of.setdefault((f[0].replace(R + "/", ""), f[1]), []).append((d["wall"], key))
    rnd = random.Random(a.seed)
    muts = []
    for path in files:
        src = open(f"{R}/{path}", newline="").read()
        src_n = src.replace("\r\n", "\n")
        tree = ast.parse(src_n)
        funcs = []

        def walk(node, pre):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.ClassDef):
                    walk(c, pre + c.name + ".")
                elif isinstance(c, ast.FunctionDef):
                    funcs.append((pre + c.name, c))
        walk(tree, "")
        for q, node in funcs:
            js = [v for k, v in jobs_of.items() if k[0].endswith(path) and (k[1] == q or k[1] == node.name or k[1].endswith("." + q))]
            js = sorted(set(sum(js, [])))
            if not js:
                if a.unexecuted:
                    print("NOT EXECUTED", path, q, node.end_lineno - node.lineno + 1)
                continue
            if a.func and a.func not in q:
                continue
            s = Sites(src_n)
            for st in node.body:
                s.visit(st)
            for site in s.out:
                muts.append((path, q, site, js))
    if a.unexecuted:
        return
    print(f"{a.prop}: {len(muts)} mutants in {len({(x[0], x[1]) for x in muts})} functions", flush=True)
    # spread over functions
    byf = {}
    for x in muts:
        byf.setdefault((x[0], x[1]), []).append(x)
    for v in byf.values():
        rnd.shuffle(v)
    pick = []
    keys = list(byf)
    rnd.shuffle(keys)
    while len(pick) < a.k and any(byf.values()):
        for k in keys:
            if byf[k] and len(pick) < a.k:
                pick.append(byf[k].pop())
    import queue
    slots = queue.Queue()
    for i in range(a.w):
        d = f"{W}/mr{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(f"git -C {R} archive HEAD | tar x -C {d}/ && mkdir -p {d}v && rsync -a --delete --exclude .git --exclude seeded --exclude replays {V}/ {d}v/ || cp -a {V}/check.py {V}/props.py {V}/symx {V}/harness {V}/known_findings.json {V}/properties.jsonl {d}v/", shell=True, check=True, capture_output=True)
        slots.put(i)

    def run(x):
        path, q, site, js = x
        i = slots.get()
        try:
            d = f"{W}/mr{i}"
            fn = f"{d}/{path}"
            orig = open(fn, newline="").read()
            crlf = "\r\n" in orig
            new = apply(orig.replace("\r\n", "\n"), site)
            try:
                ast.parse(new)
            except SyntaxError:
                return x, "syntax", ""
            with open(fn, "w", newline="") as f:
                f.write(new.replace("\n", "\r\n") if crlf else new)
            kf = f"{d}v/keys"
            open(kf, "w").write("\n".join(k for _, k in js))
            env = dict(os.environ, METKU_REPO=d)
            try:
                p = subprocess.run([PY, "-W", "ignore", "check.py", a.prop, "--keys", kf, "--fast", "-n", "2"], cwd=d + "v",
                                   env=env, capture_output=True, text=True, timeout=900)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = "timeout", ""
            with open(fn, "w", newline="") as f:
                f.write(orig)
            return x, rc, out
        finally:
            slots.put(i)
    n = caught = 0
    with ThreadPoolExecutor(a.w) as ex:
        for x, rc, out in ex.map(run, pick):
            n += 1
            path, q, site, js = x
            if rc == 1:
                caught += 1
                continue
            if rc == "syntax":
                continue
            inc = [l for l in out.splitlines() if l.startswith("INCONCLUSIVE")]
            src = open(f"{R}/{path}", newline="").read().replace("\r\n", "\n").split("\n")
            print(f"--- rc={rc} {path}:{site[0]} {q} [{site[5]}]\n    - {src[site[0]-1].strip()[:150]}\n    + {site[4][:150]}", flush=True)
            for l in inc[:2]:
                print("     ", l[:200])
    print(f"{a.prop}: caught {caught}/{n}", flush=True)
    for i in range(a.w):
        shutil.rmtree(f"{W}/mr{i}", ignore_errors=True)
        shutil.rmtree(f"{W}/mr{i}v", ignore_errors=True)


main()
