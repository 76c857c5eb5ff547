"""Authoring aid: python mutate.py SEED N OUT.py: a random sample of small mechanical changes, for campaign.py."""
import ast, glob, os, random, sys
BASE = "/repo/variantlib"
CHECKS = [("commands/make_variant", "C01 C12 C13 C09 C14"), ("commands/unmake_variant", "C02 C03"),
          ("commands/generate_index", "C04 C06 C14"), ("commands/add_wheel", "C05 C06"), ("commands/update_pyproject", "C17"),
          ("commands/utils", "C03 C06 C17"), ("commands/config", "C15 C19"), ("commands/", "C19 C14"),
          ("configuration.py", "C15 C16 C10"), ("models/configuration", "C15 C10"), ("plugins/", "C07 C08 C09 C19 C13"),
          ("loader", "C07 C08 C09 C19 C13"), ("api.py", "C10 C12 C07 C13 C09 C16"), ("resolver/", "C10 C11 C18 C14"),
          ("variants_json", "C05 C04 C10"), ("variant_dist_info", "C05 C04 C19"), ("pyproject_toml", "C12 C17 C01 C10"),
          ("models/", "C10 C01 C05 C12 C07"), ("validators/", "C15 C05 C12 C10 C17"), ("", "C10 C01 C07 C11 C15")]
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}


def edits(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def rep(n, new, what):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, what, n.lineno))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(n.body[0])
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in ast.walk(f):
                if n is not f:
                    infn.add(n)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "add_argument", "debug", "info", "warning", "error", "exception", "ArgumentParser"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise) and n.exc is not None:
            skip.update(ast.walk(n.exc))
    for n in ast.walk(tree):
        if n not in infn or n in skip or n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            rep(n, f"{text(n.left)} {SWAP[type(n.ops[0])]} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "bool")
            for v in n.values:
                rest = [f"({text(x)})" for x in n.values if x is not v]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "dropcond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"({text(n.operand)})", "not")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "break" if isinstance(n, ast.Continue) else "continue", "loop")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "noraise")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "nocall")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "noassign")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n.value, "None", "retnone")
        elif isinstance(n, ast.Constant) and n.value is True:
            rep(n, "False", "const")
        elif isinstance(n, ast.Constant) and n.value is False:
            rep(n, "True", "const")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), "const")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                "sorted", "set", "list", "dict", "tuple", "reversed", "frozenset") and len(n.args) == 1:
            a = text(n.args[0]) if not isinstance(n.args[0], ast.GeneratorExp) else "[" + text(n.args[0]).strip("()") + "]"
            rep(n, f"list({a})" if n.func.id in ("sorted", "reversed", "set") else f"({a})", "unwrap")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "copy", "strip", "resolve", "lower", "casefold") and not n.args:
            rep(n, text(n.func.value), "unmeth")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "iftrue")
            rep(n.test, "False", "iffalse")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "True", "nofilter")
        elif isinstance(n, ast.With):
            pass
    return [(w, ln, (b[:s] + new.encode() + b[e:]).decode()) for s, e, new, w, ln in out]


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    pool = []
    for f in sorted(glob.glob(f"{BASE}/**/*.py", recursive=True)):
        rel = os.path.relpath(f, BASE)
        for w, ln, new in edits(open(f).read()):
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            pool.append((rel, w, ln, new))
    print(len(pool), "possible")
    r = random.Random(seed)
    M = []
    for k, (rel, w, ln, new) in enumerate(r.sample(pool, min(count, len(pool)))):
        checks = next(c for p, c in CHECKS if p in rel)
        M.append((f"g{seed}_{k}", checks, [(rel, None, new)], f"{rel}:{ln} {w}"))
    open(out, "w").write("M = " + repr(M))


main()
