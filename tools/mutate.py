"""Mutation sampling, used while developing (no check runs it).

    python3 tools/mutate.py OUT.jsonl N SEED LANES [file-substring...]

Takes random small changes of the source, drops those the stable tests notice, and runs the
checks that cover the file on the rest.  Survivors are the changes worth reading.
"""
import ast, json, os, random, shutil, subprocess, sys, threading, xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
MAP = [
    ("string_format", "C27"),
    ("stack/", "C01 C09 C10"), ("queue/", "C02 C09 C10"), ("bgpq/merge_split", "C23 C04 C03"), ("bgpq/", "C03 C04 C05 C10 C23"),
    ("insert_triton", "C24"), ("insert_pallas", "C24"), ("hashtable/", "C06 C07 C08 C24 C10"),
    ("hash.py", "C11 C06 C07"), ("aggregate_bitpack", "C12 C13 C14"), ("bitpack_accessors", "C13 C22"), ("io.py", "C14"),
    ("unique_ops/", "C15"), ("array_ops", "C16 C18"), ("logical_ops", "C18 C16"), ("comparison_ops", "C25"), ("type_ops", "C26"), ("fill_ops", "C26"),
    ("spatial_ops", "C17"), ("shape_ops", "C17 C26"), ("batch_ops", "C17 C26"), ("ops.py", "C25"), ("indexing", "C19 C16"),
    ("validation", "C21"), ("default", "C20 C28"), ("structure_util", "C20"), ("shape.py", "C20 C17"), ("dataclass.py", "C22 C21 C20"),
    ("field_descriptor", "C28 C20 C21 C12 C13"), ("xtructure_numpy/__init__", "C29 C25 C17 C26 C18"), ("method_factory", "C29 C25"),
    ("xtructure_decorators/__init__", "C28 C20 C21 C22"), ("core/", "C20 C21 C22 C17"),
]
SKIP = ("benchmark", "legacy", "merge_split/loop.py", "protocol.py", "dtypes.py")


def checks_for(path):
    for k, v in MAP:
        if k in path:
            return v.split()
    return []


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}
CALLS = {"minimum": "maximum", "maximum": "minimum", "logical_and": "logical_or", "logical_or": "logical_and", "min": "max", "max": "min", "any": "all", "all": "any",
         "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like", "argmin": "argmax", "argmax": "argmin", "uint32": "uint16", "int32": "int16", "float32": "float16",
         "left_shift": "right_shift", "right_shift": "left_shift", "bitwise_or": "bitwise_and", "bitwise_and": "bitwise_or", "cumsum": "sort", "concatenate": "concatenate"}


def sites(src):
    tree = ast.parse(src)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n
    L = src.splitlines(keepends=True)
    off = [0]
    for l in L:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("warn", "cast")):
            if isinstance(n, ast.Call):
                skip |= {id(x) for x in ast.walk(n.args[0])} if n.args else set()
            else:
                skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            out.append((n.lineno, a, b, " " + CMP[type(n.ops[0])] + " "))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            if ")" in mid or "(" in mid or "#" in mid or "|" in mid and not isinstance(n.op, ast.BitOr):
                continue
            out.append((n.lineno, a, b, " " + BIN[type(n.op)] + " "))
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            if "(" in mid or ")" in mid:
                continue
            out.append((n.lineno, a, b, " or " if isinstance(n.op, ast.And) else " and "))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            a, b = span(n)[0], span(n.operand)[0]
            out.append((n.lineno, a, b, ""))
        elif isinstance(n, ast.Constant) and n.value is True or isinstance(n, ast.Constant) and n.value is False:
            out.append((n.lineno, *span(n), str(not n.value)))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for v in {n.value + 1, max(n.value - 1, 0)} - {n.value}:
                out.append((n.lineno, *span(n), str(v)))
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
            e = span(n.func)[1]
            if nm in CALLS and CALLS[nm] != nm:
                out.append((n.lineno, e - len(nm), e, CALLS[nm]))
            if nm in ("logical_not",) and len(n.args) == 1:
                out.append((n.lineno, span(n)[0], span(n)[1], raw[slice(*span(n.args[0]))].decode()))
        elif isinstance(n, ast.If) and not n.orelse and id(n) not in skip:
            s, e = span(n.test)
            out.append((n.lineno, s, e, "False"))
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                pass
    return out, raw


def stable_fails(copy, w):
    x = copy + ".xml"
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/opt/vp/env")
    try:
        subprocess.run([PY, "-m", "pytest", "-q", "-n", str(w), "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=120", "-o", "junit_family=xunit2", "--junitxml=" + x,
                        "--ignore=tests/heap_test.py", "--deselect", "tests/hash_test.py::test_large_hash_table", "tests"], cwd=copy, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        bad = 0
        for c in ET.parse(x).getroot().iter("testcase"):
            nm = "::".join(v for v in (c.get("classname"), c.get("name")) if v)
            if nm in STABLE and (c.find("failure") is not None or c.find("error") is not None):
                bad += 1
        n = len(list(ET.parse(x).getroot().iter("testcase")))
        return bad or (n < 200)
    except Exception:
        return True


def main():
    out, N, seed, lanes = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    subs = sys.argv[5:]
    rng = random.Random(seed)
    muts = []
    for root, _, fs in os.walk("/repo/xtructure"):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), "/repo")
            if not f.endswith(".py") or any(s in p for s in SKIP) or not checks_for(p) or (subs and not any(s in p for s in subs)):
                continue
            ss, raw = sites(open("/repo/" + p).read())
            muts += [(p, *s) for s in ss]
    rng.shuffle(muts)
    print(len(muts), "sites", flush=True)
    muts = muts[:N]
    lock = threading.Lock()

    def lane(k):
        copy, ver = f"/tmp/mv/r{k}", f"/tmp/mv/v{k}"
        for d in (copy, ver):
            shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", copy, symlinks=True)
        shutil.copytree("/verif", ver, symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        while True:
            with lock:
                if not muts:
                    return
                p, line, a, b, new = muts.pop()
            raw = open("/repo/" + p, "rb").read()
            mod = raw[:a] + new.encode() + raw[b:]
            if mod == raw:
                continue
            try:
                ast.parse(mod)
            except SyntaxError:
                continue
            open(f"{copy}/{p}", "wb").write(mod)
            src = raw.decode().splitlines()[line - 1].strip()
            rec = dict(file=p, line=line, src=src, new=mod.decode().splitlines()[line - 1].strip(), a=a, b=b, rep=new)
            if stable_fails(copy, 4):
                rec["result"] = "tests"
            else:
                rec["result"] = "SURVIVED"
                for c in checks_for(p):
                    env = dict(os.environ, XV_REPO=copy, VERIF_SEED="1")
                    try:
                        r = subprocess.run(["./check.sh", c, "quick"], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                        rec.setdefault("rc", {})[c] = r.returncode
                        if r.returncode == 1:
                            rec["result"] = c
                            break
                        if r.returncode == 2:
                            rec["tail"] = r.stdout[-300:]
                    except subprocess.TimeoutExpired:
                        rec.setdefault("rc", {})[c] = "timeout"
            open(f"{copy}/{p}", "wb").write(raw)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(rec) + "\n")

    ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
