"""Input dictionary for the run-time contracts: numbers and strings that occur in functions of /repo that differ from the
committed baseline (lib/baseline.json).  They only widen the inputs on which the contracts are evaluated; they decide nothing."""
import ast, os, json, hashlib, warnings

warnings.simplefilter("ignore", SyntaxWarning)

HERE = os.path.dirname(os.path.abspath(__file__))


def strip(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                n.body = b[1:] or [ast.Pass()]
    return node


def lits(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float, str)) and not isinstance(n.value, bool):
            out.append(n.value)
    return out


def functions(path):
    """qualified name -> (hash, literals); code outside of functions is under the name of its class / module"""
    tree = strip(ast.parse(open(path).read()))
    out = {}

    def go(node, pre):
        rest = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out[pre + s.name] = (hashlib.sha1(ast.dump(s).encode()).hexdigest()[:12], lits(s))
            elif isinstance(s, ast.ClassDef):
                go(s, pre + s.name + '.')
                rest += s.bases
            else:
                rest.append(s)
        out[pre + '<body>'] = (hashlib.sha1('|'.join(ast.dump(x) for x in rest).encode()).hexdigest()[:12], [v for x in rest for v in lits(x)])
    go(tree, '')
    return out


def scan(repo):
    d = os.path.join(repo, 'neuro_shooting')
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            try:
                out[f] = functions(os.path.join(d, f))
            except (SyntaxError, UnicodeDecodeError, OSError):
                out[f] = {}
    return out


def changed(repo):
    """dict(functions=[...], ints=[...], floats=[...], strs=[...]) or None if nothing differs"""
    try:
        base = json.load(open(os.path.join(HERE, 'baseline.json')))
    except Exception:
        return None
    cur = scan(repo)
    fs, vals = [], []
    for f in cur:
        old_all = [repr(v) for q in base.get(f, {}) for v in base[f][q][1]]
        for q, (h, ls) in cur[f].items():
            b = base.get(f, {}).get(q)
            if b is not None and b[0] == h:
                continue
            fs.append(f + ':' + q)
            old = [repr(v) for v in (b[1] if b else [])]
            pool = list(old)
            for v in ls:
                if repr(v) in pool:
                    pool.remove(repr(v))
                    continue
                vals.append(v)
    gone = [f + ':' + q for f in base for q in base[f] if q not in cur.get(f, {})]
    if not fs and not gone:
        return None
    ints = sorted(set(v for v in vals if isinstance(v, int) and 2 <= abs(v) <= 300))
    fl = sorted(set(float(v) for v in vals if isinstance(v, float) and v == v and abs(v) < 1e9))
    st = sorted(set(v for v in vals if isinstance(v, str) and len(v) <= 40 and '{' not in v and ' ' not in v and '%' not in v))
    return dict(functions=fs + gone, ints=ints, floats=fl, strs=st)


if __name__ == '__main__':
    import sys
    json.dump(scan(sys.argv[1]), open(os.path.join(HERE, 'baseline.json'), 'w'), separators=(',', ':'))
    import zipfile
    with zipfile.ZipFile(os.path.join(HERE, 'base_src.zip'), 'w', zipfile.ZIP_DEFLATED) as z:
        d = os.path.join(sys.argv[1], 'neuro_shooting')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                z.writestr(zipfile.ZipInfo('neuro_shooting/' + f, (2020, 1, 1, 0, 0, 0)), open(os.path.join(d, f), 'rb').read(), zipfile.ZIP_DEFLATED)
