"""mutation campaign on a scratch clone: mutate.py CLONE N SEED [file substrings...]   (never touches /repo)
makes N random AST mutants, runs the checks of the mutated file (VP_REPO=CLONE) until one reports a violation, logs survivors"""
import ast, sys, os, random, subprocess, copy, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4:]
FILES = {
 'state_costate_and_data_dictionary_utils': 'C03 C04 C02 C01 C18', 'activation_functions_and_derivatives': 'C05', 'shooting_models': 'C21 C17 C07 C08 C06',
 'shooting_integrands': 'C14 C01 C10 C22 C21 C17 C07 C18 C08 C06', 'shooting_blocks': 'C12 C18 C10 C14 C17 C08', 'generic_integrator': 'C09 C18', 'overwrite_classes': 'C13 C04 C14 C06',
 'parameter_initialization': 'C17', 'striding_block': 'C11', 'utils': 'C19 C06', 'shooting_hooks': 'C22 C20', 'validation_measures': 'C20', 'custom_lr_scheduler': 'C16',
 'command_line_execution_tools': 'C15', 'experiment_utils': 'C15'}
SKIP = ('print', 'plot', 'show', '__repr__', '__str__')


def sites(tree):
    out = []
    def fn(node, q):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                fn(ch, q + [ch.name])
            else:
                walk(ch, q)
                fn(ch, q)
    def walk(n, q):
        if not q or any(s in q[-1] for s in SKIP):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1: out.append((n, 'cmp', q))
        if isinstance(n, ast.BinOp): out.append((n, 'bin', q))
        if isinstance(n, ast.BoolOp): out.append((n, 'bool', q))
        if isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)) and n.value is not None: out.append((n, 'const', q))
        if isinstance(n, ast.If): out.append((n, 'if', q))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, (ast.Attribute, ast.Subscript)): out.append((n, 'del', q))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'print' not in ast.dump(n.value.func): out.append((n, 'del', q))
        if isinstance(n, ast.Call) and len(n.args) >= 2: out.append((n, 'swap', q))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('clone', 'detach', 'copy', 'deepcopy', 'contiguous'): out.append((n, 'unwrap', q))
        if isinstance(n, ast.Call) and n.keywords: out.append((n, 'kw', q))
        if isinstance(n, ast.For): out.append((n, 'for', q))
        if isinstance(n, ast.UnaryOp): out.append((n, 'un', q))
    fn(tree, [])
    return out


def mutate(n, kind, rnd):
    """in place on a fresh tree; returns description or None"""
    if kind == 'cmp':
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        n.ops[0] = m[type(n.ops[0])]()
    elif kind == 'bin':
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
        if type(n.op) not in m or any(isinstance(x, (ast.JoinedStr,)) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in ast.walk(n)): return None
        n.op = m[type(n.op)]()
    elif kind == 'bool':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == 'const':
        if isinstance(n.value, bool): n.value = not n.value
        else: n.value = n.value + 1 if rnd.random() < .7 or not n.value else n.value - 1
    elif kind == 'if':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == 'un':
        if not isinstance(n.op, ast.USub): return None
        n.op = ast.UAdd()
    elif kind == 'swap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'kw':
        n.keywords.pop(rnd.randrange(len(n.keywords)))
    elif kind == 'for':
        if rnd.random() < .5: n.body.append(ast.Break())
        else: n.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
    return kind


def replace(tree, n, new):
    class T(ast.NodeTransformer):
        def visit(self, x):
            if x is n: return new
            return self.generic_visit(x)
    return T().visit(tree)


def main():
    rnd = random.Random(SEED)
    src = {}
    allsites = []
    for f in FILES:
        if ONLY and not any(o == f or (o in f and o != 'utils') for o in ONLY): continue
        p = os.path.join(R, 'neuro_shooting', f + '.py')
        src[f] = open(p).read()
        k = len(sites(ast.parse(src[f])))
        allsites += [(f, i) for i in range(k)]
    rnd.shuffle(allsites)
    done = 0
    for f, i in allsites:
        if done >= N: break
        tree = ast.parse(src[f])
        before = ast.unparse(tree)
        n, kind, q = sites(tree)[i]
        line = getattr(n, 'lineno', 0)
        if kind == 'del': tree = replace(tree, n, ast.Pass())
        elif kind == 'unwrap':
            tree = replace(tree, n, n.args[0] if n.args and n.func.attr in ('copy', 'deepcopy') else n.func.value)
        elif mutate(n, kind, rnd) is None: continue
        try:
            after = ast.unparse(ast.fix_missing_locations(tree))
            compile(after, f, 'exec')
        except Exception:
            continue
        if after == before: continue
        done += 1
        p = os.path.join(R, 'neuro_shooting', f + '.py')
        open(p, 'w').write(after)
        d = [l for l in __import__('difflib').unified_diff(before.split('\n'), after.split('\n'), lineterm='', n=0) if l[0] in '+-' and l[:3] not in ('+++', '---')]
        t0 = time.time()
        hit = None
        odd = []
        try:
            for c in FILES[f].split():
                r = subprocess.run(['python3', os.path.join(V, 'check.py'), c], capture_output=True, text=True, env=dict(os.environ, VP_REPO=R), cwd=V)
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    hit = c + (' (no input)' if 'no-failing' in r.stdout else '')
                    break
                if r.returncode != 0: odd.append((c, r.returncode, (r.stdout + r.stderr)[-300:]))
        finally:
            open(p, 'w').write(src[f])
        print(json.dumps(dict(file=f, fn='.'.join(q), line=line, kind=kind, diff=d[:6], hit=hit, odd=odd, s=round(time.time() - t0))), flush=True)


main()
