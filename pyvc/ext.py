"""Semantics of Python built-ins, containers and the external libraries (torch, numpy, sortedcontainers ...).

Everything in this file is part of the trusted base: it is the assumed contract of the libraries.  The names actually
used in a run are recorded in USED and reported as trusted.
Reals are mathematical reals (no rounding); integers are unbounded.
"""
import ast
from .objs import *
from .terms import *
from . import interp as I
from . import tensor as T

USED = set()


def use(name):
    USED.add(name)


# ------------------------------------------------------------------ names

MODULES = {'torch', 'torch.nn', 'torch.nn.functional', 'torch.autograd', 'torch.utils', 'torch.utils.hooks', 'torch.cuda', 'torch.nn.modules',
           'torch.nn.modules.utils', 'torch.nn.parameter', 'torch.nn.init', 'torch._C', 'torch._C._nn', 'torch.optim', 'torch.utils.checkpoint', 'numpy', 'numpy.random',
           'random', 'os', 'os.path', 'collections', 'functools', 'itertools', 'operator', 'copy', 'math', 'abc', 'sortedcontainers', 'torchdiffeq', 'sys', 'time', 'torch.linalg', 'glob', 'argparse', 'subprocess'}
ALIAS = {'torch.nn.parameter.Parameter': 'torch.nn.Parameter', 'torch.nn.modules.utils._pair': '_pair', 'numpy.inf': 'inf', 'math.inf': 'inf',
         'sortedcontainers.SortedDict': 'SortedDict', 'collections.OrderedDict': 'OrderedDict', 'collections.defaultdict': 'defaultdict',
         'torch.optim.lr_scheduler.Optimizer': 'torch.optim.Optimizer', 'torch.optim.Optimizer': 'torch.optim.Optimizer', 'np.ndarray': 'numpy.ndarray',
         'torch.FloatTensor': 'torch.Tensor', 'torch.nn.functional.tanh': 'torch.tanh', 'torch.nn.functional.sigmoid': 'torch.sigmoid', 'torch.relu': 'torch.nn.functional.relu'}


def resolve(name):
    name = ALIAS.get(name, name)
    if name in MODULES:
        return I.ExtMod(name)
    if name == 'inf':
        return float('inf')
    if name in ('torch.float32', 'torch.float64', 'torch.float', 'torch.double', 'torch.long', 'torch.int64', 'torch.bool', 'numpy.float32', 'numpy.float64'):
        return I.ExtObj(name)
    return I.ExtFn(name)


TYPES = ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'object', 'type')

EXT_ATTRS = {
    'torch.nn.Module': set('__init__ forward to _apply parameters named_parameters register_parameter register_buffer add_module train eval '
                           'state_dict load_state_dict zero_grad apply modules children cuda cpu float double requires_grad_ named_modules __call__ training'.split()),
    'object': {'__init__'},
}


def ext_has(cls, attr):
    if cls.startswith('torch.nn.') and cls != 'torch.nn.Module':
        return attr in EXT_ATTRS['torch.nn.Module'] or attr in ('reset_parameters', 'extra_repr', '_conv_forward')
    return attr in EXT_ATTRS.get(cls, ())


def ext_bases_closure(c):
    out = set()
    for b in c.mro:
        if isinstance(b, I.ExtFn):
            out.add(b.name)
            if b.name.startswith('torch.nn.') and b.name != 'torch.nn.Parameter':
                out.add('torch.nn.Module')
    return out


def is_module(o):
    return isinstance(o, PInst) and 'torch.nn.Module' in ext_bases_closure(o.cls)


# ------------------------------------------------------------------ numbers

def is_real(x):
    return isinstance(x, (Fraction, Expr)) or (isinstance(x, float)) or (isinstance(x, z3.ArithRef) and not x.is_int())


def is_num(x):
    return isinstance(x, (int, Fraction, float, Expr)) or isinstance(x, z3.ArithRef) or is_zbool(x)


def zr(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    if is_zbool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, float) and x == x and abs(x) != float('inf'):
        return z3.RealVal(repr(x))
    if isinstance(x, Expr):
        r = expr_to_z3(x)
        if r is not None:
            return r
    raise Unsupported('not a real number: %r' % (x,))


def expr_to_z3(e):
    o = e.op
    if o == 'num':
        return z3.RealVal(str(e.args[0]))
    if o == 'int':
        return z3.ToReal(e.args[0])
    if o == 'real':
        return e.args[0]
    if o in ('add', 'mul'):
        xs = [expr_to_z3(a) for a in e.args]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if o == 'add' else r * x
        return r
    if o == 'app':
        f = z3.Function('el:' + e.args[0], *([z3.IntSort()] * len(e.args[1]) + [z3.RealSort()]))
        return f(*e.args[1]) if e.args[1] else z3.Real('el:' + e.args[0])
    if o == 'det':
        return expr_to_z3(e.args[0])
    if o == 'ite':
        a, b = expr_to_z3(e.args[1]), expr_to_z3(e.args[2])
        return None if a is None or b is None else z3.If(e.args[0], a, b)
    if o == 'inv':
        a = expr_to_z3(e.args[0])
        return None if a is None else z3.RealVal(1) / a
    if o == 'pow':
        a = expr_to_z3(e.args[0])
        if a is None:
            return None
        r = a
        for _ in range(e.args[1] - 1):
            r = r * a
        return r
    return None


def rsimp(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


def num_binop(ex, op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    inf = lambda x: isinstance(x, float) and abs(x) == float('inf')
    if inf(a) or inf(b):
        if op == 'Sub' and inf(b) and a == 0:
            return -b
        if op == 'Mult' and isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            return float(a) * float(b)
        if op in ('Add', 'Sub') and isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            return float(a) + float(b) if op == 'Add' else float(a) - float(b)
        if op in ('Mult', 'Div') and inf(a) != inf(b) and not (op == 'Div' and inf(b)):
            x, y = (a, b) if inf(a) else (b, a)
            if ex.branch(compare(ex, 'Gt', y, 0)):
                return x
            if ex.branch(compare(ex, 'Lt', y, 0)):
                return -x
        if op in ('Add', 'Sub') and inf(a) != inf(b):
            return a if inf(a) else b if op == 'Add' else -b
        raise Unsupported('arithmetic with infinity')
    if isinstance(a, Expr) or isinstance(b, Expr):
        if op == 'Add':
            return add(num(a), num(b))
        if op == 'Sub':
            return sub(num(a), num(b))
        if op == 'Mult':
            return mul(num(a), num(b))
        if op == 'Div':
            return div(num(a), num(b))
        if op == 'Pow' and isinstance(b, (int, Fraction)) and b == int(b):
            return powi(num(a), int(b))
        raise Unsupported('real operation ' + op)
    ints = not is_real(a) and not is_real(b)
    conc = isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction))
    if op == 'Div':
        z = compare(ex, 'Eq', b, 0)
        if ex.truth(z):
            raise PyRaise(ExcVal('ZeroDivisionError'))
        if conc:
            return Fraction(a) / Fraction(b)
        return rsimp(zr(a) / zr(b))
    if op == 'FloorDiv' or op == 'Mod':
        if conc and ints:
            if b == 0:
                raise PyRaise(ExcVal('ZeroDivisionError'))
            return a // b if op == 'FloorDiv' else a % b
        if not ints:
            if conc:
                q = a // b
                return Fraction(q) if op == 'FloorDiv' else Fraction(a) - Fraction(b) * q
            raise Unsupported('real floor division')
        if not isinstance(b, int):
            s = ex.ctx.decide(zi(b) > 0)
            if s is not True:
                if ex.branch(zi(b) == 0):
                    raise PyRaise(ExcVal('ZeroDivisionError'))
                if not ex.branch(zi(b) > 0):
                    raise Unsupported('division by a negative symbolic number')
        elif b == 0:
            raise PyRaise(ExcVal('ZeroDivisionError'))
        elif b < 0:
            raise Unsupported('division by a negative number')
        return simp(zi(a) / zi(b)) if op == 'FloorDiv' else simp(zi(a) % zi(b))
    if op == 'Pow':
        if isinstance(b, (int, Fraction)) and b == int(b):
            n = int(b)
            if conc:
                return Fraction(a) ** n if (n < 0 or isinstance(a, Fraction)) else a ** n
            if n >= 0:
                r = 1
                for _ in range(n):
                    r = num_binop(ex, 'Mult', r, a)
                return r
        raise Unsupported('power')
    if conc:
        return a + b if op == 'Add' else a - b if op == 'Sub' else a * b if op == 'Mult' else _bad(op)
    if ints:
        x, y = zi(a), zi(b)
        return simp(x + y if op == 'Add' else x - y if op == 'Sub' else x * y if op == 'Mult' else _bad(op))
    x, y = zr(a), zr(b)
    return rsimp(x + y if op == 'Add' else x - y if op == 'Sub' else x * y if op == 'Mult' else _bad(op))


def _bad(op):
    raise Unsupported('operator ' + op)


OPNAME = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'Pow': 'pow', 'MatMult': 'matmul'}


def binop(ex, op, a, b):
    a = ex.force(a)
    b = ex.force(b)
    if a is None or b is None:
        raise PyRaise(ExcVal('TypeError', ('operand None',)))
    if iscal(a) and (iscal(b) or is_int(b)) or iscal(b) and is_int(a):
        r = num_binop(ex, op, as_index(a), as_index(b))
        return IntVec([r], scalar=True) if is_int(r) else PTensor(tfull(r, []))
    if isinstance(a, IntVec):
        a = intvec_tensor(ex, a)
    if isinstance(b, IntVec):
        b = intvec_tensor(ex, b)
    if isinstance(a, PTensor) or isinstance(b, PTensor):
        return T.tensor_binop(ex, op, a, b)
    if is_num(a) and is_num(b):
        return num_binop(ex, op, a, b)
    if isinstance(a, (str, SStr)) or is_key(a):
        if op == 'Add':
            if not (isinstance(b, (str, SStr)) or is_key(b)):
                raise PyRaise(ExcVal('TypeError', ('str + non-str',)))
            return sstr(a, b)
        if op == 'Mod':
            vs = b if isinstance(b, tuple) else (b,)
            if isinstance(a, str):
                return fmt_percent(ex, a, vs)
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise Unsupported('string operator ' + op)
    if isinstance(a, PList):
        if op == 'Add':
            if isinstance(b, ShapeVal):
                if a.concrete():
                    return ShapeVal(a.items() + list(b.lead), b.tail)
                raise Unsupported('list + shape')
            if not isinstance(b, PList):
                raise PyRaise(ExcVal('TypeError', ('list + non-list',)))
            return PList(segs=list(a.segs) + list(b.segs))
        if op == 'Mult' and is_int(b):
            return list_repeat(ex, a, b)
    if isinstance(b, PList) and op == 'Mult' and is_int(a):
        return list_repeat(ex, b, a)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, (tuple, SymTuple)) and isinstance(b, (tuple, SymTuple)) and op == 'Add':
        return SymTuple(seq_segs(a) + seq_segs(b))
    if isinstance(a, tuple) and op == 'Mult' and isinstance(b, int):
        return a * b
    if isinstance(a, ShapeVal) and op == 'Add':
        if a.tail is None and isinstance(b, (tuple, ShapeVal)):
            return ShapeVal(list(a.lead) + (list(b) if isinstance(b, tuple) else list(b.lead)), b.tail if isinstance(b, ShapeVal) else None)
        if a.tail is None and isinstance(b, PList) and b.concrete():
            return ShapeVal(list(a.lead) + b.items(), None)
    if isinstance(a, tuple) and isinstance(b, ShapeVal) and op == 'Add':
        return ShapeVal(list(a) + list(b.lead), b.tail)
    if isinstance(a, I.PSet) and isinstance(b, I.PSet):
        return set_op(ex, op, a, b)
    if isinstance(a, PInst):
        m = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op)
        c, f = a.cls.find(m) if m else (None, None)
        if f is not None:
            return ex.call(BM(f, a), [b], {})
    if isinstance(a, (PDict, PInst)) or isinstance(b, (PDict, PInst)) or isinstance(a, (int, Fraction)) and isinstance(b, (str, PList, tuple)):
        raise PyRaise(ExcVal('TypeError', ('unsupported operand',)))
    raise Unsupported('binop %s on %s, %s' % (op, type(a).__name__, type(b).__name__))


def set_op(ex, op, a, b):
    if op == 'Sub':
        return I.PSet([x for x in a.items if not any(keq_conc(ex, x, y) for y in b.items)])
    if op == 'BitAnd':
        return I.PSet([x for x in a.items if any(keq_conc(ex, x, y) for y in b.items)])
    if op == 'BitOr':
        return I.PSet(list(a.items) + [x for x in b.items if not any(keq_conc(ex, x, y) for y in a.items)])
    if op == 'BitXor':
        return set_op(ex, 'BitOr', set_op(ex, 'Sub', a, b), set_op(ex, 'Sub', b, a))
    raise Unsupported('set operator')


def keq_conc(ex, x, y):
    return ex.truth(key_eq(ex, x, y))


def list_repeat(ex, a, n):
    if isinstance(n, int):
        return PList(segs=list(a.segs) * max(n, 0))
    if a.concrete() and len(a.segs) == 1:
        i = ex.fresh_int('rep')
        v = I.unbox(a.segs[0].v)
        if isinstance(v, PObj):
            raise Unsupported('symbolic repetition of an object')
        ex.branch(zi(n) >= 0) or _neg()
        return PList(segs=[Seg(0, n, i, v)])
    raise Unsupported('symbolic list repetition')


def _neg():
    raise Unsupported('negative repetition')


def iscal(x):
    return isinstance(x, IntVec) and x.scalar


def as_index(x):
    """0-dimensional integer tensors serve as integers"""
    return x.vals[0] if iscal(x) else x


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or is_zint(x)


def is_key(x):
    return is_z3(x) and x.sort() == KeySort


def invert(ex, v):
    v = ex.force(v)
    if isinstance(v, PTensor) and v.term.isbool:
        return PTensor(T.ew(ex, 'not', [v.term], isbool=True))
    if isinstance(v, int):
        return ~v
    raise Unsupported('~')


# ------------------------------------------------------------------ strings

def to_str(ex, v):
    v = ex.force(v)
    if isinstance(v, (str, SStr)) or is_key(v):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return str(float(v))
        return repr(float(v)) if Fraction(repr(float(v))) == v else SStr([('v', v)])
    if isinstance(v, float):
        return str(v)
    return SStr([('v', I.unbox(v) if not isinstance(v, PObj) else v)])


def plain(v):
    """Python value of a concrete string or number"""
    if isinstance(v, Fraction):
        return float(v)
    return v


def fmt_value(ex, v, spec='', conv=None):
    v = ex.force(v)
    conc = isinstance(v, (str, bool, int, float, Fraction)) or v is None
    if not isinstance(spec, str):
        raise Unsupported('symbolic format')
    if conv == 'r' or conv == 'a':
        if isinstance(v, (str, SStr)) or is_key(v) or conc:
            v = _repr(ex, [v], {})
        else:
            return SStr([('v', v), '!' + conv + '|' + spec])
    elif conv == 's':
        v = to_str(ex, v)
    if not spec or spec == 's' and (isinstance(v, (str, SStr)) or is_key(v)) or spec == 'd' and is_int(v):
        return to_str(ex, v)
    if isinstance(v, (str, bool, int, float, Fraction)):
        try:
            return format(plain(v), spec)
        except ValueError:
            raise PyRaise(ExcVal('ValueError', ('format',)))
    return SStr([('v', I.unbox(v) if not isinstance(v, PObj) else v), '|' + spec])


def fmt_percent(ex, s, vs):
    import re
    out = []
    vs = list(vs)
    if re.search(r'%\(|%[-+ #0]*\*', s):
        raise Unsupported('format ' + s)
    for p in re.split(r'(%[-+ #0]*\d*(?:\.\d+)?[sdfgeirxXGEa%])', s):
        if p.startswith('%') and len(p) > 1:
            if p == '%%':
                out.append('%')
            else:
                if not vs:
                    raise PyRaise(ExcVal('TypeError', ('format',)))
                v = ex.force(vs.pop(0))
                if p == '%s' or p == '%d' and not is_real(v):
                    out.append(to_str(ex, v))
                elif isinstance(v, (str, int, float, Fraction)):
                    try:
                        out.append(p % plain(v))
                    except TypeError:
                        raise PyRaise(ExcVal('TypeError', ('format',)))
                else:
                    out.append(SStr([('v', v), p]))
        else:
            out.append(p)
    return sstr(*out)


def fmt_braces(ex, s, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '':
            if auto >= len(args):
                raise PyRaise(ExcVal('IndexError', ('format',)))
            v = args[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(args):
                raise PyRaise(ExcVal('IndexError', ('format',)))
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported('format field ' + field)
        if spec and '{' in spec:
            raise Unsupported('nested format')
        out.append(fmt_value(ex, v, spec or '', conv))
    return sstr(*out)


STR_METHODS = set(x for x in dir(str) if not x.startswith('_')) - {'encode', 'maketrans', 'translate', 'format_map'}


def str_method(ex, s, name):
    def f(ex, args, kw):
        args = [ex.force(a) for a in args]
        if name == 'format':
            if isinstance(s, str):
                return fmt_braces(ex, s, args, kw)
            raise Unsupported('format on symbolic string')
        if name == 'join':
            l = ex.iterate_concrete(args[0])
            parts = []
            for k, x in enumerate(l):
                if k:
                    parts.append(s)
                parts.append(x)
            return sstr(*parts)
        if isinstance(s, str) and all(isinstance(a, (str, int)) or a is None or isinstance(a, tuple) and all(isinstance(x, str) for x in a) for a in list(args) + [ex.force(v) for v in kw.values()]):
            try:
                r = getattr(s, name)(*args, **kw)
            except ValueError:
                raise PyRaise(ExcVal('ValueError', (name,)))
            return PList(r) if isinstance(r, list) else r
        if kw:
            raise Unsupported('string method ' + name)
        if name == 'startswith' and isinstance(args[0], str):
            if isinstance(s, SStr) and isinstance(s.parts[0], str) and (len(s.parts[0]) >= len(args[0]) or not args[0].startswith(s.parts[0])):
                return s.parts[0].startswith(args[0])
        if name == 'lower' and is_key(s):
            return z3.Function('lower', KeySort, KeySort)(s)
        if name == 'replace' and all(isinstance(a, str) for a in args):
            return SStr([('v', (name, s) + tuple(args))])
        raise Unsupported('string method ' + name)
    return I.Bi('str.' + name, f)


# ------------------------------------------------------------------ equality / comparison

def key_eq(ex, a, b):
    """equality of two hashable keys: python bool or z3 Bool"""
    a = ex.force(a)
    b = ex.force(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if is_key(a) and is_key(b):
        return simp(a == b)
    if is_key(a) and isinstance(b, str):
        return simp(a == ex.ctx.kconst(b))
    if is_key(b) and isinstance(a, str):
        return simp(b == ex.ctx.kconst(a))
    if isinstance(a, SStr) or isinstance(b, SStr):
        return sstr_eq(ex, a, b)
    if is_num(a) and is_num(b):
        return compare(ex, 'Eq', a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = [key_eq(ex, x, y) for x, y in zip(a, b)]
        return conj(r)
    if a is None or b is None:
        return a is b
    if type(a) is not type(b) and (isinstance(a, (str, SStr)) or is_key(a)) != (isinstance(b, (str, SStr)) or is_key(b)):
        return False
    if a is b:
        return True
    raise Unsupported('key equality %r %r' % (a, b))


def conj(rs):
    out = []
    for r in rs:
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return True if not out else simp(z3.And(*out))


def sstr_eq(ex, a, b):
    if not isinstance(a, (str, SStr)) and not is_key(a) or not isinstance(b, (str, SStr)) and not is_key(b):
        return False
    pa = list(a.parts) if isinstance(a, SStr) else [a]
    pb = list(b.parts) if isinstance(b, SStr) else [b]
    conds = []
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[len(x) - n:] != y[len(y) - n:]:
                return False
            pa[-1], pb[-1] = x[:len(x) - n], y[:len(y) - n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
            continue
        break
    if not pa and not pb:
        return True
    if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
        same = all((x == y) if isinstance(x, str) else vkey(x) == vkey(y) for x, y in zip(pa, pb))
        if same:
            return True
        if len(pa) == 1:
            x, y = pa[0], pb[0]
            if is_key(x) and is_key(y):
                return simp(x == y)
            if is_key(x) and isinstance(y, str):
                return simp(x == ex.ctx.kconst(y))
            if is_key(y) and isinstance(x, str):
                return simp(y == ex.ctx.kconst(x))
            if isinstance(x, tuple) and isinstance(y, tuple) and is_int(x[1]) and is_int(y[1]):
                return compare(ex, 'Eq', x[1], y[1])
        # separable formats: K1 SEP K2 -- equal strings do not imply equal parts in general; equal parts do imply equal strings
        eqs = []
        for x, y in zip(pa, pb):
            if isinstance(x, str):
                if x != y:
                    raise Unsupported('string equality')
            elif is_key(x) and is_key(y):
                eqs.append(x == y)
            elif isinstance(x, tuple) and isinstance(y, tuple) and is_int(x[1]) and is_int(y[1]):
                eqs.append(zi(x[1]) == zi(y[1]))
            else:
                raise Unsupported('string equality')
        c = ex.ctx.decide(z3.And(*eqs))
        if c is True:
            return True
        key = 'streq'
        ex.assumptions.add('compound names built as <name>.<name> from different components are different')
        return simp(z3.And(*eqs))
    if len(pa) == 1 and is_key(pa[0]) and len(pb) == 0 or len(pb) == 1 and is_key(pb[0]) and len(pa) == 0:
        k = pa[0] if pa else pb[0]
        return simp(k == ex.ctx.kconst(''))
    if len(pa) == 1 and len(pb) == 1 and is_key(pa[0]) and isinstance(pb[0], str):
        return simp(pa[0] == ex.ctx.kconst(pb[0]))
    if len(pa) == 1 and len(pb) == 1 and is_key(pb[0]) and isinstance(pa[0], str):
        return simp(pb[0] == ex.ctx.kconst(pa[0]))
    if (not pa or not pb) and any(isinstance(p, str) for p in pa + pb):
        return False
    raise Unsupported('string equality %r %r' % (a, b))


CMP = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y, 'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}


def pnot(v):
    return (not v) if isinstance(v, bool) else simp(z3.Not(v))


def compare(ex, op, a, b):
    if op in ('Is', 'IsNot'):
        r = is_same(ex, a, b)
        return r if op == 'Is' else pnot(r)
    a = ex.force(a)
    b = ex.force(b)
    if op in ('In', 'NotIn'):
        r = contains(ex, b, a)
        return r if op == 'In' else pnot(r)
    if iscal(a) and (iscal(b) or is_num(b)) or iscal(b) and is_num(a):
        a, b = as_index(a), as_index(b)
    if isinstance(a, IntVec):
        a = intvec_tensor(ex, a)
    if isinstance(b, IntVec):
        b = intvec_tensor(ex, b)
    if isinstance(a, PTensor) or isinstance(b, PTensor):
        if a is None or b is None:
            return {'Eq': False, 'NotEq': True}[op] if op in ('Eq', 'NotEq') else _typeerr()
        return T.tensor_compare(ex, op, a, b)
    if is_num(a) and is_num(b):
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
                return CMP[op](a, b)
            if isinstance(a, float) and abs(a) == float('inf'):
                return CMP[op](a, 0.0)
            if isinstance(b, float) and abs(b) == float('inf'):
                return CMP[op](0.0, b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return CMP[op](a, b)
        if is_zbool(a) and is_zbool(b) or isinstance(a, bool) and is_zbool(b) or isinstance(b, bool) and is_zbool(a):
            if op in ('Eq', 'NotEq'):
                return simp(CMP[op](a, b))
        if not is_real(a) and not is_real(b):
            return simp(CMP[op](zi(a), zi(b)))
        return simp(CMP[op](zr(a), zr(b)))
    if op in ('Eq', 'NotEq'):
        r = values_eq(ex, a, b)
        return r if op == 'Eq' else pnot(r)
    if a is None or b is None or isinstance(a, (PDict, PInst)) or isinstance(b, (PDict, PInst)):
        _typeerr()
    if isinstance(a, str) and isinstance(b, str):
        return CMP[op](a, b)
    raise Unsupported('comparison %s of %s and %s' % (op, type(a).__name__, type(b).__name__))


def _typeerr():
    raise PyRaise(ExcVal('TypeError', ('comparison',)))


def values_eq(ex, a, b):
    if a is b:
        return True
    if (isinstance(a, (str, SStr)) or is_key(a)) and (isinstance(b, (str, SStr)) or is_key(b)):
        return key_eq(ex, a, b)
    if a is None or b is None:
        return False
    if isinstance(a, (I.ExtFn, I.ExtMod, I.ExtObj)) and isinstance(b, (I.ExtFn, I.ExtMod, I.ExtObj)):
        return a.name == b.name
    if isinstance(a, (I.RClass, I.ExtFn)) and isinstance(b, (I.RClass, I.ExtFn)):
        return False
    if isinstance(a, (tuple, ShapeVal)) and isinstance(b, (tuple, ShapeVal)):
        sa = ShapeVal(list(a)) if isinstance(a, tuple) and all(is_int(x) for x in a) else a
        sb = ShapeVal(list(b)) if isinstance(b, tuple) and all(is_int(x) for x in b) else b
        if isinstance(sa, ShapeVal) and isinstance(sb, ShapeVal):
            if (sa.tail is None) == (sb.tail is None):
                if len(sa.lead) != len(sb.lead):
                    if sa.tail is None:
                        return False
                    raise Unsupported('comparison of opaque shapes')
                cs = [simp(zi(x) == zi(y)) for x, y in zip(sa.lead, sb.lead)]
                if sa.tail is not None:
                    cs.append(simp(sa.tail.term == sb.tail.term))
                return conj(cs)
            raise Unsupported('comparison of opaque shapes')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj([values_eq2(ex, x, y) for x, y in zip(a, b)])
        return False
    if isinstance(a, PList) and isinstance(b, PList):
        if a.concrete() and b.concrete():
            if len(a.segs) != len(b.segs):
                return False
            return conj([values_eq2(ex, x, y) for x, y in zip(a.items(), b.items())])
        raise Unsupported('comparison of symbolic lists')
    if isinstance(a, PList) and isinstance(b, ShapeVal) or isinstance(b, PList) and isinstance(a, ShapeVal):
        if isinstance(a, PList):
            a, b = b, a
        return values_eq(ex, a, tuple(b.items())) if b.concrete() else _unsup('list/shape equality')
    if isinstance(a, I.PSet) and isinstance(b, I.PSet):
        return all(any(keq_conc(ex, x, y) for y in b.items) for x in a.items) and all(any(keq_conc(ex, x, y) for y in a.items) for x in b.items)
    if isinstance(a, PDict) and isinstance(b, PDict):
        if a.concrete() and b.concrete():
            ka = dict((e.k, e.v) for e in a.ents)
            kb = dict((e.k, e.v) for e in b.ents)
            if set(ka) != set(kb):
                return False
            return conj([values_eq2(ex, ka[k], kb[k]) for k in ka])
    if type(a) is not type(b) and not (isinstance(a, PObj) and isinstance(b, PObj)):
        return False
    if isinstance(a, PInst) or isinstance(b, PInst):
        return a is b
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))


def _unsup(m):
    raise Unsupported(m)


def values_eq2(ex, x, y):
    return compare(ex, 'Eq', x, y)


def is_same(ex, a, b):
    for x, y in ((a, b), (b, a)):
        if y is None:
            x = ex.deref(x)
            if isinstance(x, Opt):
                return x.isnone
            return x is None
    a = ex.force(a)
    b = ex.force(b)
    if isinstance(a, (bool, str, int)) or isinstance(b, (bool, str, int)):
        if isinstance(a, bool) and is_zbool(b) or isinstance(b, bool) and is_zbool(a):
            return simp(a == b)
        return type(a) is type(b) and a == b
    if isinstance(a, (I.ExtFn, I.ExtMod, I.ExtObj)) and isinstance(b, (I.ExtFn, I.ExtMod, I.ExtObj)):
        return a.name == b.name
    if isinstance(a, BM) and isinstance(b, BM):
        return False
    return a is b


def contains(ex, c, x):
    if isinstance(c, PDict):
        return dict_has(ex, c, x)
    if isinstance(c, (tuple,)):
        return disj([values_eq2(ex, x, y) for y in c])
    if isinstance(c, PList) and c.concrete():
        return disj([values_eq2(ex, x, y) for y in c.items()])
    if isinstance(c, KeysView):
        return dict_has(ex, c.d, x)
    if isinstance(c, I.PSet):
        return disj([key_eq(ex, x, y) for y in c.items])
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, ShapeVal) and c.tail is None:
        return disj([values_eq2(ex, x, y) for y in c.lead])
    if isinstance(c, PInst):
        cc, f = c.cls.find('__contains__')
        if f is not None:
            return ex.call(BM(f, c), [x], {})
    if c is None or is_num(c):
        raise PyRaise(ExcVal('TypeError', ('argument is not iterable',)))
    if isinstance(c, RangeV) and (isinstance(x, int) or is_zint(x)) and isinstance(c.step, int) and c.step > 0:
        x, lo = zi(x), zi(c.lo)
        return simp(z3.And(x >= lo, x < zi(c.hi), (x - lo) % c.step == 0))
    if isinstance(c, RangeV):
        return disj([values_eq2(ex, x, y) for y in ex.iterate_concrete(c)])
    if isinstance(c, ValuesView) and all(isinstance(e, Ent) for e in c.d.ents):
        return disj([values_eq2(ex, x, e.v) for e in c.d.ents])
    raise Unsupported('in %s' % type(c).__name__)


def disj(rs):
    out = []
    for r in rs:
        if r is True:
            return True
        if r is not False:
            out.append(r)
    return False if not out else simp(z3.Or(*out))


# ------------------------------------------------------------------ dictionaries

class KeysView(object):
    def __init__(self, d):
        self.d = d


class ValuesView(object):
    def __init__(self, d):
        self.d = d


class ItemsView(object):
    def __init__(self, d):
        self.d = d


def sort_ents(d):
    if d.kind == 'SortedDict' and len(d.ents) > 1 and all(isinstance(e, Ent) for e in d.ents):
        if all(isinstance(e.k, str) for e in d.ents) or all(isinstance(e.k, int) for e in d.ents):
            d.ents = sorted(d.ents, key=lambda e: e.k)


def grp_cands(ex, g, k):
    out = []
    seen = set()

    def addc(t):
        s = t.sexpr()
        if s not in seen:
            seen.add(s)
            out.append(t)
    kk = k
    if isinstance(k, SStr):
        for p in k.parts:
            if is_key(p):
                kk = p
    if is_z3(kk):
        if z3.is_app(kk) and kk.num_args() > 0 and is_zint(kk.arg(kk.num_args() - 1)):
            addc(kk.arg(kk.num_args() - 1))
        for v in free_consts(kk):
            if is_zint(v):
                addc(v)
    for t in ex.ctx.index:
        addc(t)
    return out


def grp_find(ex, g, k):
    """index term t with key(t)==k and lo<=t<hi, or None when provably absent; may branch"""
    for t in grp_cands(ex, g, k):
        try:
            eq = key_eq(ex, g.kat(t), k)
        except Unsupported:
            continue
        if eq is False:
            continue
        if ex.ctx.decide(conj([eq]) if is_z3(eq) else eq) is True:
            c = z3.And(t >= zi(g.lo), t < zi(g.hi))
            if ex.branch(simp(c)):
                return t
            # the keys of a group are pairwise distinct, so no other index can match
            return None
    # existential split
    t0 = ex.fresh_int('m')
    eq = key_eq(ex, g.kat(t0), k)
    if eq is False:
        return None
    if eq is True:
        raise Unsupported('constant key in a group')
    if ex.ctx.check(z3.And(t0 >= zi(g.lo), t0 < zi(g.hi)), eq) == z3.unsat:
        return None
    b = z3.Bool('mem!%d' % ex.fresh)
    if ex.branch(b):
        ex.ctx.stack.append(z3.And(t0 >= zi(g.lo), t0 < zi(g.hi), eq))
        ex.ctx.index.append(t0)
        return t0
    ex.ctx.foralls.append((zi(g.lo), zi(g.hi), g.ivar, lambda t, g=g, k=k: pnot(key_eq(ex, g.kat(t), k))))
    return None


def dict_lookup(ex, d, k):
    """(entry kind, entry, index) or None"""
    k = ex.force(k)
    if isinstance(k, PTensor):
        raise Unsupported('tensor as key')
    for e in d.ents:
        if isinstance(e, Base):
            raise ReadPoison(Poison('dict', e.loc))
        if isinstance(e, Ent):
            if ex.truth(key_eq(ex, e.k, k)):
                return ('ent', e, None)
        else:
            t = grp_find(ex, e, k)
            if t is not None:
                return ('grp', e, t)
    return None


def dict_has(ex, d, k):
    if d.concrete() and isinstance(k, (str, int)):
        return any(type(e.k) is type(k) and e.k == k for e in d.ents)
    return dict_lookup(ex, d, k) is not None


def dict_get(ex, d, k):
    r = dict_lookup(ex, d, k)
    if r is None:
        if d.kind == 'defaultdict' and d.factory is not None:
            v = ex.call(d.factory, [], {})
            dict_set(ex, d, k, v)
            return v
        raise PyRaise(ExcVal('KeyError', (k,)))
    kind, e, t = r
    if kind == 'ent':
        if isinstance(e.v, Tensor):
            o = PTensor(e.v, shared=True)
            return o
        return e.v
    return e.vat(t)


def dict_set(ex, d, k, v):
    k = ex.force(k)
    if isinstance(k, (PList, PDict)):
        raise PyRaise(ExcVal('TypeError', ('unhashable',)))
    ents = list(d.ents)
    r = None
    newkey = False
    # fast path: appending in a loop summary
    r = dict_lookup(ex, d, k)
    if r is None:
        d.ents = ents + [Ent(k, v)]
    elif r[0] == 'ent':
        d.ents = [Ent(e.k, v) if e is r[1] else e for e in d.ents]
    else:
        g, t = r[1], r[2]
        out = []
        for e in d.ents:
            if e is g:
                out += [Grp(g.lo, t, g.ivar, g.key, g.val, g.mix), Ent(k, v), Grp(simp(zi(t) + 1), g.hi, g.ivar, g.key, g.val, g.mix)]
            else:
                out.append(e)
        d.ents = out
    sort_ents(d)


def delitem(ex, o, k):
    o = ex.force(o)
    if isinstance(o, PDict):
        r = dict_lookup(ex, o, k)
        if r is None:
            raise PyRaise(ExcVal('KeyError'))
        if r[0] != 'ent':
            raise Unsupported('del from symbolic dict')
        o.ents = [e for e in o.ents if e is not r[1]]
        return
    if isinstance(o, PList) and o.concrete() and isinstance(k, int):
        s = list(o.segs)
        del s[k]
        o.segs = s
        return
    raise Unsupported('del item')


def dict_update(ex, d, other):
    other = ex.force(other)
    if isinstance(other, PDict):
        for e in list(other.ents):
            if isinstance(e, Ent):
                dict_set(ex, d, e.k, e.v)
            elif not d.ents:
                d.ents = [e]
            elif all(isinstance(x, Ent) and dict_lookup(ex, other, x.k) is None for x in d.ents):
                d.ents = list(d.ents) + [e]
            else:
                raise Unsupported('dict update')
        return
    it = ex.iterate(other)
    for part in (it.parts if isinstance(it, SegIter) else [it]):
        if isinstance(part, list):
            for kv in part:
                k, v = ex.iterate_concrete(kv)
                dict_set(ex, d, k, v)
            continue
        if not isinstance(part, I.SymIter):
            raise Unsupported('dict update from an opaque sequence')
        from . import loops

        def body(i, part=part):
            k, v = ex.iterate_concrete(part.at(i))
            dict_set(ex, d, k, v)
        loops.sym_for(ex, part.lo, part.hi, body, ex.frames[-1] if ex.frames else None)


def dict_len(ex, d):
    n = 0
    for e in d.ents:
        if isinstance(e, Base):
            raise ReadPoison(Poison('dict', e.loc))
        n = simp(zi(n) + (1 if isinstance(e, Ent) else zi(e.length())))
    return n


def dict_order(ex, d):
    """entries in iteration order"""
    if any(isinstance(e, Base) for e in d.ents):
        raise ReadPoison(Poison('dict', [e for e in d.ents if isinstance(e, Base)][0].loc))
    if d.kind == 'SortedDict' and len(d.ents) > 1:
        if all(isinstance(e, Ent) for e in d.ents):
            if all(isinstance(e.k, (str, int)) for e in d.ents):
                return list(d.ents)
            tags = [ex.sorted_rank(e.k) for e in d.ents]
            if all(t is not None for t in tags) and len(set(t[0] for t in tags)) == 1:
                return [e for t, e in sorted(zip(tags, d.ents), key=lambda x: x[0][1])]
            raise Unsupported('order of symbolic keys')
        if contiguous_groups(ex, d.ents):
            return list(d.ents)
        raise Unsupported('order of symbolic keys')
    if d.kind != 'SortedDict' and any(isinstance(e, Grp) and e.mix for e in d.ents):
        raise Unsupported('order of keys that were inserted in turn')
    return list(d.ents)


def contiguous_groups(ex, ents):
    """segments of one key family in increasing order"""
    last = None
    fam = None
    for e in ents:
        if isinstance(e, Ent):
            k = e.k
            idx = None
        else:
            k = e.key
        f = key_family(k)
        if f is None or fam is not None and f != fam:
            return False
        fam = f
        if isinstance(e, Ent):
            lo = key_index(k)
            hi = simp(zi(lo) + 1)
        else:
            if not key_index(k).eq(e.ivar):
                return False
            lo, hi = e.lo, e.hi
        if last is not None and ex.ctx.decide(zi(last) == zi(lo)) is not True:
            return False
        last = hi
    return True


def key_family(k):
    if is_key(k) and z3.is_app(k) and k.num_args() > 0:
        return k.decl().name() + '|' + ','.join(k.arg(i).sexpr() for i in range(k.num_args() - 1))
    if isinstance(k, SStr) and len(k.parts) == 2 and isinstance(k.parts[0], str) and is_key(k.parts[1]):
        f = key_family(k.parts[1])
        return None if f is None else k.parts[0] + '+' + f
    return None


def key_index(k):
    if isinstance(k, SStr):
        k = k.parts[1]
    return k.arg(k.num_args() - 1)


def seg_iter(ex, ents, fent, fgrp):
    if all(isinstance(e, Ent) for e in ents):
        return [fent(e) for e in ents]
    if len(ents) == 1:
        g = ents[0]
        return I.SymIter(g.lo, g.hi, lambda i: fgrp(g, i))
    return SegIter(ents, fent, fgrp)


class SegIter(object):
    """concatenation of several segments"""

    def __init__(self, ents, fent, fgrp):
        self.parts = []
        for e in ents:
            if isinstance(e, (Ent, Item)):
                self.parts.append([fent(e)])
            else:
                self.parts.append(I.SymIter(e.lo, e.hi, lambda i, e=e: fgrp(e, i)))


# ------------------------------------------------------------------ iteration

def seq_segs(v):
    if isinstance(v, tuple):
        return [Item(x) for x in v]
    return list(v.segs)


ITER = I.RClass('iterator', [], {}, None)


def is_iterator(v):
    return isinstance(v, PList) and v.kind == 'gen' or isinstance(v, PInst) and v.cls is ITER


def unpoison(v):
    if isinstance(v, Poison):
        raise ReadPoison(v)
    return v


def _iter(ex, a, k):
    v = ex.force(a[0])
    if is_iterator(v):
        return v
    return PInst(ITER, {'seq': PList(segs=iter_segs(ex, ex.iterate(v))), 'pos': 0})


def _next(ex, a, k):
    v = ex.force(a[0])
    if not is_iterator(v):
        if isinstance(v, (PList, tuple, PDict)):
            raise PyRaise(ExcVal('TypeError', ('not an iterator',)))
        raise Unsupported('next')
    if isinstance(v, PList):
        while v.segs:
            s = v.segs[0]
            if isinstance(s, Item):
                v.segs = v.segs[1:]
                return s.v
            if not isinstance(s, Seg):
                raise Unsupported('next of a generator')
            if ex.branch(simp(zi(s.lo) < zi(s.hi))):
                v.segs = [Seg(simp(zi(s.lo) + 1), s.hi, s.ivar, s.body)] + list(v.segs[1:])
                return s.at(s.lo)
            v.segs = v.segs[1:]
    else:
        seq, pos = v.attrs['seq'], unpoison(v.attrs['pos'])
        c = simp(zi(pos) < zi(seq.length()))
        if ex.guess and ex.ctx.decide(c) is None or ex.branch(c):
            r = get_item(ex, seq, pos)
            v.attrs['pos'] = binop(ex, 'Add', pos, 1)
            return r
    if len(a) > 1:
        return a[1]
    raise PyRaise(ExcVal('StopIteration'))


def iterate(ex, v):
    if isinstance(v, PList) and v.kind == 'gen':
        r = iterate(ex, PList(segs=list(v.segs)))
        v.segs = []
        return r
    if isinstance(v, PInst) and v.cls is ITER:
        seq, pos = v.attrs['seq'], unpoison(v.attrs['pos'])
        n = v.attrs['pos'] = seq.length()
        if isinstance(pos, int) and pos == 0:
            return iterate(ex, seq)
        if isinstance(pos, int) and seq.concrete():
            return seq.items()[pos:]
        return I.SymIter(pos, n, lambda i: get_item(ex, seq, i))
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, IntVec) and not v.scalar and (v.oshape is None or v.oshape.tail is None):
        v.viewed = True
        return [IntVec([x], scalar=True) for x in v.vals]
    if isinstance(v, (PList, SymTuple)):
        segs = v.segs
        if all(isinstance(s, Item) for s in segs):
            return [s.v for s in segs]
        if any(isinstance(s, Base) for s in segs):
            raise ReadPoison(Poison('iteration over loop-carried list', [s for s in segs if isinstance(s, Base)][0].loc))
        if len(segs) == 1 and isinstance(segs[0], Seg):
            s = segs[0]
            return I.SymIter(s.lo, s.hi, lambda i: s.at(i))
        if all(isinstance(s, (Item, Seg)) for s in segs):
            return SegIter(segs, lambda e: e.v, lambda e, i: e.at(i))
        raise Unsupported('iteration over flattened sequence')
    if isinstance(v, PDict):
        return seg_iter(ex, dict_order(ex, v), lambda e: e.k, lambda g, i: g.kat(i))
    if isinstance(v, KeysView):
        return iterate(ex, v.d)
    if isinstance(v, ValuesView):
        return seg_iter(ex, dict_order(ex, v.d), lambda e: e.v, lambda g, i: g.vat(i))
    if isinstance(v, ItemsView):
        return seg_iter(ex, dict_order(ex, v.d), lambda e: (e.k, e.v), lambda g, i: (g.kat(i), g.vat(i)))
    if isinstance(v, ShapeVal):
        if v.tail is None:
            return list(v.lead)
        return I.StarShape(v)
    if isinstance(v, RangeV):
        lo, hi, st = v.lo, v.hi, v.step
        if isinstance(lo, int) and isinstance(hi, int):
            return list(range(lo, hi, st))
        if st == 1:
            h = hi
            n = simp(zi(hi) - zi(lo))
            if isinstance(n, z3.IntNumRef):
                n = n.as_long()
            if isinstance(n, int) and n <= 16:  # a known number of values from an unknown start
                return [simp(zi(lo) + i) for i in range(max(n, 0))]
            if ex.ctx.decide(zi(hi) >= zi(lo)) is not True:
                if not ex.branch(zi(hi) >= zi(lo)):
                    return []
            return I.SymIter(lo, h, lambda i: i)
        raise Unsupported('symbolic range with step')
    if isinstance(v, ZipV):
        return v.iterate(ex)
    if isinstance(v, I.PSet):
        return list(v.items)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, PTensor):
        t = v.term
        if not t.lead:
            raise PyRaise(ExcVal('TypeError', ('iteration over a 0-d tensor',)))
        n = t.lead[0]
        if isinstance(n, int):
            return [T.index(ex, v, i) for i in range(n)]
        return I.SymIter(0, n, lambda i: I.unbox(T.index(ex, v, i)))
    if isinstance(v, (I.SymIter, SegIter)):
        return v
    if isinstance(v, GenV):
        return v.items
    if v is None or is_num(v):
        raise PyRaise(ExcVal('TypeError', ('not iterable',)))
    if isinstance(v, PInst):
        c, f = v.cls.find('__iter__')
        if f is not None:
            return ex.iterate(ex.call(BM(f, v), [], {}))
    raise Unsupported('iterate %s' % type(v).__name__)


class GenV(object):
    def __init__(self, items):
        self.items = items


class RangeV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ZipV(object):
    def __init__(self, its):
        self.its = its

    def iterate(self, ex):
        if all(isinstance(i, list) for i in self.its):
            return [tuple(x) for x in zip(*self.its)]
        its = []
        for i in self.its:
            if isinstance(i, SegIter):
                raise Unsupported('zip of segmented sequences')
            its.append(i)
        n = None
        for i in its:
            m = len(i) if isinstance(i, list) else simp(zi(i.hi) - zi(i.lo))
            if n is None:
                n = m
            else:
                c = ex.ctx.decide(zi(n) == zi(m))
                if c is True:
                    continue
                if ex.branch(simp(zi(m) < zi(n))):
                    n = m
        if isinstance(n, int):
            return [tuple(x[k] if isinstance(x, list) else x.at(simp(zi(x.lo) + k)) for x in its) for k in range(n)]
        if any(isinstance(i, list) for i in its):
            raise Unsupported('zip of concrete and symbolic sequence')
        lo = its[0].lo

        def at(i):
            return tuple(x.at(simp(zi(i) - zi(lo) + zi(x.lo))) if not same_dim(x.lo, lo) else x.at(i) for x in its)
        return I.SymIter(lo, simp(zi(lo) + zi(n)), at)


# ------------------------------------------------------------------ subscripts

def norm_index(ex, n, k):
    """python index k into a sequence of length n -> nonnegative index, IndexError if out of range"""
    if isinstance(n, int) and isinstance(k, int):
        if k < -n or k >= n:
            raise PyRaise(ExcVal('IndexError'))
        return k % n if n else k
    if ex.guess and ex.ctx.decide(simp(z3.And(zi(k) >= 0, zi(k) < zi(n)))) is None:
        return k
    if ex.branch(simp(zi(k) < 0)):
        k = simp(zi(k) + zi(n))
        if ex.branch(simp(zi(k) < 0)):
            raise PyRaise(ExcVal('IndexError'))
        return k
    if not ex.branch(simp(zi(k) < zi(n))):
        raise PyRaise(ExcVal('IndexError'))
    return k


def seq_at(ex, segs, k):
    off = 0
    if ex.guess and len(segs) > 1 and not isinstance(k, int):
        return Poison('guess')
    for s in segs:
        ln = seg_len(s)
        if ex.guess and len(segs) == 1 and isinstance(s, Flat):
            return flat_at(ex, s, k)
        if ex.branch(simp(zi(k) < zi(off) + zi(ln))):
            if isinstance(s, Item):
                return s.v
            if isinstance(s, Seg):
                return s.at(simp(zi(k) - zi(off) + zi(s.lo)))
            return flat_at(ex, s, simp(zi(k) - zi(off)))
        off = simp(zi(off) + zi(ln))
    raise PyRaise(ExcVal('IndexError'))


def flat_at(ex, s, k):
    f = PS.get(s.ivar, zi(s.inner_len()))
    for c in ex.ctx.cands(zi(k)):
        o = simp(zi(f(c)) - zi(f(s.lo)))
        ln = simp(z3.substitute(zi(s.inner_len()), (s.ivar, c)))
        if ex.ctx.decide(z3.And(c >= zi(s.lo), c < zi(s.hi), zi(o) <= zi(k), zi(k) < zi(o) + zi(ln))) is True:
            inner = [vsub(x, [(s.ivar, c)]) for x in s.inner]
            return seq_at(ex, inner, simp(zi(k) - zi(o)))
    if ex.guess:
        return Poison('guess')
    raise Unsupported('position in a flattened sequence')


def get_item(ex, o, k):
    if isinstance(k, (FamRef, Opt)):
        k = ex.force(k)
    if isinstance(o, PDict):
        return dict_get(ex, o, k)
    k = as_index(k)
    if isinstance(k, slice):
        k = slice(*[as_index(ex.force(x)) for x in (k.start, k.stop, k.step)])
    if isinstance(o, IntVec):
        if not o.scalar and isinstance(k, int) and not isinstance(k, bool) and (o.oshape is None or o.oshape.tail is None):
            if not -len(o.vals) <= k < len(o.vals):
                raise PyRaise(ExcVal('IndexError', ('index',)))
            o.viewed = True
            return IntVec([o.vals[k]], scalar=True)
        o2 = intvec_tensor(ex, o)
        return get_item(ex, o2, k)
    if isinstance(o, PTensor):
        return T.index(ex, o, k)
    if isinstance(k, PTensor):
        k = T.item(ex, k)
    if isinstance(o, (tuple, PList, SymTuple)):
        segs = seq_segs(o)
        if isinstance(k, slice):
            r = slice_seq(ex, segs, k)
            return PList(segs=r) if isinstance(o, PList) else (tuple(x.v for x in r) if all(isinstance(x, Item) for x in r) else SymTuple(r))
        if not is_int(k):
            if isinstance(k, (str, SStr, Fraction, float)) or k is None:
                raise PyRaise(ExcVal('TypeError', ('index',)))
            raise Unsupported('index %r' % (k,))
        if any(isinstance(s, Base) for s in segs):
            raise ReadPoison(Poison('index into loop-carried list', [s for s in segs if isinstance(s, Base)][0].loc))
        n = 0
        for s in segs:
            n = simp(zi(n) + zi(seg_len(s)))
        if isinstance(k, int) and k == -1 and isinstance(segs[-1] if segs else None, Item):
            return segs[-1].v
        if ex.guess and not (isinstance(k, int) and isinstance(n, int)) and not (isinstance(k, int) and k < 0):
            # discovery of a loop summary: an index is taken to be in range (confirmed afterwards)
            if len(segs) == 1 and isinstance(segs[0], Seg):
                return segs[0].at(simp(zi(k) + zi(segs[0].lo)))
            return seq_at(ex, segs, k)
        k = norm_index(ex, n, k)
        return seq_at(ex, segs, k)
    if isinstance(o, ShapeVal):
        if isinstance(k, slice):
            if o.tail is None:
                return ShapeVal(list(o.lead)[pyslice(k)])
            if k.start is not None and isinstance(k.start, int) and 0 <= k.start <= len(o.lead) and k.stop is None and k.step is None:
                return ShapeVal(list(o.lead)[k.start:], o.tail)
            if k.stop is not None and isinstance(k.stop, int) and 0 <= k.stop <= len(o.lead) and k.step is None:
                return ShapeVal(list(o.lead)[k])
            raise Unsupported('slice of opaque shape')
        if isinstance(k, int):
            if 0 <= k < len(o.lead):
                return o.lead[k]
            if o.tail is None:
                if -len(o.lead) <= k < 0:
                    return o.lead[k]
                raise PyRaise(ExcVal('IndexError'))
        if o.tail is None and is_int(k):
            k = norm_index(ex, len(o.lead), k)
            for j, d in enumerate(o.lead):
                if ex.branch(simp(zi(k) == j)):
                    return d
        raise Unsupported('index into opaque shape')
    if isinstance(o, str):
        if isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            raise PyRaise(ExcVal('IndexError'))
        if isinstance(k, slice):
            return o[pyslice(k)]
    if isinstance(o, ValuesView):
        return get_item(ex, PList(segs=view_segs(ex, o)), k)
    if isinstance(o, KeysView):
        return get_item(ex, PList(segs=view_segs(ex, o)), k)
    if isinstance(o, ItemsView):
        return get_item(ex, PList(segs=view_segs(ex, o)), k)
    if isinstance(o, PInst):
        c, f = o.cls.find('__getitem__')
        if f is not None:
            return ex.call(BM(f, o), [k], {})
    if o is None or is_num(o):
        raise PyRaise(ExcVal('TypeError', ('not subscriptable',)))
    raise Unsupported('getitem on %s' % type(o).__name__)


def view_segs(ex, v):
    it = iterate(ex, v)
    return iter_segs(ex, it)


def iter_segs(ex, it):
    if isinstance(it, list):
        return [Item(x) for x in it]
    if isinstance(it, I.SymIter):
        return [ex.seg_of(it)]
    if isinstance(it, SegIter):
        out = []
        for p in it.parts:
            out += iter_segs(ex, p)
        return out
    raise Unsupported('sequence')


def pyslice(k):
    for x in (k.start, k.stop, k.step):
        if x is not None and not isinstance(x, int):
            raise Unsupported('symbolic slice')
    return slice(k.start, k.stop, k.step)


def slice_seq(ex, segs, k):
    if all(isinstance(s, Item) for s in segs):
        return segs[pyslice(k)]
    if k.step is not None and k.step != 1:
        raise Unsupported('slice of symbolic sequence')
    n = 0
    for s in segs:
        n = simp(zi(n) + zi(seg_len(s)))

    def nrm(x, default):
        if x is None:
            return default
        if isinstance(x, int) and x < 0 or ex.branch(simp(zi(x) < 0)):
            x = simp(zi(x) + zi(n))
            if not ex.branch(simp(zi(x) >= 0)):
                x = 0
        elif not ex.branch(simp(zi(x) <= zi(n))):
            x = n
        return x
    lo, hi = nrm(k.start, 0), nrm(k.stop, n)
    out = []
    off = 0
    for s in segs:
        ln = seg_len(s)
        if isinstance(s, Flat):
            if ex.ctx.decide(z3.And(zi(lo) <= zi(off), zi(hi) >= zi(off) + zi(ln))) is True:
                out.append(s)
            elif ex.ctx.decide(z3.Or(zi(hi) <= zi(off), zi(lo) >= zi(off) + zi(ln))) is True:
                pass
            else:
                raise Unsupported('slice through a flattened sequence')
        elif isinstance(s, Item):
            if ex.branch(simp(z3.And(zi(off) >= zi(lo), zi(off) < zi(hi)))):
                out.append(s)
        else:
            a = simp(zi(lo) - zi(off))
            b = simp(zi(hi) - zi(off))
            a2 = 0 if ex.branch(simp(zi(a) <= 0)) else a
            b2 = ln if ex.branch(simp(zi(b) >= zi(ln))) else b
            if ex.branch(simp(zi(a2) < zi(b2))):
                out.append(Seg(simp(zi(s.lo) + zi(a2)), simp(zi(s.lo) + zi(b2)), s.ivar, s.body))
        off = simp(zi(off) + zi(ln))
    return out


def set_item(ex, o, k, v):
    if isinstance(o, PDict):
        dict_set(ex, o, k, v)
        return
    if isinstance(o, IntVec):
        k, v = as_index(ex.force(k)), as_index(ex.force(v))
        if o.scalar or o.viewed or not isinstance(k, int) or not is_int(v) or o.oshape is not None and o.oshape.tail is not None:
            raise Unsupported('store into an integer tensor')
        if not -len(o.vals) <= k < len(o.vals):
            raise PyRaise(ExcVal('IndexError', ('index',)))
        o.vals = list(o.vals)
        o.vals[k] = v
        o.oshape = ShapeVal(list(o.vals))
        return
    if isinstance(o, PTensor):
        T.setitem(ex, o, k, v)
        return
    if isinstance(o, PList):
        k = as_index(k)
        if isinstance(k, slice):
            raise Unsupported('slice assignment')
        n = o.length()
        k = norm_index(ex, n, k)
        if o.concrete() and isinstance(k, int):
            s = list(o.segs)
            s[k] = Item(v)
            o.segs = s
            return
        if not o.concrete():
            r = slice_seq(ex, list(o.segs), slice(0, k, None))
            r2 = slice_seq(ex, list(o.segs), slice(simp(zi(k) + 1), None, None))
            o.segs = r + [Item(v)] + r2
            return
        for j in range(len(o.segs)):
            if ex.branch(simp(zi(k) == j)):
                s = list(o.segs)
                s[j] = Item(v)
                o.segs = s
                return
        raise Unsupported('list store at symbolic index')
    if isinstance(o, PInst):
        c, f = o.cls.find('__setitem__')
        if f is not None:
            ex.call(BM(f, o), [k, v], {})
            return
    if isinstance(o, (tuple, str)) or o is None:
        raise PyRaise(ExcVal('TypeError', ('item assignment',)))
    if isinstance(o, ShapeVal):
        raise Unsupported('store into a shape')
    raise Unsupported('setitem on %s' % type(o).__name__)


def list_extend(ex, l, v):
    v = ex.force(v)
    if isinstance(v, (PList, SymTuple, tuple)):
        l.segs = list(l.segs) + seq_segs(v)
        return
    l.segs = list(l.segs) + iter_segs(ex, ex.iterate(v))


def intvec_tensor(ex, v):
    vals = tuple(v.vals)
    if v.scalar:
        return PTensor(tfull(vals[0], []), int=True)
    return T.from_list(ex, list(vals))


def inplace(ex, obj, term):
    T.inplace(ex, obj, term)


# ------------------------------------------------------------------ attributes

def get_attr(ex, o, name):
    if isinstance(o, PInst):
        return inst_getattr(ex, o, name)
    if isinstance(o, I.SuperVal):
        return super_getattr(ex, o, name)
    if isinstance(o, I.RModule):
        if name in o.vars:
            return o.vars[name]
        sub_ = o.name + '.' + name
        if sub_ in ex.modules:
            return ex.modules[sub_]
        if ex.path_of(sub_):
            return ex.module(sub_)
        raise PyRaise(ExcVal('AttributeError', (name,)))
    if isinstance(o, I.ExtMod):
        return resolve(o.name + '.' + name)
    if isinstance(o, I.ExtFn):
        if name == '__name__':
            return o.name.split('.')[-1]
        return resolve(o.name + '.' + name)
    if isinstance(o, I.RClass):
        if any(n.startswith('enum.') for n in ext_bases_closure(o)):
            raise Unsupported('enumeration')
        c, a = o.find(name)
        if a is None:
            if name == '__name__':
                return o.name
            if c is not None:
                return I.ExtFn(c.name + '.' + name)
            return no_attr((object, _Plain), name)
        if isinstance(a, I.Static):
            return a.f
        if isinstance(a, I.ClassM):
            return BM(a.f, o)
        return a
    if isinstance(o, PTensor):
        return T.get_attr(ex, o, name)
    if isinstance(o, (str, SStr)) or is_key(o):
        if name in STR_METHODS:
            return str_method(ex, o, name)
        return no_attr(('x',), name)
    if isinstance(o, PDict):
        return dict_attr(ex, o, name)
    if isinstance(o, PList):
        return list_attr(ex, o, name)
    if isinstance(o, ShapeVal):
        if name == 'numel':
            return I.Bi('numel', lambda ex, a, k: o.numel())
        raise Unsupported('shape.' + name)
    if isinstance(o, IntVec):
        if name == 'item':
            return I.Bi('item', lambda ex, a, k: o.vals[0] if len(o.vals) == 1 else _unsup('item'))
        if name == 'clone' and (o.oshape is None or o.oshape.tail is None):
            return I.Bi('clone', lambda ex, a, k: IntVec(list(o.vals), o.oshape, o.scalar))
        if name == 'prod':
            return I.Bi('prod', lambda ex, a, k: T.h_prod(ex, [o], {}) if not a and not k else _unsup('prod'))
        if name == 'tolist' and (o.oshape is None or o.oshape.tail is None):
            return I.Bi('tolist', lambda ex, a, k: o.vals[0] if o.scalar else PList(list(o.vals)))
        return T.get_attr(ex, intvec_tensor(ex, o), name)
    if isinstance(o, I.ExtObj):
        if name in o.attrs:
            v = o.attrs[name]
            return v
        if name == 'is_floating_point':
            return True
        raise Unsupported('attribute %s of %s' % (name, o.name))
    if isinstance(o, ExcVal):
        if name == 'args':
            return tuple(o.args)
    if isinstance(o, (KeysView, ValuesView, ItemsView)):
        raise Unsupported('view attribute ' + name)
    if isinstance(o, I.PSet):
        if name == 'add':
            def f(ex, a, k):
                if not any(keq_conc(ex, a[0], y) for y in o.items):
                    o.items.append(a[0])
            raise Unsupported('set mutation')
        if name in ('difference', 'intersection', 'union'):
            return I.Bi(name, lambda ex, a, k: set_op(ex, {'difference': 'Sub', 'intersection': 'BitAnd', 'union': 'BitOr'}[name], o, I.PSet(ex.iterate_concrete(a[0]))))
    if isinstance(o, I.Func) and name == '__name__':
        return o.name
    if isinstance(o, (I.Func, I.Bi)) and name == '__class__':
        return I.ExtFn('function')
    if o is None or is_num(o) or isinstance(o, (tuple, BM)):
        if is_num(o) and name == 'item':
            raise PyRaise(ExcVal('AttributeError', (name,)))
        if isinstance(o, tuple) and name in ('index', 'count'):
            raise Unsupported('tuple.' + name)
        return no_attr((None,) if o is None else ((), (lambda: None)) if isinstance(o, (tuple, BM)) else (1, 1.0, True), name)
    if isinstance(o, SymTuple):
        raise Unsupported('tuple attribute')
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))


class _Plain(object):
    pass


from collections import OrderedDict as _OD
try:
    from sortedcontainers import SortedDict as _SD
except ImportError:
    _SD = dict


def real_bases(cls):
    """objects of the library classes a class of the code derives from"""
    out = [_Plain()]
    for n in ext_bases_closure(cls):
        if n.startswith('torch.nn'):
            import torch
            out.append(torch.nn.Module())
        else:
            out.append(Ellipsis if n == 'object' else None)
    return out


def no_attr(like, name):
    """an attribute this machinery does not know: missing only if the real objects lack it too"""
    if any(x is None for x in like) and len(like) > 1:
        raise Unsupported('attribute ' + name)
    if any(hasattr(x, name) for x in like):
        raise Unsupported('attribute %s of %s' % (name, type(like[0]).__name__))
    raise PyRaise(ExcVal('AttributeError', (name,)))


def inst_getattr(ex, o, name):
    if name == '__class__':
        return o.cls
    if name == '__dict__':
        return InstDict(o)
    c, a = o.cls.find(name)
    if isinstance(a, I.Prop):
        return ex.call(BM(a.f, o), [], {})
    if name in o.attrs:
        v = o.attrs[name]
        if isinstance(v, Poison):
            raise ReadPoison(v)
        return v
    if a is not None:
        if isinstance(a, I.Func):
            return BM(a, o)
        if isinstance(a, I.Static):
            return a.f
        if isinstance(a, I.ClassM):
            return BM(a.f, o.cls)
        return a
    for reg in ('_parameters', '_modules', '_buffers'):
        d = o.attrs.get(reg)
        if isinstance(d, PDict):
            for e in d.ents:
                if isinstance(e, Ent) and e.k == name:
                    return e.v
    if c is not None and ext_has(c.name, name):
        return BM(I.Bi(c.name + '.' + name, ext_method(ex, o, name, c)), o)
    g, ga = o.cls.find('__getattr__')
    if ga is not None:
        return ex.call(BM(ga, o), [name], {})
    return no_attr(real_bases(o.cls), name)


def super_getattr(ex, s, name):
    o = ex.force(s.self_)
    c, a = o.cls.find(name, after=s.cls)
    if a is not None:
        if isinstance(a, I.Prop):
            return ex.call(BM(a.f, o), [], {})
        if isinstance(a, I.Static):
            return a.f
        return BM(a, o)
    if c is not None and ext_has(c.name, name):
        return BM(I.Bi(c.name + '.' + name, ext_method(ex, o, name, c)), o)
    return no_attr(real_bases(o.cls), name)


def inst_setattr(ex, o, name, v):
    c, a = o.cls.find('__setattr__')
    if a is not None:
        raise Unsupported('__setattr__')
    fv = ex.deref(v)
    if is_module(o):
        if isinstance(fv, PTensor) and fv.flags.get('param'):
            if '_parameters' not in o.attrs:
                raise PyRaise(ExcVal('AttributeError', ('cannot assign parameters before Module.__init__() call',)))
            reg_set(ex, o, '_parameters', name, fv)
            return
        if is_module(fv):
            if '_modules' not in o.attrs:
                raise PyRaise(ExcVal('AttributeError', ('cannot assign module before Module.__init__() call',)))
            reg_set(ex, o, '_modules', name, fv)
            return
        for reg in ('_parameters', '_modules'):
            d = o.attrs.get(reg)
            if isinstance(d, PDict) and any(isinstance(e, Ent) and e.k == name for e in d.ents):
                if fv is None:
                    reg_set(ex, o, reg, name, None)
                    return
                raise PyRaise(ExcVal('TypeError', ('cannot assign as parameter',)))
    at = dict(o.attrs)
    at[name] = v
    o.attrs = at


def reg_set(ex, o, reg, name, v):
    if name in o.attrs:
        at = dict(o.attrs)
        del at[name]
        o.attrs = at
    d = ex.deref(o.attrs[reg])
    dict_set(ex, d, name, v)


def dict_attr(ex, d, name):
    def bi(f):
        return I.Bi('dict.' + name, f)
    if name == 'keys':
        return bi(lambda ex, a, k: KeysView(d))
    if name == 'values':
        return bi(lambda ex, a, k: ValuesView(d))
    if name == 'items':
        return bi(lambda ex, a, k: ItemsView(d))
    if name == 'get':
        def f(ex, a, k):
            r = dict_lookup(ex, d, a[0])
            if r is None:
                return a[1] if len(a) > 1 else k.get('default')
            return dict_get(ex, d, a[0])
        return bi(f)
    if name == 'peekitem' and d.kind == 'SortedDict':
        def f(ex, a, k):
            i = a[0] if a else k.get('index', -1)
            ents = dict_order(ex, d)
            if all(isinstance(e, Ent) for e in ents) and isinstance(i, int):
                if not -len(ents) <= i < len(ents):
                    raise PyRaise(ExcVal('IndexError'))
                return (ents[i].k, ents[i].v)
            segs = [Item((e.k, e.v)) if isinstance(e, Ent) else Seg(e.lo, e.hi, e.ivar, (e.key, e.val)) for e in ents]
            return get_item(ex, PList(segs=segs), i)
        return bi(f)
    if name == 'clear':
        def f(ex, a, k):
            d.ents = []
        return bi(f)
    if name == 'update':
        def f(ex, a, k):
            for x in a:
                dict_update(ex, d, x)
            for kk, vv in k.items():
                dict_set(ex, d, kk, vv)
        return bi(f)
    if name == 'copy':
        def f(ex, a, k):
            return PDict(d.kind, list(d.ents), d.factory)
        return bi(f)
    if name == 'pop':
        def f(ex, a, k):
            r = dict_lookup(ex, d, a[0])
            if r is None:
                if len(a) > 1:
                    return a[1]
                raise PyRaise(ExcVal('KeyError'))
            v = dict_get(ex, d, a[0])
            delitem(ex, d, a[0])
            return v
        return bi(f)
    if name == 'setdefault':
        def f(ex, a, k):
            if dict_lookup(ex, d, a[0]) is None:
                dict_set(ex, d, a[0], a[1] if len(a) > 1 else None)
            return dict_get(ex, d, a[0])
        return bi(f)
    return no_attr(({}, _OD(), _SD()), name)


def list_attr(ex, l, name):
    def bi(f):
        return I.Bi('list.' + name, f)
    if name == 'append':
        def f(ex, a, k):
            l.segs = list(l.segs) + [Item(a[0])]
        return bi(f)
    if name == 'extend':
        return bi(lambda ex, a, k: list_extend(ex, l, a[0]))
    if name == 'insert':
        def f(ex, a, k):
            if l.concrete() and isinstance(a[0], int):
                s = list(l.segs)
                s.insert(a[0], Item(a[1]))
                l.segs = s
            elif a[0] == 0:
                l.segs = [Item(a[1])] + list(l.segs)
            else:
                raise Unsupported('insert')
        return bi(f)
    if name == 'pop':
        def f(ex, a, k):
            i = a[0] if a else -1
            if l.concrete() and isinstance(i, int):
                s = list(l.segs)
                if not -len(s) <= i < len(s):
                    raise PyRaise(ExcVal('IndexError'))
                x = s.pop(i)
                l.segs = s
                return x.v
            raise Unsupported('pop')
        return bi(f)
    if name == 'copy':
        return bi(lambda ex, a, k: PList(segs=list(l.segs)))
    if name == 'reverse':
        def f(ex, a, k):
            if not l.concrete():
                raise Unsupported('reverse')
            l.segs = list(reversed(l.segs))
        return bi(f)
    if name == 'sort':
        def f(ex, a, k):
            if not l.concrete():
                raise Unsupported('sort')
            l.segs = [Item(x) for x in _sorted(ex, [PList(l.items())], k).items()]
        return bi(f)
    if name == 'index':
        def f(ex, a, k):
            if not l.concrete():
                raise Unsupported('index')
            for i, x in enumerate(l.items()):
                if ex.truth(values_eq2(ex, x, a[0])):
                    return i
            raise PyRaise(ExcVal('ValueError'))
        return bi(f)
    if name == 'clear':
        def f(ex, a, k):
            l.segs = []
        return bi(f)
    return no_attr(([],), name)


# ------------------------------------------------------------------ builtins

def _len(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (str, tuple)):
        return len(v)
    if is_iterator(v):
        raise PyRaise(ExcVal('TypeError', ('an iterator has no len()',)))
    if isinstance(v, (PList, SymTuple)):
        if any(isinstance(s, Base) for s in v.segs):
            raise ReadPoison(Poison('len of loop-carried list', [s for s in v.segs if isinstance(s, Base)][0].loc))
        return v.length()
    if isinstance(v, PDict):
        return dict_len(ex, v)
    if isinstance(v, (KeysView, ValuesView, ItemsView)):
        return dict_len(ex, v.d)
    if isinstance(v, ShapeVal):
        if v.tail is None:
            return len(v.lead)
        return simp(len(v.lead) + RANK(v.tail.term))
    if isinstance(v, PTensor):
        if not v.term.lead:
            raise PyRaise(ExcVal('TypeError', ('len of 0-d',)))
        return v.term.lead[0]
    if isinstance(v, IntVec) and not v.scalar and (v.oshape is None or v.oshape.tail is None):
        return len(v.vals)
    if isinstance(v, I.PSet):
        return len(v.items)
    if isinstance(v, RangeV):
        if v.step == 1:
            n = simp(zi(v.hi) - zi(v.lo))
            return n if ex.branch(simp(zi(n) >= 0)) else 0
    if isinstance(v, PInst):
        c, f = v.cls.find('__len__')
        if f is not None:
            return ex.call(BM(f, v), [], {})
    if v is None or is_num(v):
        raise PyRaise(ExcVal('TypeError', ('len',)))
    raise Unsupported('len of %s' % type(v).__name__)


RANK = z3.Function('rank', ShapeSort, z3.IntSort())


def _range(ex, a, k):
    a = [ex.force(x) for x in a]
    a = [T.item(ex, x) if isinstance(x, PTensor) else x for x in a]
    if any(isinstance(x, (Fraction, float, str)) for x in a):
        raise PyRaise(ExcVal('TypeError', ('range',)))
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)


def _type(ex, a, k):
    v = ex.force(a[0])
    return typeof(ex, v)


def typeof(ex, v):
    if v is None:
        return I.ExtFn('NoneType')
    if isinstance(v, bool) or is_zbool(v):
        return I.ExtFn('bool')
    if is_int(v):
        return I.ExtFn('int')
    if is_real(v):
        return I.ExtFn('float')
    if isinstance(v, (str, SStr)) or is_key(v):
        return I.ExtFn('str')
    if isinstance(v, PDict):
        return I.ExtFn(v.kind)
    if isinstance(v, PList):
        return I.ExtFn('generator' if v.kind == 'gen' else 'list')
    if isinstance(v, ExcVal):
        return I.ExtFn(v.name)
    if isinstance(v, (tuple, SymTuple)):
        return I.ExtFn('tuple')
    if isinstance(v, ShapeVal):
        return I.ExtFn('torch.Size')
    if isinstance(v, PTensor):
        return I.ExtFn('torch.nn.Parameter' if v.flags.get('param') else 'numpy.ndarray' if v.flags.get('np') else 'torch.Tensor')
    if isinstance(v, PInst):
        return v.cls
    if isinstance(v, (I.Func, I.Bi)):
        return I.ExtFn('function')
    if isinstance(v, I.PSet):
        return I.ExtFn('set')
    if isinstance(v, I.RClass):
        return I.ExtFn('type')
    raise Unsupported('type of %s' % type(v).__name__)


_M = ('dict', 'SortedDict', 'OrderedDict', 'defaultdict')
ABC = {'Mapping': _M, 'MutableMapping': _M, 'Dict': _M, 'Sequence': ('list', 'tuple', 'str', 'torch.Size'), 'List': ('list',), 'Tuple': ('tuple',), 'Iterable': _M + ('list', 'tuple', 'str', 'set', 'generator', 'torch.Size', 'torch.Tensor', 'torch.nn.Parameter'),
       'Set': ('set',), 'Callable': ('function',), 'MutableSequence': ('list',)}
SUB = {'SortedDict': ['dict'], 'OrderedDict': ['dict'], 'defaultdict': ['dict'], 'bool': ['int'], 'torch.nn.Parameter': ['torch.Tensor'], 'torch.Size': ['tuple'],
       'torch.nn.Linear': ['torch.nn.Module'], 'torch.nn.Conv2d': ['torch.nn.Module'], 'torch.nn.GroupNorm': ['torch.nn.Module']}


def _isinstance(ex, a, k):
    v = ex.force(a[0])
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    t = typeof(ex, v)
    for c in cs:
        if isinstance(t, I.RClass):
            if isinstance(c, I.RClass) and c in t.mro:
                return True
            if isinstance(c, I.ExtFn) and (c.name in ext_bases_closure(t) or c.name == 'object'):
                return True
        elif isinstance(c, I.ExtFn):
            if c.name == t.name or c.name in SUB.get(t.name, ()) or c.name == 'object':
                return True
            if c.name in ('numbers.Number', 'numbers.Real') and t.name in ('int', 'float', 'bool') or c.name == 'numbers.Integral' and t.name in ('int', 'bool'):
                return True
            if isinstance(v, ExcVal) and any(I.exc_isa(m, c.name) for m in (v.name,) + v.bases):
                return True
            if c.name.startswith(('collections.abc.', 'typing.')):
                r = ABC.get(c.name.split('.')[-1])
                if r is None:
                    raise Unsupported('isinstance of ' + c.name)
                if t.name in r or any(x in r for x in SUB.get(t.name, ())):
                    return True
            elif c.name not in SUB and c.name not in TYPES and not c.name.startswith(('torch.', 'numpy.', 'numbers.')) and c.name not in ('NoneType', 'SortedDict', 'OrderedDict', 'function', 'generator') and c.name not in I.EXC_NAMES:
                raise Unsupported('isinstance of ' + c.name)
    return False


def _tuple(ex, a, k):
    if not a:
        return ()
    v = ex.force(a[0])
    if isinstance(v, tuple) or isinstance(v, SymTuple):
        return v
    if isinstance(v, ShapeVal):
        return v if v.tail is not None else tuple(v.lead)
    if isinstance(v, PList):
        r = tuple(v.items()) if v.concrete() else SymTuple(list(v.segs))
        if v.kind == 'gen':
            v.segs = []
        return r
    segs = iter_segs(ex, ex.iterate(v))
    return tuple(s.v for s in segs) if all(isinstance(s, Item) for s in segs) else SymTuple(segs)


def _list(ex, a, k):
    if not a:
        return PList()
    v = ex.force(a[0])
    if isinstance(v, ShapeVal):
        return v if v.tail is not None else PList(v.lead)
    if isinstance(v, (PList, SymTuple, tuple)):
        r = PList(segs=seq_segs(v))
        if is_iterator(v):
            v.segs = []
        return r
    it = ex.iterate(v)
    if isinstance(it, I.StarShape):
        return it.shape
    return PList(segs=iter_segs(ex, it))


def mkdict(kind):
    def f(ex, a, k):
        fac = None
        a = list(a)
        if kind == 'defaultdict':
            fac = a.pop(0) if a else None
        d = PDict(kind, factory=fac)
        if a:
            dict_update(ex, d, a[0])
        for kk, vv in k.items():
            dict_set(ex, d, kk, vv)
        return d
    return f


def _enumerate(ex, a, k):
    it = ex.iterate(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(it, list):
        return PList([(simp(zi(st) + j) if is_z3(st) else st + j, x) for j, x in enumerate(it)])
    if isinstance(it, I.SymIter):
        return I.SymIter(it.lo, it.hi, lambda i: (simp(zi(i) - zi(it.lo) + zi(st)), it.at(i)))
    raise Unsupported('enumerate')


def _zip(ex, a, k):
    return ZipV([ex.iterate(x) for x in a])


def _reversed(ex, a, k):
    it = ex.iterate(a[0])
    if isinstance(it, list):
        return PList(list(reversed(it)))
    return I.SymIter(it.lo, it.hi, lambda i: it.at(simp(zi(it.lo) + zi(it.hi) - 1 - zi(i))))


def conc_key(ex, v):
    """Python value that orders like v, if v is concrete"""
    v = ex.force(v)
    if isinstance(v, (str, int, float, Fraction)):
        return v
    if isinstance(v, tuple):
        return tuple(conc_key(ex, x) for x in v)
    if isinstance(v, PList) and v.concrete() and v.kind != 'gen':
        return [conc_key(ex, x) for x in v.items()]
    raise Unsupported('order of ' + type(v).__name__)


def _sorted(ex, a, k):
    it = ex.iterate_concrete(a[0])
    key = ex.force(k.get('key')) if k.get('key') is not None else None
    rev = ex.truth(k.get('reverse', False))
    if set(k) - {'key', 'reverse'}:
        raise Unsupported('sorted')
    if len(it) < 2 and key is None:
        return PList(list(it))
    ks = [conc_key(ex, x if key is None else ex.call(key, [x], {})) for x in it]
    try:
        o = sorted(range(len(it)), key=lambda i: ks[i], reverse=rev)
    except TypeError:
        raise PyRaise(ExcVal('TypeError', ('order',)))
    return PList([it[i] for i in o])


def _minmax(which):
    def f(ex, a, k):
        xs = ex.iterate_concrete(a[0]) if len(a) == 1 else list(a)
        if set(k) - {'key', 'default'} or not xs and 'default' not in k:
            raise Unsupported('min/max') if xs or k else PyRaise(ExcVal('ValueError', ('empty',)))
        if not xs:
            return k['default']
        xs = [ex.force(x) for x in xs]
        if k.get('key') is not None:
            ks = [conc_key(ex, ex.call(k['key'], [x], {})) for x in xs]
            i = range(len(xs))
            return xs[min(i, key=lambda j: ks[j]) if which == 'min' else max(i, key=lambda j: ks[j])]
        if any(isinstance(x, PTensor) for x in xs):
            raise Unsupported('min/max of tensors')
        if all(isinstance(x, (str, tuple)) for x in xs):
            ks = [conc_key(ex, x) for x in xs]
            i = range(len(xs))
            return xs[min(i, key=lambda j: ks[j]) if which == 'min' else max(i, key=lambda j: ks[j])]
        r = xs[0]
        for x in xs[1:]:
            if all(isinstance(y, (int, Fraction, float)) for y in (r, x)):
                r = min(r, x) if which == 'min' else max(r, x)
            elif not is_real(r) and not is_real(x):
                c = (zi(x) < zi(r)) if which == 'min' else (zi(x) > zi(r))
                r = simp(z3.If(c, zi(x), zi(r)))
            else:
                c = (zr(x) < zr(r)) if which == 'min' else (zr(x) > zr(r))
                r = rsimp(z3.If(c, zr(x), zr(r)))
        return r
    return f


def _repr(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, SStr) or is_key(v):
        return SStr([('v', v), '!r'])
    if isinstance(v, PInst) and v.cls.find('__repr__')[1] is not None:
        return ex.call(BM(v.cls.find('__repr__')[1], v), [], {})
    return sstr(to_str(ex, v))


def _issubclass(ex, a, k):
    c = ex.force(a[0])
    ds = a[1] if isinstance(a[1], tuple) else (a[1],)
    if not isinstance(c, I.RClass):
        raise Unsupported('issubclass')
    return any(d in c.mro if isinstance(d, I.RClass) else d.name == 'object' or d.name in ext_bases_closure(c) for d in ds)


def _delattr(ex, a, k):
    o, n = ex.force(a[0]), ex.force(a[1])
    if not isinstance(o, PInst) or is_module(o) or not isinstance(n, str):
        raise Unsupported('delattr')
    if n not in o.attrs:
        raise PyRaise(ExcVal('AttributeError', (n,)))
    del o.attrs[n]


def _divmod(ex, a, k):
    return (ex.binop(ast.FloorDiv(), a[0], a[1]), ex.binop(ast.Mod(), a[0], a[1]))


def _pow(ex, a, k):
    if len(a) != 2:
        raise Unsupported('pow')
    return ex.binop(ast.Pow(), a[0], a[1])


def _ordchr(f):
    def g(ex, a, k):
        v = ex.force(a[0])
        if not isinstance(v, (str, int)):
            raise Unsupported('ord/chr')
        return f(v)
    return g


def _sum(ex, a, k):
    st = a[1] if len(a) > 1 else 0
    segs = iter_segs(ex, ex.iterate(a[0]))
    for s in segs:
        if isinstance(s, Item):
            st = binop(ex, 'Add', st, s.v)
        elif isinstance(s, Seg) and is_int(s.body):
            f = PS.get(s.ivar, zi(s.body), nonneg=PS.syn_nonneg(zi(s.body)))
            st = binop(ex, 'Add', st, simp(zi(f(s.hi)) - zi(f(s.lo))))
        else:
            raise Unsupported('sum')
    return st


def _int(ex, a, k):
    v = ex.force(a[0]) if a else 0
    if isinstance(v, PTensor):
        v = T.item(ex, v)
    if isinstance(v, bool):
        return int(v)
    if is_int(v):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise(ExcVal('ValueError'))
    if isinstance(v, z3.ArithRef):
        t = z3.ToInt(v)
        if ex.branch(v >= 0):
            return simp(t)
        return simp(-z3.ToInt(-v))
    if is_zbool(v):
        return zi(v)
    raise Unsupported('int()')


def _float(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, PTensor):
        v = T.item(ex, v)
    if isinstance(v, (bool, int)):
        return Fraction(int(v))
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError:
            raise PyRaise(ExcVal('ValueError'))
        return f if abs(f) == float('inf') or f != f else Fraction(repr(f))
    if is_zint(v):
        return z3.ToReal(v)
    if is_real(v):
        return v
    raise Unsupported('float()')


def _abs(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, (int, Fraction, float)):
        return abs(v)
    if is_zint(v):
        return simp(z3.If(v >= 0, v, -v))
    if isinstance(v, z3.ArithRef):
        return rsimp(z3.If(v >= 0, v, -v))
    if isinstance(v, PTensor):
        return T.unary(ex, 'abs', v)
    raise Unsupported('abs')


def _any(ex, a, k):
    it = ex.iterate_concrete(a[0])
    for x in it:
        if ex.truth(x):
            return True
    return False


def _all(ex, a, k):
    it = ex.iterate_concrete(a[0])
    for x in it:
        if not ex.truth(x):
            return False
    return True


def _hasattr(ex, a, k):
    try:
        ex.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.exc.name == 'AttributeError':
            return False
        raise


def _getattr(ex, a, k):
    try:
        return ex.getattr(a[0], a[1])
    except PyRaise as e:
        if e.exc.name == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


def _setattr(ex, a, k):
    ex.setattr(a[0], a[1], a[2])


def _round(ex, a, k):
    if isinstance(a[0], (int, Fraction)) and len(a) == 1:
        return round(a[0])
    raise Unsupported('round')


def _map(ex, a, k):
    if len(a) > 2:
        return PList([ex.call(a[0], list(x), {}) for x in ZipV([ex.iterate(y) for y in a[1:]]).iterate(ex)], kind='gen')
    return PList([ex.call(a[0], [x], {}) for x in ex.iterate_concrete(a[1])], kind='gen')


def _filter(ex, a, k):
    return PList([x for x in ex.iterate_concrete(a[1]) if ex.truth(ex.call(a[0], [x], {}) if a[0] is not None else x)], kind='gen')


def _bool(ex, a, k):
    return ex.boolval(a[0]) if a else False


def _str(ex, a, k):
    return sstr(to_str(ex, a[0])) if a else ''


def _set(ex, a, k):
    out = []
    if a:
        for x in ex.iterate_concrete(a[0]):
            if not any(keq_conc(ex, x, y) for y in out):
                out.append(x)
    return I.PSet(out)


def _callable(ex, a, k):
    v = ex.force(a[0])
    return isinstance(v, (I.Func, I.Bi, BM, I.RClass, I.ExtFn)) or isinstance(v, PInst) and (v.cls.find('__call__')[1] is not None or is_module(v))


def _slice(ex, a, k):
    a = [None if x is None else ex.force(x) for x in a]
    return slice(*a)


BUILTINS = {'slice': _slice, 'len': _len, 'range': _range, 'type': _type, 'isinstance': _isinstance, 'tuple': _tuple, 'list': _list, 'dict': mkdict('dict'), 'enumerate': _enumerate, 'zip': _zip,
            'reversed': _reversed, 'sorted': _sorted, 'min': _minmax('min'), 'max': _minmax('max'), 'sum': _sum, 'int': _int, 'float': _float, 'abs': _abs, 'any': _any, 'all': _all,
            'hasattr': _hasattr, 'getattr': _getattr, 'setattr': _setattr, 'round': _round, 'map': _map, 'filter': _filter, 'next': _next, 'bool': _bool, 'str': _str, 'set': _set,
            'print': lambda ex, a, k: None, 'callable': _callable, 'iter': _iter, 'id': lambda ex, a, k: _unsup('id'), 'object': lambda ex, a, k: I.ExtObj('object'),
            'repr': _repr, 'issubclass': _issubclass, 'delattr': _delattr, 'divmod': _divmod, 'pow': _pow, 'ord': _ordchr(ord), 'chr': _ordchr(chr)}
TYPE_BUILTINS = set(TYPES)


def builtin(name):
    if name in TYPE_BUILTINS:
        return I.ExtFn(name)
    if name in BUILTINS:
        return I.Bi(name, BUILTINS[name])
    if name == '__name__':
        return '__verified__'
    if name == 'NotImplemented':
        return I.ExtObj('NotImplemented')
    if name == '__file__':
        return '/repo/x.py'
    return None


# ------------------------------------------------------------------ external calls

def h_join(ex, a, k):
    a = [ex.force(x) for x in a]
    if not all(isinstance(x, str) for x in a):
        # symbolic names: only where the ends are known text, so that the separator is certain
        out = []
        for i, x in enumerate(a):
            ps = list(x.parts) if isinstance(x, SStr) else [x]
            if i and not (isinstance(ps[0], str) and ps[0] and not ps[0].startswith('/')):
                raise Unsupported('os.path.join')
            if i < len(a) - 1 and isinstance(ps[-1], str) and (not ps[-1] or ps[-1].endswith('/')):
                raise Unsupported('os.path.join')
            if i < len(a) - 1 and not isinstance(ps[-1], str) and not (isinstance(ps[-1], tuple) and is_num(ps[-1][1])):
                raise Unsupported('os.path.join')
            out += (['/'] if i else []) + ps
        return sstr(*out)
    return '/'.join(a) if all(x and not x.startswith('/') and not x.endswith('/') for x in a[:-1]) and not a[-1].startswith('/') else __import__('os').path.join(*a)




NARROW = ('int8', 'uint8', 'int16', 'short', 'int32', 'int', 'intc', 'half', 'float16', 'bfloat16', 'cfloat', 'complex64', 'complex128', 'uint16', 'uint32', 'uint64')


def narrow(v, more=()):
    return isinstance(v, (I.ExtFn, I.ExtObj)) and v.name.startswith(('torch.', 'numpy.')) and v.name.split('.')[-1] in NARROW + tuple(more)


def check_types(ex, name, args, kw):
    """numbers are mathematical: a requested narrow element type is outside of the logic"""
    more = ('float32', 'float') if name in ('torch.tensor', 'torch.as_tensor', 'torch.prod', 'numpy.prod', 'numpy.array', 'numpy.asarray', 'torch.numel', 'numpy.sum') else ()
    for v in list(args) + list(kw.values()):
        if narrow(v, more):
            if more and narrow(v, more) and not narrow(v):
                a = [ex.force(x) for x in args[:1]] or [ex.force(x) for x in list(kw.values())[:1]]
                if not a or not (isinstance(a[0], (IntVec, ShapeVal)) or isinstance(a[0], (PList, tuple)) and not (isinstance(a[0], PList) and not a[0].concrete()) and any(is_int(x) and not isinstance(x, int) for x in ex.iterate_concrete(a[0]))):
                    continue
            raise Unsupported('element type %s' % v.name)


def call_ext(ex, name, args, kw):
    if name.startswith(('torch.', 'numpy.')):
        check_types(ex, name, args, kw)
    if name in BUILTINS:
        return BUILTINS[name](ex, args, kw)
    if name in I.EXC_NAMES:
        return ExcVal(name, tuple(args))
    h = ex.external.get(name)
    if h is None:
        h = HANDLERS.get(name)
    if h is None:
        h = T.HANDLERS.get(name)
    if h is None:
        if name.startswith('torch.nn.') and '.' in name[9:]:
            cls, _, meth = name.rpartition('.')
            use(name)
            return ext_method(ex, ex.force(args[0]), meth, I.ExtFn(cls))(ex, args, kw)
        if name.startswith('torch.Tensor.'):
            return ex.call(T.get_attr(ex, ex.force(args[0]), name[13:]), args[1:], kw)
        if name.startswith('dict.') or name.startswith('SortedDict.') or name.startswith('object.'):
            if name == 'object.__init__':
                return None
        if name.startswith('torch.') and name.count('.') == 1 and args and isinstance(ex.force(args[0]), PTensor):
            t = ex.force(args[0])       # torch.f(x, ...) is x.f(...)
            m = T.get_attr(ex, t, name[6:])
            if isinstance(m, I.Bi):
                use(name)
                return ex.call(m, args[1:], kw)
        raise Unsupported('external function ' + name)
    use(name)
    return h(ex, args, kw)


def _deepcopy(ex, a, k):
    memo = {}

    def cp(v):
        v = ex.deref(v)
        if isinstance(v, PList):
            if v.oid in memo:
                return memo[v.oid]
            n = PList()
            memo[v.oid] = n
            n.segs = [Item(cp(s.v)) if isinstance(s, Item) else s for s in v.segs]
            return n
        if isinstance(v, PDict):
            if v.oid in memo:
                return memo[v.oid]
            n = PDict(v.kind, [], v.factory)
            memo[v.oid] = n
            for e in v.ents:
                if isinstance(e, Ent):
                    n.ents = n.ents + [Ent(e.k, cp(e.v))]
                else:
                    raise Unsupported('deepcopy of symbolic dict')
            return n
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        if isinstance(v, PTensor):
            if v.oid not in memo:
                memo[v.oid] = PTensor(v.term, **dict((kk, vv) for kk, vv in v.flags.items() if kk not in ('base', 'shared')))
            return memo[v.oid]
        if isinstance(v, PInst):
            if v.oid in memo:
                return memo[v.oid]
            n = PInst(v.cls)
            memo[v.oid] = n
            n.attrs = dict((kk, cp(x)) for kk, x in v.attrs.items())
            return n
        return v
    return cp(a[0])


def _copycopy(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, PList):
        return PList(segs=list(v.segs))
    if isinstance(v, PDict):
        return PDict(v.kind, list(v.ents), v.factory)
    if isinstance(v, (tuple, str, int, Fraction)) or v is None:
        return v
    raise Unsupported('copy.copy')


def _partial(ex, a, k):
    return I.Partial(a[0], a[1:], k)


def _grad(ex, a, k):
    return T.autograd_grad(ex, a, k)


def _nogradctx(name):
    def f(ex, a, k):
        return I.ExtObj(name)
    return f


def _removable(ex, a, k):
    """torch.utils.hooks.RemovableHandle: fresh id; remove() deletes the entry with that id"""
    d = ex.force(a[0])
    hid = ex.fresh_hook_id()

    def remove(ex, aa, kk):
        if dict_lookup(ex, d, hid) is not None:
            delitem(ex, d, hid)
    return I.ExtObj('RemovableHandle', attrs={'id': hid, 'remove': I.Bi('remove', remove)})


def _product(ex, a, k):
    its = [ex.iterate_concrete(x) for x in a]
    if set(k) - {'repeat'} or not isinstance(k.get('repeat', 1), int):
        raise Unsupported('itertools.product')
    out = [()]
    for it in its * k.get('repeat', 1):
        out = [x + (y,) for x in out for y in it]
    return PList(out, kind='gen')


def _chain(ex, a, k):
    segs = []
    for x in a:
        segs += iter_segs(ex, ex.iterate(x))
    return PList(segs=segs, kind='gen')


def _reduce(ex, a, k):
    it = ex.iterate_concrete(a[1])
    if len(a) > 2:
        r = a[2]
    elif it:
        r, it = it[0], it[1:]
    else:
        raise PyRaise(ExcVal('TypeError'))
    for x in it:
        r = ex.call(a[0], [r, x], {})
    return r


def _opfn(op):
    return lambda ex, a, k: binop(ex, op, ex.force(a[0]), ex.force(a[1]))


def _itemgetter(ex, a, k):
    return I.Bi('itemgetter', lambda ex, b, kk: get_item(ex, ex.force(b[0]), a[0]) if len(a) == 1 else tuple(get_item(ex, ex.force(b[0]), x) for x in a))


HANDLERS = {
    'itertools.product': _product, 'itertools.chain': _chain, 'itertools.chain.from_iterable': lambda ex, a, k: _chain(ex, ex.iterate_concrete(a[0]), k), 'functools.reduce': _reduce,
    'operator.add': _opfn('Add'), 'operator.mul': _opfn('Mult'), 'operator.sub': _opfn('Sub'), 'operator.truediv': _opfn('Div'), 'operator.itemgetter': _itemgetter,
    'SortedDict': mkdict('SortedDict'), 'OrderedDict': mkdict('OrderedDict'), 'defaultdict': mkdict('defaultdict'),
    'copy.deepcopy': _deepcopy, 'copy.copy': _copycopy, 'functools.partial': _partial,
    'torch.autograd.grad': _grad, 'torch.enable_grad': _nogradctx('enable_grad'), 'torch.no_grad': _nogradctx('no_grad'),
    'torch.utils.hooks.RemovableHandle': _removable,
    '_pair': lambda ex, a, k: ex.force(a[0]) if isinstance(ex.force(a[0]), tuple) else (a[0], a[0]),
    'abc.abstractmethod': lambda ex, a, k: a[0],
    'collections.namedtuple': lambda ex, a, k: I.ExtObj('namedtuple'),
    'torch.cuda.is_available': lambda ex, a, k: False,
    'warnings.warn': lambda ex, a, k: None,
}


# ------------------------------------------------------------------ nn.Module and layers

def module_init(ex, o):
    at = dict(o.attrs)
    at['_parameters'] = PDict('dict')
    at['_modules'] = PDict('dict')
    at['_buffers'] = PDict('dict')
    at['training'] = z3.Bool('nn.Module.training')     # training or evaluation mode: either, the same for all modules
    o.attrs = at


def new_param(ex, base, lead, tail=None, **kw):
    nm = ex.fresh_name(base)
    return PTensor(tvar(nm, ex.loopidx, lead, tail), param=True, requires_grad=True, **kw)


def named_params(ex, o, prefix=''):
    out = []
    for e in ex.deref(o.attrs['_parameters']).ents:
        if isinstance(e, Ent):
            if e.v is not None:
                out.append((sstr(prefix, e.k) if prefix else e.k, e.v))
        else:
            raise Unsupported('symbolic parameters')
    for e in ex.deref(o.attrs['_modules']).ents:
        m = ex.deref(e.v)
        if m is not None:
            out += named_params(ex, m, sstr(prefix, e.k, '.'))
    return out


def ext_method(ex, o, name, cls):
    cn = cls.name

    def f(ex, args, kw):
        use(cn + '.' + name)
        s = ex.force(args[0])
        a = list(args[1:])
        if name == '__init__':
            if cn == 'object' or not cn.startswith('torch.nn'):
                return None
            module_init(ex, s)
            if cn == 'torch.nn.Linear':
                names = ['in_features', 'out_features', 'bias', 'device', 'dtype']
                p = dict(zip(names, a))
                p.update(kw)
                fi, fo = p['in_features'], p['out_features']
                ex.setattr(s, 'in_features', fi)
                ex.setattr(s, 'out_features', fo)
                reg_set(ex, s, '_parameters', 'weight', new_param(ex, 'W', [fo, fi]))
                b = ex.truth(p.get('bias', True))
                reg_set(ex, s, '_parameters', 'bias', new_param(ex, 'B', [fo]) if b else None)
                return None
            if cn == 'torch.nn.Conv2d':
                names = ['in_channels', 'out_channels', 'kernel_size', 'stride', 'padding', 'dilation', 'groups', 'bias', 'padding_mode']
                p = dict(stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode='zeros')
                p.update(dict(zip(names, a)))
                p.update(kw)
                pr = lambda v: v if isinstance(v, tuple) else (v, v)
                for nme in ('kernel_size', 'stride', 'dilation'):
                    p[nme] = pr(p[nme])
                if not isinstance(p['padding'], str):
                    p['padding'] = pr(p['padding'])
                for nme in names[:7] + ['padding_mode']:
                    ex.setattr(s, nme, p[nme])
                if not isinstance(p['padding'], str):
                    ex.setattr(s, '_reversed_padding_repeated_twice', PList([p['padding'][1], p['padding'][1], p['padding'][0], p['padding'][0]]))
                g = p['groups']
                cin = p['in_channels'] if g == 1 else binop(ex, 'FloorDiv', p['in_channels'], g)
                reg_set(ex, s, '_parameters', 'weight', new_param(ex, 'W', [p['out_channels'], cin, p['kernel_size'][0], p['kernel_size'][1]]))
                reg_set(ex, s, '_parameters', 'bias', new_param(ex, 'B', [p['out_channels']]) if ex.truth(p['bias']) else None)
                return None
            if cn == 'torch.nn.GroupNorm':
                names = ['num_groups', 'num_channels', 'eps', 'affine']
                p = dict(eps=Fraction(1, 100000), affine=True)
                p.update(dict(zip(names, a)))
                p.update(kw)
                for nme in names:
                    ex.setattr(s, nme, p[nme])
                aff = ex.truth(p['affine'])
                reg_set(ex, s, '_parameters', 'weight', new_param(ex, 'W', [p['num_channels']]) if aff else None)
                reg_set(ex, s, '_parameters', 'bias', new_param(ex, 'B', [p['num_channels']]) if aff else None)
                return None
            if cn == 'torch.nn.Module':
                return None
            raise Unsupported('constructor of ' + cn)
        if name == 'forward':
            P = ex.deref(s.attrs['_parameters']) if '_parameters' in s.attrs else None
            g = lambda nme: ex.getattr(s, nme)
            if cn == 'torch.nn.Linear':
                return T.linear(ex, ex.force(a[0]), ex.force(g('weight')), ex.force(g('bias')))
            if cn == 'torch.nn.Conv2d':
                if g('padding_mode') != 'zeros':
                    raise Unsupported('Conv2d forward with padding mode')
                return T.h_conv2d(ex, [a[0] if a else kw['input'], g('weight'), g('bias'), g('stride'), g('padding'), g('dilation'), g('groups')], {})
            if cn == 'torch.nn.GroupNorm':
                return T.h_group_norm(ex, [a[0] if a else kw['input'], g('num_groups'), g('weight'), g('bias'), g('eps')], {})
            raise Unsupported('forward of ' + cn)
        if name == 'register_parameter':
            nme = a[0] if a else kw['name']
            v = ex.deref(a[1] if len(a) > 1 else kw['param'])
            if v is not None and not (isinstance(v, PTensor) and v.flags.get('param')):
                raise PyRaise(ExcVal('TypeError', ('cannot assign as parameter',)))
            if isinstance(nme, str) and ('.' in nme or nme == ''):
                raise PyRaise(ExcVal('KeyError', ('parameter name',)))
            d = ex.deref(s.attrs['_parameters'])
            if nme in s.attrs or isinstance(nme, str) and s.cls.find(nme)[1] is not None:
                if dict_lookup(ex, d, nme) is None:
                    raise PyRaise(ExcVal('KeyError', ('attribute already exists',)))
            dict_set(ex, d, nme, v)
            return None
        if name == 'add_module':
            dict_set(ex, ex.deref(s.attrs['_modules']), a[0], a[1])
            return None
        if name == 'named_parameters':
            return PList([(k2, v2) for k2, v2 in named_params(ex, s)])
        if name == 'parameters':
            return PList([v2 for k2, v2 in named_params(ex, s)])
        if name in ('_apply', 'to', 'train', 'eval', 'float', 'double', 'cpu', 'cuda'):
            return s
        raise Unsupported(cn + '.' + name)
    return f


def make_ext_inst(ex, cn):
    """instance of an external nn class (nn.Linear used directly)"""
    def f(ex, a, k):
        c = I.RClass(cn.split('.')[-1], [I.ExtFn(cn)], {}, None)
        o = PInst(c)
        ext_method(ex, o, '__init__', I.ExtFn(cn))(ex, [o] + list(a), k)
        return o
    return f


for _n in ('torch.nn.Linear', 'torch.nn.Conv2d', 'torch.nn.GroupNorm', 'torch.nn.Module'):
    HANDLERS[_n] = make_ext_inst(None, _n)


def _Parameter(ex, a, k):
    t = ex.force(a[0])
    rg = k.get('requires_grad', a[1] if len(a) > 1 else True)
    return T.make_leaf(ex, t, rg, param=True)


HANDLERS['torch.nn.Parameter'] = _Parameter


def _effect(name):
    """external call without a result that the specification looks at: recorded in order"""
    def f(ex, a, k):
        l = getattr(ex, 'effects', None)
        if l is None:
            raise Unsupported(name)
        l.append((name, tuple(ex.force(x) for x in a), tuple(sorted((q, ex.force(v)) for q, v in k.items()))))
        return None
    return f


for _n in ('random.seed', 'numpy.random.seed', 'torch.manual_seed', 'torch.random.manual_seed', 'torch.cuda.manual_seed', 'torch.cuda.manual_seed_all', 'torch.set_default_tensor_type'):
    HANDLERS[_n] = _effect(_n)
HANDLERS['os.path.join'] = h_join
