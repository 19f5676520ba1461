"""Symbolic execution of the real source (parsed from /repo on every run), loops summarised in loops.py."""
import ast
import builtins
import os
from .objs import *

REPO = os.environ.get('VERIF_REPO') or os.environ.get('VP_REPO') or '/repo'


def parse_quiet(src, p):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.parse(src, p)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame(object):
    def __init__(self, vars, module, parent=None, func=None):
        self.vars = vars
        self.module = module
        self.parent = parent
        self.func = func
        self.globals_decl = set()
        self.nonlocal_decl = set()


class RModule(object):
    def __init__(self, name):
        self.name = name
        self.vars = {}


class ExtMod(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ExtMod(%s)' % self.name


class ExtFn(object):
    """external callable identified by its dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ExtFn(%s)' % self.name


class Bi(object):
    def __init__(self, name, f):
        self.name = name
        self.f = f


class Func(object):
    def __init__(self, node, module, parent, defaults, kwdefaults, cls=None, name=None):
        self.node, self.module, self.parent = node, module, parent
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.kind = 'func'

    def qual(self):
        return self.module.name + '.' + ((self.cls.name + '.') if self.cls is not None else '') + self.name


class Prop(object):
    def __init__(self, f):
        self.f = f


class Static(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class RClass(object):
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module
        self.mro = self.c3()

    def c3(self):
        seqs = [list(b.mro) if isinstance(b, RClass) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(self.inl(c, t[1:]) for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            out.append(c)
            for s in seqs:
                if self.same(s[0], c):
                    s.pop(0)

    @staticmethod
    def same(a, b):
        return a is b or (isinstance(a, ExtFn) and isinstance(b, ExtFn) and a.name == b.name)

    @classmethod
    def inl(cls, c, l):
        return any(cls.same(c, x) for x in l)

    def find(self, name, after=None):
        mro = self.mro
        start = 0
        if after is not None:
            for k, c in enumerate(mro):
                if c is after:
                    start = k + 1
        from . import ext
        for c in mro[start:]:
            if isinstance(c, RClass):
                if name in c.attrs:
                    return c, c.attrs[name]
            elif ext.ext_has(c.name, name):
                return c, None
        return None, None

    def ext_bases(self):
        return [c.name for c in self.mro if isinstance(c, ExtFn)]


class SuperVal(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SymIter(object):
    """iteration over lo<=i<hi with element at(i)"""

    def __init__(self, lo, hi, at):
        self.lo, self.hi, self.at = lo, hi, at


class Undef(object):
    pass


UNDEF = Undef()

EXC_NAMES = ['ValueError', 'KeyError', 'TypeError', 'AttributeError', 'IndexError', 'RuntimeError', 'Exception',
             'NotImplementedError', 'AssertionError', 'StopIteration', 'ImportError', 'ZeroDivisionError', 'LookupError',
             'ModuleNotFoundError', 'ArithmeticError', 'OSError', 'FileNotFoundError', 'BaseException', 'NameError', 'UnboundLocalError', 'OverflowError', 'SystemExit', 'IOError', 'Warning']
EXC_BASE = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'ModuleNotFoundError': 'ImportError',
            'ZeroDivisionError': 'ArithmeticError', 'FileNotFoundError': 'OSError', 'NotImplementedError': 'RuntimeError',
            'Exception': 'BaseException'}


def exc_isa(name, base):
    while True:
        if name == base:
            return True
        if name == 'BaseException':
            return False
        name = EXC_BASE.get(name, 'Exception')


class Exec(object):
    src_cache = {}

    def __init__(self, max_paths=400):
        from . import ext
        self.ext = ext
        self.max_paths = max_paths
        self.reset()

    # ---------------------------------------------------------------- state
    def reset(self):
        Heap.ctr = 0
        Heap.objs = []
        Fam.ctr = 0
        PS.reset()
        self.modules = {}
        self.ctx = Ctx()
        self.frames = []
        self.famcache = {}
        self.dec = None
        self.fresh = 0
        self.depth = 0
        self.trace = set()
        self.stubs = dict(getattr(self, 'stub_table', {}))
        self.steps = 0
        self.nmark = 0
        self.assumptions = set()
        self.grad_names = frozenset()
        self.violations = []
        self.hookids = 0
        self.nograd = 0
        from . import sigma
        sigma.LEAFDEFS.clear()
        self.rank = {}
        self.loopidx = ()
        self.guess = 0
        self.approx = False
        self.external = {}
        self.draws = []

    def sorted_rank(self, k):
        """(family, position) of a symbolic key whose sorted position is known"""
        return self.rank.get(vkey(k))

    def fresh_hook_id(self):
        self.hookids += 1
        return 1000000 + self.hookids

    def fresh_int(self, p='i'):
        self.fresh += 1
        return z3.Int('%s!%d' % (p, self.fresh))

    def fresh_name(self, p):
        self.fresh += 1
        return '%s!%d' % (p, self.fresh)

    def snapshot(self):
        return (len(Heap.objs), [(o, o.save()) for o in Heap.objs], [(f, dict(f.vars)) for f in self.frames], dict(self.famcache), list(self.frames))

    def restore(self, s):
        n, objs, frames, fc, fl = s
        del Heap.objs[n:]
        for o, c in objs:
            o.load(c)
        for f, v in frames:
            f.vars.clear()
            f.vars.update(v)
        self.famcache = dict(fc)
        self.frames = list(fl)

    # ---------------------------------------------------------------- paths
    def branch(self, c):
        if isinstance(c, bool):
            return c
        r = self.ctx.decide(c)
        if r is not None:
            return r
        if self.dec is None:
            raise Unsupported('branch outside of path exploration')
        pre, pos = self.dec
        if pos < len(pre):
            d = pre[pos]
        else:
            d = True
            pre.append(True)
        self.dec[1] = pos + 1
        self.ctx.stack.append(c if d else z3.Not(c))
        return d

    def explore(self, fn, cb):
        """run fn on every path, calling cb(conds, outcome) with the final state of each path still in place"""
        saved = self.dec
        pre = []
        n = len(self.ctx.stack)
        m = len(self.ctx.index)
        q = len(self.ctx.foralls)
        gn = self.grad_names
        count = 0
        try:
            while True:
                self.grad_names = gn
                count += 1
                if count > self.max_paths:
                    raise Unsupported('too many paths')
                self.dec = [pre, 0]
                try:
                    try:
                        out = ('ok', fn())
                    except PyRaise as e:
                        out = ('raise', e.exc)
                    cb(list(self.ctx.stack[n:]), out)
                except Infeasible:
                    pass
                pos = self.dec[1]
                del self.ctx.stack[n:]
                del self.ctx.index[m:]
                del self.ctx.foralls[q:]
                pre = pre[:pos]
                while pre and pre[-1] is False:
                    pre.pop()
                if not pre:
                    break
                pre[-1] = False
        finally:
            self.dec = saved
            del self.ctx.stack[n:]
            del self.ctx.index[m:]
            del self.ctx.foralls[q:]

    # ---------------------------------------------------------------- modules
    def path_of(self, name):
        p = os.path.join(REPO, name.replace('.', '/'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isdir(p) and name.startswith('neuro_shooting'):
            return p
        return None

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = self.path_of(name)
        if p is None:
            raise Unsupported('module ' + name)
        m = RModule(name)
        self.modules[name] = m
        if os.path.isdir(p):
            return m
        if p not in self.src_cache:
            self.src_cache[p] = parse_quiet(open(p).read(), p)
        tree = self.src_cache[p]
        fr = Frame(m.vars, m)
        self.frames.append(fr)
        try:
            for st in tree.body:
                self.stmt(st, fr)
        finally:
            self.frames.pop()
        return m

    def import_name(self, name):
        if name.split('.')[0] == 'neuro_shooting':
            return self.module(name)
        return ExtMod(name)

    def lookup(self, qual):
        """'module:Class.method' -> value"""
        mod, _, rest = qual.partition(':')
        v = self.module(mod)
        for part in rest.split('.'):
            if isinstance(v, RModule):
                if part not in v.vars:
                    raise Unsupported('no %s in %s' % (part, v.name))
                v = v.vars[part]
            elif isinstance(v, RClass):
                c, a = v.find(part)
                if a is None:
                    raise Unsupported('no attribute %s' % part)
                v = a
            else:
                raise Unsupported('lookup ' + qual)
        return v

    # ---------------------------------------------------------------- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('step budget')
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        try:
            return m(st, fr)
        except Unsupported as e:
            if not getattr(e, 'loc', None):
                e.loc = '%s:%d' % (fr.module.name.split('.')[-1], st.lineno)
                e.args = (str(e) + ' @' + e.loc,)
            raise

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                try:
                    v = self.import_name(a.name)
                except Unsupported:
                    v = ExtMod(a.name)
                self.setvar(fr, a.asname, v)
            else:
                top = a.name.split('.')[0]
                if top == 'neuro_shooting':
                    self.import_name(a.name)
                self.setvar(fr, top, self.import_name(top))

    def st_ImportFrom(self, st, fr):
        mod = st.module or ''
        if st.level:
            base = fr.module.name.rsplit('.', st.level)[0]
            mod = base + ('.' + mod if mod else '')
        for a in st.names:
            nm = a.asname or a.name
            if mod.split('.')[0] == 'neuro_shooting':
                if self.path_of(mod + '.' + a.name):
                    v = self.module(mod + '.' + a.name)
                elif self.path_of(mod) and not os.path.isdir(self.path_of(mod)):
                    m = self.module(mod)
                    if a.name not in m.vars:
                        raise PyRaise(ExcVal('ImportError'))
                    v = m.vars[a.name]
                else:
                    raise PyRaise(ExcVal('ImportError'))
            elif mod == '__future__':
                continue
            else:
                v = self.ext.resolve(mod + '.' + a.name)
            self.setvar(fr, nm, v)

    def st_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            dn = ast.unparse(d)
            if dn == 'property':
                v = Prop(v)
            elif dn == 'staticmethod':
                v = Static(v)
            elif dn == 'classmethod':
                v = ClassM(v)
            elif dn in ('abstractmethod', 'abc.abstractmethod'):
                pass
            elif dn.endswith('.setter'):
                raise Unsupported('property setter')
            else:
                v = self.call(self.ev(d, fr), [v], {})
        self.setvar(fr, st.name, v)

    def mkfunc(self, node, fr):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [None if d is None else (self.ev(d, fr),) for d in a.kw_defaults]
        parent = fr if fr.func is not None or getattr(fr, 'is_class', False) else None
        if getattr(fr, 'is_class', False):
            parent = fr.parent
        f = Func(node, fr.module, parent, defaults, kwd)
        return f

    def st_ClassDef(self, st, fr):
        if st.decorator_list:
            raise Unsupported('class decorator')
        bases = [self.ev(b, fr) for b in st.bases]
        cf = Frame({}, fr.module, fr if fr.func is not None else None, None)
        cf.is_class = True
        self.frames.append(cf)
        try:
            for s in st.body:
                self.stmt(s, cf)
        finally:
            self.frames.pop()
        if not bases:
            bases = [ExtFn('object')]
        bases = [b if isinstance(b, (RClass, ExtFn)) else ExtFn(getattr(b, 'name', 'object')) for b in bases]
        c = RClass(st.name, bases, cf.vars, fr.module)
        for v in cf.vars.values():
            while isinstance(v, (Prop, Static, ClassM)):
                v = v.f
            if isinstance(v, Func) and v.cls is None:
                v.cls = c
        self.setvar(fr, st.name, c)

    def st_Return(self, st, fr):
        raise ReturnEx(self.ev(st.value, fr) if st.value is not None else None)

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    raise PyRaise(ExcVal('NameError'))
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.deref(self.ev(t.value, fr))
                k = self.ev(t.slice, fr)
                self.ext.delitem(self, o, k)
            else:
                raise Unsupported('del target')

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.getvar(fr, t.id)
            rhs = self.ev(st.value, fr)
            v = self.aug(st.op, cur, rhs)
            self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            rhs = self.ev(st.value, fr)
            self.setattr(o, t.attr, self.aug(st.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            rhs = self.ev(st.value, fr)
            self.setitem(o, k, self.aug(st.op, cur, rhs))
        else:
            raise Unsupported('augassign target')

    def aug(self, op, cur, rhs):
        c = self.deref(cur)
        if isinstance(c, PList) and isinstance(op, ast.Add):
            self.ext.list_extend(self, c, rhs)
            return c
        if isinstance(c, PTensor) and not isinstance(op, (ast.MatMult,)):
            # in-place tensor arithmetic: update the box (visible to aliases)
            r = self.binop(op, c, rhs)
            r = self.deref(r)
            if isinstance(r, PTensor):
                self.ext.inplace(self, c, r.term)
                return c
            raise Unsupported('in-place on tensor')
        return self.binop(op, cur, rhs)

    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def st_While(self, st, fr):
        from . import loops
        loops.do_while(self, st, fr)

    def st_For(self, st, fr):
        from . import loops
        src = self.ev(st.iter, fr)
        if isinstance(st.iter, ast.Name) and self.ext.is_iterator(self.force(src)) and any(isinstance(x, (ast.Break, ast.Return)) for y in st.body for x in ast.walk(y)):
            raise Unsupported('iterator consumed in part')
        it0 = self.iterate(src)
        parts = it0.parts if isinstance(it0, self.ext.SegIter) else [it0]
        for it in parts:
            if isinstance(it, list):
                for v in it:
                    self.assign(st.target, v, fr)
                    try:
                        self.block(st.body, fr)
                    except BreakEx:
                        return
                    except ContinueEx:
                        continue
                continue
            if not isinstance(it, SymIter):
                raise Unsupported('iteration over an opaque shape')

            def body(i, it=it):
                self.assign(st.target, it.at(i), fr)
                try:
                    self.block(st.body, fr)
                except ContinueEx:
                    pass
            if loops.sym_for(self, it.lo, it.hi, body, fr) == 'break':
                return
        self.block(st.orelse, fr)

    def st_Break(self, st, fr):
        raise BreakEx()

    def st_Continue(self, st, fr):
        raise ContinueEx()

    def st_Raise(self, st, fr):
        if st.exc is None:
            raise PyRaise(getattr(self, 'cur_exc', None) or ExcVal('RuntimeError'))
        v = self.ev(st.exc, fr)
        if isinstance(v, ExtFn):
            v = ExcVal(v.name)
        if isinstance(v, RClass):
            v = self.instantiate_class(v, [], {})
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of %r' % (v,))
        raise PyRaise(v)

    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise PyRaise(ExcVal('AssertionError'))

    def st_Try(self, st, fr):
        try:
            self.try_body(st, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(st.finalbody, fr)
            raise
        self.block(st.finalbody, fr)

    def try_body(self, st, fr):
        try:
            self.block(st.body, fr)
        except PyRaise as e:
            for h in st.handlers:
                if h.type is None:
                    names = ['BaseException']
                else:
                    tv = self.ev(h.type, fr)
                    names = [x.name for x in tv] if isinstance(tv, tuple) else [tv.name]
                if any(exc_isa(m, n) for n in names for m in (e.exc.name,) + e.exc.bases):
                    if h.name:
                        self.setvar(fr, h.name, e.exc)
                    old = getattr(self, 'cur_exc', None)
                    self.cur_exc = e.exc
                    try:
                        self.block(h.body, fr)
                    finally:
                        self.cur_exc = old
                    return
            raise
        self.block(st.orelse, fr)

    def st_With(self, st, fr):
        self.with_items(list(st.items), st, fr)

    def with_items(self, items, st, fr):
        if not items:
            self.block(st.body, fr)
            return
        item = items.pop(0)
        v = self.force(self.ev(item.context_expr, fr))
        if isinstance(v, PInst) and v.cls.find('__enter__')[1] is not None and v.cls.find('__exit__')[1] is not None:
            w = self.call(BM(v.cls.find('__enter__')[1], v), [], {})
            if item.optional_vars is not None:
                self.assign(item.optional_vars, w, fr)
            leave = lambda a: self.call(BM(v.cls.find('__exit__')[1], v), a, {})
            try:
                self.with_items(items, st, fr)
            except PyRaise as e:
                if self.truth(leave([ExtFn(e.exc.name), e.exc, None])):
                    return
                raise
            except (ReturnEx, BreakEx, ContinueEx):
                leave([None, None, None])
                raise
            leave([None, None, None])
            return
        if not (isinstance(v, ExtObj) or v is None):
            raise Unsupported('with %r' % (v,))
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        old = PTensor.nograd
        if isinstance(v, ExtObj) and v.name in ('no_grad', 'enable_grad'):
            PTensor.nograd = v.name == 'no_grad'
        try:
            self.with_items(items, st, fr)
        finally:
            PTensor.nograd = old

    def st_Global(self, st, fr):
        fr.globals_decl |= set(st.names)

    def st_Nonlocal(self, st, fr):
        fr.nonlocal_decl |= set(st.names)

    # ---------------------------------------------------------------- variables
    def setvar(self, fr, name, v):
        if name in fr.globals_decl:
            fr.module.vars[name] = v
            return
        if name in fr.nonlocal_decl:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        fr.vars[name] = v

    def getvar(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise ReadPoison(v)
                return v
            f = f.parent
        if name in fr.module.vars:
            v = fr.module.vars[name]
            if isinstance(v, Poison):
                raise ReadPoison(v)
            return v
        b = self.ext.builtin(name)
        if b is not None:
            return b
        if name in EXC_NAMES:
            return ExtFn(name)
        if hasattr(builtins, name):
            raise Unsupported('builtin ' + name)
        raise PyRaise(ExcVal('NameError', (name,)))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vs):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, y, fr)
                else:
                    self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.evslice(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, elts):
        it = self.iterate(v)
        if not isinstance(it, list):
            raise Unsupported('unpack of symbolic-length sequence')
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            s = star[0]
            after = len(elts) - s - 1
            if len(it) < len(elts) - 1:
                raise PyRaise(ExcVal('ValueError'))
            return it[:s] + [PList(it[s:len(it) - after])] + it[len(it) - after:]
        if len(it) != len(elts):
            raise PyRaise(ExcVal('ValueError', ('unpack',)))
        return it

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        v = m(e, fr)
        if isinstance(v, Poison):
            raise ReadPoison(v)
        return v

    def ev_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') else v
        if v is Ellipsis:
            return Ellipsis
        return v

    def ev_Name(self, e, fr):
        return self.getvar(fr, e.id)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.evslice(e.slice, fr))

    def evslice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, fr) if s.lower else None, self.ev(s.upper, fr) if s.upper else None, self.ev(s.step, fr) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.evslice(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def ev_Slice(self, s, fr):
        return self.evslice(s, fr)

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if isinstance(it, list):
                    out += [Item(y) for y in it]
                elif isinstance(it, StarShape):
                    out.append(it)
                else:
                    out.append(self.seg_of(it))
            else:
                out.append(Item(self.ev(x, fr)))
        return out

    def seg_of(self, it):
        i = self.fresh_int('s')
        if isinstance(it, SymIter):
            return Seg(it.lo, it.hi, i, unbox(it.at(i)))
        raise Unsupported('segment')

    def ev_Tuple(self, e, fr):
        xs = self.elts(e.elts, fr)
        if all(isinstance(x, Item) for x in xs):
            return tuple(x.v for x in xs)
        if any(isinstance(x, StarShape) for x in xs):
            return self.star_shape(xs)
        return SymTuple(xs)

    def star_shape(self, xs):
        if not isinstance(xs[-1], StarShape) or not all(isinstance(x, Item) for x in xs[:-1]):
            raise Unsupported('opaque shape in the middle')
        s = xs[-1].shape
        return ShapeVal([x.v for x in xs[:-1]] + list(s.lead), s.tail)

    def ev_List(self, e, fr):
        xs = self.elts(e.elts, fr)
        if any(isinstance(x, StarShape) for x in xs):
            return self.star_shape(xs)
        return PList(segs=xs)

    def ev_Set(self, e, fr):
        return self.ext._set(self, [PList([self.ev(x, fr) for x in e.elts])], {})

    def ev_Dict(self, e, fr):
        d = PDict('dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ext.dict_update(self, d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.ext.dict_set(self, d, kk, self.ev(v, fr))
        return d

    def ev_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr)
                spec = '' if x.format_spec is None else self.ev(x.format_spec, fr)
                parts.append(self.ext.fmt_value(self, v, spec, {-1: None, 115: 's', 114: 'r', 97: 'a'}[x.conversion]))
        return sstr(*parts)

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        return self.ext.binop(self, type(op).__name__, a, b)

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.boolval(v)
            return (not t) if isinstance(t, bool) else z3.simplify(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, Fraction, float)):
                return -v
            v = self.force(v)
            if isinstance(v, PTensor):
                from . import tensor as T
                return T.unary(self, 'neg', v)
            return self.ext.binop(self, 'Sub', 0, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.ext.invert(self, v)
        raise Unsupported('unary')

    def ev_BoolOp(self, e, fr):
        # short-circuit; returns the deciding operand
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not is_z3(v) else False
            if not isand and t:
                return v if not is_z3(v) else True
        return v

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            r = self.ext.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return True

    def ev_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)

    def ev_Lambda(self, e, fr):
        f = self.mkfunc(e, fr)
        f.parent = fr if fr.func is not None else None
        return f

    def ev_Starred(self, e, fr):
        raise Unsupported('starred')

    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.vars:
            if e.args:
                c = self.ev(e.args[0], fr)
                s = self.ev(e.args[1], fr)
            else:
                c = fr.func.cls
                s = fr.vars[fr.func.node.args.args[0].arg]
            return SuperVal(c, s)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, fr))
                if not isinstance(it, list):
                    if isinstance(it, StarShape) and not args:
                        args.append(it.shape)
                        continue
                    raise Unsupported('*args of symbolic length')
                args += it
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.deref(self.ev(k.value, fr))
                if isinstance(d, PDict) and all(isinstance(x, Ent) for x in d.ents):
                    for x in d.ents:
                        kw[x.k] = x.v
                else:
                    raise Unsupported('**kwargs')
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    # comprehensions
    def comp(self, gens, fr, emit):
        """emit(frame) -> value;  returns list of segments"""
        g = gens[0]
        it = self.iterate(self.ev(g.iter, fr))
        if isinstance(it, self.ext.SegIter):
            out = []
            for p in it.parts:
                out += self.comp1(p, g, gens, fr, emit)
            return out
        return self.comp1(it, g, gens, fr, emit)

    def comp1(self, it, g, gens, fr, emit):
        out = []
        if isinstance(it, list):
            for v in it:
                self.assign(g.target, v, fr)
                if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                    if len(gens) == 1:
                        out.append(Item(emit(fr)))
                    else:
                        out += self.comp(gens[1:], fr, emit)
            return out
        if not isinstance(it, SymIter):
            raise Unsupported('comprehension over an opaque shape')
        from . import loops

        lst = PList()

        def body(i):
            self.assign(g.target, it.at(i), fr)
            if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                if len(gens) == 1:
                    lst.segs = lst.segs + [Item(emit(fr))]
                else:
                    lst.segs = lst.segs + self.comp(gens[1:], fr, emit)
        loops.sym_for(self, it.lo, it.hi, body, fr)
        return lst.segs

    def compframe(self, fr):
        f = Frame({}, fr.module, fr if fr.func is not None or fr.parent is not None or True else None, fr.func)
        return f

    def with_frame(self, f, fn):
        self.frames.append(f)
        try:
            return fn()
        finally:
            if self.frames and self.frames[-1] is f:
                self.frames.pop()

    def ev_ListComp(self, e, fr):
        f = self.compframe(fr)
        return self.with_frame(f, lambda: PList(segs=self.comp(e.generators, f, lambda g: self.ev(e.elt, g))))

    def ev_GeneratorExp(self, e, fr):
        l = self.ev_ListComp(e, fr)
        l.kind = 'gen'
        return l

    def ev_SetComp(self, e, fr):
        l = self.ev_ListComp(e, fr)
        return self.ext._set(self, [l], {})

    def ev_DictComp(self, e, fr):
        f = self.compframe(fr)
        segs = self.with_frame(f, lambda: self.comp(e.generators, f, lambda g: (self.ev(e.key, g), self.ev(e.value, g))))
        d = PDict('dict')
        self.ext.dict_update(self, d, PList(segs=segs))
        return d

    # ---------------------------------------------------------------- truth
    def boolval(self, v):
        """python bool or z3 Bool"""
        v = self.deref(v)
        if isinstance(v, Opt):
            if self.branch(v.isnone):
                return False
            return self.boolval(v.val)
        if v is None:
            return False
        if self.ext.is_iterator(v):
            return True
        v = self.ext.as_index(v)
        if isinstance(v, (bool, int, str, Fraction, float)):
            return bool(v)
        if is_zbool(v):
            return simp(v)
        if is_zint(v):
            return simp(v != 0)
        if isinstance(v, PList):
            return simp(zi(v.length()) > 0)
        if isinstance(v, SymTuple):
            return simp(zi(v.length()) > 0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PDict):
            return simp(zi(self.ext.dict_len(self, v)) > 0)
        if isinstance(v, PSet):
            return len(v.items) > 0
        if isinstance(v, (PInst, Func, BM, RClass, ExtFn, ExtMod, ExtObj, Bi)):
            return True
        if isinstance(v, PTensor):
            c = v.flags.get('cond')
            if c is not None:
                return c
            raise Unsupported('truth value of a tensor')
        if isinstance(v, Expr):
            raise Unsupported('truth of real')
        if z3.is_expr(v) and v.sort() == z3.RealSort():
            return simp(z3.Not(v == 0))
        raise Unsupported('truth of %r' % (type(v),))

    def truth(self, v):
        return self.branch(self.boolval(v))

    # ---------------------------------------------------------------- object access
    def deref(self, v):
        if isinstance(v, FamRef):
            k = v.key()
            if k in self.famcache:
                return self.famcache[k]
            for k2, o2 in self.famcache.items():
                f2 = o2.famref
                if f2.fam is v.fam and getattr(o2, 'dirty0', None) is not None and vkey([getattr(o2, f) for f in o2._fields]) != o2.dirty0:
                    c = self.ctx.decide(z3.And(*[a == b for a, b in zip(f2.idx, v.idx)]))
                    if c is True:
                        return o2
                    if c is None:
                        raise Unsupported('possible alias of a modified family member')
            o = self.instantiate(v)
            self.famcache[k] = o
            return o
        if isinstance(v, Tensor):
            return PTensor(v, shared=True)
        if isinstance(v, Opt):
            c = self.ctx.decide(v.isnone) if is_z3(v.isnone) else v.isnone
            if c is True:
                return None
            if c is False:
                return self.deref(v.val)
            return v
        return v

    def instantiate(self, ref):
        t = ref.fam.template
        pairs = list(zip(ref.fam.ivars, ref.idx))
        o = type(t).__new__(type(t))
        PObj.__init__(o)
        for f in t.__dict__:
            if f in ('oid', 'famref', 'dirty0'):
                continue
            x = getattr(t, f)
            o.__dict__[f] = sub_field(x, pairs)
        o.famref = ref
        o.dirty0 = vkey([getattr(o, f) for f in o._fields])
        return o

    def force(self, v):
        """resolve Opt by branching"""
        v = self.deref(v)
        if isinstance(v, Opt):
            if self.branch(v.isnone):
                return None
            return self.deref(v.val)
        return v

    def getattr(self, o, name):
        o = self.force(o)
        return self.ext.get_attr(self, o, name)

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, PInst):
            self.ext.inst_setattr(self, o, name, v)
            return
        if isinstance(o, PTensor):
            if name == 'requires_grad':
                from . import tensor as T
                T.set_requires_grad(self, o, v)
                return
            if name in ('grad', 'data'):
                if name == 'data':
                    raise Unsupported('tensor.data assignment')
                fl = dict(o.flags)
                fl[name] = v
                o.flags = fl
                return
        if isinstance(o, RModule):
            o.vars[name] = v
            return
        raise Unsupported('setattr %s on %r' % (name, type(o)))

    def getitem(self, o, k):
        return self.ext.get_item(self, self.force(o), k)

    def setitem(self, o, k, v):
        self.ext.set_item(self, self.force(o), k, v)

    def iterate(self, v):
        return self.ext.iterate(self, self.force(v))

    def iterate_concrete(self, v):
        it = self.iterate(v)
        if not isinstance(it, list):
            raise Unsupported('symbolic-length iteration')
        return it

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, Bi):
            return f.f(self, args, kw)
        if isinstance(f, BM):
            if isinstance(f.func, Bi):
                return f.func.f(self, [f.self_] + list(args), kw)
            return self.call_func(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, RClass):
            return self.instantiate_class(f, args, kw)
        if isinstance(f, ExtFn):
            return self.ext.call_ext(self, f.name, args, kw)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2)
        if isinstance(f, PInst):
            c, a = f.cls.find('__call__')
            if a is not None:
                return self.call(BM(a, f), args, kw)
            if 'torch.nn.Module' in self.ext.ext_bases_closure(f.cls):
                c, a = f.cls.find('forward')
                if a is not None:
                    return self.call(BM(a, f), args, kw)
                return self.ext.ext_method(self, f, 'forward', c)(self, [f] + list(args), kw)
            raise PyRaise(ExcVal('TypeError', ('object is not callable',)))
        if isinstance(f, ExtObj) and f.call is not None:
            return f.call(self, args, kw)
        if f is None or isinstance(f, (int, str, PList, PDict, PTensor)):
            raise PyRaise(ExcVal('TypeError', ('not callable',)))
        raise Unsupported('call of %r' % (f,))

    def instantiate_class(self, c, args, kw):
        if any(isinstance(b, ExtFn) and b.name in EXC_NAMES for b in c.mro):
            if c.find('__init__')[1] is not None or kw:
                raise Unsupported('exception class with its own constructor')
            return ExcVal(c.name, tuple(args), tuple(b.name for b in c.mro if b is not c))
        o = PInst(c)
        cc, a = c.find('__init__')
        if a is not None:
            self.call(BM(a, o), args, kw)
        elif cc is not None:
            f = self.ext.ext_method(self, o, '__init__', cc)
            f(self, [o] + list(args), kw)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        vars = {}
        args = list(args)
        kw = dict(kw)
        npos = min(len(args), len(names))
        for n, v in zip(names, args):
            vars[n] = v
        rest = args[len(names):]
        if a.vararg:
            vars[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(ExcVal('TypeError', ('too many positional arguments',)))
        for n in names:
            if n in kw:
                if n in vars:
                    raise PyRaise(ExcVal('TypeError', ('multiple values for argument ' + n,)))
                vars[n] = kw.pop(n)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                vars[x.arg] = kw.pop(x.arg)
            elif d is not None:
                vars[x.arg] = d[0]
            else:
                raise PyRaise(ExcVal('TypeError', ('missing kwonly',)))
        nd = len(f.defaults)
        for k, n in enumerate(names):
            if n not in vars:
                di = k - (len(names) - nd)
                if di >= 0:
                    vars[n] = f.defaults[di]
                else:
                    raise PyRaise(ExcVal('TypeError', ('missing argument ' + n,)))
        if a.kwarg:
            d = PDict('dict')
            d.ents = [Ent(k, v) for k, v in kw.items()]
            vars[a.kwarg.arg] = d
        elif kw:
            raise PyRaise(ExcVal('TypeError', ('unexpected keyword ' + str(list(kw)),)))
        return vars

    def call_func(self, f, args, kw):
        q = f.qual()
        self.trace.add(q)
        if q in self.stubs:
            r = self.stubs[q](self, args, kw)
            if r is not NotImplemented:
                return r
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion depth')
        vars = None
        try:
            vars = self.bind_args(f, args, kw)
            fr = Frame(vars, f.module, f.parent, f)
            if isinstance(f.node, ast.Lambda):
                return self.with_frame(fr, lambda: self.ev(f.node.body, fr))
            self.frames.append(fr)
            nf = len(self.frames)
            try:
                if has_yield(f.node):
                    return self.generator(f, fr)
                self.block(f.node.body, fr)
                return None
            except ReturnEx as r:
                return r.v
            finally:
                del self.frames[nf - 1:]
        finally:
            self.depth -= 1


    def generator(self, f, fr):
        """the values are produced at the call; only for generators that change nothing but their own variables"""
        for x in ast.walk(ast.Module(body=f.node.body, type_ignores=[])):
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Delete, ast.Raise)) or isinstance(x, (ast.Assign, ast.AugAssign)) and any(not isinstance(y, (ast.Name, ast.Tuple, ast.List, ast.Starred)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) for y in [t]):
                raise Unsupported('generator function with effects')
        out = PList([])
        out.kind = 'gen'
        fr.yields = out
        try:
            self.block(f.node.body, fr)
        except ReturnEx as r:
            pass
        return out

    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        self.call(self.ext.list_attr(self, fr.yields, 'append'), [v], {})
        return None

    def ev_YieldFrom(self, e, fr):
        self.call(self.ext.list_attr(self, fr.yields, 'extend'), [self.ev(e.value, fr)], {})
        return None


_hy = {}


def own_nodes(node):
    """nodes of a function without those of the functions defined in it"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))


def has_yield(node):
    k = id(node)
    if k not in _hy:
        _hy[k] = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))
    return _hy[k]


class PSet(object):
    def __init__(self, items):
        self.items = list(items)


class Partial(object):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class ExtObj(object):
    """opaque external object (device, dtype, context manager, handle)"""

    def __init__(self, name, call=None, attrs=None):
        self.name, self.call, self.attrs = name, call, attrs or {}


class StarShape(object):
    def __init__(self, shape):
        self.shape = shape


def unbox(v):
    if isinstance(v, PTensor):
        return v.term
    if isinstance(v, tuple):
        return tuple(unbox(x) for x in v)
    return v


def sub_field(x, pairs):
    if isinstance(x, list):
        return [sub_field(y, pairs) for y in x]
    if isinstance(x, dict):
        return dict((k, sub_field(v, pairs)) for k, v in x.items())
    return vsub(x, pairs)
