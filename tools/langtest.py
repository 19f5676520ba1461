"""Differential test of the interpreter of the verifier against CPython: every snippet is run by both, the results must agree
(a snippet outside the subset is reported; it makes obligations undecided, never proved or refuted).

usage: /opt/venv/bin/python tools/langtest.py [-v]    exit 0: no difference
"""
import os
import sys
import textwrap
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from pyvc import prove, interp, ext, sigma         # noqa
from pyvc.prove import V, Ob, run_one              # noqa
from pyvc.objs import *                            # noqa
from pyvc.terms import *                           # noqa
import z3                                          # noqa

EXPRS = r'''
[i*i for i in range(5) if i%2]
{k:v for k,v in zip('abc',range(3))}
sorted({'b':1,'a':2})
sorted([3,1,2],reverse=True)
sorted(['bb','a','ccc'],key=len)
sorted([('b',1),('a',2)],key=lambda x:x[1])
list(reversed([1,2,3]))
list(enumerate(['a','b'],start=1))
list(zip([1,2,3],[4,5]))
max([1,5,2]),min(3,1,2),max('a','b')
max([1,2],key=lambda x:-x)
max([],default=7)
sum([1,2,3]),sum([1,2],10)
any([0,1]),all([1,0]),any([]),all([])
any(x>2 for x in [1,2,3])
[x for xs in [[1],[2,3]] for x in xs]
list(map(lambda a,b:a+b,[1,2],[3,4]))
list(filter(None,[0,1,2]))
len({1,2,2})
sorted(set('abca'))
sorted({1,2}|{3}),sorted({1,2}&{2}),sorted({1,2}-{2}),sorted({1,2}^{2,3})
{1,2}<={1,2,3}, 2 in {1,2}
'a{}b{:d}'.format(1,2)
'{:02d}-{:.3f}-{:>5}|{:<5}|{:^5}'.format(3,1.5,'x','y','z')
'{0}{1}{0}'.format('a','b')
'{x}_{y}'.format(x=1,y='q')
'{!r}'.format('a')
f"{1+1}-{'a'}-{3:03d}-{2.5:.1f}"
f"{'a'!r} {'b':>3}"
'%s_%d_%05.2f' % ('a',3,2.5)
'%s' % 3
'a,b,c'.split(',')
'a b  c'.split()
'a,b,c'.split(',',1)
'a.b.c'.rsplit('.',1)
'abc'.partition('b')
'a.b'.rpartition('.')
'-'.join(['a','b'])
'abc'.startswith('ab'),'abc'.endswith(('c','d'))
'abcabc'.replace('b','x')
'abcabc'.replace('b','x',1)
'abcabc'.count('b'),'abc'.find('c'),'abc'.index('b'),'abc'.rfind('z')
' a '.strip(),'xax'.strip('x'),'xa'.lstrip('x')
'Ab'.lower(),'Ab'.upper(),'ab'.capitalize(),'ab cd'.title(),'aB'.swapcase()
'abc'[1:],'abc'[-1],'abc'[::-1]
'a' in 'abc','z' not in 'abc'
'a'*3,'a'+'b'
'12'.isdigit(),'ab'.isalpha(),''.isdigit()
'7'.zfill(3),'a'.ljust(3),'a'.rjust(3),'a'.center(3)
'abc'.removeprefix('a'),'abc'.removesuffix('c')
ord('a'),chr(98)
int('12'),float('1.5'),str(12),str(1.5),str(True),str(None),repr('a')
int(2.7),int(-2.7),round(2.5),round(3.5),round(2.345,1)
7//2,-7//2,7%3,-7%3,7.5//2,2**10,2**-1,7/2
divmod(7,2),abs(-3),pow(2,3)
1<2<3,1<3<2,not 1,1 and 2,0 or 3
1 if 2>1 else 0
None is None,None==0,1==1.0,'a'=='a',[1]==[1],(1,2)==(1,2),{'a':1}=={'a':1}
[1,2]<[1,3],(1,2)<(2,),'a'<'b'
isinstance(1,int),isinstance('a',str),isinstance([],(list,tuple)),isinstance(True,int),isinstance(None,type(None))
type(1).__name__,type('a') is str
[1,2,3][1:],[1,2,3][::-1],[1,2,3,4][::2],[1,2,3][-2:]
[1]+[2],[0]*3,[[0]*2 for _ in range(2)]
(1,)+(2,3),(1,2)*2
dict(a=1,b=2),dict([('a',1)]),dict({'a':1},b=2)
{**{'a':1},**{'a':2,'b':3}}
[*[1,2],3,*(4,5)]
(*[1],2)
list({'a':1,'b':2}.items()),list({'a':1}.values()),list({'a':1}.keys()),list({'a':1})
{'a':1}.get('b'),{'a':1}.get('b',5),{'a':1}.get('a')
'a' in {'a':1},'b' in {'a':1}.keys(),1 in {'a':1}.values()
dict.fromkeys(['a','b'],0)
tuple(x for x in [1,2])
list(range(5,0,-2)),len(range(3,10,2)),range(5)[2],3 in range(5)
(lambda x,y=2:x+y)(1)
(lambda *a,**k:(a,sorted(k)))(1,2,b=3)
[a for a,*b in [(1,2,3),(4,5)]]
next(iter([1,2])),next(iter([]),9)
bool([]),bool('a'),bool(0.0),bool({})
list(itertools.chain([1],[2,3])),list(itertools.product([1,2],[3,4])),list(itertools.accumulate([1,2,3])),list(itertools.repeat(1,2)),list(itertools.islice([1,2,3],2))
list(itertools.chain.from_iterable([[1],[2]])),list(itertools.combinations([1,2,3],2)),list(itertools.permutations([1,2])),list(itertools.zip_longest([1],[2,3]))
functools.reduce(lambda a,b:a*b,[1,2,3]),functools.reduce(lambda a,b:a+b,[],5)
functools.partial(lambda a,b:(a,b),1)(2)
math.sqrt(4),math.floor(2.5),math.ceil(2.5),math.prod([2,3])
list(OrderedDict([('b',1),('a',2)])),list(SortedDict({'b':1,'a':2}))
SortedDict({'b':1,'a':2}).values()[0],SortedDict({'b':1,'a':2}).keys()[0],SortedDict({'b':1,'a':2}).peekitem(0),SortedDict({'b':1,'a':2}).items()[1]
operator.add(1,2),operator.itemgetter(1)([4,5])
os.path.join('a','b'),os.path.basename('a/b.c'),os.path.splitext('a/b.c'),os.path.dirname('a/b')
(x:=3)+x
callable(len),hasattr('a','upper'),getattr('a','zz',3)
zip(*[(1,2),(3,4)]).__class__ is zip
list(zip(*[(1,2),(3,4)]))
id(1)==id(1)
[x for x in (1,2,3) if x!=2 and not x==3]
{x%2 for x in range(4)}=={0,1}
sorted([1,2,3],key=lambda x:(-x%2,x))
1_000, 0x10, 1e-3, .5
True+True, not None, ~1, 5&3, 5|3, 5^3, 1<<3, 8>>1
[1,2,3].index(2),[1,2,1].count(1),(1,2,1).count(1),(1,2).index(2)
"a" "b"
'{}'.format([1,'a']),str((1,2)),str({'a':1})
'{:s}'.format('a'),'{:5.1f}'.format(2.25),'{:e}'.format(12345.678),'{:,}'.format(12345),'{:g}'.format(.5)
'{:>{w}}'.format('a',w=4)
'a\tb'.expandtabs(),'a\nb'.splitlines()
'abc'.translate(str.maketrans('a','x'))
'aXbX'.split('X'),'abc'.encode().decode()
copy.copy([1,2]),copy.deepcopy({'a':[1]})
slice(1,2)==slice(1,2),[1,2,3][slice(1,3)]
min({'b':1,'a':2}),max({'b':1,'a':2}.values()),min((3,'a'),(2,'b'))
list(dict(sorted({'b':1,'a':2}.items())))
sum(len(s) for s in ['a','bb']),','.join(str(i) for i in range(3))
[i for i,c in enumerate('abc') if c>'a']
list('abc'),tuple('ab'),set('a')=={'a'}
'abc'[5:],[1,2][7:],[][:1]
int(True),float(3),bool(2),complex(1,2).real
'a' if [] else 'b' if {} else 'c'
not(1 in [2]),(1,2)!=(1,3)
[print('x')]
range(3)==range(0,3),list(range(-1,-4,-1))
'%-5s|%5s|%+d' % ('a','b',3)
'%(a)s' % {'a':1}
'{a[0]}{b.real}'.format(a=[1],b=2)
f'{"a"}{1}' f'b',f'{1:{2}}',f'{[1,2]!s}'
'%.2e' % 1234.5,'%i%%' % 5
'a-b_c'.replace('-','').replace('_','')
'\n'.join(['a']),'a\\b'
'Straße'.casefold(),'abc'.isidentifier(),'A'.isupper(),' '.isspace(),'a1'.isalnum()
'''

STMTS = r'''
s=0
for i in range(5):
    if i==1: continue
    if i==4: break
    s+=i
else:
    s=100
return s
---
for i in [1]:
    pass
else:
    i=7
return i
---
n=5; r=[]
while n:
    n-=1
    if n==2: continue
    r.append(n)
else:
    r.append('e')
return r
---
try:
    {}['a']
except KeyError as e:
    return 'k'
---
try:
    [][0]
except (KeyError,IndexError):
    return 'i'
finally:
    pass
---
r=[]
try:
    r.append(1)
except ValueError:
    r.append(2)
else:
    r.append(3)
finally:
    r.append(4)
return r
---
def g():
    try:
        return 1
    finally:
        pass
return g()
---
def g(n):
    if n<=1: return 1
    return n*g(n-1)
return g(5)
---
def g():
    for i in range(3):
        yield i
    yield from [7,8]
return list(g())
---
def mk():
    c=0
    def inc():
        nonlocal c
        c+=1
        return c
    return inc
f=mk(); f()
return f()
---
class A:
    k=1
    def __init__(self,x): self.x=x
    @property
    def y(self): return self.x+1
    @y.setter
    def y(self,v): self.x=v
    @staticmethod
    def s(a): return a*2
    @classmethod
    def c(cls,a): return cls(a)
    def __len__(self): return 3
    def __getitem__(self,i): return i*2
    def __call__(self,z): return self.x+z
    def __eq__(self,o): return self.x==o.x
    def __add__(self,o): return A(self.x+o.x)
    def __contains__(self,v): return v==self.x
    def __repr__(self): return 'A%d'%self.x
    def __iter__(self): return iter([1,2])
    def __bool__(self): return False
a=A.c(3); a.y=5
return a.x,a.y,A.s(4),len(a),a[4],a(1),a==A(5),(a+a).x,5 in a,repr(a),list(a),bool(a),A.k,a.k
---
class A(object):
    def f(self): return 'A'
class B(A):
    def f(self): return 'B'+super().f()
class C(B):
    def f(self): return 'C'+super(C,self).f()
return C().f(),isinstance(C(),A),issubclass(C,A),C.__name__
---
class A:
    def __getattr__(self,n): return n
return A().zz
---
class A(dict):
    pass
a=A(); a['x']=1
return a['x'],len(a)
---
a,b=1,2
a,b=b,a
(c,d),e=(1,2),3
f,*g=[1,2,3]
*h,i=[1,2,3]
return a,b,c,d,e,f,g,h,i
---
a=b=[1]
a.append(2)
return b
---
l=[1,2,3]
l[1:2]=[7,8]
del l[0]
l.insert(0,9); l.extend([5]); l+= [6]; x=l.pop(); y=l.pop(0); l.remove(7)
return l,x,y
---
l=[3,1,2]
l.sort(); m=list(l); l.reverse(); l2=l.copy(); l.clear()
return m,l2,l
---
l=[3,1,2]
l.sort(key=lambda x:-x)
return l
---
d={'a':1}
d.update({'b':2}); d.update(c=3); d.setdefault('z',[]).append(1); x=d.pop('a'); y=d.pop('q',None)
del d['b']
return sorted(d),x,y,d['z']
---
d={}
d['x']=d.get('x',0)+1
d['x']+=1
return d
---
from collections import defaultdict
d=defaultdict(list)
d['a'].append(1)
return d['a'],len(d)
---
from collections import namedtuple
P=namedtuple('P','x y')
p=P(1,2)
return p.x,p.y,p[0]
---
from collections import Counter
return Counter('aab')['a']
---
s=set()
s.add(1); s.update([2,3]); s.discard(9); s.remove(1)
return sorted(s),len(s)
---
x=3
def g(a,b=2,*c,d=4,**e): return a,b,c,d,sorted(e)
return g(1),g(1,2,3,4),g(1,d=5,z=6),g(*[1,2],**{'d':3})
---
def g(a,/,b,*,c=1): return a+b+c
return g(1,2),g(1,b=2,c=3)
---
def deco(f):
    def w(*a,**k): return f(*a,**k)+1
    return w
@deco
def g(x): return x
return g(1)
---
class Ctx:
    def __enter__(self): return 5
    def __exit__(self,*a): return False
with Ctx() as c:
    r=c
return r
---
try:
    raise ValueError('abc')
except Exception as e:
    return str(e),e.args,type(e).__name__
---
class E(ValueError): pass
try:
    raise E('x')
except ValueError:
    return 1
---
try:
    try:
        1/0
    except ZeroDivisionError as e:
        raise RuntimeError('b') from e
except RuntimeError as e:
    return str(e)
---
assert True, 'x'
try:
    assert False
except AssertionError:
    return 'ok'
---
x=[1,2,3]
return [y for y in x if (z:=y*2)>2]
---
r=[]
for k,v in sorted({'b':1,'a':2}.items()):
    r.append((k,v))
for i,(a,b) in enumerate(zip([1,2],[3,4])):
    r.append(i+a*b)
return r
---
def g(): pass
return g() is None
---
g = None
g = g or 5
h = 0
h = 5 if h is None else h
return g,h
---
x=[[1,2],[3]]
y=[list(a) for a in x]
y[0][0]=9
return x,y
---
import copy
x={'a':[1]}
y=copy.deepcopy(x); y['a'].append(2)
z=copy.copy(x); z['b']=1
return x,y
---
d={'a':1,'b':2}
for k in list(d.keys()):
    if d[k]==1: del d[k]
return d
---
i=0
while True:
    i+=1
    if i>3: break
return i
---
global_x=1
def g():
    return global_x if False else 2
return g()
---
match 3:
    case 1: return 'a'
    case _: return 'b'
---
x: int = 3
x += 1; x *= 2; x -= 1; x //= 2; x **= 2; x %= 5
return x
---
it=iter([1,2,3])
a=next(it)
return a,list(it)
---
g=(i for i in [1,2])
return next(g),list(g)
---
a={'k':1}
b=a
b['k']=2
return a is b,a['k']
---
class A:
    n=0
    def inc(self): A.n+=1
A().inc(); A().inc()
return A.n
---
class A:
    def __init__(self): self.__p=1; self._q=2
    def g(self): return self.__p
a=A(); setattr(a,'z',3); delattr(a,'_q')
return a.g(),a.z,hasattr(a,'_q'),getattr(a,'w',None),sorted(vars(a))
---
from functools import lru_cache
@lru_cache(None)
def f(n): return n if n<2 else f(n-1)+f(n-2)
return f(10)
---
from dataclasses import dataclass
@dataclass
class P:
    x: int
    y: int = 2
return P(1).y,P(1)==P(1,2)
---
from enum import Enum
class C(Enum):
    A=1
return C.A.value,C.A is C.A
---
def f(x,acc=[]):
    acc.append(x); return list(acc)
f(1)
return f(2)
---
fs=[lambda i=i:i for i in range(3)]
gs=[lambda:i for i in range(3)]
return [f() for f in fs],[g() for g in gs]
---
a=[1,2,3,4]
a[::2]=[9,9]
b=a[1:3]; b[0]=7
return a,b
---
x=(i*2 for i in range(3))
return sum(x),list(x)
---
s='';
for c in 'abc': s=c+s
return s
---
try:
    int('x')
except ValueError:
    return 'v'
---
try:
    a,b=[1]
except ValueError:
    return 'u'
---
try:
    'a'+1
except TypeError:
    return 't'
---
try:
    None.x
except AttributeError:
    return 'a'
---
def f(a): return a
try:
    f()
except TypeError:
    return 'm'
---
try:
    raise KeyError
except LookupError:
    return 'l'
---
try:
    undefined_name
except NameError:
    return 'n'
---
def h():
    x=1
    def g():
        return x
    x=2
    return g()
return h()
---
d=SortedDict({'b':1})
d['a']=2
ks=[k for k in d]
d.update({'c':1})
return ks,list(d.keys()),list(d.values()),len(d),d.pop('a'),'a' in d,d.copy()==d
---
d=OrderedDict()
d['b']=1; d['a']=2; d.move_to_end('b')
return list(d),d.popitem()
'''


def py(x):
    """value of the engine as a Python value"""
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, Fraction):
        return float(x) if x.denominator != 1 else int(x)
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, tuple):
        return tuple(py(V0.ex.force(y)) for y in x)
    if isinstance(x, PList):
        return [py(V0.ex.force(y)) for y in x.items()]
    if isinstance(x, PDict):
        return dict((k, py(V0.ex.force(v))) for k, v in V0.entries(x))
    if isinstance(x, interp.PSet):
        return set(py(V0.ex.force(y)) for y in x.items)
    if isinstance(x, z3.ExprRef):
        y = z3.simplify(x)
        if z3.is_true(y) or z3.is_false(y):
            return z3.is_true(y)
        if z3.is_int_value(y):
            return y.as_long()
        if z3.is_rational_value(y):
            return float(y.as_fraction())
    raise prove.Unsupported('value %r' % (x,))


def canon(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, float) and x == int(x):
        return int(x)
    if isinstance(x, (list,)):
        return [canon(y) for y in x]
    if isinstance(x, tuple):
        return tuple(canon(y) for y in x)
    if isinstance(x, dict):
        return dict((k, canon(v)) for k, v in x.items())
    return x


PRE = 'import itertools, functools, math, operator, os, copy\nfrom collections import OrderedDict\nfrom sortedcontainers import SortedDict\n'
V0 = None


def main():
    global V0
    verbose = '-v' in sys.argv
    L = [('def main():\n    return (%s,)\n' % e, e) for e in EXPRS.strip().split('\n')] + [('def main():\n' + textwrap.indent(s.strip('\n'), '    ') + '\n', s.strip('\n')) for s in STMTS.split('---\n')]
    agree, differ, out = 0, [], []
    for src, name in L:
        ns = {}
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            exec(PRE + src, ns)
            try:
                want = ns['main']()
            except Exception as e:
                want = e
        if isinstance(want, Exception):
            print('bad snippet', name, want)
            continue
        res = []

        def fn(V_):
            global V0
            V0 = V_
            m = V_.define(PRE + src)
            res.append(py(V_.ex.force(V_.call(m['main']))))
            V_.true(True, 'ran')
        r = run_one(Ob('lang', '', fn, {}))
        if not res:
            if r['status'] == 'refuted':
                differ.append((name, want, r))
            else:
                out.append((name, str(r.get('why') or r)[:150]))
        elif canon(res[0]) == canon(want) and repr(type(res[0])) == repr(type(want)):
            agree += 1
        else:
            differ.append((name, want, res[0]))
    print('snippets: %d, agree %d, outside the subset %d, differ %d' % (len(L), agree, len(out), len(differ)))
    for d in differ:
        print('DIFFER', repr(d[0]), '| want', d[1], '| got', str(d[2])[:300])
    if verbose:
        for o in out:
            print('outside', repr(o[0])[:100], '|', o[1])
    return 1 if differ else 0


if __name__ == '__main__':
    sys.exit(main())
