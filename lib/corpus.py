# -*- coding: utf-8 -*-
"""Curated scripts, one language feature each (C01 and friends)"""
CASES = {
'basic': "x=1\ny=x+2\nprint(x,y)\n",
'bareexcept_raise': "try:\n  1/0\nexcept ZeroDivisionError:\n  try:\n    if True:\n      raise\n  except Exception as e:\n    print(type(e).__name__, e)\n",
'raise_in_if': "try:\n  1/0\nexcept ZeroDivisionError as e:\n  if str(e):\n    print('x')\n    try:\n      raise\n    except ZeroDivisionError: print('ok')\n",
'bareexcept_sysexit': "import sys\ntry:\n  sys.exit(3)\nexcept:\n  print('caught')\nprint('after')\n",
'exit0': "import sys\nprint('a')\nsys.exit(0)\nprint('b')",
'exit1': "import sys\nprint('a')\nsys.exit(1)\nprint('b')",
'exitNone': "import sys\nprint('a')\nsys.exit()\nprint('b')",
'exitstr': "import sys\nprint('a')\nsys.exit('bye')\nprint('b')",
'exitneg': "import sys\nprint('a')\nsys.exit(-1)\nprint('b')",
'func': "def f(a,b=2,*c,d=3,**e):\n  return (a,b,c,d,sorted(e.items()))\nprint(f(1),f(1,2,3,4,d=5,x=6))\n",
'posonly': "def f(a,b,/,c):\n  return (a,b,c)\nprint(f(1,2,c=3))\n",
'lambda': "f=lambda x,y=2:x+y\nprint(f(1),f(1,y=5))\n",
'lambda_kwonly': "f=lambda x,*,y=2:x+y\nprint(f(1),f(1,y=5))\n",
'closure': "def mk(n):\n  def inc(d=1):\n    nonlocal n\n    n+=d\n    return n\n  return inc\nf=mk(3)\nprint(f(),f(4))\n",
'recursion': "def f(n): return 1 if n<2 else n*f(n-1)\nprint(f(10))\n",
'class': "class A:\n  z=3\n  def __init__(self,x): self.x=x\n  def m(self,y): return self.x+y\n  @staticmethod\n  def s(a): return a*2\n  @classmethod\n  def c(cls,a): return (cls.__name__,a)\n  @property\n  def p(self): return self.x\n  def __eq__(self,o): return self.x==o.x\n  def __repr__(self): return 'A(%s)'%self.x\na=A(4)\nprint(a.m(3),A.s(3),A.c(4),a.p,a==A(4),a)\n",
'inherit': "class A:\n  def f(self): return 1\nclass B(A):\n  def f(self): return super().f()+1\nprint(B().f())\nclass C(B):\n  def f(self): return super(C,self).f()+1\nprint(C().f())\n",
'gen': "def g(n):\n  for i in range(n):\n    x = yield i*2\n    if x: print('got',x)\nprint(list(g(4)))\nh=g(3)\nprint(next(h)); print(h.send(10)); print(list(h))\n",
'yieldfrom': "def g():\n  yield 1\n  yield 2\n  return 3\ndef h():\n  r=yield from g()\n  yield r\nprint(list(h()))\n",
'genret': "def g():\n  yield 1\n  return 7\nh=g()\nnext(h)\ntry: next(h)\nexcept StopIteration as e: print('v',e.value)\n",
'genexp': "print(sum(x*x for x in range(5) if x%2))\n",
'genexp_lazy': "def p(x):\n  print('p',x)\n  return x\ng=(p(x) for x in range(3))\nprint('made')\nprint(next(g))\nprint(list(g))\n",
'gen_lazy_loop': "def g():\n  for i in range(3):\n    print('y',i)\n    yield i\nfor j in g():\n  print('u',j)\n",
'infgen': "def g():\n  i=0\n  while True:\n    yield i\n    i+=1\nfor j in g():\n  if j>3: break\n  print(j)\n",
'comp': "print([x+y for x in range(3) for y in range(x) if y if x],{k:v for k,v in zip('ab',[1,2])},{x%2 for x in range(5)})\n",
'dictunpack': "a={'x':1}\nprint({**a,'y':2})\n",
'starlist': "a=[1,2]\nprint([*a,3],(*a,4))\n",
'starassign': "a,*b,c=range(5)\nprint(a,b,c)\n[d,(e,f)]=1,(2,3)\nprint(d,e,f)\n",
'augassign': "a=[1]\nb=a\nb+=[2]\nprint(a)\nd={'x':1}\nd['x']+=5\nprint(d)\nclass O: pass\no=O();o.v=1;o.v+=2;print(o.v)\n",
'augassign_sideeff': "def i():\n  print('idx')\n  return 0\na=[1]\na[i()]+=2\nprint(a)\n",
'annassign': "x:int=3\ny:str\nprint(x)\n",
'walrus': "if (n:=5)>3: print(n)\n",
'while_else': "i=0\nwhile i<3:\n  i+=1\n  if i==5: break\nelse:\n  print('else',i)\n",
'while_break': "i=0\nwhile True:\n  i+=1\n  if i==2: continue\n  if i>4: break\n  print(i)\nelse: print('no')\n",
'for_else': "for i in range(3):\n  if i==7: break\nelse: print('e')\nfor i in range(3):\n  if i==1: break\nelse: print('e2')\n",
'with': "class C:\n  def __enter__(self): print('in'); return 5\n  def __exit__(self,*a): print('out',a[0] and a[0].__name__); return True\nwith C() as v, C():\n  print(v)\n  raise ValueError('x')\nprint('end')\n",
'try': "def f(x):\n  try:\n    return 10//x\n  except ZeroDivisionError as e:\n    print('zd',e)\n    return -1\n  else:\n    print('else')\n  finally:\n    print('fin')\nprint(f(2),f(0))\n",
'finally_override': "def f():\n  try:\n    raise ValueError\n  finally:\n    return 4\nprint(f())\n",
'exc_chain': "try:\n  try: 1/0\n  except ZeroDivisionError as e: raise ValueError('v') from e\nexcept ValueError as e: print(repr(e.__cause__), repr(e.__context__))\n",
'exc_context': "try:\n  try: 1/0\n  except ZeroDivisionError as e:\n    if True: raise ValueError('v')\nexcept ValueError as e: print(repr(e.__context__))\n",
'exc_context_if': "try:\n  if True: raise ValueError('v')\nexcept ValueError as e: print(repr(e.__context__))\n",
'exc_info_if': "import sys\nif True:\n  print(sys.exc_info()[0])\n",
'uncaught': "print('a')\nraise ValueError('boom')\n",
'syntaxerr': "print('a'\n",
'fstring': "x=3.14159\nw=8\nprint(f'{x:.2f} {x!r:>{w}} {{}} {x=}')\n",
'slice': "a=list(range(10))\nprint(a[1:5],a[::-1],a[2:],a[-1])\na[1:3]=[9]\nprint(a)\ndel a[0]\nprint(a)\n",
'chaincmp': "def f(x):\n  print('f',x)\n  return x\nprint(f(1)<f(2)<f(1)<f(9))\n",
'boolop': "def f(x):\n  print('f',x)\n  return x\nprint(f(0) and f(1), f(1) or f(2), not f(0))\n",
'ifexp': "def f(x):\n  print('f',x)\n  return x\nprint(f(1) if f(0) else f(3))\n",
'decorator': "def d(f):\n  def w(*a,**k):\n    print('call')\n    return f(*a,**k)\n  return w\n@d\ndef g(x): return x+1\nprint(g(3))\n",
'wraps': "import functools\ndef d(f):\n  @functools.wraps(f)\n  def w(*a,**k):\n    return f(*a,**k)\n  return w\n@d\ndef g(x):\n  'doc g'\n  return x+1\nprint(g(3),g.__name__,g.__doc__)\n",
'fnmeta': "def g(x,y=3):\n  'doc g'\n  return x+1\nprint(g.__name__,g.__doc__,g.__defaults__,g.__code__.co_argcount)\n",
'nonascii_ops': "a='x'\nt = ('你好' + a)\nu = (('été' + a) + a)\nprint(('你好你好', (a + a)), ('你好你好' == a))\n",
'walrus_scopes': "def f(): return 3\nx = 1 if (y := f()) else 0\nprint(x, y)\ndef g():\n    a = 1 if (b := f()) > 2 else 0\n    return a, b\nprint(g())\nprint([w for w in range(5) if (z := w) > 2], z)\nprint(sum(q for q in range(5) if (z := q) > 1), z)\ndef gen():\n    r = (yield 1) if True else 3\n    print('r', r)\n    yield r\ng1 = gen(); print(next(g1), g1.send(5))\nwhile (n := f()) > 5: pass\nif (m := 3) and m > 2: print(m)\n",
'async_comps': 'import asyncio\nasync def g():\n    for i in range(4):\n        await asyncio.sleep(0)\n        yield i\nasync def m():\n    r = [x for x in range(3)]\n    q = [x async for x in g()]\n    z = {x: y async for x in g() if x for y in range(2)}\n    s = {x async for x in g() if x > 1}\n    ge = (x async for x in g())\n    o = [v async for v in ge]\n    t = 1 if await asyncio.sleep(0, 3) else 2\n    a = [await asyncio.sleep(0, k) for k in range(3)]\n    return r, q, z, s, o, t, a\nprint(asyncio.run(m()))\n',
'recursive_ops': 'class V:\n    def __init__(self, v): self.v = v\n    def __add__(self, o):\n        if isinstance(o, V):\n            return self + o.v\n        return V(self.v + o)\n    def __eq__(self, o):\n        if isinstance(o, V): return self == o.v\n        return self.v == o\nprint((V(1) + V(2)).v)\nprint(V(2)==V(2))\ndef max2(a): return a\ndef f(x):\n    return sorted([3,1,2], key=f) if x == 9 else -x\nprint(f(9))\n',
'inspectsig': "import inspect\ndef g(x,y=3): return x\nprint(inspect.signature(g))\n",
'dataclass': "from dataclasses import dataclass\n@dataclass\nclass P:\n  x:int\n  y:int=2\nprint(P(1),P(1)==P(1,2))\n",
'namedtuple': "from collections import namedtuple\nP=namedtuple('P','x y')\np=P(1,2)\nprint(p.x,p)\n",
'async': "import asyncio\nasync def f(x):\n  await asyncio.sleep(0)\n  return x+1\nprint(asyncio.run(f(3)))\n",
'globals': "x=1\ndef f():\n  global x\n  x=5\nf()\nprint(x, __name__)\n",
'delname': "x=1\ndel x\ntry: x\nexcept NameError as e: print(e)\n",
'assert': "try:\n  assert 1==2,'msg'\nexcept AssertionError as e: print(e)\n",
'dunder_file': "import os,sys\nprint(os.path.basename(__file__),sys.argv[1:],os.path.basename(sys.argv[0]))\n",
'sorted_key': "print(sorted([3,1,2],key=lambda v:-v), list(map(lambda v:v+1,[1,2])))\n",
'generator_close': "def g():\n  try:\n    yield 1\n    yield 2\n  finally:\n    print('closed')\nh=g()\nnext(h)\nh.close()\n",
'global_genexp_scope': "def f(a):\n  return any(x==a for x in [1,2,3])\nprint(f(2),f(9))\n",
'eqraise': "class A:\n  def __eq__(self,o): raise RuntimeError('eq')\n  __hash__=None\na=A()\nb=[a]\nfor x in b: print('it')\nc = a if True else None\nprint('k')\n",
'nerepr': "class A:\n  def __repr__(self): raise RuntimeError('r')\na=A()\nb=[a]\nprint('ok')\n",
'repr_sideeffect': "n=[0]\nclass A:\n  def __repr__(self):\n    n[0]+=1\n    return 'A'\na=A()\nb=a\nprint(n)\n",
'bool_sideeffect': "class A:\n  def __init__(s): s.n=0\n  def __bool__(s):\n    s.n+=1\n    return True\na=A()\nif a: pass\nprint(a.n)\nx= a or 1\nprint(a.n)\nwhile a:\n  break\nprint(a.n)\n",
'numpy': "import numpy as np\na=np.arange(6).reshape(2,3)\nb=a*2\nprint(b.sum(), b[0], b[:,1], b[b>3])\nfor r in b: print(r)\nc=a if a.any() else b\nprint(c)\n",
'numpy_set': "import numpy as np\na=np.zeros(4)\na[1:3]=5\na[a>2]+=1\nprint(a)\n",
'iter_custom': "class I:\n  def __init__(s): s.i=0\n  def __iter__(s): return s\n  def __next__(s):\n    s.i+=1\n    if s.i>3: raise StopIteration\n    return s.i\nfor v in I(): print(v)\n",
'getitem_iter': "class I:\n  def __getitem__(s,i):\n    if i>2: raise IndexError\n    return i*3\nprint(list(I()))\nfor v in I(): print(v)\n",
'file_io': "with open('out.txt','w') as f:\n  f.write('hello')\nwith open('out.txt') as f: print(f.read())\n",
'file_kw': "f=open(file='out2.txt',mode='w')\nf.write('x')\nf.close()\nprint(open('out2.txt').read())\n",
'file_missing': "try: open('nope.txt')\nexcept FileNotFoundError as e: print(e)\n",
'pathlib': "import pathlib\np=pathlib.Path('q.txt')\np.write_text('abc')\nprint(p.read_text())\nwith p.open() as f: print(f.read())\nprint(open(p).read())\n",
'openbytes': "f=open(b'z.txt','wb')\nf.write(b'1')\nf.close()\nprint(open(b'z.txt','rb').read())\n",
'opendir': "try: open('.')\nexcept Exception as e: print(type(e).__name__)\n",
'fdopen': "import os\nr,w=os.pipe()\nwith open(w,'w') as f: f.write('hi')\nwith open(r) as f: print(f.read())\n",
'chdir': "import os\nos.makedirs('sub',exist_ok=True)\nf=open('rel.txt','w')\nf.write('1')\nos.chdir('sub')\nf.close()\nprint(os.listdir('.'))\nos.chdir('..')\n",
'osopen': "import os\nfd=os.open('o.txt',os.O_CREAT|os.O_WRONLY)\nos.write(fd,b'x')\nos.close(fd)\nprint(os.path.getsize('o.txt'))\n",
'json': "import json\nprint(json.dumps({'a':[1,2]}))\nopen('j.json','w').write('[1]')\nprint(json.load(open('j.json')))\n",
'matchstmt': "def f(x):\n  match x:\n    case [a,b]: return a+b\n    case {'k':v}: return v\n    case int(): return 'int'\n    case _: return None\nprint(f([1,2]),f({'k':3}),f(4),f('s'))\n",
'threads': "import threading\nres=[]\ndef w(i):\n  res.append(i*2)\nts=[threading.Thread(target=w,args=(i,)) for i in range(4)]\n[t.start() for t in ts]\n[t.join() for t in ts]\nprint(sorted(res))\n",
'trystar': "try:\n  raise ExceptionGroup('g',[ValueError(1)])\nexcept* ValueError as e: print('vg')\n",
'typeparams': "def f[T](x:T)->T: return x\nprint(f(3))\n",
'nested_fn_default_mut': "def f(x,acc=[]):\n  acc.append(x)\n  return acc\nprint(f(1),f(2))\n",
'deffault_dep': "y=10\ndef f(x=y): return x\ny=20\nprint(f())\n",
'star_call': "def f(*a,**k): return a,k\nprint(f(*[1,2],*(3,),**{'z':1},y=2))\n",
'class_kw': "class M(type):\n  def __new__(m,n,b,d,**k):\n    print('meta',n,k)\n    return super().__new__(m,n,b,d)\n  def __init__(c,n,b,d,**k): pass\nclass A(metaclass=M,flag=1): pass\nprint(type(A).__name__)\n",
'class_attrs': "class A:\n  x=1\n  y=[x for _ in range(2)] if False else 2\nprint(sorted(k for k in vars(A) if not k.startswith('__')))\n",
'slots': "class A:\n  __slots__=('x',)\na=A();a.x=1\nprint(a.x)\n",
'enum': "import enum\nclass E(enum.Enum):\n  A=1\n  B=2\nprint(E.A,list(E))\n",
'dirglobals': "x=1\nprint(sorted(k for k in globals() if not k.startswith('__')))\n",
'locals': "def f(a):\n  b=2\n  return sorted(locals())\nprint(f(1))\n",
'eval_exec': "x=3\nprint(eval('x+1'))\nexec('z=x*2')\nprint(z)\n",
'future': "from __future__ import annotations\n'''doc'''\nx:Foo=1\nprint(x,__annotations__)\n",
'docstring': "'''modulo doc'''\nprint(__doc__)\n",
'lastexpr': "x=5\nx\n",
'stdin': "import sys\nprint(repr(sys.stdin.read()))\n",
'multiproc': "import subprocess,sys\nprint(subprocess.run([sys.executable,'-c','print(1)'],capture_output=True,text=True).stdout)\n",
'stderr': "import sys\nprint('err',file=sys.stderr)\n",
'strconcat': "s='a' 'b'\nprint(s)\nt=('x'\n 'y')\nprint(t, '''m\nl''')\n",
'unicode': "é='ção'\nprint(é)\n",
'crlf': "x=1\r\nif x:\r\n  print(x)\r\n",
'semicolon': "a=1;b=2;print(a,b)\nif a: b=3; print(b)\n",
'tabs': "if 1:\n\tx=2\n\tif x:\n\t\tprint(x)\n",
'decor_class': "def d(c):\n  c.tag='t'\n  return c\n@d\nclass A: pass\nprint(A.tag)\n",
'decor_args': "def rep(n):\n  def d(f):\n    def w(*a): return [f(*a) for _ in range(n)]\n    return w\n  return d\n@rep(3)\ndef h(x): return x\nprint(h(2))\n",
'property_setter': "class A:\n  def __init__(s): s._x=0\n  @property\n  def x(s): return s._x\n  @x.setter\n  def x(s,v): s._x=v*2\na=A();a.x=4;print(a.x)\n",
'lru_cache': "from functools import lru_cache\n@lru_cache(None)\ndef fib(n): return n if n<2 else fib(n-1)+fib(n-2)\nprint(fib(15))\n",
'kwonly_nodef': "def f(*,a,b=2): return a,b\nprint(f(a=1))\n",
'typeerr': "def f(a): return a\ntry: f()\nexcept TypeError as e: print(e)\ntry: f(1,2)\nexcept TypeError as e: print(e)\n",
'genfn_try': "def g():\n  try:\n    yield 1\n  except ValueError as e:\n    print('caught',e)\n    yield 9\nh=g();next(h);print(h.throw(ValueError('q')))\n",
'del_attr': "class A: pass\na=A();a.x=1\ndel a.x\nprint(hasattr(a,'x'))\n",
'setattrgetattr': "class A:\n  def __getattr__(s,n): return n.upper()\nprint(A().foo)\n",
'swap': "a,b=1,2\na,b=b,a\nprint(a,b)\n",
'multi_assign': "a=b=[]\na.append(1)\nprint(b)\n",
'assign_order': "def f(n):\n  print(n)\n  return n\nd={}\nd[f(1)],d[f(2)]=f(3),f(4)\nprint(d)\n",
'dictorder': "def f(n):\n  print(n)\n  return n\nprint({f(1):f(2),f(3):f(4)})\n",
'matmul': "import numpy as np\na=np.eye(2)\na@=a\nprint((a@a).tolist())\n",
'ellipsis': "x=...\nprint(x)\ndef f(): ...\nprint(f())\n",
'none_return': "def f(): return\nprint(f())\ndef g(): pass\nprint(g())\n",
'bytes_complex': "print(b'x'+b'y', 2j*2, 0x10, 1_000)\n",
'keyboard': "raise KeyboardInterrupt\n",
'loop_mutation': "a=[1,2,3]\nfor x in a:\n  if x==1: a.append(9)\n  print(x)\n",
'zip_enum': "for i,(a,b) in enumerate(zip([1,2],[3,4])): print(i,a,b)\n",
'subclass_dict': "class D(dict):\n  def __missing__(s,k): return k*2\nprint(D()[4])\n",
'iterdict': "d={'a':1,'b':2}\nfor k in d: print(k)\nfor k,v in d.items(): print(k,v)\n",
'gen_in_cond': "def pos(l): return [x for x in l if x>0]\nprint(pos([1,-1]) if all(x for x in [1]) else 0)\n",
'except_order': "for e in (KeyError('k'),ValueError('v')):\n  try: raise e\n  except (KeyError,IndexError) as x: print('ki',x)\n  except ValueError: print('v')\n",
'nested_try_loop': "for i in range(4):\n  try:\n    if i==1: continue\n    if i==3: break\n    print(i)\n  finally: print('f',i)\n",
'return_loop': "def f():\n  for i in range(5):\n    while True:\n      if i==2: return i\n      break\nprint(f())\n",
'random': "import random\nrandom.seed(3)\nprint(random.random())\n",
'importlocal': "import mymod\nprint(mymod.f(3), mymod.X)\n",
'importfrom': "from mymod import f,X\nprint(f(X))\n",
'importpkg': "import mypkg.sub\nfrom mypkg import sub as s2\nprint(mypkg.sub.g(2), s2.g(1), mypkg.__name__)\n",
'import_err': "try: import nonexist_zz\nexcept ImportError as e: print(e)\n",
'circ': "import circa\nprint(circa.v)\n",
'stack_depth': "def f(n): return 0 if n==0 else 1+f(n-1)\nprint(f(120))\n",
'main_guard': "def main():\n  print('main')\nif __name__=='__main__': main()\n",
'sysmodules_main': "import sys\nx=4\nprint(sys.modules['__main__'].x)\n",
'pickle': "import pickle\nclass A: pass\na=pickle.loads(pickle.dumps(A()))\nprint(type(a).__name__)\n",
'traceback': "import traceback\ndef f(): 1/0\ntry: f()\nexcept Exception: print(traceback.format_exc().splitlines()[-1])\n",
'getsource': "import inspect\ndef f(): return 1\nprint(inspect.getsource(f))\n",
'warnings': "import warnings\nwarnings.simplefilter('ignore')\nwarnings.warn('x')\nprint(1)\n",
'setcomp_gen': "print(sorted({*[1,2],3}))\n",
'str_methods': "print('a,b'.split(','), ' '.join(['x','y']))\n",
'print_sep': "print(1,2,sep='-',end='!\\n')\n",
'nested_cls': "class A:\n  class B:\n    v=2\n  def f(self): return A.B.v\nprint(A().f())\n",
'init_sub': "class A:\n  def __init_subclass__(cls,**k): print('sub',cls.__name__,k)\nclass B(A,k=1): pass\n",
'contextlib': "from contextlib import contextmanager\n@contextmanager\ndef c():\n  print('in')\n  try: yield 3\n  finally: print('out')\nwith c() as v: print(v)\n",
'async_gen': "import asyncio\nasync def g():\n  for i in range(3): yield i\nasync def m():\n  async for i in g(): print(i)\n  return [x async for x in g()]\nprint(asyncio.run(m()))\n",
'lambda_default_loop': "fs=[lambda i=i:i for i in range(3)]\nprint([f() for f in fs])\n",
'aug_in_fn': "def f():\n  x=0\n  for i in range(4): x+=i\n  return x\nprint(f())\n",
'tern_nested': "print([('a' if i%2 else 'b') if i else 'z' for i in range(4)])\n",
'global_nest': "c=0\ndef f():\n  global c\n  c+=1\n  def g():\n    global c\n    c+=10\n  g()\nf();print(c)\n",
}
MODS={'mymod.py':"X=4\ndef f(x):\n  return x+X\n",'mypkg/__init__.py':"V=1\n",'mypkg/sub.py':"from . import V\ndef g(x): return x+V\n",'circa.py':"import circb\nv=circb.w+1\n",'circb.py':"import circa\nw=2\n"}

CASES['classes_big'] = '''class Meta(type):
    def __new__(m, name, bases, ns, flag=0):
        print("meta", name, flag, sorted(k for k in ns if not k.startswith('__now') and 'now_original' not in k))
        return super().__new__(m, name, bases, ns)
    def __init__(cls, name, bases, ns, flag=0):
        super().__init__(name, bases, ns)
class A(metaclass=Meta, flag=3):
    x = 1
    def m(self):
        return 1
class B(A):
    def __init_subclass__(cls, **kw):
        print("sub", cls.__name__, kw)
        super().__init_subclass__()
    def m(self):
        return super().m() + 1
class C(B):
    class In:
        z = 4
        def q(self):
            return [self.z for _ in range(2)]
    y = In().q()
    def m(self):
        return super().m() + 1
    @classmethod
    def cm(cls):
        return cls.__name__
print(C().m(), C.y, C.cm(), C.__mro__, A.__name__)
from enum import Enum, IntEnum
class Color(Enum):
    RED = 1
    BLUE = 2
    def low(self):
        return self.name.lower()
print(list(Color), Color.RED.low(), Color(2))
from dataclasses import dataclass, field
@dataclass(order=True)
class P:
    x: int
    y: list = field(default_factory=list)
print(P(1), P(1) < P(2), P(3, [1]))
from collections import namedtuple
class N(namedtuple("N", "a b")):
    __slots__ = ()
    def s(self):
        return self.a + self.b
print(N(1, 2).s(), N(1,2))
class S:
    __slots__ = ("a", "__dict__")
    def __init__(self): self.a = 1
print(S().a)
from typing import Generic, TypeVar, NamedTuple
T = TypeVar("T")
class G(Generic[T]):
    def g(self): return 1
print(G[int]().g())
class NT(NamedTuple):
    a: int
    b: str = "x"
print(NT(1))
class E1(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        self.q = 1
try:
    raise E1("x", 2)
except E1 as e:
    print(e, e.args, e.q)
import abc
class AB(abc.ABC):
    @abc.abstractmethod
    def f(self): ...
    @property
    @abc.abstractmethod
    def p(self): ...
try:
    AB()
except TypeError as e:
    print("abc")
class AC(AB):
    def f(self): return 1
    @property
    def p(self): return 2
print(AC().f(), AC().p)
class Outer:
    class Err(Exception): pass
    def go(self):
        try:
            raise self.Err("1")
        except Outer.Err as e:
            return str(e)
print(Outer().go())
def factory(n):
    class K:
        v = n
        def get(self):
            return self.v + n
    return K
print([factory(i)().get() for i in range(3)])
class W:
    def __init__(self, **kw):
        self.__dict__.update(kw)
    __private = 3
    def pr(self): return self.__private
print(W(a=1).a, W().pr())
class Z:
    __c = 1
    def __init__(self):
        self.__v = 1
        self.__v += 2
        self.__w, self.__z = 5, [1]
        self.__z[0] += 1
        del self.__w
    def __priv(self, __k=3):
        __loc = __k
        return __loc + self.__v
    def go(self):
        for self.__i in range(3): pass
        with open("f.txt", "w") as self.__f: self.__f.write("x")
        return self.__priv() + Z.__c, sorted(k for k in vars(self)), (lambda: self.__v)(), [self.__z for _ in range(1)]
print(Z().go())
class __Und:
    def f(self): self.__a = 1; return vars(self)
print(__Und().f())
'''

CASES['frames'] = '''x = 3
def f(a, b=2):
    c = a + b
    print(sorted(locals()), sorted(vars()), dir())
    print(eval("a + c"))
    exec("print(c, x)")
    d = locals()
    return d
print(f(1))
print(eval("x * 2"), eval("y", {"y": 4}))
exec("z = 5")
print(z, globals()["x"], "x" in dir(), 'x' in vars(), locals() is globals())
globals()["w"] = 7
print(w)
class A:
    def __init__(self, v): self.v = v
    def m(self, *a): return ("A", self.v, a)
class B(A):
    def __init__(self, v):
        super().__init__(v + 1)
    def m(self, *a):
        k = super().m(*a) if a else super().m(0)
        return k
    @classmethod
    def mk(cls, /, v):
        return super().__new__(cls)
    @staticmethod
    def st():
        try:
            return super()
        except RuntimeError as e:
            return "rt"
print(B(1).m(), B(2).m(3), type(B.mk(1)), B.st())
print(dir(A(1))[-2:])
def q():
    l = [eval("i") for i in range(2)]
    return l
try:
    print(q())
except NameError as e: print(e)
print(vars(A(4)))
'''

CASES['defaults_once'] = """def deco(f):
    print("deco", f.__name__)
    return f
def g():
    print("g")
    return 3
@deco
def f(x=g(), *, y=g()) -> g():
    return x + y
print(f(), f(1, y=2))
def base():
    print("base")
    return object
class C(base()):
    def m(self, y=g()):
        return y
print(C().m())
"""
