"""Loads the real source under /repo (and the harnesses) with symbolic-capable semantics.

The AST of every module is instrumented (byte-string constants, `in`, `is`, subscripts, % formatting, f-strings,
method calls on text, type()/__class__) and the code then runs on CPython with lifted builtins and library models.
"""
import ast, builtins, os, sys, types, hashlib as real_hashlib, struct as real_struct, io as real_io
import binascii as real_binascii, uuid as real_uuid, socket as real_socket
import z3
import core
from core import Incomplete
from values import *
import values as V

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNCS = set()      # functions of the code under test entered during this run

# ------------------------------------------------------------------ AST

STR_METHODS = {'index','find','rfind','join','count','startswith','endswith','replace','split','strip','lstrip','rstrip','format','partition','rpartition','rindex','removeprefix','removesuffix','zfill','ljust','rjust','get'}

def _name(n): return ast.Name(id=n, ctx=ast.Load())
def _call(fn, *args): return ast.Call(func=_name(fn), args=list(args), keywords=[])

class Tx(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.modname = modname; self.stack = []; self.record = record
        self.infunc = 0; self.merge = True; self.tmp = 0
    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(_call('_sx_b', n), n)
        return n
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), spec, ast.Constant(chr(v.conversion) if v.conversion != -1 else None)], ast.Load()))
        return ast.copy_location(_call('_sx_fstr', *parts), n)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]; l, r = n.left, n.comparators[0]
            return ast.copy_location(self._cmp1(op, l, r, n), n)
        if all(not isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in n.ops):
            # a < b <= c  ->  lazy chain without changing evaluation order
            return ast.copy_location(self._chain(n), n)
        return ast.copy_location(self._chain(n), n)
    def _cmp1(self, op, l, r, n):
        f = {ast.In: '_sx_in', ast.NotIn: '_sx_notin', ast.Is: '_sx_is', ast.IsNot: '_sx_isnot'}.get(type(op))
        if f: return _call(f, l, r)
        return ast.Compare(left=l, ops=[op], comparators=[r])
    def _chain(self, n):
        # build: (t0 := left) op (t1 := c0) and t1 op (t2 := c1) ...   via lambdas to keep laziness
        vals = []
        left = n.left
        # use a helper: _sx_chain(left, ((opname, lambda: comp), ...))
        tup = []
        for op, c in zip(n.ops, n.comparators):
            tup.append(ast.Tuple([ast.Constant(type(op).__name__), c], ast.Load()))
        # comparators are evaluated eagerly only when they are side-effect free
        if all(_pure(c) for c in n.comparators[1:]):
            return _call('_sx_chain', left, *tup)
        return ast.Compare(left=left, ops=n.ops, comparators=n.comparators)
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call('_sx_mod', n.left, n.right), n)
        return n
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if self.record and isinstance(n.op, ast.Not): return ast.copy_location(_call('_sx_not', n.operand), n)
        return n
    def visit_BoolOp(self, n):
        spec = self.record and self.infunc and all(_speculable(v) for v in n.values[1:])
        self.generic_visit(n)
        if not spec: return n
        f = '_sx_and' if isinstance(n.op, ast.And) else '_sx_or'
        return ast.copy_location(_call(f, n.values[0], *[_thunk(v) for v in n.values[1:]]), n)
    def visit_IfExp(self, n):
        spec = self.record and self.infunc and _speculable(n.body) and _speculable(n.orelse)
        self.generic_visit(n)
        if not spec: return n
        return ast.copy_location(_call('_sx_ife', n.test, _thunk(n.body), _thunk(n.orelse)), n)
    # ---- if-conversion: branches that only compute local values are merged instead of forked
    def visit_If(self, n):
        r = self._ifconv(n) if self.infunc and self.merge else None
        if r is not None: return r
        self.generic_visit(n)
        return n
    def _ifconv(self, n):
        locs = []          # assigned names, and (name, index source) for element stores
        if not (_simple_branch(n.body, locs) and _simple_branch(n.orelse, locs)) or not locs: return None
        names = {l for l in locs if isinstance(l, str)}
        for l in locs:
            if not isinstance(l, str):
                base, src, idx = l
                if base in names or any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(idx)): return None
        uniq = []
        for l in locs:
            k = l if isinstance(l, str) else l[:2]
            if k not in [u if isinstance(u, str) else u[:2] for u in uniq]: uniq.append(l)
        # element stores through two different names or indices might be the same element
        if len([u for u in uniq if not isinstance(u, str)]) > 1: return None
        self.tmp += 1
        t = '_sx%d_' % self.tmp
        import copy
        test = self.visit(copy.deepcopy(n.test))
        out = [ast.Assign([_store(t + 'c')], _call('_sx_truthy', test)), ast.Assign([_store(t + 'ok')], ast.Constant(False))]
        spec = []
        def load(l):
            if isinstance(l, str): return _name(l)
            return _call('_sx_elem', _name(l[0]), self.visit(copy.deepcopy(l[2])))
        for i, l in enumerate(uniq):
            get = ast.Assign([_store(t + 'o%d' % i)], load(l))
            spec.append(ast.Try([get], [ast.ExceptHandler(ast.Tuple([_name('NameError')], ast.Load()), None, [ast.Assign([_store(t + 'o%d' % i)], _name('_sx_UNB'))])], [], []))
        for br, body in (('a', n.body), ('b', n.orelse)):
            for i in range(len(uniq)): spec.append(ast.Assign([_store(t + '%s%d' % (br, i))], _name(t + 'o%d' % i)))
            ren = _Rename({(l if isinstance(l, str) else l[:2]): t + '%s%d' % (br, i) for i, l in enumerate(uniq)})
            for st in body:
                st2 = ren.visit(copy.deepcopy(st))
                spec.append(self.visit(st2))
        for i in range(len(uniq)):
            spec.append(ast.Assign([_store(t + 'm%d' % i)], _call('_sx_merge', _name(t + 'c'), _name(t + 'a%d' % i), _name(t + 'b%d' % i))))
        spec.append(ast.Assign([_store(t + 'ok')], ast.Constant(True)))
        out.append(ast.If(_call('_sx_issym', _name(t + 'c')), [ast.Try(spec, [ast.ExceptHandler(_name('_sx_Exception'), None, [ast.Pass()])], [], [])], []))
        commit = []
        for i, l in enumerate(uniq):
            if isinstance(l, str): commit.append(ast.Assign([_store(l)], _name(t + 'm%d' % i)))
            else: commit.append(ast.Assign([ast.Subscript(_name(l[0]), self.visit(copy.deepcopy(l[2])), ast.Store())], _name(t + 'm%d' % i)))
        m0 = self.merge
        self.merge = False      # plain version of the same statement
        body = [x for st in n.body for x in _aslist(self.visit(st))]; orelse = [x for st in n.orelse for x in _aslist(self.visit(st))]
        self.merge = m0
        out.append(ast.If(_name(t + 'ok'), commit, [ast.If(_name(t + 'c'), body, orelse)]))
        for st in out:
            ast.copy_location(st, n)
            for x in ast.walk(st):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr, ast.excepthandler)): ast.copy_location(x, n)
        return out
    def visit_AugAssign(self, n):
        spec = isinstance(n.target, ast.Name) and n.target.id.startswith('_sx') 
        self.generic_visit(n)
        if spec:
            return ast.copy_location(ast.Assign([n.target], _call('_sx_aug', ast.Constant(type(n.op).__name__), _name(n.target.id), n.value)), n)
        return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=_name('_sx_slice'), args=[x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)], keywords=[])
            return ast.copy_location(_call('_sx_getitem', n.value, sl), n)
        return n
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == '__class__' and isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call('_sx_class', n.value), n)
        return n
    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in STR_METHODS and not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super'):
            recv = self.visit(n.func.value)
            args = [self.visit(a) for a in n.args]
            kws = [self.visit(k) for k in n.keywords]
            return ast.copy_location(ast.Call(func=_name('_sx_meth'), args=[recv, ast.Constant(n.func.attr)] + args, keywords=kws), n)
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(_call('_sx_class', n.args[0]), n)
        return n
    def visit_Lambda(self, n):
        self.infunc += 1
        self.generic_visit(n)
        self.infunc -= 1
        return n
    def _func(self, n):
        self.stack.append(n.name)
        i0 = self.infunc; m0 = self.merge
        self.infunc = 1; self.merge = self.record
        self.generic_visit(n)
        self.infunc = i0; self.merge = m0
        if self.record:
            i = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str)) else 0
            n.body.insert(i, ast.Expr(_call('_sx_enter', ast.Constant(self.modname + ':' + '.'.join(self.stack)))))
        self.stack.pop()
        return n
    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        i0 = self.infunc; self.infunc = 0
        self.generic_visit(n)
        self.infunc = i0
        self.stack.pop()
        return n
    def visit_Assert(self, n):
        self.generic_visit(n)
        return n

def _store(n): return ast.Name(id=n, ctx=ast.Store())
def _thunk(e): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
def _aslist(x): return x if isinstance(x, list) else [] if x is None else [x]

_PURE_CALLS = {'len', 'ord', 'bool', 'abs', '_bord', 'bord', '_sx_getitem'}
_PURE_NODES = (ast.Constant, ast.Name, ast.UnaryOp, ast.BinOp, ast.Compare, ast.BoolOp, ast.IfExp, ast.Subscript, ast.Slice, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context)
def _speculable(e):
    """an expression (of the original source) that may be evaluated although its branch is not taken"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in _PURE_CALLS and not x.keywords): return False
        elif not isinstance(x, _PURE_NODES): return False
    return True

def _simple_branch(body, locs):
    for st in body:
        if isinstance(st, ast.Pass): continue
        if isinstance(st, ast.If):
            if not (_speculable(st.test) and _simple_branch(st.body, locs) and _simple_branch(st.orelse, locs)): return False
            continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1: t = st.targets[0]
        elif isinstance(st, ast.AugAssign): t = st.target
        else: return False
        if not _speculable(st.value): return False
        if isinstance(t, ast.Name): locs.append(t.id)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not isinstance(t.slice, ast.Slice) and _speculable(t.slice):
            locs.append((t.value.id, ast.dump(t.slice), t.slice))
        else: return False
    return True

class _Rename(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        if n.id in self.m: return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n
    def visit_Subscript(self, n):
        if isinstance(n.value, ast.Name):
            r = self.m.get((n.value.id, ast.dump(n.slice)))
            if r is not None: return ast.copy_location(ast.Name(r, n.ctx), n)
        if any(isinstance(k, tuple) for k in self.m):
            return _call('_sx_nomerge')      # possibly another view of the element being stored to
        self.generic_visit(n)
        return n

class NoMerge(Exception): pass
_sx_Exception = Exception
class _Unbound: pass
_sx_UNB = _Unbound()
def _sx_nomerge(): raise NoMerge
def _sx_truthy(v): return truthy(v) if isinstance(v, (SymBool, SymInt)) else v
def _sx_issym(v): return isinstance(v, SymBool)
def _sx_not(v):
    if isinstance(v, SymBool) or type(v) is SymInt: return lnot(v)
    return not v
def _sx_elem(o, i):
    if type(o) not in (LBytearray, list): raise NoMerge
    return _sx_getitem(o, i)
_IMM = (int, SymInt, SymBool, LBytes, str, SymStr, float, tuple)
import operator as _op
_AUG = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'FloorDiv': _op.floordiv, 'BitOr': _op.or_, 'BitAnd': _op.and_, 'BitXor': _op.xor, 'LShift': _op.lshift, 'RShift': _op.rshift}
def _sx_aug(op, a, b):
    if type(a) is LBytearray or not isinstance(a, _IMM) or op not in _AUG: raise NoMerge
    return _AUG[op](a, b)
def _mergeable(a, b):
    if a is b: return True
    if type(a) is _Unbound or type(b) is _Unbound: return False
    ba, bb = isinstance(a, (bool, SymBool)), isinstance(b, (bool, SymBool))
    if ba or bb: return ba and bb
    if type(a) in (int, SymInt) and type(b) in (int, SymInt):
        return getattr(a, 'cls', None) is None and getattr(b, 'cls', None) is None
    if type(a) is LBytes and type(b) is LBytes: return len(a._e) == len(b._e)
    return False
def _sx_merge(c, a, b):
    if not _mergeable(a, b): raise NoMerge
    return ite(c, a, b)
def _sx_ife(c, a, b):
    c = _sx_truthy(c)
    if not isinstance(c, SymBool): return a() if c else b()
    try:
        x, y = a(), b()
        if _mergeable(x, y): return ite(c, x, y)
    except Exception: pass
    return a() if c else b()
def _sx_and(a, *ts):
    for i, t in enumerate(ts):
        if not isinstance(a, SymBool):
            if not a: return a
            a = t(); continue
        try: v = t()
        except Exception: v = None
        if isinstance(v, (bool, SymBool)): a = land(a, v)
        elif not a: return False
        else: a = t()
    return a
def _sx_or(a, *ts):
    for i, t in enumerate(ts):
        if not isinstance(a, SymBool):
            if a: return a
            a = t(); continue
        try: v = t()
        except Exception: v = None
        if isinstance(v, (bool, SymBool)): a = lor(a, v)
        elif a: return True
        else: a = t()
    return a

def _pure(c):
    for x in ast.walk(c):
        if isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', '_sx_getitem', '_sx_class'): continue
            return False
    return True

import operator
_OPS = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge, 'Eq': operator.eq, 'NotEq': operator.ne}

# ------------------------------------------------------------------ helpers

_bc = {}
def _sx_b(c):
    r = _bc.get(c)
    if r is None: r = _bc[c] = LBytes(c)
    return r

def _sx_enter(name): FUNCS.add(name)

def _sx_fstr(*parts):
    def run():
        out = []
        for p in parts:
            if isinstance(p, str): out.extend(map(ord, p))
            else: out.extend(format_els(p[0], p[1], p[2]))
        return out
    if not any(_is_symbolic(p[0]) or isinstance(p[1], SymStr) for p in parts if isinstance(p, tuple)):
        return ''.join(p if isinstance(p, str) else format({'r': repr, 's': str, 'a': ascii, None: lambda x: x}[p[2]](p[0]), p[1]) for p in parts)
    return SymStr(thunk=run)

def _is_symbolic(v): return V._is_sym(v)

def _sx_chain(left, *rest):
    r = True
    cs = []
    for op, c in rest:
        v = _sx_is(left, c) if op == 'Is' else _sx_isnot(left, c) if op == 'IsNot' else _sx_in(left, c) if op == 'In' else _sx_notin(left, c) if op == 'NotIn' else _OPS[op](left, c)
        if not isinstance(v, (SymBool,)):
            if not v: return v if not cs else False if not cs else land(*cs, False)
        else: cs.append(v)
        left = c
    if not cs: return True
    return land(*cs)

def _sx_in(x, c):
    if isinstance(c, (LBytes, LBytearray)):
        f = type(c).__contains__
        if f is LBytes.__contains__: return c._has(x)
    if isinstance(c, SymStr) or (isinstance(c, str) and isinstance(x, SymStr)): return str_has(c, x)
    if type(c) in (tuple, list):
        if isinstance(x, (SymInt, SymBool, LBytes, SymStr)) or any(isinstance(y, (SymInt, SymBool, LBytes, SymStr)) for y in c):
            out = []
            for y in c:
                if x is y: return True
                v = (x == y)
                if v is NotImplemented: continue
                if isinstance(v, SymBool): out.append(v)
                elif v: return lor(*out, True) if False else (True if not out else lor(*(out + [True])))
            return lor(*out) if out else False
        return x in c
    if isinstance(x, (SymInt, SymBool)) and isinstance(c, (dict, set, frozenset, range, types.MappingProxyType)):
        if isinstance(c, range): 
            return land(x >= c.start, x < c.stop, (x - c.start) % c.step == 0) if c.step > 0 else bool(x in list(c))
        return lor(*[x == k for k in c if is_int(k)])
    if isinstance(x, SymStr) and isinstance(c, (dict, set, frozenset)):
        return lor(*[x == k for k in c if isinstance(k, (str, SymStr))])
    return x in c

def _sx_notin(x, c): return lnot(_sx_in(x, c))

def _sx_is(a, b):
    if a is b: return True
    if isinstance(a, SymBool) and isinstance(b, bool): return a if b else lnot(a)
    if isinstance(b, SymBool) and isinstance(a, bool): return b if a else lnot(b)
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        # small integers are interned in CPython; identity of larger ones is not meaningful
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b
        return False
    return False

def _sx_isnot(a, b): return lnot(_sx_is(a, b))

def _sx_slice(a, b, c): return slice(a, b, c)

def _sx_getitem(o, i):
    if isinstance(i, (SymInt, SymBool)):
        t = type(o)
        if t in (list, tuple):
            if isinstance(i, SymBool): i = i.as_int()
            if all(type(v) in (int, SymInt) or isinstance(v, bool) for v in o) and len(o) <= 300 and o:
                return getitem_ite(list(o), i, '%s index out of range' % t.__name__)
            n = len(o)
            if not land(i >= -n, i < n): raise IndexError('%s index out of range' % t.__name__)
            return o[concretize(i)]
        if t is str:
            if isinstance(i, SymBool): i = i.as_int()
            n = len(o)
            if not land(i >= -n, i < n): raise IndexError('string index out of range')
            if i.lo < 0 and i < 0: i = i + n
            if not isinstance(i, SymInt): return o[i]
            e = select([ord(c) for c in o], i, max(0, i.lo), min(n - 1, i.hi))
            if isinstance(e, int): return chr(e)
            if len(set(o)) == n:
                e = SymInt(e.a, e.w, e.lo, e.hi, tab=(o, i))
            return SymStr([e])
        if isinstance(o, dict):
            for k in list(o):
                if is_int(k) and i == k: return o[k]
            if hasattr(type(o), '__missing__'): return type(o).__missing__(o, i)
            raise KeyError(i)
        if isinstance(o, range):
            return o[concretize(i)]
        return o[i]
    if isinstance(i, SymStr) and isinstance(o, dict):
        for k in list(o):
            if isinstance(k, (str, SymStr)) and i == k: return o[k]
        raise KeyError(i)
    if isinstance(i, slice) and type(o) in (list, tuple, str):
        if isinstance(i.start, SymInt) or isinstance(i.stop, SymInt) or isinstance(i.step, SymInt):
            return o[conc_slice(i, len(o))]
    return o[i]

def _sx_class(x):
    if isinstance(x, SymInt): return x.cls or LInt
    if isinstance(x, SymBool): return LBool
    if isinstance(x, SymStr): return LStr
    t = type(x)
    if t is int: return LInt
    if t is bool: return LBool
    if t is str: return LStr
    if t is bytes: return LBytes
    if t is list: return LList
    if t is tuple: return LTuple
    try: return object.__getattribute__(x, '__class__')
    except Exception: return t

def _sx_mod(a, b):
    if isinstance(a, (str, SymStr)):
        if isinstance(a, str) and not _is_symbolic(b) and not _lazy_arg(b):
            return a % b
        return str_mod(a, b)
    return a % b

def _lazy_arg(b):
    # objects whose str()/repr() may run lifted code over symbolic state: keep lazy
    bs = b if isinstance(b, tuple) else [b]
    return any(not isinstance(x, (int, str, float, type(None))) for x in bs)

def _sx_meth(o, name, *a, **k):
    if type(o) is str and name != 'get':
        if name == 'format':
            if any(_is_symbolic(x) or _lazy_arg(x) for x in a) or any(_is_symbolic(x) or _lazy_arg(x) for x in k.values()):
                return str_format(o, a, k)
        elif name == 'join':
            l = list(iter(a[0]))
            if any(isinstance(x, SymStr) for x in l): return tosym(o).join(l)
            return o.join(l)
        elif any(isinstance(x, SymStr) for x in a):
            return getattr(tosym(o), name)(*a, **k)
        elif any(isinstance(x, (SymInt,)) for x in a):
            a = [concretize(x) if isinstance(x, SymInt) else x for x in a]
    elif isinstance(o, dict) and name == 'get' and isinstance(a[0], (SymInt, SymStr)):
        for kk in list(o):
            if (is_int(kk) if isinstance(a[0], SymInt) else isinstance(kk, (str, SymStr))) and a[0] == kk: return o[kk]
        return a[1] if len(a) > 1 else k.get('default')
    return getattr(o, name)(*a, **k)

# ------------------------------------------------------------------ lifted builtins

class LIntMeta(type):
    def __instancecheck__(cls, x):
        if cls is LInt: return isinstance(x, (int, SymInt, SymBool))
        if isinstance(x, SymInt): return x.cls is not None and issubclass(x.cls, cls)
        return type.__instancecheck__(cls, x)
    def __subclasscheck__(cls, c):
        if cls is LInt and (c is LBool or c is int or c is bool): return True
        return type.__subclasscheck__(cls, c)
    def __eq__(cls, o): return cls is o or (cls is LInt and o is int)
    def __hash__(cls): return hash(id(cls))

_NOARG = object()
class LInt(int, metaclass=LIntMeta):
    def __new__(cls, x=0, base=_NOARG):
        if isinstance(base, SymInt): base = concretize(base)
        if base is not _NOARG or isinstance(x, (str, SymStr, LBytes)):
            if isinstance(x, str): r = int(x, 10 if base is _NOARG else base)
            else: r = parse_int(x, 10 if base is _NOARG else base)
        elif isinstance(x, SymBool): r = x.as_int()
        elif isinstance(x, SymInt): r = x.plain()
        elif isinstance(x, int): r = int(x)
        elif isinstance(x, float): r = int(x)
        elif hasattr(type(x), '__int__'): r = type(x).__int__(x)
        elif hasattr(type(x), '__index__'): r = type(x).__index__(x)
        else: r = int(x)
        if cls is LInt: return r
        if isinstance(r, SymInt):
            return SymInt(r.a, r.w, r.lo, r.hi, cls, r.op, r.src, r.tab)
        return int.__new__(cls, r)
    @classmethod
    def from_bytes(cls, b, byteorder='big', *, signed=False):
        if isinstance(b, (list, tuple)): b = LBytes(b)
        r = int_from_bytes(b, byteorder, signed)
        return r if cls is LInt else cls(r)
    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)
    @staticmethod
    def bit_length(x): return x.bit_length()
    def __str__(self): return int.__repr__(self)

class LBoolMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (bool, SymBool))
    def __eq__(cls, o): return cls is o or o is bool
    def __hash__(cls): return hash(bool)
class LBool(metaclass=LBoolMeta):
    def __new__(cls, x=False):
        return truthy(x)
LBool.__mro_ok__ = True

class LStrMeta(type):
    def __instancecheck__(cls, x):
        if cls is LStr: return isinstance(x, (str, SymStr))
        return type.__instancecheck__(cls, x)
    def __subclasscheck__(cls, c):
        if cls is LStr and c is str: return True
        return type.__subclasscheck__(cls, c)
    def __eq__(cls, o): return cls is o or (cls is LStr and o is str)
    def __hash__(cls): return hash(id(cls))
class LStr(str, metaclass=LStrMeta):
    def __new__(cls, x='', encoding=None, errors='strict'):
        if encoding is not None: r = LBytes(x).decode(encoding, errors)
        elif isinstance(x, (str, SymStr)): r = x
        elif isinstance(x, (SymInt, SymBool)): r = SymStr(thunk=lambda: fmt_value(x, 's'))
        elif type(x) is LBytes: r = SymStr(thunk=lambda: tosym(repr_of(x)).els())
        else:
            f = type(x).__str__
            r = f(x)
        if cls is LStr: return str(r) if type(r) is LStr else r
        if isinstance(r, SymStr): r = r.force()
        return str.__new__(cls, r)

class LListMeta(type):
    def __instancecheck__(cls, x):
        if cls is LList: return isinstance(x, list)
        return type.__instancecheck__(cls, x)
    def __eq__(cls, o): return cls is o or (cls is LList and o is list)
    def __hash__(cls): return hash(id(cls))
class LList(list, metaclass=LListMeta):
    def __new__(cls, it=()):
        if cls is LList: return [x for x in iter(it)]
        return list.__new__(cls)
class LTupleMeta(type):
    def __instancecheck__(cls, x):
        if cls is LTuple: return isinstance(x, tuple)
        return type.__instancecheck__(cls, x)
    def __eq__(cls, o): return cls is o or (cls is LTuple and o is tuple)
    def __hash__(cls): return hash(id(cls))
class LTuple(tuple, metaclass=LTupleMeta):
    def __new__(cls, it=()):
        if cls is LTuple: return tuple([x for x in iter(it)])
        return tuple.__new__(cls, it)

def l_len(x):
    t = type(x)
    if t in (list, tuple, dict, str, set): return len(x)
    f = getattr(t, '__len__', None)
    if f is None: raise TypeError("object of type '%s' has no len()" % t.__name__)
    r = f(x)
    if isinstance(r, SymInt):
        if r.lo < 0 and r < 0: raise ValueError('__len__() should return >= 0')
        if r.hi >= 1 << 63 and r >= 1 << 63: raise OverflowError("cannot fit 'int' into an index-sized integer")
        return r
    if not isinstance(r, int): raise TypeError("'%s' object cannot be interpreted as an integer" % type(r).__name__)
    if r < 0: raise ValueError('__len__() should return >= 0')
    if r >= 1 << 63: raise OverflowError("cannot fit 'int' into an index-sized integer")
    return r

class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s
    def __iter__(self):
        i = self.a
        if self.s > 0:
            while i < self.b:
                yield i
                i = i + self.s
        else:
            while i > self.b:
                yield i
                i = i + self.s
    def __len__(self):
        n = 0
        for _ in self: n += 1
        return n
    def __reversed__(self): return reversed([x for x in self])
    def __contains__(self, x): return bool(land(x >= self.a, x < self.b)) if self.s == 1 else x in [y for y in self]
    def __getitem__(self, i): return [x for x in self][i]

class LRangeMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (range, SymRange))
class LRange(metaclass=LRangeMeta):
    def __new__(cls, *a):
        a = [x.as_int() if isinstance(x, SymBool) else x for x in a]
        for x in a:
            if not is_int(x): 
                if hasattr(x, '__index__'): continue
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
        if not any(isinstance(x, SymInt) for x in a): return range(*a)
        if len(a) == 1: a = [0, a[0], 1]
        elif len(a) == 2: a = [a[0], a[1], 1]
        if isinstance(a[2], SymInt): a[2] = concretize(a[2])
        if a[2] == 0: raise ValueError('range() arg 3 must not be zero')
        return SymRange(*a)

def l_reversed(x):
    if isinstance(x, (LBytes, LBytearray)): return iter(list(x)[::-1])
    if isinstance(x, SymStr): return iter([mkchar(c) for c in x.els()[::-1]])
    return reversed(x)

def l_divmod(a, b): return divmod(a, b)
def l_abs(a): return abs(a)
def l_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1: raise TypeError('ord() expected a character')
        return c.els()[0]
    if isinstance(c, LBytes):
        if len(c) != 1: raise TypeError('ord() expected a character')
        return c._e[0]
    return ord(c)
def l_chr(n):
    if isinstance(n, (SymInt, SymBool)):
        n = V._norm(n)
        if not land(n >= 0, n < 0x110000): raise ValueError('chr() arg not in range(0x110000)')
        return SymStr([n])
    return chr(n)
def l_hex(n):
    if isinstance(n, SymInt):
        neg = n.lo < 0 and bool(n < 0)
        e = int_str(n, 16)
        if neg: return SymStr([45, 48, 120] + e[1:])
        return SymStr([48, 120] + e)
    return hex(n)
def l_bin(n):
    if isinstance(n, SymInt):
        neg = n.lo < 0 and bool(n < 0)
        e = int_str(n, 2)
        return SymStr(([45, 48, 98] + e[1:]) if neg else [48, 98] + e)
    return bin(n)
def l_repr(x):
    if isinstance(x, (SymInt, SymBool, SymStr)) or type(x) is LBytes:
        return SymStr(thunk=lambda: tosym(repr_of(x)).els())
    return type(x).__repr__(x)
def l_min(*a, **k):
    if k or len(a) == 0: return min(*a, **k)
    l = list(iter(a[0])) if len(a) == 1 else list(a)
    if l and all(is_int(x) for x in l):
        r = l[0]
        for x in l[1:]: r = ite(mkb(x < r), x, r)
        return r
    return min(l)
def l_max(*a, **k):
    if k or len(a) == 0: return max(*a, **k)
    l = list(iter(a[0])) if len(a) == 1 else list(a)
    if l and all(is_int(x) for x in l):
        r = l[0]
        for x in l[1:]: r = ite(mkb(x > r), x, r)
        return r
    return max(l)
def mkb(v): return v
def _flat_truths(it):
    """the truth values of a finished sequence of plain numbers, else None"""
    if type(it) not in (LBytes, LBytearray, list, tuple): return None
    l = list(it)
    if not all(isinstance(x, (SymBool, bool)) or type(x) in (int, SymInt) for x in l): return None
    if not any(isinstance(x, (SymBool, SymInt)) for x in l): return None
    return [truthy(x) for x in l]
def l_all(it):
    t = _flat_truths(it)
    if t is not None: return land(*t)
    for x in it:
        if not x: return False
    return True
def l_any(it):
    t = _flat_truths(it)
    if t is not None: return lor(*t)
    for x in it:
        if x: return True
    return False
def l_sum(it, start=0):
    r = start
    for x in it: r = r + x
    return r
def l_round(x, n=None):
    if isinstance(x, SymInt): return x
    if isinstance(x, SymFloat): return x.__round__(n)
    return round(x, n) if n is not None else round(x)
def l_format(v, spec=''):
    if _is_symbolic(v): return SymStr(thunk=lambda: format_els(v, spec))
    return format(v, spec)
def l_print(*a, **k): 
    core.E.printed.append(a) if hasattr(core.E, 'printed') else None
def l_isinstance(x, t):
    if isinstance(t, tuple): return any(l_isinstance(x, y) for y in t)
    if isinstance(x, (SymInt, SymBool, SymStr)):
        if t is int: t = LInt
        elif t is bool: t = LBool
        elif t is str: t = LStr
        elif t is object: return True
        import numbers
        if t in (numbers.Number, numbers.Integral, numbers.Real) and isinstance(x, (SymInt, SymBool)): return True
        if not isinstance(t, (LIntMeta, LBoolMeta, LStrMeta)): 
            import collections.abc as cabc
            if isinstance(x, SymStr) and t in (cabc.Sequence, cabc.Iterable, cabc.Sized, cabc.Hashable): return True
            return False
    if isinstance(x, LBytes) and t is bytes: return True
    if isinstance(x, LBytearray) and t is bytearray: return True
    return isinstance(x, t)
def l_issubclass(c, t):
    if isinstance(t, tuple): return any(l_issubclass(c, y) for y in t)
    if t is LInt and (c is int or c is bool or c is LBool): return True
    if t is LStr and c is str: return True
    return issubclass(c, t)
def l_memoryview(x):
    # a read-only view behaves like the byte string for indexing, slicing, iteration and comparison
    return LBytes(x)
def l_sorted(it, *, key=None, reverse=False):
    return sorted([x for x in iter(it)], key=key, reverse=reverse)
def l_hash(x):
    if isinstance(x, (SymInt, SymBool)): return x
    if isinstance(x, (LBytes, SymStr)) and HASH_UF[0]:
        f = getattr(type(x), '__hash__')
        if f in (LBytes.__hash__, SymStr.__hash__): return HASH_UF[0](x)
    return hash(x)
HASH_UF = [None]
def l_enumerate(it, start=0):
    i = start
    for x in it:
        yield i, x
        i = i + 1

# ------------------------------------------------------------------ library models

class _Struct:
    """struct with symbolic integers"""
    SZ = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}
    def parse(self, fmt):
        if isinstance(fmt, LBytes): fmt = bytes(fmt._force()).decode()
        if isinstance(fmt, SymStr): fmt = fmt.force()
        native = not fmt or fmt[0] not in '<>!='
        order = '<'
        if fmt and fmt[0] in '<>!=@':
            order = {'<': '<', '>': '>', '!': '>', '=': '<', '@': '<'}[fmt[0]]
            if fmt[0] == '@': native = True
            body = fmt[1:]
        else: body = fmt
        items = []; n = ''
        for c in body:
            if c.isspace(): continue
            if c.isdigit(): n += c; continue
            cnt = int(n) if n else 1
            if c == 's': items.append(('s', cnt if n else 1))
            elif c in self.SZ or c in 'fdnNpP':
                if c in 'fdnNpP': items.append((c, cnt))
                else: items.extend([(c, None)] * cnt)
            else: raise real_struct.error('bad char in struct format')
            n = ''
        if native and len(set(items)) > 1: raise Incomplete('native struct alignment %r' % fmt)
        return fmt, order, native, items
    def size(self, c, native):
        if native and c in 'lL': return 8
        return self.SZ[c]
def struct_pack(fmt, *args):
    S = _Struct()
    fmt, order, native, items = S.parse(fmt)
    need = sum(1 for c, _ in items if c != 'x')
    if need != len(args): raise real_struct.error('pack expected %d items for packing (got %d)' % (need, len(args)))
    out = []; k = 0
    for c, n in items:
        if c == 'x': out.append(0); continue
        v = args[k]; k += 1
        if c == 's':
            if not isinstance(v, (LBytes, LBytearray, bytes)): raise real_struct.error("argument for 's' must be a bytes object")
            e = list(LBytes(v)._e)[:n]
            out.extend(e + [0] * (n - len(e)))
        elif c == 'c':
            if not isinstance(v, LBytes) or len(v) != 1: raise real_struct.error('char format requires a bytes object of length 1')
            out.extend(v._e)
        elif c == '?': 
            t = truthy(v)
            out.append(boolint(t))
        elif c in 'fd':
            out.extend(real_struct.pack(order + c, v))
        else:
            sz = S.size(c, native)
            if not is_int(v):
                if hasattr(type(v), '__index__'): v = type(v).__index__(v)
                else: raise real_struct.error('required argument is not an integer')
            v = V._norm(v)
            lo, hi = (-(1 << (8*sz-1)), (1 << (8*sz-1)) - 1) if c.islower() else (0, (1 << (8*sz)) - 1)
            l, h = bounds(v)
            if l < lo or h > hi:
                if not land(v >= lo, v <= hi): raise real_struct.error('argument out of range')
                if isinstance(v, SymInt):
                    v = SymInt(ext(v, 8*sz), 8*sz, max(l, lo), min(h, hi)) if v.w != INT else SymInt(v.a, INT, max(l, lo), min(h, hi))
                    if v.w != INT and v.lo >= 0: pass
            e = split_bytes(v, sz)
            out.extend(e if order == '<' else e[::-1])
    return LBytes._mk(out)
def struct_unpack_items(items, order, native, els):
    S = _Struct(); out = []; p = 0
    for c, n in items:
        if c == 'x': p += 1; continue
        if c == 's': out.append(LBytes._mk(els[p:p+n])); p += n; continue
        if c == 'c': out.append(LBytes._mk(els[p:p+1])); p += 1; continue
        if c == '?': out.append(truthy(els[p])); p += 1; continue
        if c in 'fd':
            sz = 4 if c == 'f' else 8
            b = bytes([concretize(x) for x in els[p:p+sz]]); p += sz
            out.append(real_struct.unpack(order + c, b)[0]); continue
        sz = S.size(c, native)
        e = els[p:p+sz]; p += sz
        out.append(int_from_bytes(LBytes._mk(e), 'little' if order == '<' else 'big', c.islower()))
    return tuple(out)
def struct_calcsize(fmt):
    S = _Struct()
    fmt, order, native, items = S.parse(fmt)
    return sum(n if c == 's' else {'f': 4, 'd': 8}.get(c) or S.size(c, native) for c, n in items)
def struct_unpack(fmt, b):
    S = _Struct()
    fmt, order, native, items = S.parse(fmt)
    if not isinstance(b, (LBytes, LBytearray, bytes)): raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
    b = LBytes(b)
    n = struct_calcsize(fmt)
    if len(b) != n: raise real_struct.error('unpack requires a buffer of %d bytes' % n)
    return struct_unpack_items(items, order, native, b._e)
def struct_unpack_from(fmt, buffer, offset=0):
    n = struct_calcsize(fmt)
    offset = concretize(offset)
    if offset < 0: offset += len(buffer)
    if offset < 0 or offset + n > len(buffer): raise real_struct.error('unpack_from requires a buffer of at least %d bytes' % (n + offset))
    return struct_unpack(fmt, LBytes(buffer)[offset:offset + n])
class StructObj:
    def __init__(self, fmt): self.format = fmt; self.size = struct_calcsize(fmt)
    def pack(self, *a): return struct_pack(self.format, *a)
    def unpack(self, b): return struct_unpack(self.format, b)
    def unpack_from(self, b, offset=0): return struct_unpack_from(self.format, b, offset)
    def iter_unpack(self, b): return struct_iter_unpack(self.format, b)
def struct_iter_unpack(fmt, b):
    n = struct_calcsize(fmt)
    if n == 0 or len(b) % n: raise real_struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    for i in range(0, len(b), n): yield struct_unpack(fmt, b[i:i+n])
def struct_pack_into(fmt, buf, off, *a):
    r = struct_pack(fmt, *a)
    buf[off:off+len(r)] = r

def ideal_hash(alg, size, els):
    """digest elements: the real digest for concrete input, an ideal (injective) function otherwise"""
    e = core.E
    key = (alg,) + tuple(v if isinstance(v, int) else (v.a.get_id(), v.w) for v in els)
    hit = e.hashindex.get(key)
    if hit is not None: return list(hit)
    e.stats['hashcalls'] += 1
    if all(isinstance(v, int) for v in els):
        h = real_hashlib.new(alg) if alg != 'ripemd160' else real_hashlib.new('ripemd160')
        h.update(bytes(els))
        dig = list(h.digest())
        sym = False
    else:
        d = z3.BitVec(e.fresh_name('H'), 8 * size)
        dig = [SymInt(z3.Extract(8*i + 7, 8*i, d), 8, 0, 255, src=(d, 8*i, 8, None)) for i in range(size)]
        sym = True
    dn = join_bytes(dig)
    din = V.toraw(join_bytes(els))
    entry = (alg, list(els), dig, dn, sym, din, d if sym else dn)
    if sym: e.digest_src[d.get_id()] = len(e.hashlog)
    e.hashlog.append(entry)
    e.hashindex[key] = dig
    if e.model is not None and not e.replaying(): e.new_hash(entry)
    return list(dig)

def hash_lemma(h1, h2):
    """functional consistency and injectivity for one pair of hash applications"""
    e = core.E
    if len(h1[1]) != len(h2[1]): ieq = z3.BoolVal(False)
    else: ieq = zb(V.elems_eq(h1[1], h2[1]))
    deq = zb(V.join_bytes(h1[2]) == V.join_bytes(h2[2]))
    if not e.hash_prefix: return ieq == deq
    k = e.hash_prefix
    return z3.And(z3.Implies(ieq, deq), z3.Implies(zb(V.join_bytes(h1[2][:k]) == V.join_bytes(h2[2][:k])), ieq))
Engine_hooks = core.Engine
Engine_hooks.lemma_fn = staticmethod(hash_lemma)

def _real_digest(alg, iv, n):
    h = real_hashlib.new(alg); h.update(iv.to_bytes(n, 'little'))
    return int.from_bytes(h.digest(), 'little')
Engine_hooks.real_digest = staticmethod(_real_digest)

class LHash:
    digest_sizes = {'sha256': 32, 'sha1': 20, 'ripemd160': 20, 'md5': 16, 'sha512': 64, 'sha224': 28, 'sha384': 48}
    def __init__(self, alg, data=None):
        self.name = alg; self.digest_size = self.digest_sizes[alg]; self.block_size = 128 if alg in ('sha512', 'sha384') else 64
        self._b = []
        if data is not None: self.update(data)
    def update(self, data):
        if not isinstance(data, (LBytes, LBytearray, bytes, bytearray)): raise TypeError('object supporting the buffer API required')
        self._b = self._b + list(LBytes(data)._e)
    def digest(self): return LBytes._mk(ideal_hash(self.name, self.digest_size, self._b))
    def hexdigest(self): return self.digest().hex()
    def copy(self):
        h = LHash(self.name); h._b = list(self._b); return h
def hashlib_new(name, data=None, **kw):
    n = name.lower().replace('-', '')
    if n == 'rmd160': n = 'ripemd160'
    if n not in LHash.digest_sizes: raise ValueError('unsupported hash type ' + name)
    return LHash(n, data)
def _mk_hash(n):
    def f(data=None, **kw): return LHash(n, data)
    f.__name__ = n
    return f

class LHmac:
    def __init__(self, key, msg=None, digestmod=None):
        if isinstance(digestmod, str): f = lambda d=None: hashlib_new(digestmod, d)
        elif callable(digestmod): f = digestmod
        else: f = digestmod.new
        self._f = f
        h = f()
        key = LBytes(key)
        if len(key) > h.block_size: key = f(key).digest()
        k = key + LBytes._mk([0] * (h.block_size - len(key)))
        self._o = LBytes._mk([x ^ 0x5c for x in k]); self._i = f(LBytes._mk([x ^ 0x36 for x in k]))
        self.digest_size = h.digest_size; self.block_size = h.block_size
        if msg is not None: self.update(msg)
    def update(self, m): self._i.update(m)
    def digest(self): return self._f(self._o + self._i.digest()).digest()
    def hexdigest(self): return self.digest().hex()

class LBytesIO:
    def __init__(self, b=None):
        self._e = list(LBytes(b)._e) if b is not None else []
        self._p = 0
        self.closed = False
    def read(self, n=-1):
        rem = max(0, len(self._e) - self._p)
        if n is None: n = -1
        if isinstance(n, (SymInt, SymBool)):
            n = V._norm(n)
            if n.lo < 0 and n < 0: n = rem
            elif n.hi > 0x7fffffffffffffff and n > 0x7fffffffffffffff: raise OverflowError('Python int too large to convert to C ssize_t')
            elif n >= rem: n = rem
            else: n = concretize(n)
        elif not isinstance(n, int): 
            raise TypeError("argument should be integer or None, not '%s'" % type(n).__name__)
        elif n > 0x7fffffffffffffff: raise OverflowError('Python int too large to convert to C ssize_t')
        if n < 0 or n > rem: n = rem
        r = LBytes._mk(self._e[self._p:self._p + n])
        self._p += n
        return r
    read1 = read
    def write(self, b):
        if isinstance(b, (str, SymStr)): raise TypeError("a bytes-like object is required, not 'str'")
        e = LBytes(b)._e
        if self._p > len(self._e): self._e.extend([0] * (self._p - len(self._e)))
        self._e[self._p:self._p + len(e)] = e
        self._p += len(e)
        return len(e)
    def getvalue(self): return LBytes._mk(list(self._e))
    def getbuffer(self): return LBytes._mk(list(self._e))
    def tell(self): return self._p
    def seek(self, p, whence=0):
        p = concretize(p)
        if whence == 0:
            if p < 0: raise ValueError('negative seek value')
            self._p = p
        elif whence == 1: self._p = max(0, self._p + p)
        else: self._p = max(0, len(self._e) + p)
        return self._p
    def truncate(self, n=None):
        del self._e[self._p if n is None else n:]
    def seekable(self): return True
    def readable(self): return True
    def writable(self): return True
    def flush(self): pass
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): pass

def mod(name, /, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m

def b_hexlify(b, *a):
    if not isinstance(b, (LBytes, LBytearray, bytes)): raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
    return LBytes._mk(hex_els(LBytes(b)._e))
def b_unhexlify(s):
    if isinstance(s, (str, SymStr)): chars = tosym(s).els()
    elif isinstance(s, (LBytes, LBytearray, bytes)): chars = LBytes(s)._e
    else: raise TypeError('argument should be bytes, buffer or ASCII string')
    for c in chars:
        if isinstance(c, SymInt) and c.tab is None and c.hi > 127 and isinstance(s, (str, SymStr)):
            if c > 127: raise ValueError('string argument should contain only ASCII characters')
    def err(odd=len(chars) % 2):
        return real_binascii.Error('Odd-length string' if odd else 'Non-hexadecimal digit found')
    return LBytes._mk(unhex_els(list(chars), err=err))

class LUUID:
    def __init__(self, hex=None, bytes=None, int=None, **k):
        if bytes is not None: self.bytes = LBytes(bytes)
        elif int is not None: self.bytes = int_to_bytes(int, 16, 'big')
        else: self.bytes = LBytes(real_uuid.UUID(hex if isinstance(hex, str) else hex.force()).bytes)
    @property
    def hex(self): return self.bytes.hex()
    @property
    def int(self): return int_from_bytes(self.bytes, 'big')
    @property
    def bytes_le(self): raise Incomplete('uuid.bytes_le')
    def __eq__(self, o): return isinstance(o, LUUID) and self.bytes == o.bytes
    def __hash__(self): return 1
    def __str__(self):
        h = tosym(self.bytes.hex())
        return tosym('').join([h[:8], '-', h[8:12], '-', h[12:16], '-', h[16:20], '-', h[20:]])

def inet_ntoa(b):
    b = LBytes(b)
    if len(b) != 4: raise OSError('packed IP wrong length')
    def text():
        r = []
        for i, v in enumerate(b._e):
            if i: r.append(46)
            r.extend(int_str(v))
        return r
    if b._isconc(): return str_from_els(text())
    s = SymStr(thunk=text)
    _NTOA.append((core.E.inputs, s, b)); del _NTOA[:-64]
    return s
_NTOA = []
def inet_aton(s):
    if isinstance(s, str): return LBytes(real_socket.inet_aton(s))
    if isinstance(s, SymStr):
        for own, t, b in _NTOA:
            if own is core.E.inputs and t is s: return b
        e = s.els()
        parts = [[]]
        for c in e:
            if isinstance(c, int) and c == 46: parts.append([])
            elif isinstance(c, SymInt) and c.tab is None: raise Incomplete('inet_aton of arbitrary text')
            else: parts[-1].append(c)
        if len(parts) != 4: raise Incomplete('inet_aton form')
        return LBytes([parse_int(str_from_els(p)) if not isinstance(str_from_els(p), str) else int(str_from_els(p)) for p in parts])
    raise TypeError('inet_aton() argument 1 must be str, not %s' % type(s).__name__)

FIXED_TIME = 1500000000
class Clock:
    value = FIXED_TIME
def l_time(): return Clock.value

import time as real_time, random as real_random
class _Rand:
    def __init__(self, *a): self.r = real_random.Random(1234)

def l_urandom(n): return LBytes([(17 * i + 3) & 255 for i in range(concretize(n))])

import json as real_json, decimal as real_decimal
class SymDecimal:
    """an exact decimal n / 10**e with symbolic n (at most 28 digits, so Decimal arithmetic on it is exact)"""
    def __init__(self, n, e):
        self.n = n; self.e = e
    def _norm(self, o):
        if isinstance(o, SymDecimal): return o
        if isinstance(o, real_decimal.Decimal):
            s, d, x = o.as_tuple()
            v = int(o.scaleb(-x if x < 0 else 0)); return SymDecimal(v, -x if x < 0 else 0)
        if isinstance(o, bool) or not isinstance(o, (int, SymInt)): raise TypeError('unsupported operand type(s) for decimal.Decimal and %s' % type(o).__name__)
        return SymDecimal(o, 0)
    def __mul__(self, o):
        import math
        o = self._norm(o)
        n, e, m = self.n, self.e + o.e, o.n
        if isinstance(m, SymInt) and not isinstance(n, SymInt): n, m = m, n
        if isinstance(m, int):
            g = math.gcd(m, 10 ** e)
            while e and g % 10 == 0: g //= 10; m //= 10; e -= 1
        return SymDecimal(n * m, e)
    __rmul__ = __mul__
    def __add__(self, o):
        o = self._norm(o); e = max(self.e, o.e)
        return SymDecimal(self.n * 10 ** (e - self.e) + o.n * 10 ** (e - o.e), e)
    __radd__ = __add__
    def __neg__(self): return SymDecimal(-self.n, self.e)
    def __sub__(self, o): return self + -self._norm(o)
    def __rsub__(self, o): return -self + o
    def _cmp(self, o, f):
        o = self._norm(o); e = max(self.e, o.e)
        return f(self.n * 10 ** (e - self.e), o.n * 10 ** (e - o.e))
    def __eq__(self, o):
        try: return self._cmp(o, lambda a, b: a == b)
        except TypeError: return False
    def __ne__(self, o): return lnot(self == o)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __hash__(self): return 0
    def __bool__(self): return bool(truthy(self.n))
    def __int__(self):
        if not self.e: return self.n
        d = 10 ** self.e
        return ite(self.n >= 0, abs(self.n) // d, -(abs(self.n) // d))
    __trunc__ = __int__
    def _no(self, *a, **k): raise Incomplete('decimal operation')
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __pow__ = __str__ = __repr__ = __format__ = __round__ = _no
    quantize = to_integral_value = to_integral_exact = normalize = as_tuple = scaleb = _no

class LFloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (float, SymFloat))
    def __subclasscheck__(cls, c): return issubclass(c, (float, SymFloat))
    def __eq__(cls, o): return cls is o or o is float
    def __hash__(cls): return hash(id(cls))
class LFloat(float, metaclass=LFloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymBool): x = x.as_int()
        if isinstance(x, SymFloat): return x
        if isinstance(x, SymInt): return SymFloat.of(x)
        if isinstance(x, SymDecimal):
            v = SymFloat(x.n, 1, 1, 10 ** x.e)
            if not v._int53(): v.r = 1
            return v
        return float(x)

class JText:
    """the JSON text of an object with symbolic parts"""
    def __init__(self, o): self.o = o
    def encode(self, *a): return self
    def decode(self, *a): return self
    def strip(self, *a): return self
    def __str__(self): raise Incomplete('text of symbolic JSON')
def _json_copy(o, leaf):
    if isinstance(o, dict):
        for k in o:
            if not isinstance(k, (str, SymStr, int)): raise TypeError('keys must be str, int, float, bool or None, not %s' % type(k).__name__)
        return {k: _json_copy(v, leaf) for k, v in o.items()}
    if isinstance(o, (list, tuple)) and not isinstance(o, LBytes): return [_json_copy(v, leaf) for v in o]
    return leaf(o)
def json_dumps(o, **kw):
    try: return real_json.dumps(o, **kw)
    except (TypeError, ValueError): pass
    def leaf(v):
        if v is None or isinstance(v, (str, SymStr, int, SymInt, SymBool, float, SymFloat)): return v
        raise TypeError('Object of type %s is not JSON serializable' % type(v).__name__)
    if kw: raise Incomplete('options of json.dumps')
    return JText(_json_copy(o, leaf))
def json_loads(s, *, parse_float=None, **kw):
    if not isinstance(s, JText):
        if isinstance(s, LBytes): s = bytes(s._conc()) if hasattr(s, '_conc') else s
        return real_json.loads(s, parse_float=parse_float, **kw)
    def leaf(v):
        if isinstance(v, SymDecimal) and parse_float is not real_decimal.Decimal: raise Incomplete('JSON number as %r' % (parse_float,))
        return v
    if kw: raise Incomplete('options of json.loads')
    return _json_copy(s.o, leaf)

def build_models():
    import os as ros
    M = {}
    M['struct'] = mod('struct', pack=struct_pack, unpack=struct_unpack, unpack_from=struct_unpack_from, calcsize=struct_calcsize,
                      Struct=StructObj, error=real_struct.error, iter_unpack=struct_iter_unpack, pack_into=struct_pack_into)
    hl = dict(new=hashlib_new, algorithms_available=real_hashlib.algorithms_available)
    for n in LHash.digest_sizes: hl[n] = _mk_hash(n)
    M['hashlib'] = mod('hashlib', **hl)
    M['hmac'] = mod('hmac', HMAC=LHmac, new=lambda key, msg=None, digestmod=None: LHmac(key, msg, digestmod),
                    compare_digest=lambda a, b: a == b, digest=lambda k, m, d: LHmac(k, m, d).digest())
    M['io'] = mod('io', BytesIO=LBytesIO, StringIO=real_io.StringIO, BufferedIOBase=real_io.BufferedIOBase, IOBase=real_io.IOBase,
                  RawIOBase=real_io.RawIOBase, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2)
    M['binascii'] = mod('binascii', hexlify=b_hexlify, unhexlify=b_unhexlify, b2a_hex=b_hexlify, a2b_hex=b_unhexlify, Error=real_binascii.Error)
    M['json'] = mod('json', dumps=json_dumps, loads=json_loads, JSONDecodeError=real_json.JSONDecodeError)
    M['uuid'] = mod('uuid', UUID=LUUID, uuid4=lambda: LUUID(bytes=l_urandom(16)))
    sk = dict(real_socket.__dict__); sk.update(inet_ntoa=inet_ntoa, inet_aton=inet_aton)
    M['socket'] = mod('socket', **{k: v for k, v in sk.items() if not k.startswith('__')})
    tm = {k: v for k, v in real_time.__dict__.items() if not k.startswith('__')}; tm['time'] = l_time
    M['time'] = mod('time', **tm)
    rd = {k: v for k, v in real_random.__dict__.items() if not k.startswith('__')}
    rd['getrandbits'] = lambda n: 0x0123456789abcdef & ((1 << n) - 1)
    rd['randint'] = lambda a, b: a
    M['random'] = mod('random', **rd)
    od = {k: v for k, v in ros.__dict__.items() if not k.startswith('__')}; od['urandom'] = l_urandom
    M['os'] = mod('os', **od)
    M['os'].path = ros.path
    M['secrets'] = mod('secrets', token_bytes=l_urandom)
    return M

MODELS = build_models()
LMODS = {}
ROOTS = ('bitcoin', 'proofmarshal', 'proofchains', 'props', 'engine_support')

def find_source(name):
    """(path, is_package) of a lifted module"""
    parts = name.split('.')
    base = VERIF if parts[0] == 'props' else REPO
    p = os.path.join(base, *parts)
    if os.path.isdir(p):
        i = os.path.join(p, '__init__.py')
        return (i if os.path.exists(i) else None), True
    if os.path.exists(p + '.py'): return p + '.py', False
    raise ModuleNotFoundError("No module named %r" % name, name=name)

def load(name):
    m = LMODS.get(name)
    if m is not None: return m
    parent = None
    if '.' in name:
        parent = load(name.rpartition('.')[0])
        m = LMODS.get(name)
        if m is not None: return m
    path, pkg = find_source(name)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if pkg else name.rpartition('.')[0]
    if pkg: m.__path__ = [os.path.dirname(path) if path else '']
    LMODS[name] = m
    try:
        if path: exec_source(m, path, name)
    except BaseException:
        del LMODS[name]
        raise
    if parent is not None: setattr(parent, name.rpartition('.')[2], m)
    return m

SOURCES = {}
def exec_source(m, path, name, text=None):
    if text is None:
        text = open(path, 'rb').read()
    SOURCES[name] = path
    tree = ast.parse(text, path)
    tree = Tx(name, not name.startswith('props')).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec')
    m.__dict__['__builtins__'] = LBUILTINS
    exec(code, m.__dict__)

SCRIPT_MODS = {}
_script_code = {}
def run_script(path, modules, names):
    full = os.path.join(REPO, path)
    code = _script_code.get(full)
    if code is None:
        tree = ast.fix_missing_locations(Tx(path, True).visit(ast.parse(open(full, 'rb').read(), full)))
        code = _script_code[full] = compile(tree, full, 'exec')
        SOURCES[path] = full
    m = types.ModuleType('__main__'); m.__file__ = full
    m.__dict__.update(names)
    m.__dict__['__builtins__'] = LBUILTINS
    SCRIPT_MODS.update(modules)
    try: exec(code, m.__dict__)
    finally: SCRIPT_MODS.clear()
    return m

def l_import(name, globals=None, locals=None, fromlist=(), level=0):
    if name in SCRIPT_MODS: return SCRIPT_MODS[name]
    if level:
        pkg = globals['__package__']
        for _ in range(level - 1): pkg = pkg.rpartition('.')[0]
        name = pkg + ('.' + name if name else '')
    top = name.split('.')[0]
    if top in ROOTS:
        m = load(name)
        if not fromlist: return load(top) if not level else m
        if '*' not in fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    try: load(name + '.' + f)
                    except ModuleNotFoundError: pass
        return m
    if name in MODELS: return MODELS[name]
    if top in MODELS and name != 'os.path': return MODELS[top]
    return builtins.__import__(name, globals, locals, fromlist, 0)

def build_builtins():
    d = dict(builtins.__dict__)
    d.update(bytes=LBytes, bytearray=LBytearray, int=LInt, bool=LBool, float=LFloat, str=LStr, list=LList, tuple=LTuple, len=l_len, range=LRange,
             reversed=l_reversed, ord=l_ord, chr=l_chr, hex=l_hex, bin=l_bin, repr=l_repr, min=l_min, max=l_max, all=l_all, any=l_any, sum=l_sum,
             round=l_round, format=l_format, isinstance=l_isinstance, issubclass=l_issubclass, memoryview=l_memoryview, sorted=l_sorted,
             hash=l_hash, enumerate=l_enumerate, __import__=l_import, print=l_print,
             _sx_b=_sx_b, _sx_enter=_sx_enter, _sx_fstr=_sx_fstr, _sx_chain=_sx_chain, _sx_in=_sx_in, _sx_notin=_sx_notin, _sx_is=_sx_is, _sx_isnot=_sx_isnot,
             _sx_slice=_sx_slice, _sx_getitem=_sx_getitem, _sx_class=_sx_class, _sx_mod=_sx_mod, _sx_meth=_sx_meth,
             _sx_not=_sx_not, _sx_and=_sx_and, _sx_or=_sx_or, _sx_ife=_sx_ife, _sx_merge=_sx_merge, _sx_aug=_sx_aug, _sx_elem=_sx_elem, _sx_issym=_sx_issym,
             _sx_truthy=_sx_truthy, _sx_nomerge=_sx_nomerge, _sx_UNB=_sx_UNB, _sx_Exception=_sx_Exception)
    return d
LBUILTINS = build_builtins()

# ------------------------------------------------------------------ per-path reset of module and class state

_snap = None
_REAL = object()
def snapshot():
    global _snap
    _snap = []
    seen = set()
    for m in list(LMODS.values()):
        _snap.append((m, dict(m.__dict__)))
        stack = [v for v in m.__dict__.values() if isinstance(v, type)]
        while stack:
            c = stack.pop()
            if id(c) in seen or not (getattr(c, '__module__', '') or '').split('.')[0] in ROOTS: continue
            seen.add(id(c))
            _snap.append((c, dict(c.__dict__)))
            stack.extend(v for v in c.__dict__.values() if isinstance(v, type))
    _conts = []
    for o, d in _snap:
        for k, v in d.items():
            if k.startswith('__'): continue
            if type(v) is list: _conts.append((v, list(v)))
            elif type(v) is dict: _conts.append((v, dict(v)))
            elif type(v) is set: _conts.append((v, set(v)))
    _snap = (_snap, _conts)

def restore():
    Clock.value = FIXED_TIME
    HASH_UF[0] = None
    if _snap is None: return
    snaps, conts = _snap
    for o, d in snaps:
        cur = o.__dict__
        if isinstance(o, type):
            if len(cur) != len(d) or any(cur.get(k, _REAL) is not v for k, v in d.items()):
                for k in list(cur):
                    if k not in d:
                        try: delattr(o, k)
                        except (AttributeError, TypeError): pass
                for k, v in d.items():
                    if cur.get(k, _REAL) is not v:
                        try: type.__setattr__(o, k, v)
                        except (AttributeError, TypeError): pass
        else:
            for k in list(cur):
                if k not in d: del cur[k]
            cur.update(d)
    for c, v in conts:
        if type(c) is list: 
            if len(c) != len(v) or any(a is not b for a, b in zip(c, v)): c[:] = v
        elif type(c) is dict:
            if len(c) != len(v) or any(c.get(k, _REAL) is not x for k, x in v.items()): c.clear(); c.update(v)
        else:
            if c != v: c.clear(); c.update(v)
