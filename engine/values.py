"""Symbolic values used by the lifted program: exact Python integers, booleans, byte strings and text."""
import z3
import core
from core import Incomplete

_BV = {}
def bvval(v, w):
    k = (v, w)
    r = _BV.get(k)
    if r is None:
        r = z3.BitVecVal(v, w)
        if len(_BV) < 200000: _BV[k] = r
    return r

def ubits(hi):
    return max(1, hi.bit_length())

def sbits(lo, hi):
    return max((lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()) + 1

def width_for(lo, hi):
    return ubits(hi) if lo >= 0 else sbits(lo, hi)

INT = 0   # width marking the mathematical-integer representation

class SymBool:
    """A symbolic boolean.  Truth testing forks the path."""
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e
    def __bool__(self):
        return core.E.decide(self.e)
    def __repr__(self): return '<symbool>'
    __str__ = __repr__
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    __int__ = __index__
    def as_int(self):
        return SymInt(z3.If(self.e, bvval(1, 1), bvval(0, 1)), 1, 0, 1)
    def __eq__(self, o):
        if isinstance(o, SymBool): return mkbool(self.e == o.e)
        if isinstance(o, bool): return self if o else mkbool(z3.Not(self.e))
        if isinstance(o, (int, SymInt)): return self.as_int() == o
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    def __and__(self, o):
        if isinstance(o, (bool, SymBool)): return land(self, o)
        return self.as_int() & o
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, (bool, SymBool)): return lor(self, o)
        return self.as_int() | o
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)): return lnot(self == o)
        return self.as_int() ^ o
    __rxor__ = __xor__
    def __getattr__(self, name):
        if name in ('e', 'as_int') or name.startswith('__'): raise AttributeError(name)
        return getattr(self.as_int(), name)

for _n in ('add','sub','mul','floordiv','mod','lshift','rshift','lt','le','gt','ge','divmod','pow','truediv'):
    def _mk(n):
        def f(self, o):
            m = getattr(SymInt, '__%s__' % n)
            x = self.as_int()
            if not isinstance(x, SymInt): return getattr(x, '__%s__' % n)(o)
            return m(x, o)
        return f
    setattr(SymBool, '__%s__' % _n, _mk(_n))
for _n in ('add','sub','mul','floordiv','mod','lshift','rshift'):
    def _mk2(n):
        def f(self, o):
            return getattr(SymInt, '__r%s__' % n)(self.as_int(), o)
        return f
    setattr(SymBool, '__r%s__' % _n, _mk2(_n))
for _n in ('neg','pos','invert','abs'):
    def _mk3(n):
        def f(self): return getattr(SymInt, '__%s__' % n)(self.as_int())
        return f
    setattr(SymBool, '__%s__' % _n, _mk3(_n))

def mkbool(e):
    if e is True or e is False: return e
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)

def zb(b):
    """python/symbolic truth value -> z3 Bool (no fork for SymBool/SymInt)"""
    if isinstance(b, SymBool): return b.e
    if isinstance(b, SymInt): 
        r = (b != 0)
        return zb(r)
    return z3.BoolVal(bool(b))

def lnot(b):
    if isinstance(b, SymBool): return mkbool(z3.Not(b.e))
    if isinstance(b, SymInt): return b == 0
    return not b

def land(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymInt): b = (b != 0)
        if isinstance(b, SymBool): out.append(b.e)
        elif not b: return False
    if not out: return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))

def lor(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymInt): b = (b != 0)
        if isinstance(b, SymBool): out.append(b.e)
        elif b: return True
    if not out: return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))

def truthy(v):
    """Truth value without forking where possible: returns bool or SymBool."""
    if isinstance(v, SymBool): return v
    if isinstance(v, SymInt): return v != 0
    return bool(v)

def ext(x, w):
    """z3 BV of width w holding integer x modulo 2**w.  x: int, SymInt (bit-vector kind)"""
    if isinstance(x, SymBool): x = x.as_int()
    if isinstance(x, int):
        return bvval(int(x) & ((1 << w) - 1), w)
    if x.w == INT:
        return z3.Int2BV(x.a, w)
    if x.w == w: return x.a
    if w > x.w:
        return (z3.ZeroExt if x.lo >= 0 else z3.SignExt)(w - x.w, x.a)
    if x.op is not None:
        k, p, q = x.op
        if k == '+': return ext(p, w) + ext(q, w)
        if k == '-': return ext(p, w) - ext(q, w)
        if k == '*': return ext(p, w) * ext(q, w)
        if k == '^': return ext(p, w) ^ ext(q, w)
        if k == '|': return ext(p, w) | ext(q, w)
        if k == '&': return ext(p, w) & ext(q, w)
        if k == '<<': return z3.simplify(ext(p, w) << bvval(q, w)) if q < w else bvval(0, w)
    return z3.Extract(w - 1, 0, x.a)

def toint(x):
    """z3 Int for x"""
    if isinstance(x, SymBool): x = x.as_int()
    if isinstance(x, int): return z3.IntVal(int(x))
    if x.w == INT: return x.a
    r = z3.BV2Int(x.a, is_signed=(x.lo < 0))
    return r

def is_int(x):
    return isinstance(x, (int, SymInt, SymBool))

class SymInt:
    """An exact Python integer lo <= x <= hi; bit-vector of width w (unsigned iff lo >= 0) or, for w == 0, a z3 Int."""
    __slots__ = ('a', 'w', 'lo', 'hi', 'cls', 'op', 'src', 'tab')
    def __init__(self, a, w, lo, hi, cls=None, op=None, src=None, tab=None):
        self.a = a; self.w = w; self.lo = lo; self.hi = hi
        self.cls = cls; self.op = op; self.src = src; self.tab = tab

    # -- conversions
    def __repr__(self): return '<symint %s..%s>' % (self.lo, self.hi)
    __str__ = __repr__
    def __format__(self, spec): return '<symint>'
    def __bool__(self):
        return bool(self != 0)
    def __index__(self):
        return concretize(self)
    def __int__(self): return concretize(self)
    def __hash__(self): return hash(concretize(self))
    def __float__(self): return float(concretize(self))
    def __getattr__(self, name):
        if name.startswith('__') : raise AttributeError(name)
        if self.cls is not None:
            for k in self.cls.__mro__:
                if name in k.__dict__ and k is not int:
                    d = k.__dict__[name]
                    if hasattr(d, '__get__'): return d.__get__(self, self.cls)
                    return d
        raise AttributeError("'int' object has no attribute %r" % name)
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    def conjugate(self): return self

    def plain(self):
        if self.cls is None: return self
        return SymInt(self.a, self.w, self.lo, self.hi, None, self.op, self.src, self.tab)

    def bit_length(self):
        x = abs(self)
        if not isinstance(x, SymInt): return x.bit_length()
        m = x.hi.bit_length()
        r = 0
        for k in range(m):
            # thermometer sum: x >= 2^k
            r = r + boolint(x >= (1 << k))
        return r
    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    # -- comparisons
    def _cmp(self, o, k):
        if isinstance(o, SymBool): o = o.as_int()
        if isinstance(o, SymFloat): return NotImplemented
        if isinstance(o, float):
            if o.is_integer(): o = int(o)
            else:
                import math
                return self._cmp(math.floor(o), {'lt': 'le', 'le': 'le', 'gt': 'gt', 'ge': 'gt'}[k]) if k not in ('eq', 'ne') else (k == 'ne')
        if isinstance(o, int):
            o = int(o); olo = ohi = o
        elif isinstance(o, SymInt): olo = o.lo; ohi = o.hi
        else: return NotImplemented
        if k == 'eq' or k == 'ne':
            if self.hi < olo or self.lo > ohi: return k == 'ne'
            if isinstance(o, SymInt) and (o is self or (o.w == self.w and (o.lo >= 0) == (self.lo >= 0) and o.a.eq(self.a))): return k == 'eq'
        elif k == 'lt':
            if self.hi < olo: return True
            if self.lo >= ohi: return False
        elif k == 'le':
            if self.hi <= olo: return True
            if self.lo > ohi: return False
        elif k == 'gt':
            if self.lo > ohi: return True
            if self.hi <= olo: return False
        elif k == 'ge':
            if self.lo >= ohi: return True
            if self.hi < olo: return False
        ow = o.w if isinstance(o, SymInt) else None
        if self.w == INT or ow == INT:
            p, q = toint(self), toint(o)
            if k == 'eq': return mkbool(p == q)
            if k == 'ne': return mkbool(p != q)
            if k == 'lt': return mkbool(p < q)
            if k == 'le': return mkbool(p <= q)
            if k == 'gt': return mkbool(p > q)
            return mkbool(p >= q)
        if self.lo >= 0 and olo >= 0:
            w = max(self.w, ow if ow else ubits(ohi))
            p, q = ext(self, w), ext(o, w)
            if k == 'eq': return mkbool(p == q)
            if k == 'ne': return mkbool(p != q)
            if k == 'lt': return mkbool(z3.ULT(p, q))
            if k == 'le': return mkbool(z3.ULE(p, q))
            if k == 'gt': return mkbool(z3.UGT(p, q))
            return mkbool(z3.UGE(p, q))
        w1 = self.w + (1 if self.lo >= 0 else 0)
        w2 = (ow + (1 if olo >= 0 else 0)) if ow else sbits(olo, ohi)
        w = max(w1, w2)
        p, q = ext(self, w), ext(o, w)
        if k == 'eq': return mkbool(p == q)
        if k == 'ne': return mkbool(p != q)
        if k == 'lt': return mkbool(p < q)
        if k == 'le': return mkbool(p <= q)
        if k == 'gt': return mkbool(p > q)
        return mkbool(p >= q)
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')
    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    # -- arithmetic
    def __add__(self, o): return _arith('+', self, o)
    def __radd__(self, o): return _arith('+', o, self)
    def __sub__(self, o): return _arith('-', self, o)
    def __rsub__(self, o): return _arith('-', o, self)
    def __mul__(self, o):
        if isinstance(o, (LBytes, SymStr, list, tuple, str)): return o * concretize(self)
        return _arith('*', self, o)
    def __rmul__(self, o):
        if isinstance(o, (LBytes, SymStr, list, tuple, str)): return o * concretize(self)
        return _arith('*', o, self)
    def __neg__(self): return _arith('-', 0, self)
    def __pos__(self): return self.plain()
    def __abs__(self):
        if self.lo >= 0: return self.plain()
        if self.hi <= 0: return -self
        n = -self
        return ite(self < 0, n, self)
    def __invert__(self): return _arith('-', -1, self)
    def __floordiv__(self, o): return idivmod(self, o, 'q')
    def __rfloordiv__(self, o): return idivmod(o, self, 'q')
    def __mod__(self, o): return idivmod(self, o, 'r')
    def __rmod__(self, o):
        if isinstance(o, (str, SymStr, LBytes)): return NotImplemented
        return idivmod(o, self, 'r')
    def __divmod__(self, o): return idivmod(self, o, 'qr')
    def __rdivmod__(self, o): return idivmod(o, self, 'qr')
    def __truediv__(self, o): return SymFloat.quotient(self, o)
    def __rtruediv__(self, o): return SymFloat.quotient(o, self)
    def __pow__(self, o, mod=None):
        if isinstance(o, SymInt): o = concretize(o)
        if mod is None and 0 <= o <= 4:
            r = 1
            for _ in range(o): r = r * self
            return r
        return pow(concretize(self), o, mod)
    def __rpow__(self, o, mod=None):
        if o == 2: return 1 << self
        return pow(o, concretize(self), mod)
    def __and__(self, o): return _bitop('&', self, o)
    __rand__ = __and__
    def __or__(self, o): return _bitop('|', self, o)
    __ror__ = __or__
    def __xor__(self, o): return _bitop('^', self, o)
    __rxor__ = __xor__
    def __lshift__(self, o): return shl(self, o)
    def __rlshift__(self, o): return shl(o, self)
    def __rshift__(self, o): return shr(self, o)
    def __rrshift__(self, o): return shr(o, self)
    def __round__(self, n=0): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

def boolint(b):
    if isinstance(b, SymBool): return b.as_int()
    return 1 if b else 0

def bounds(x):
    if isinstance(x, SymInt): return x.lo, x.hi
    return int(x), int(x)

def mkint(a, w, lo, hi, op=None):
    if lo == hi: return lo
    return SymInt(a, w, lo, hi, op=op)

def _norm(o):
    if isinstance(o, SymBool): return o.as_int()
    return o

def _arith(k, x, y):
    x = _norm(x); y = _norm(y)
    if isinstance(x, (float, SymFloat)) or isinstance(y, (float, SymFloat)):
        f = SymFloat.of(x); g = SymFloat.of(y)
        if f is None or g is None: return NotImplemented
        return f + g if k == '+' else f - g if k == '-' else f * g
    if not (isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt))): return NotImplemented
    xl, xh = bounds(x); yl, yh = bounds(y)
    if k == '+':
        if xl == xh == 0: return y.plain()
        if yl == yh == 0: return x.plain()
        lo, hi = xl + yl, xh + yh
    elif k == '-':
        if yl == yh == 0: return x.plain()
        if x is y: return 0
        if xl == xh == 0 and y.op is not None and y.op[0] == '<<' and y.w != INT and isinstance(y.op[2], int):
            return shl(_arith('-', 0, y.op[1]), y.op[2])
        lo, hi = xl - yh, xh - yl
    else:
        if xl == xh:
            if xl == 0: return 0
            if xl == 1: return y.plain()
        if yl == yh:
            if yl == 0: return 0
            if yl == 1: return x.plain()
        for u, n in ((x, y), (y, x)):
            # multiplication by a power of two is a shift
            if isinstance(u, SymInt) and u.w != INT and not isinstance(n, SymInt) and n > 1 and n & (n - 1) == 0: return shl(u, int(n).bit_length() - 1)
        c = (xl*yl, xl*yh, xh*yl, xh*yh)
        lo, hi = min(c), max(c)
    if lo == hi: return lo
    if (isinstance(x, SymInt) and x.w == INT) or (isinstance(y, SymInt) and y.w == INT):
        p, q = toint(x), toint(y)
        return SymInt(p + q if k == '+' else p - q if k == '-' else p * q, INT, lo, hi)
    w = width_for(lo, hi)
    p, q = ext(x, w), ext(y, w)
    a = p + q if k == '+' else p - q if k == '-' else p * q
    return SymInt(a, w, lo, hi, op=(k, x, y))

def _bitop(k, x, y):
    x = _norm(x); y = _norm(y)
    if not (isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt))): return NotImplemented
    if not isinstance(x, SymInt): x, y = y, x
    # x symbolic
    xl, xh = bounds(x); yl, yh = bounds(y)
    if x.w == INT or (isinstance(y, SymInt) and y.w == INT):
        if isinstance(y, SymInt): raise Incomplete('bit operation on two mathematical integers')
        y = int(y)
        if k == '&' and y >= 0 and (y & (y + 1)) == 0:
            return idivmod(x, y + 1, 'r')
        if k == '&' and y > 0 and xl >= 0:
            # contiguous mask  m<<s
            s = (y & -y).bit_length() - 1
            m = y >> s
            if m & (m + 1) == 0:
                return idivmod(idivmod(x, 1 << s, 'q'), m + 1, 'r') * (1 << s)
        if k in '|^' and y == 0: return x.plain()
        if k in '|' and xl >= 0 and y >= 0 and (y & -y) > xh:
            return x + y
        raise Incomplete('bit operation on a mathematical integer')
    if k == '&':
        if xl == xh and False: pass
        if xl >= 0 or yl >= 0:
            hi = min([h for l, h in ((xl, xh), (yl, yh)) if l >= 0])
            if hi == 0: return 0
            w = ubits(hi)
            if not isinstance(y, SymInt) and y >= 0 and (y & (y + 1)) == 0:
                # low mask
                if xl >= 0 and xh <= y: return x.plain()
                mw = int(y).bit_length()
                r = SymInt(ext(x, mw), mw, 0, min(hi, int(y)))
                if x.src is not None: pass
                return r
            if not isinstance(y, SymInt) and int(y) & ((1 << x.w) - 1) == 0 and xl >= 0: return 0
            return SymInt(ext(x, w) & ext(y, w), w, 0, hi)
        w = max(x.w, sbits(yl, yh))
        return SymInt(ext(x, w) & ext(y, w), w, -(1 << (w-1)), max(xh, yh))
    if not isinstance(y, SymInt) and y == 0: return x.plain()
    if xl >= 0 and yl >= 0:
        w = max(ubits(xh), ubits(yh))
        lo = max(xl, yl) if k == '|' else 0
        hi = (1 << w) - 1
    else:
        w = max(sbits(xl, xh), sbits(yl, yh))
        lo, hi = -(1 << (w-1)), (1 << (w-1)) - 1
    p, q = ext(x, w), ext(y, w)
    return SymInt(p | q if k == '|' else p ^ q, w, lo, hi, op=(k, x, y))

def shl(x, s):
    x = _norm(x); s = _norm(s)
    if not (isinstance(x, (int, SymInt)) and isinstance(s, (int, SymInt))): return NotImplemented
    sl, sh = bounds(s); xl, xh = bounds(x)
    if isinstance(s, SymInt) and sl < 0:
        if s < 0: raise ValueError('negative shift count')
        sl = 0
    if not isinstance(s, SymInt):
        if s < 0: raise ValueError('negative shift count')
        if s == 0: return x.plain() if isinstance(x, SymInt) else x
        if x.w == INT: return x * (1 << s)
        lo, hi = xl << s, xh << s
        w = width_for(lo, hi)
        # concat keeps terms simple
        if xl >= 0:
            a = z3.Concat(x.a, bvval(0, s))
            if a.size() > w: a = z3.Extract(w-1, 0, a)
            elif a.size() < w: a = z3.ZeroExt(w - a.size(), a)
        else:
            a = z3.Concat(x.a, bvval(0, s))
            if a.size() > w: a = z3.Extract(w-1, 0, a)
            elif a.size() < w: a = z3.SignExt(w - a.size(), a)
        return mkint(a, w, lo, hi, op=('<<', x, int(s)))
    if sh > 4096 or (isinstance(x, SymInt) and x.w == INT) or s.w == INT:
        return shl(x, concretize(s))
    c = (xl << max(sl, 0), xl << sh, xh << max(sl, 0), xh << sh)
    lo, hi = min(c), max(c)
    if lo == hi: return lo
    w = max(width_for(lo, hi), s.w)
    a = ext(x, w) << ext(s, w)
    if lo >= 0 and w > ubits(hi):
        pass
    return SymInt(a, w, lo, hi)

def shr(x, s):
    x = _norm(x); s = _norm(s)
    if not (isinstance(x, (int, SymInt)) and isinstance(s, (int, SymInt))): return NotImplemented
    sl, sh = bounds(s); xl, xh = bounds(x)
    if isinstance(s, SymInt) and sl < 0:
        if s < 0: raise ValueError('negative shift count')
        sl = 0
    if not isinstance(s, SymInt):
        s = int(s)
        if s < 0: raise ValueError('negative shift count')
        if s == 0: return x.plain()
        if x.w == INT: return idivmod(x, 1 << s, 'q')
        lo, hi = xl >> s, xh >> s
        if lo == hi: return lo
        w = width_for(lo, hi)
        if s + w <= x.w:
            a = z3.Extract(s + w - 1, s, x.a)
        elif xl >= 0:
            a = ext(SymInt(z3.Extract(x.w - 1, s, x.a), x.w - s, 0, xh >> s), w)
        else:
            a = ext(SymInt(z3.Extract(x.w - 1, s, x.a), x.w - s, lo, hi), w)
        return SymInt(a, w, lo, hi)
    if (isinstance(x, SymInt) and x.w == INT) or s.w == INT:
        return shr(x, concretize(s))
    c = (xl >> max(sl, 0), xl >> sh, xh >> max(sl, 0), xh >> sh)
    lo, hi = min(c), max(c)
    if lo == hi: return lo
    xw = x.w if isinstance(x, SymInt) else width_for(xl, xh)
    w = max(xw, s.w + (0 if xl >= 0 else 1))
    if xl >= 0:
        a = z3.LShR(ext(x, w), ext(s, w))
    else:
        a = ext(x, w) >> ext(s, w)
    rw = width_for(lo, hi)
    if rw < w: a = z3.Extract(rw - 1, 0, a); w = rw
    return SymInt(a, w, lo, hi)

def idivmod(x, y, want):
    x = _norm(x); y = _norm(y)
    if not (isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt))): 
        if isinstance(x, float) or isinstance(y, float):
            f = float(concretize(x)) if isinstance(x, SymInt) else x
            g = float(concretize(y)) if isinstance(y, SymInt) else y
            return divmod(f, g) if want == 'qr' else (f // g if want == 'q' else f % g)
        return NotImplemented
    xl, xh = bounds(x); yl, yh = bounds(y)
    if isinstance(y, SymInt) and yl <= 0 <= yh:
        if y == 0: raise ZeroDivisionError('integer division or modulo by zero')
    elif not isinstance(y, SymInt) and y == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if not isinstance(y, SymInt):
        y = int(y)
        if y < 0:
            q = idivmod(-x, -y, 'q')
            if want == 'q': return q
            r = x - q * y
            return (q, r) if want == 'qr' else r
        if y == 1:
            return {'q': x.plain(), 'r': 0, 'qr': (x.plain(), 0)}[want]
        if xl >= 0 and xh < y:
            return {'q': 0, 'r': x.plain(), 'qr': (0, x.plain())}[want]
        if x.w == INT:
            e = core.E
            key = (x.a.get_id(), y)
            cache = e.__dict__.setdefault('_divcache', {})
            hit = cache.get(key) if cache.get('path') is e.inputs else None
            if cache.get('path') is not e.inputs:
                cache.clear(); cache['path'] = e.inputs
            if hit is None:
                ql, qh = xl // y, xh // y
                n = e.fresh_name('q')
                q = z3.Int(n); r = z3.Int(n + 'r')
                e.assume(z3.And(x.a == q * y + r, r >= 0, r <= y - 1, q >= ql, q <= qh), definitional=True)
                hit = (mkint(q, INT, ql, qh), SymInt(r, INT, 0, y - 1), x.a)
                cache[key] = hit
            q, r = hit[0], hit[1]
        elif y & (y - 1) == 0:
            s = y.bit_length() - 1
            q = shr(x, s); r = _bitop('&', x, y - 1)
        elif xl >= 0:
            w = max(x.w, ubits(y))
            p, d = ext(x, w), bvval(y, w)
            q = r = None
            if want != 'r':
                ql, qh = xl // y, xh // y
                qw = ubits(qh)
                qa = z3.UDiv(p, d)
                if qw < w: qa = z3.Extract(qw - 1, 0, qa)
                q = mkint(qa, qw, ql, qh)
            if want != 'q':
                rw = ubits(y - 1)
                ra = z3.URem(p, d)
                if rw < w: ra = z3.Extract(rw - 1, 0, ra)
                r = SymInt(ra, rw, 0, y - 1)
        else:
            # floor semantics: shift into the non-negative range by a multiple of y
            k = (-xl + y - 1) // y
            q, r = idivmod(x + k * y, y, 'qr')
            q = q - k
        return {'q': q, 'r': r, 'qr': (q, r)}[want]
    # symbolic divisor
    if xl >= 0 and yl >= 0 and not ((isinstance(x, SymInt) and x.w == INT) or y.w == INT):
        w = max(x.w if isinstance(x, SymInt) else ubits(xh), y.w)
        p, d = ext(x, w), ext(y, w)
        q = mkint(z3.UDiv(p, d), w, 0, xh); r = mkint(z3.URem(p, d), w, 0, min(xh, yh - 1))
        return {'q': q, 'r': r, 'qr': (q, r)}[want]
    return idivmod(x, concretize(y), want) if isinstance(x, SymInt) else \
        {'q': x // concretize(y), 'r': x % concretize(y), 'qr': divmod(x, concretize(y))}[want]

def ite(c, x, y):
    """if-then-else on integers/bools/equal-length bytes without forking"""
    if not isinstance(c, SymBool): return x if c else y
    if x is y: return x
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return mkbool(z3.If(c.e, zb(x), zb(y)))
    if isinstance(x, LBytes) and isinstance(y, LBytes) and len(x._e) == len(y._e):
        return LBytes._mk([ite(c, p, q) for p, q in zip(x._e, y._e)])
    x = _norm(x); y = _norm(y)
    if isinstance(x, int) and isinstance(y, int) and x == y: return x
    xl, xh = bounds(x); yl, yh = bounds(y)
    lo, hi = min(xl, yl), max(xh, yh)
    if (isinstance(x, SymInt) and x.w == INT) or (isinstance(y, SymInt) and y.w == INT):
        return SymInt(z3.If(c.e, toint(x), toint(y)), INT, lo, hi)
    w = width_for(lo, hi)
    return SymInt(z3.If(c.e, ext(x, w), ext(y, w)), w, lo, hi)

# ------------------------------------------------------------------ floating point
class SymFloat:
    """A float as the exact rational n*c/(d*k) * 2**e and the number r of roundings it may have suffered since
    (each at most a factor 1 +- 2**-53).  Where r > 0 could change an answer, the answer is left free."""
    __slots__ = ('n', 'c', 'd', 'k', 'e', 'r')
    def __init__(self, n, c=1, d=1, k=1, e=0, r=0):
        import math
        if isinstance(n, int): c *= int(n); n = 1
        if isinstance(d, int): k *= int(d); d = 1
        if k < 0: c, k = -c, -k
        g = math.gcd(c, k) or 1
        c //= g; k //= g
        if c:
            while c % 2 == 0: c //= 2; e += 1
        while k % 2 == 0: k //= 2; e -= 1
        self.n = n; self.c = c; self.d = d; self.k = k; self.e = e; self.r = r
        if c:
            b = c.bit_length() - k.bit_length() + e
            if b + max(abs(x) for x in bounds(n)).bit_length() > 1020 or b - max(abs(x) for x in bounds(d)).bit_length() < -1020: raise Incomplete('float range')
    @staticmethod
    def of(o):
        if isinstance(o, SymFloat): return o
        o = _norm(o)
        if isinstance(o, float):
            if o != o or o in (float('inf'), float('-inf')): raise Incomplete('special float')
            a, b = o.as_integer_ratio(); return SymFloat(1, a, 1, b)
        if isinstance(o, int):
            return SymFloat(1, int(o), r=0 if float(o) == o else 1)
        if isinstance(o, SymInt):
            return SymFloat(o.plain(), r=0 if -2**53 <= o.lo and o.hi <= 2**53 else 1)
        return None
    @staticmethod
    def quotient(x, y):
        """true division of integers (rounded once) or of an integer and a float"""
        if isinstance(x, (float, SymFloat)) or isinstance(y, (float, SymFloat)):
            x = SymFloat.of(x); y = SymFloat.of(y)
            return x / y
        x = _norm(x); y = _norm(y)
        if not (isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt))): return NotImplemented
        v = SymFloat(x) / SymFloat(y)
        v.r = 0 if v._int53() or (isinstance(y, int) and SymFloat(y)._pow2() and SymFloat(x)._int53()) else 1
        return v
    def _pow2(self): return isinstance(self.n, int) and isinstance(self.d, int) and self.k == 1 and self.c in (1, -1) and self.r == 0
    def _int53(self):
        if not (isinstance(self.d, int) and self.k == 1 and self.r == 0 and self.e >= 0): return False
        lo, hi = bounds(self.n); m = max(abs(lo), abs(hi)) * abs(self.c) << self.e
        return m <= 2**53
    def __mul__(self, o):
        o = SymFloat.of(o)
        if o is None: return NotImplemented
        v = SymFloat(self.n * o.n, self.c * o.c, self.d * o.d, self.k * o.k, self.e + o.e, self.r + o.r)
        if not (self._pow2() or o._pow2() or v._int53()): v.r += 1
        return v
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = SymFloat.of(o)
        if o is None: return NotImplemented
        if truthy(o.n * o.c == 0): raise ZeroDivisionError('float division by zero')
        on, oc = o.n, o.c
        if isinstance(on, SymInt) and on.lo < 0 and (on.hi <= 0 or truthy(on < 0)): on = -on; oc = -oc
        v = SymFloat(self.n * o.d, self.c * o.k, self.d * on, self.k * oc, self.e - o.e, self.r + o.r)
        if not (o._pow2() or v._int53()): v.r += 1
        return v
    def __rtruediv__(self, o):
        o = SymFloat.of(o)
        return NotImplemented if o is None else o / self
    def __neg__(self): return SymFloat(self.n, -self.c, self.d, self.k, self.e, self.r)
    def __pos__(self): return self
    def __abs__(self): return SymFloat(abs(self.n), abs(self.c), self.d, self.k, self.e, self.r)
    def __add__(self, o):
        o = SymFloat.of(o)
        if o is None: return NotImplemented
        p, q, e = self._both(o)
        v = SymFloat(p + q, 1, self.d * o.d, self.k * o.k, e, 0)
        if self.r == 0 and o.r == 0: v.r = 0 if v._int53() else 1
        else:
            (pl, ph), (ql, qh) = bounds(p), bounds(q)
            if not (pl >= 0 and ql >= 0 or ph <= 0 and qh <= 0): raise Incomplete('difference of rounded floats')
            v.r = max(self.r, o.r) + 1
        return v
    __radd__ = __add__
    def __sub__(self, o):
        o = SymFloat.of(o)
        return NotImplemented if o is None else self + -o
    def __rsub__(self, o): return -self + o
    def _both(self, o):
        e = min(self.e, o.e)
        if max(self.e, o.e) - e > 2000: raise Incomplete('float range')
        p = self.n * (self.c << (self.e - e)) * (o.d * o.k); q = o.n * (o.c << (o.e - e)) * (self.d * self.k)
        return p, q, e
    def _frac(self):
        if abs(self.e) > 2000: raise Incomplete('float range')
        n = self.n * self.c; d = self.d * self.k
        return (n << self.e, d) if self.e >= 0 else (n, d << -self.e)
    def _free(self):
        import core
        return core.E
    def _cmp(self, o, f):
        o = SymFloat.of(o)
        if o is None: return NotImplemented
        p, q, e = self._both(o); r = self.r + o.r
        v = f(p, q)
        if not r: return v
        near = (abs(p - q) << 52) <= (abs(p) + abs(q)) * r
        if near is False: return v
        return ite(near, SymBool(z3.Bool(self._free().fresh_name('F'))), v)
    def __eq__(self, o): r = self._cmp(o, lambda a, b: a == b); return False if r is NotImplemented else r
    def __ne__(self, o): return lnot(self == o)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __hash__(self): raise Incomplete('hash of a float')
    def __bool__(self): return bool(truthy(self.n * self.c != 0))
    def __floor__(self):
        n, d = self._frac()
        q = n // d
        if not self.r: return q
        rem = n - q * d; t = abs(n) * self.r
        lo, hi = bounds(n); dl, dh = bounds(d)
        if max(abs(lo), abs(hi)) * self.r >= max(1, dl) << 52: raise Incomplete('float beyond 53 bits')
        low = land((rem << 52) < t); high = land(((d - rem) << 52) <= t)
        E = self._free()
        if low is not False: q = q - ite(land(low, SymBool(z3.Bool(E.fresh_name('F')))), 1, 0)
        if high is not False: q = q + ite(land(high, SymBool(z3.Bool(E.fresh_name('F')))), 1, 0)
        return q
    def __ceil__(self): return -((-self).__floor__())
    def __trunc__(self):
        lo, hi = bounds(self.n)
        if (lo >= 0) if self.c >= 0 else (hi <= 0): return self.__floor__()
        return ite(self.n * self.c >= 0, self.__floor__(), -((-self).__floor__()))
    __int__ = __trunc__
    def __round__(self, nd=None):
        if nd is not None: raise Incomplete('round to digits')
        n, d = self._frac()
        v = SymFloat(2 * n + d, 1, 2 * d, 1, 0, self.r)
        q = v.__floor__()
        if self.r: return q
        return q - ite(land((2 * n + d) - q * (2 * d) == 0, q % 2 == 1), 1, 0)
    def is_integer(self):
        if self.r: raise Incomplete('is_integer of a rounded float')
        n, d = self._frac(); return n % d == 0
    def _no(self, *a, **k): raise Incomplete('float operation')
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __rdivmod__ = __pow__ = __rpow__ = __str__ = __repr__ = __format__ = hex = as_integer_ratio = _no
    def __float__(self): raise Incomplete('float of a symbolic float')

def concretize(x):
    """Exhaustively fork over the values of x (bounded by the cap)."""
    if isinstance(x, SymBool): return int(bool(x))
    if not isinstance(x, SymInt): return int(x)
    e = core.E
    n = 0
    while True:
        v = e.choose_value(x.a)
        if x.w != INT and x.lo < 0 and v >= (1 << (x.w - 1)): v -= 1 << x.w
        if x == v: return v
        n += 1
        if n > e.concretize_cap:
            raise Incomplete('concretisation cap exceeded (%r)' % (x,))

def concretize_clamped(x, lo, hi):
    """An int equal to min(max(x, lo), hi): forks only inside the range (slice bounds)."""
    if not isinstance(x, SymInt): return max(lo, min(hi, x))
    if x <= lo: return lo
    if x >= hi: return hi
    return concretize(x)

# ---------------------------------------------------------------- bytes <-> int

def int_to_bytes(x, length, byteorder='big', signed=False):
    if isinstance(length, SymInt): length = concretize(length)
    x = _norm(x)
    if not isinstance(x, SymInt):
        return LBytes._mk(list(int(x).to_bytes(length, byteorder, signed=signed)))
    if signed:
        lo, hi = (-(1 << (8*length - 1)), (1 << (8*length - 1)) - 1) if length else (0, 0)
    else:
        lo, hi = 0, (1 << (8*length)) - 1
        if x.lo < 0 and x < 0: raise OverflowError("can't convert negative int to unsigned")
    if x.lo < lo or x.hi > hi:
        if not (land(lo <= x, x <= hi)): raise OverflowError('int too big to convert')
    els = split_bytes(x, length)
    if byteorder == 'big': els = els[::-1]
    return LBytes._mk(els)

def split_bytes(x, length):
    """little-endian byte elements of x mod 256**length"""
    if not isinstance(x, SymInt):
        x &= (1 << (8*length)) - 1
        return [(x >> (8*i)) & 0xff for i in range(length)]
    if x.w == INT:
        if x.lo < 0: x = idivmod(x, 1 << (8*length), 'r')
        out = []
        for i in range(length):
            if isinstance(x, SymInt):
                x, r = idivmod(x, 256, 'qr') if x.hi > 255 else (0, x)
            else:
                x, r = divmod(x, 256)
            out.append(r)
        return out
    w = 8 * length
    out = []
    if x.lo >= 0:
        a = x.a; aw = x.w
    else:
        a = ext(x, max(w, x.w)); aw = max(w, x.w)
    for i in range(length):
        if 8*i >= aw: out.append(0); continue
        top = min(8*i + 8, aw)
        e = z3.Extract(top - 1, 8*i, a) if not (i == 0 and aw <= 8) else a
        out.append(SymInt(e, top - 8*i, 0, min(255, (1 << (top - 8*i)) - 1), src=(a, 8*i, top - 8*i, x if x.lo >= 0 and i == 0 else None)))
    return out

def join_bytes(els):
    """non-negative integer from little-endian byte elements"""
    n = len(els)
    if all(isinstance(e, int) for e in els):
        return int.from_bytes(bytes(els), 'little')
    if any(isinstance(e, SymInt) and e.w == INT for e in els):
        r = 0
        for i, e in enumerate(els):
            r = r + e * (1 << (8*i))
        return r
    # merge runs coming from the same source
    parts = []   # (ast, width) from low to high
    i = 0
    hi = 0; lo = 0
    for j, e in enumerate(els):
        l, h = bounds(e)
        hi |= h << (8*j); lo |= l << (8*j)
    top_zero = n
    while top_zero and isinstance(els[top_zero-1], int) and els[top_zero-1] == 0: top_zero -= 1
    els = els[:top_zero]
    n = len(els)
    while i < n:
        e = els[i]
        if isinstance(e, int):
            j = i
            v = 0
            while j < n and isinstance(els[j], int):
                v |= els[j] << (8*(j-i)); j += 1
            parts.append((bvval(v, 8*(j-i)), 8*(j-i)))
            i = j
            continue
        s = e.src
        if s is None:
            parts.append((ext(e, 8), 8)); i += 1
            continue
        a, pos, bw, orig = s
        j = i + 1; end = pos + bw
        while j < n and bw == 8 and isinstance(els[j], SymInt) and els[j].src is not None and els[j].src[0] is a and els[j].src[1] == end:
            bw = els[j].src[2]; end += bw; j += 1
        aw = a.size()
        tot = end - pos
        p = a if (pos == 0 and end == aw) else z3.Extract(end - 1, pos, a)
        if i == 0 and j == n and pos == 0 and end == aw and orig is not None:
            return orig.plain()
        if tot % 8 and j < n: p = z3.ZeroExt(8 - tot % 8, p); tot += 8 - tot % 8
        parts.append((p, tot))
        i = j
    if len(parts) == 1: a, w = parts[0]
    else:
        a = z3.Concat(*[p for p, _ in reversed(parts)]); w = sum(t for _, t in parts)
    if lo == hi: return lo
    nw = ubits(hi)
    if nw < w: a = z3.Extract(nw - 1, 0, a); w = nw
    return SymInt(a, w, lo, hi)

def int_from_bytes(b, byteorder='big', signed=False):
    els = LBytes(b)._e
    if byteorder == 'big': els = els[::-1]
    els = list(els)
    r = join_bytes(els)
    if signed and els:
        m = 1 << (8*len(els))
        if isinstance(r, int):
            return r - m if r >= m // 2 else r
        if r.w == INT:
            return ite(r >= m // 2, r - m, r)
        if r.hi < m // 2: return r
        w = 8*len(els)
        return SymInt(ext(r, w), w, -(m // 2), m // 2 - 1)
    return r

# ---------------------------------------------------------------- byte strings

def _elem(v):
    """validate one byte value"""
    if isinstance(v, SymBool): v = v.as_int()
    if isinstance(v, SymInt):
        if v.lo < 0 or v.hi > 255:
            if not land(0 <= v, v <= 255): raise ValueError('bytes must be in range(0, 256)')
            if v.w == INT: return SymInt(v.a, INT, max(0, v.lo), min(255, v.hi))
            return SymInt(ext(v, 8), 8, max(0, v.lo), min(255, v.hi))
        return v if v.cls is None else v.plain()
    if isinstance(v, int):
        v = int(v)
        if not 0 <= v <= 255: raise ValueError('bytes must be in range(0, 256)')
        return v
    if hasattr(v, '__index__'):
        return _elem(v.__index__())
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)

def elems_eq(a, b):
    """conjunction of element equalities of two equal-length element lists"""
    cs = []
    n = len(a)
    i = 0
    while i < n:
        x, y = a[i], b[i]
        if x is y: i += 1; continue
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return False
            i += 1; continue
        # runs from single sources compare as words
        xs = x.src if isinstance(x, SymInt) else None
        ys = y.src if isinstance(y, SymInt) else None
        if xs is not None and ys is not None and xs[1] == ys[1] and xs[2] == ys[2] and (xs[0] is ys[0] or xs[0].eq(ys[0])):
            i += 1; continue
        if xs is not None and ys is not None and xs[1] == 0 and ys[1] == 0:
            r = digest_run(a, b, i, xs[0], ys[0])
            if r is not None:
                if r[0] is False: return False
                if r[0] is not True: cs.append(r[0])
                i += r[1]; continue
        c = (x == y)
        if c is False: return False
        if c is not True: cs.append(c)
        i += 1
    if not cs: return True
    return land(*cs)

def digest_run(a, b, i, d1, d2):
    """two whole digests of the ideal hash are equal exactly when the hashed inputs are: (condition, run length) or None"""
    e = core.E
    k1 = e.digest_src.get(d1.get_id())
    if k1 is None: return None
    k2 = e.digest_src.get(d2.get_id())
    if k2 is None: return None
    h1, h2 = e.hashlog[k1], e.hashlog[k2]
    if h1[0] != h2[0] or not h1[6].eq(d1) or not h2[6].eq(d2): return None
    n = len(h1[2])
    m = min(n, len(a) - i)
    for j in range(m):
        x, y = a[i + j], b[i + j]
        if not (isinstance(x, SymInt) and isinstance(y, SymInt) and x.src is not None and y.src is not None
                and x.src[1] == y.src[1] == 8 * j and x.src[0].eq(d1) and y.src[0].eq(d2)):
            m = j; break
    if m < n and not (e.hash_prefix and m >= e.hash_prefix): return None
    memo = e.__dict__.setdefault('_dmemo', {})
    if memo.get('path') is not e.inputs: memo.clear(); memo['path'] = e.inputs
    key = (k1, k2) if k1 < k2 else (k2, k1)
    if key not in memo:
        memo[key] = elems_eq(h1[1], h2[1]) if len(h1[1]) == len(h2[1]) else False
    return memo[key], m

def toraw(x):
    return x.a if isinstance(x, SymInt) else int(x)

class LBytes:
    """bytes with symbolic contents and concrete length (stands for the builtin bytes, and can be subclassed)."""
    def __new__(cls, src=None, encoding=None, errors=None):
        self = object.__new__(cls)
        if src is None:
            self._e = []
        elif isinstance(src, (LBytes, LBytearray)):
            f = getattr(type(src), '__bytes__', None)
            if f is not None and f is not LBytes.__bytes__ and f is not LBytearray.__bytes__:
                r = f(src)
                self._e = r._e
            else:
                self._e = src._e if isinstance(src, LBytes) else list(src._e)
        elif isinstance(src, (bytes, bytearray, memoryview)):
            self._e = list(bytes(src))
        elif isinstance(src, (str, SymStr)):
            if encoding is None: raise TypeError('string argument without an encoding')
            self._e = str_encode(src, encoding)._e
        elif isinstance(src, (int, SymInt)):
            n = concretize(src) if isinstance(src, SymInt) else int(src)
            if n < 0: raise ValueError('negative count')
            if n > 1 << 26: raise Incomplete('huge bytes object')
            self._e = [0] * n
        elif getattr(type(src), '__bytes__', None) is not None:
            r = type(src).__bytes__(src)
            self._e = list(LBytes(r)._e)
        else:
            self._e = [_elem(v) for v in iter(src)]
        return self
    def __init__(self, *a, **k): pass
    @staticmethod
    def _mk(els):
        self = object.__new__(LBytes)
        self._e = els
        return self
    def _tobytes(self):
        if all(isinstance(v, int) for v in self._e): return bytes(self._e)
        return None
    def _isconc(self):
        return all(isinstance(v, int) for v in self._e)
    def _force(self):
        return bytes([concretize(v) for v in self._e])
    def __bytes__(self): return LBytes._mk(self._e)
    def __buffer__(self, flags): return memoryview(self._force())
    def __repr__(self):
        return ''.join(['b<'] + ['%02x' % v if isinstance(v, int) else '??' for v in self._e[:40]] + ['>'])
    __str__ = __repr__
    def __len__(self): return len(self._e)
    def __hash__(self): return 1
    def __bool__(self): return len(self._e) > 0
    def __iter__(self): return iter(list(self._e))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce_ex__(self, p): raise Incomplete('pickling symbolic bytes')
    def __eq__(self, o):
        if isinstance(o, (LBytes, LBytearray)):
            if o is self: return True
            if len(o._e) != len(self._e): return False
            return elems_eq(self._e, o._e)
        if isinstance(o, (bytes, bytearray)):
            return self == LBytes(o)
        return NotImplemented
    def __ne__(self, o):
        # as for the builtin, explicit __ne__ on the base; subclasses overriding __eq__ only still use this one
        r = LBytes.__eq__(self, o)
        return r if r is NotImplemented else lnot(r)
    def _lex(self, o, strict):
        if isinstance(o, (bytes, bytearray)): o = LBytes(o)
        if not isinstance(o, (LBytes, LBytearray)): return NotImplemented
        a, b = self._e, o._e
        n = min(len(a), len(b))
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for i in range(n - 1, -1, -1):
            r = lor(a[i] < b[i], land(a[i] == b[i], r))
        return r
    def __lt__(self, o): return self._lex(o, True)
    def __le__(self, o): return self._lex(o, False)
    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else lnot(r)
    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else lnot(r)
    def __add__(self, o):
        if isinstance(o, LBytes): return LBytes._mk(self._e + o._e)
        if isinstance(o, LBytearray): return LBytes._mk(self._e + o._e)
        if isinstance(o, (bytes, bytearray)): return LBytes._mk(self._e + list(o))
        raise TypeError("can't concat %s to bytes" % type(o).__name__)
    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)): return LBytes._mk(list(o) + self._e)
        return NotImplemented
    def __mul__(self, n):
        if not is_int(n): raise TypeError("can't multiply sequence by non-int")
        n = concretize(n)
        if n * len(self._e) > 1 << 26: raise Incomplete('huge bytes object')
        return LBytes._mk(self._e * n)
    __rmul__ = __mul__
    def __mod__(self, a):
        args = a if isinstance(a, tuple) else (a,)
        conc = lambda x: bytes(x._e) if isinstance(x, (LBytes, LBytearray)) and all(isinstance(v, int) for v in x._e) else x
        args = tuple(conc(x) for x in args)
        f = conc(self)
        if isinstance(f, bytes) and all(isinstance(x, (int, float, bytes)) for x in args): return LBytes(f % args)
        raise Incomplete('bytes % formatting')
    def __contains__(self, v):
        return bool(self._has(v))
    def _has(self, v):
        if isinstance(v, (LBytes, LBytearray, bytes)):
            v = LBytes(v)
            n, m = len(self._e), len(v._e)
            return lor(*[elems_eq(self._e[i:i+m], v._e) for i in range(n - m + 1)]) if m <= n else False
        v = _elem(v)
        return lor(*[x == v for x in self._e])
    def __getitem__(self, i):
        if isinstance(i, slice):
            return LBytes._mk(self._e[conc_slice(i, len(self._e))])
        return getitem_ite(self._e, i, 'index out of range')
    # -- methods
    def hex(self, sep=None, bytes_per_sep=1):
        if sep is not None: raise Incomplete('bytes.hex with separator')
        return str_from_els(hex_els(self._e))
    @classmethod
    def fromhex(cls, s):
        s = tosym(s)
        els = unhex_els([c for c in s.els()], skip_ws=True, err=lambda: ValueError('non-hexadecimal number found in fromhex() arg'))
        if cls is LBytes: return LBytes._mk(els)
        return cls(LBytes._mk(els))
    def join(self, it):
        out = []
        first = True
        for x in iter(it):
            if not isinstance(x, (LBytes, LBytearray, bytes, bytearray)):
                raise TypeError('sequence item: expected a bytes-like object, %s found' % type(x).__name__)
            if not first: out.extend(self._e)
            first = False
            out.extend(LBytes(x)._e)
        return LBytes._mk(out)
    def startswith(self, p, start=0, end=None):
        e = self[start:end]._e if (start or end is not None) else self._e
        if isinstance(p, tuple): return lor(*[LBytes._mk(e).startswith(q) for q in p])
        if not isinstance(p, (LBytes, LBytearray, bytes)): raise TypeError('startswith first arg must be bytes')
        p = LBytes(p)
        if len(p._e) > len(e): return False
        return elems_eq(e[:len(p._e)], p._e)
    def endswith(self, p):
        if isinstance(p, tuple): return lor(*[self.endswith(q) for q in p])
        p = LBytes(p)
        if len(p._e) > len(self._e): return False
        return elems_eq(self._e[len(self._e)-len(p._e):], p._e)
    def find(self, sub, start=0, end=None):
        if is_int(sub): sub = LBytes([sub])
        sub = LBytes(sub)
        n = len(self._e) if end is None else conc_slice(slice(0, end), len(self._e)).stop
        i = conc_slice(slice(start, None), len(self._e)).start
        m = len(sub._e)
        while i + m <= n:
            if elems_eq(self._e[i:i+m], sub._e): return i
            i += 1
        return -1
    def rfind(self, sub):
        if is_int(sub): sub = LBytes([sub])
        sub = LBytes(sub)
        m = len(sub._e)
        for i in range(len(self._e) - m, -1, -1):
            if elems_eq(self._e[i:i+m], sub._e): return i
        return -1
    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0: raise ValueError('subsection not found')
        return r
    def count(self, sub):
        if is_int(sub): sub = LBytes([sub])
        sub = LBytes(sub)
        m = len(sub._e)
        if m == 0: return len(self._e) + 1
        if m == 1:
            r = 0
            for x in self._e: r = r + boolint(x == sub._e[0])
            return r
        i = n = 0
        while i + m <= len(self._e):
            if elems_eq(self._e[i:i+m], sub._e): n += 1; i += m
            else: i += 1
        return n
    def replace(self, old, new, count=-1):
        old = LBytes(old); new = LBytes(new)
        m = len(old._e)
        if m == 0: raise Incomplete('bytes.replace of empty')
        out = []; i = 0
        while i < len(self._e):
            if count != 0 and i + m <= len(self._e) and elems_eq(self._e[i:i+m], old._e):
                out.extend(new._e); i += m; count -= 1
            else:
                out.append(self._e[i]); i += 1
        return LBytes._mk(out)
    def split(self, sep=None, maxsplit=-1):
        if sep is None: raise Incomplete('bytes.split on whitespace')
        sep = LBytes(sep)
        out = []; cur = []; i = 0; m = len(sep._e)
        while i < len(self._e):
            if maxsplit != 0 and i + m <= len(self._e) and elems_eq(self._e[i:i+m], sep._e):
                out.append(LBytes._mk(cur)); cur = []; i += m; maxsplit -= 1
            else:
                cur.append(self._e[i]); i += 1
        return out + [LBytes._mk(cur)]
    def _stripset(self, chars):
        return LBytes(chars)._e if chars is not None else [9, 10, 11, 12, 13, 32]
    def lstrip(self, chars=None):
        s = self._stripset(chars); i = 0
        while i < len(self._e) and lor(*[self._e[i] == c for c in s]): i += 1
        return LBytes._mk(self._e[i:])
    def rstrip(self, chars=None):
        s = self._stripset(chars); i = len(self._e)
        while i > 0 and lor(*[self._e[i-1] == c for c in s]): i -= 1
        return LBytes._mk(self._e[:i])
    def strip(self, chars=None): return self.lstrip(chars).rstrip(chars)
    def ljust(self, n, fill=None):
        f = LBytes(fill)._e if fill is not None else [32]
        return LBytes._mk(self._e + f * max(0, n - len(self._e)))
    def rjust(self, n, fill=None):
        f = LBytes(fill)._e if fill is not None else [32]
        return LBytes._mk(f * max(0, n - len(self._e)) + self._e)
    def zfill(self, n): return self.rjust(n, LBytes([48]))
    def partition(self, sep):
        i = self.find(sep)
        if i < 0: return (LBytes._mk(self._e), LBytes(), LBytes())
        m = len(LBytes(sep)._e)
        return (LBytes._mk(self._e[:i]), LBytes(sep), LBytes._mk(self._e[i+m:]))
    def removeprefix(self, p):
        return LBytes._mk(self._e[len(LBytes(p)._e):]) if self.startswith(p) else LBytes._mk(self._e)
    def removesuffix(self, p):
        return LBytes._mk(self._e[:len(self._e)-len(LBytes(p)._e)]) if self.endswith(p) and len(p) else LBytes._mk(self._e)
    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        if enc not in ('utf8', 'ascii', 'latin1', 'iso88591'): raise Incomplete('decode ' + encoding)
        if self._isconc():
            return bytes(self._e).decode(encoding, errors)
        if enc in ('utf8', 'ascii'):
            bad = lor(*[v >= 128 for v in self._e])
            if bad:
                if enc == 'ascii' and errors == 'strict':
                    raise UnicodeDecodeError(encoding, b'?', 0, 1, 'ordinal not in range')
                return bytes(self._force()).decode(encoding, errors)
        return SymStr(list(self._e))
    def upper(self): return str_encode(SymStr(list(self._e)).upper(), 'latin1')
    def lower(self): return str_encode(SymStr(list(self._e)).lower(), 'latin1')
    def translate(self, table, *a): raise Incomplete('bytes.translate')
    def isdigit(self): return land(len(self._e) > 0, *[land(v >= 48, v <= 57) for v in self._e])

class LBytearray:
    def __init__(self, src=None, encoding=None, errors=None):
        self._e = list(LBytes(src, encoding)._e) if src is not None else []
    def __bytes__(self): return LBytes._mk(list(self._e))
    def __len__(self): return len(self._e)
    def __bool__(self): return len(self._e) > 0
    def __iter__(self): return iter(list(self._e))
    def __repr__(self): return 'bytearray(%r)' % LBytes._mk(self._e)
    __hash__ = None
    def __copy__(self): return LBytearray(self)
    def __deepcopy__(self, memo): return LBytearray(self)
    __eq__ = LBytes.__eq__
    __ne__ = LBytes.__ne__
    _lex = LBytes._lex
    _has = LBytes._has
    _isconc = LBytes._isconc
    __lt__ = LBytes.__lt__; __le__ = LBytes.__le__; __gt__ = LBytes.__gt__; __ge__ = LBytes.__ge__
    __contains__ = LBytes.__contains__
    def __buffer__(self, flags): return memoryview(bytes([concretize(v) for v in self._e]))
    def __getitem__(self, i):
        if isinstance(i, slice):
            return LBytearray(LBytes._mk(self._e[conc_slice(i, len(self._e))]))
        return getitem_ite(self._e, i, 'bytearray index out of range')
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self._e[conc_slice(i, len(self._e))] = list(LBytes(v)._e)
            return
        v = _elem(v)
        if isinstance(i, SymInt):
            n = len(self._e)
            if not land(i >= -n, i < n): raise IndexError('bytearray index out of range')
            if i.lo >= 0 and n <= 64:
                self._e = [ite(i == k, v, x) for k, x in enumerate(self._e)]
                return
            i = concretize(i)
        self._e[i] = v
    def __delitem__(self, i):
        if isinstance(i, slice): del self._e[conc_slice(i, len(self._e))]
        else: del self._e[concretize(i)]
    def __add__(self, o): return LBytearray(LBytes._mk(self._e + LBytes(o)._e))
    def __radd__(self, o): return LBytes(o) + LBytes(self)
    def __iadd__(self, o):
        self._e = self._e + list(LBytes(o)._e); return self
    def __mul__(self, n): return LBytearray(LBytes._mk(self._e * concretize(n)))
    def append(self, v): self._e.append(_elem(v))
    def extend(self, it): self._e.extend(LBytes(it)._e)
    def insert(self, i, v): self._e.insert(concretize(i), _elem(v))
    def pop(self, i=-1): return self._e.pop(i)
    def reverse(self): self._e.reverse()
    def clear(self): self._e = []
    def copy(self): return LBytearray(self)

for _n in ('hex','startswith','endswith','find','rfind','index','count','decode','join'):
    def _mkm(n):
        def f(self, *a, **k):
            return getattr(LBytes._mk(list(self._e)), n)(*a, **k)
        return f
    setattr(LBytearray, _n, _mkm(_n))

def conc_slice(s, n):
    """python slice with concrete, clamped bounds"""
    st = s.step
    if isinstance(st, SymInt): st = concretize(st)
    if st is None: st = 1
    def b(v):
        if v is None or not isinstance(v, (SymInt, SymBool)): 
            return v
        v = _norm(v)
        return concretize_clamped(v, -n - 1, n + 1)
    if not isinstance(s.start, (SymInt, SymBool)) and not isinstance(s.stop, (SymInt, SymBool)):
        return slice(s.start, s.stop, st)
    return slice(b(s.start), b(s.stop), st)

def getitem_ite(els, i, msg):
    if isinstance(i, SymBool): i = i.as_int()
    if isinstance(i, SymInt):
        n = len(els)
        if not land(i >= -n, i < n): raise IndexError(msg)
        if n > 300: return els[concretize(i)]
        if i.lo < 0:
            if i < 0: i = i + n
        return select(els, i, max(0, i.lo), min(n - 1, i.hi)) if isinstance(i, SymInt) else els[i]
    if not isinstance(i, int):
        if hasattr(i, '__index__'): i = i.__index__()
        else: raise TypeError('indices must be integers or slices, not %s' % type(i).__name__)
    n = len(els)
    if not -n <= i < n: raise IndexError(msg)
    return els[i]

def select(els, i, lo, hi):
    """els[i] for symbolic i known to lie in lo..hi, ints only"""
    vals = els[lo:hi+1]
    if all(isinstance(v, int) for v in vals) and len(vals) > 1:
        # group equal neighbours
        r = vals[-1]
        k = len(vals) - 2
        while k >= 0:
            if vals[k] == r if isinstance(r, int) else False:
                k -= 1; continue
            j = k
            while j - 1 >= 0 and vals[j-1] == vals[k]: j -= 1
            r = ite(i <= lo + k, vals[k], r)
            k = j - 1
        return r
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = ite(i == lo + k, vals[k], r)
    return r

# ---------------------------------------------------------------- text

HEXD = '0123456789abcdef'

def nib_char(v):
    """code point of the lower-case hex digit of nibble v"""
    if isinstance(v, int): return ord(HEXD[v])
    c = ite(v < 10, v + 48, v + 87)
    c.tab = (HEXD, v)
    return c

def char_nib(c, err):
    if isinstance(c, int):
        ch = chr(c)
        if ch in '0123456789abcdefABCDEF': return int(ch, 16)
        raise err()
    if c.tab is not None and c.tab[0] == HEXD: return c.tab[1]
    if land(c >= 48, c <= 57): return c - 48 if c.w == INT else _narrow(c - 48, 0, 9)
    if land(c >= 97, c <= 102): return _narrow(c - 87, 10, 15)
    if land(c >= 65, c <= 70): return _narrow(c - 55, 10, 15)
    raise err()

def _narrow(x, lo, hi):
    """x is known to be within lo..hi on this path"""
    if not isinstance(x, SymInt): return x
    if x.w == INT: return SymInt(x.a, INT, lo, hi)
    w = width_for(lo, hi)
    return SymInt(ext(x, w), w, lo, hi)

def hex_els(els):
    out = []
    for v in els:
        out.append(nib_char(v >> 4 if isinstance(v, int) else shr(v, 4)))
        out.append(nib_char(v & 15))
    return out

def unhex_els(chars, skip_ws=False, err=None):
    err = err or (lambda: ValueError('non-hexadecimal digit found'))
    if skip_ws:
        chars = [c for c in chars if not (isinstance(c, int) and chr(c) in ' \t\n\r\f\v')]
        for c in chars:
            if isinstance(c, SymInt) and c.tab is None and lor(c == 32, land(c >= 9, c <= 13)):
                raise Incomplete('symbolic white space in hex text')
    if len(chars) % 2: raise err()
    out = []
    for i in range(0, len(chars), 2):
        h = char_nib(chars[i], err); l = char_nib(chars[i+1], err)
        out.append(nibs_byte(h, l))
    return out

def nibs_byte(h, l):
    if isinstance(h, int) and isinstance(l, int): return h * 16 + l
    if (isinstance(h, SymInt) and h.w == INT) or (isinstance(l, SymInt) and l.w == INT):
        return h * 16 + l
    # recombine nibbles of one source byte
    a = z3.simplify(z3.Concat(ext(h, 4), ext(l, 4)))
    if z3.is_bv_value(a): return a.as_long()
    hl, hh = bounds(h); ll, lh = bounds(l)
    return SymInt(a, 8, hl * 16 + ll, hh * 16 + lh)

class SymStr:
    """text of concrete length with symbolic code points, possibly computed lazily (messages are never forced)"""
    __slots__ = ('_els', '_thunk')
    def __init__(self, els=None, thunk=None):
        self._els = els; self._thunk = thunk
    def els(self):
        if self._els is None:
            self._els = self._thunk()
            self._thunk = None
        return self._els
    def isconc(self): return all(isinstance(c, int) for c in self.els())
    def conc(self): return ''.join(map(chr, self.els()))
    def force(self): return ''.join(chr(concretize(c)) for c in self.els())
    def __repr__(self): return '<symstr>'
    def __str__(self): return '<symstr>'
    def __format__(self, spec): return '<symstr>'
    def __len__(self): return len(self.els())
    def __bool__(self): return len(self.els()) > 0
    def __hash__(self): return 1
    def __iter__(self): return iter([mkchar(c) for c in self.els()])
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)): return NotImplemented
        a, b = self.els(), tosym(o).els()
        if len(a) != len(b): return False
        return elems_eq(a, b)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    def _lex(self, o, strict):
        a, b = self.els(), tosym(o).els()
        n = min(len(a), len(b))
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for i in range(n - 1, -1, -1):
            r = lor(a[i] < b[i], land(a[i] == b[i], r))
        return r
    def __lt__(self, o): return self._lex(o, True)
    def __le__(self, o): return self._lex(o, False)
    def __gt__(self, o): return lnot(self._lex(o, False))
    def __ge__(self, o): return lnot(self._lex(o, True))
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)): raise TypeError('can only concatenate str')
        if self._els is None or (isinstance(o, SymStr) and o._els is None):
            return SymStr(thunk=lambda: self.els() + tosym(o).els())
        return str_from_els(self.els() + tosym(o).els())
    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)): raise TypeError('can only concatenate str')
        if self._els is None:
            return SymStr(thunk=lambda: tosym(o).els() + self.els())
        return str_from_els(tosym(o).els() + self.els())
    def __mul__(self, n): return str_from_els(self.els() * concretize(n))
    __rmul__ = __mul__
    def __mod__(self, a): return str_mod(self, a)
    def __contains__(self, o): return bool(str_has(self, o))
    def __getitem__(self, i):
        e = self.els()
        if isinstance(i, slice): return str_from_els(e[conc_slice(i, len(e))])
        return mkchar(getitem_ite(e, i, 'string index out of range'))
    def encode(self, encoding='utf-8', errors='strict'): return str_encode(self, encoding, errors)
    def join(self, it):
        out = []; first = True
        for x in iter(it):
            if not isinstance(x, (str, SymStr)): raise TypeError('expected str instance')
            if not first: out.extend(self.els())
            first = False
            out.extend(tosym(x).els())
        return str_from_els(out)
    def _asb(self): return LBytes._mk(self.els())
    def startswith(self, p, start=0):
        if isinstance(p, tuple): return lor(*[self.startswith(q) for q in p])
        e = self.els()[start:]; p = tosym(p).els()
        return len(p) <= len(e) and elems_eq(e[:len(p)], p)
    def endswith(self, p):
        e = self.els(); p = tosym(p).els()
        return len(p) <= len(e) and elems_eq(e[len(e)-len(p):], p)
    def find(self, sub, start=0):
        s = tosym(sub).els(); e = self.els(); m = len(s)
        if m == 1 and isinstance(s[0], SymInt) and s[0].tab is not None and self.isconc() and s[0].tab[0] == self.conc() and start == 0 and len(set(self.conc())) == len(self.conc()):
            return s[0].tab[1]
        if m == 1 and isinstance(s[0], SymInt) and self.isconc() and start == 0:
            # concrete table, symbolic character: index by table lookup, one fork for "found"
            if not lor(*[s[0] == c for c in dict.fromkeys(e)]): return -1
            r = None
            for k in range(len(e) - 1, -1, -1):
                r = k if r is None else ite(s[0] == e[k], k, r)
            return r
        i = start
        while i + m <= len(e):
            if elems_eq(e[i:i+m], s): return i
            i += 1
        return -1
    def index(self, sub, start=0):
        r = self.find(sub, start)
        if isinstance(r, int) and r < 0: raise ValueError('substring not found')
        return r
    def count(self, sub):
        s = tosym(sub).els()
        if len(s) == 1:
            r = 0
            for x in self.els(): r = r + boolint(x == s[0])
            return r
        return self._asb().count(LBytes._mk(s))
    def split(self, sep=None, maxsplit=-1):
        if sep is None: raise Incomplete('str.split on white space')
        sep = tosym(sep).els(); e = self.els()
        out = []; cur = []; i = 0; m = len(sep)
        while i < len(e):
            if maxsplit != 0 and i + m <= len(e) and elems_eq(e[i:i+m], sep):
                out.append(str_from_els(cur)); cur = []; i += m; maxsplit -= 1
            else: cur.append(e[i]); i += 1
        return out + [str_from_els(cur)]
    def _sset(self, chars): return tosym(chars).els() if chars is not None else [9, 10, 11, 12, 13, 32, 28, 29, 30, 31, 0x85, 0xa0]
    def lstrip(self, chars=None):
        s = self._sset(chars); e = self.els(); i = 0
        while i < len(e) and lor(*[e[i] == c for c in s]): i += 1
        return str_from_els(e[i:])
    def rstrip(self, chars=None):
        s = self._sset(chars); e = self.els(); i = len(e)
        while i > 0 and lor(*[e[i-1] == c for c in s]): i -= 1
        return str_from_els(e[:i])
    def strip(self, chars=None): return tosym(self.lstrip(chars)).rstrip(chars)
    def zfill(self, n):
        e = self.els()
        return str_from_els([48] * (n - len(e)) + e)
    def rjust(self, n, f=' '):
        e = self.els()
        return str_from_els([ord(f)] * (n - len(e)) + e)
    def ljust(self, n, f=' '):
        e = self.els()
        return str_from_els(e + [ord(f)] * (n - len(e)))
    def replace(self, a, b, count=-1):
        return str_from_els(self._asb().replace(LBytes._mk(tosym(a).els()), LBytes._mk(tosym(b).els()), count)._e)
    def _case(self, lo, hi, d):
        out = []
        for c in self.els():
            if isinstance(c, int): out.append(c + d if lo <= c <= hi else c)
            elif c.tab is not None and c.tab[0] == HEXD and lo == 65: out.append(c)
            else: out.append(ite(land(c >= lo, c <= hi), c + d, c))
        return str_from_els(out)
    def lower(self): return self._case(65, 90, 32)
    def upper(self): return self._case(97, 122, -32)
    def isdigit(self):
        return land(len(self.els()) > 0, *[land(c >= 48, c <= 57) for c in self.els()])
    def format(self, *a, **k): return str_format(self, a, k)

def mkchar(c):
    return chr(c) if isinstance(c, int) else SymStr([c])

def str_from_els(els):
    if all(isinstance(c, int) for c in els): return ''.join(map(chr, els))
    return SymStr(els)

def tosym(s):
    if isinstance(s, SymStr): return s
    if isinstance(s, str): return SymStr([ord(c) for c in s])
    raise TypeError('expected str, not %s' % type(s).__name__)

def str_has(s, o):
    if not isinstance(o, (str, SymStr)): raise TypeError("'in <string>' requires string as left operand, not %s" % type(o).__name__)
    s = tosym(s); o = tosym(o)
    e, p = s.els(), o.els()
    m = len(p)
    if m == 1 and isinstance(p[0], SymInt) and p[0].tab is not None and s.isconc() and p[0].tab[0] == s.conc(): return True
    if m == 1:
        seen = []
        return lor(*[p[0] == c for c in (dict.fromkeys(e) if s.isconc() else e)])
    return lor(*[elems_eq(e[i:i+m], p) for i in range(len(e) - m + 1)])

def str_encode(s, encoding='utf-8', errors='strict'):
    if isinstance(s, str): return LBytes._mk(list(s.encode(encoding, errors)))
    enc = encoding.lower().replace('-', '').replace('_', '')
    if s.isconc(): return LBytes._mk(list(s.conc().encode(encoding, errors)))
    lim = 256 if enc in ('latin1', 'iso88591') else 128
    bad = lor(*[c >= lim for c in s.els()])
    if bad:
        if enc in ('ascii', 'latin1', 'iso88591'): raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range')
        raise Incomplete('non-ASCII symbolic text')
    out = []
    for c in s.els():
        if isinstance(c, SymInt) and c.hi > 255 and c.w != INT:
            c = SymInt(ext(c, 8), 8, 0, 255, tab=c.tab)
        out.append(c)
    return LBytes._mk(out)

def digits_of(n, base):
    """code points of the shortest base-`base` numeral of n >= 0 (forks on the number of digits)"""
    if isinstance(n, int):
        if n == 0: return [48]
        out = []
        while n: n, r = divmod(n, base); out.append(ord(HEXD[r]))
        return out[::-1]
    k = 1
    while True:
        if n.hi < base ** k or n < base ** k: break
        k += 1
    out = []
    n = _narrow(n, max(n.lo, base ** (k-1) if k > 1 else 0), min(n.hi, base ** k - 1)) if n.w != INT else n
    for i in range(k):
        if isinstance(n, SymInt):
            if i == k - 1: r = _narrow(n, max(0, n.lo), base - 1); n = 0
            else: n, r = idivmod(n, base, 'qr')
        else: n, r = divmod(n, base)
        out.append(nib_char(r))
    return out[::-1]

def int_str(n, base=10):
    if isinstance(n, SymBool): n = n.as_int()
    if isinstance(n, int): return digits_of(n, base) if n >= 0 else [45] + digits_of(-n, base)
    if n.lo < 0:
        if n < 0: return [45] + digits_of(-n, base)
        n = _narrow(n, 0, max(0, n.hi)) if n.w != INT else SymInt(n.a, INT, 0, n.hi)
    return digits_of(n, base)

def _is_sym(v, depth=0):
    if isinstance(v, (SymInt, SymBool, SymStr, LBytes, LBytearray)): return True
    if depth < 3 and isinstance(v, (tuple, list)): return any(_is_sym(x, depth + 1) for x in v)
    if depth < 3 and isinstance(v, dict): return any(_is_sym(x, depth + 1) for x in v.values())
    return False

def bytes_repr_els(b):
    raise Incomplete('repr of symbolic bytes')

def fmt_value(v, conv, flags='', width=0, prec=None):
    """code points of one %-conversion"""
    if isinstance(v, SymBool) and conv in 'sr': v = bool(v)
    if conv == 's':
        if isinstance(v, (SymInt,)): e = int_str(v)
        elif isinstance(v, SymStr): e = list(v.els())
        else: e = tosym(str_of(v)).els()
    elif conv == 'r' or conv == 'a':
        if isinstance(v, SymInt): e = int_str(v)
        else:
            r = repr_of(v)
            e = tosym(r).els()
    elif conv in 'diu':
        e = int_str(v)
    elif conv in 'xX':
        e = int_str(v, 16)
        if conv == 'X': e = tosym(tosym(str_from_els(e)).upper()).els()
        if '#' in flags: e = [48, ord(conv)] + e
    elif conv == 'c':
        e = tosym(v).els() if isinstance(v, (str, SymStr)) else [v]
    else:
        return [ord(c) for c in ('%' + flags + (str(width) if width else '') + ('.%d' % prec if prec is not None else '') + conv) % v]
    if prec is not None and conv in 'sr': e = e[:prec]
    if prec is not None and conv in 'diuxX' and len(e) < prec: 
        e = [48] * (prec - len(e)) + e
    if width and len(e) < width:
        pad = width - len(e)
        if '-' in flags: e = e + [32] * pad
        elif '0' in flags and conv in 'diuxX':
            e = e[:1] + [48] * pad + e[1:] if e and e[0] == 45 else [48] * pad + e
        else: e = [32] * pad + e
    return e

def str_of(v):
    if isinstance(v, (SymInt, SymBool)):
        return str_from_els(fmt_value(v, 's')) 
    if isinstance(v, SymStr): return v
    f = type(v).__str__
    r = f(v)
    return r

def repr_of(v):
    if isinstance(v, SymInt): return str_from_els(int_str(v))
    if type(v) is LBytes:
        if v._isconc(): return repr(bytes(v._e))
        raise Incomplete('repr of symbolic bytes')
    if isinstance(v, SymStr):
        if v.isconc(): return repr(v.conc())
        raise Incomplete('repr of symbolic text')
    return type(v).__repr__(v)

import re
_FMT = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])')

def str_mod(fmt, args):
    """'...' % args, evaluated lazily when symbolic"""
    def run():
        f = fmt if isinstance(fmt, str) else fmt.force()
        out = []; pos = 0
        al = list(args) if isinstance(args, tuple) else [args]
        k = 0
        for m in _FMT.finditer(f):
            out.extend(ord(c) for c in f[pos:m.start()]); pos = m.end()
            conv = m.group('conv')
            if conv == '%': out.append(37); continue
            flags = m.group('flags')
            width = m.group('width')
            if width == '*': width = al[k]; k += 1
            else: width = int(width) if width else 0
            prec = m.group('prec')
            if prec == '*': prec = al[k]; k += 1
            else: prec = int(prec) if prec is not None else None
            if m.group('key') is not None: v = args[m.group('key')]
            else:
                if k >= len(al): raise TypeError('not enough arguments for format string')
                v = al[k]; k += 1
            if not isinstance(v, (SymInt, SymBool)) and conv in 'diuxX' and not isinstance(v, (int, float)):
                raise TypeError('%%%s format: a real number is required, not %s' % (conv, type(v).__name__))
            out.extend(fmt_value(v, conv, flags, width, prec))
        out.extend(ord(c) for c in f[pos:])
        return out
    return SymStr(thunk=run)

def str_format(fmt, args, kw):
    import string
    def run():
        f = fmt if isinstance(fmt, str) else fmt.force()
        out = []
        auto = 0
        fo = string.Formatter()
        for lit, field, spec, conv in fo.parse(f):
            out.extend(map(ord, lit))
            if field is None: continue
            if field == '' or field[0] in '.[':
                field = str(auto) + field; auto += 1
            v, _ = fo.get_field(field, args, kw)
            out.extend(format_els(v, spec, conv))
        return out
    return SymStr(thunk=run)

_SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$', re.S)
def format_els(v, spec, conv=None):
    if conv == 'r': v = repr_of(v)
    elif conv == 's': v = str_of(v)
    if isinstance(v, SymStr) and v.isconc(): v = v.conc()
    if not isinstance(v, (SymInt, SymBool, SymStr, LBytes)):
        if isinstance(spec, SymStr): spec = spec.force()
        return [ord(c) for c in format(v, spec)]
    if isinstance(v, SymBool): v = bool(v); return [ord(c) for c in format(v, spec)]
    if isinstance(v, LBytes): return tosym(str_of(v)).els()
    m = _SPEC.match(spec or '')
    if not m: raise Incomplete('format spec %r' % spec)
    fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
    if comma or sign in ('+', ' '): raise Incomplete('format spec %r' % spec)
    if isinstance(v, SymInt):
        if ty in (None, 'd'): e = int_str(v)
        elif ty == 'x': e = ([48, 120] if alt else []) + int_str(v, 16)
        elif ty == 'X': e = tosym(tosym(str_from_els(int_str(v, 16))).upper()).els()
        elif ty == 'b': e = ([48, 98] if alt else []) + int_str(v, 2)
        elif ty == 'c': e = [v]
        else: raise Incomplete('format spec %r' % spec)
    else: e = v.els()
    if prec is not None: e = e[:int(prec)]
    w = int(width) if width else 0
    if len(e) < w:
        f = ord(fill) if fill else (48 if zero else 32)
        al = align or ('=' if zero else ('>' if isinstance(v, SymInt) else '<'))
        pad = [f] * (w - len(e))
        if al == '<': e = e + pad
        elif al == '^': e = pad[:len(pad)//2] + e + pad[len(pad)//2:]
        elif al == '=' and e and e[0] == 45: e = [45] + pad + e[1:]
        else: e = pad + e
    return e

def parse_int(s, base=10):
    """int(text, base)"""
    s = tosym(s) if isinstance(s, (str, SymStr)) else SymStr(list(s._e))
    if s.isconc(): return int(s.conc(), base)
    err = lambda: ValueError('invalid literal for int() with base %d' % base)
    e = tosym(s.strip()).els()
    neg = False
    if e and isinstance(e[0], SymInt) and e[0].tab is None:
        if e[0] == 45: e = [45] + e[1:]
        elif e[0] == 43: e = [43] + e[1:]
    if e and e[0] == 45: neg = True; e = e[1:]
    elif e and e[0] == 43: e = e[1:]
    if base in (16, 0) and len(e) >= 2 and e[0] == 48 and e[1] in (120, 88) and isinstance(e[1], int): e = e[2:]; base = 16
    if not e: raise err()
    n = 0
    ds = []
    under = True            # an underscore is allowed between two digits only
    for i, c in enumerate(e):
        if (c == 95) if isinstance(c, int) or c.tab is None else False:
            if under or i == len(e) - 1: raise err()
            under = True; continue
        under = False
        if base == 16: ds.append(char_nib(c, err))
        elif base == 10:
            if isinstance(c, int):
                if not 48 <= c <= 57: raise err()
                ds.append(c - 48)
            elif c.tab is not None and c.tab[0] == HEXD and bounds(c.tab[1])[1] <= 9: ds.append(c.tab[1])
            else:
                if not land(c >= 48, c <= 57):
                    if c.hi > 127 and c > 127: raise Incomplete('non-ASCII digit')
                    raise err()
                ds.append(_narrow(c - 48, 0, 9))
        else: raise Incomplete('int() base %d' % base)
    if base == 16 and not any(isinstance(d, SymInt) and d.w == INT for d in ds):
        if len(ds) % 2: ds = [0] + ds
        els = [nibs_byte(ds[i], ds[i+1]) for i in range(0, len(ds), 2)]
        n = join_bytes(els[::-1])
    else:
        for d in ds: n = n * base + d
    return -n if neg else n
