"""The environment a harness talks to, in its symbolic form."""
import z3
import core, lift, values as V
from core import PathAbort, Incomplete, FoundViolation
from values import *

class Outcome:
    """Result of calling code under test: value or exception."""
    def __init__(self, value=None, exc=None):
        self.value = value; self.exc = exc
        self.ok = exc is None
        self.name = None if exc is None else type(exc).__name__
    def raised(self, cls): return self.exc is not None and isinstance(self.exc, cls)

class SymEnv:
    symbolic = True
    def __init__(self, eng):
        self.e = eng
        self.patches = []
    # -- inputs
    def _register(self, name, rec):
        if name in self.e.inputs: raise RuntimeError('duplicate input ' + name)
        self.e.inputs[name] = rec
    def int(self, name, lo, hi, kind='bv'):
        if lo == hi:
            self._register(name, ('const', lo)); return lo
        if kind == 'int':
            self.e.use_general()
            a = z3.Int(name)
            v = SymInt(a, V.INT, lo, hi)
            self._register(name, ('int', v))
            self.e.assume(z3.And(a >= lo, a <= hi), definitional=True)
            return v
        w = V.width_for(lo, hi)
        a = z3.BitVec(name, w)
        v = SymInt(a, w, lo, hi)
        self._register(name, ('int', v))
        if lo < 0:
            if lo > -(1 << (w-1)): self.e.assume(a >= V.bvval(lo & ((1 << w) - 1), w), definitional=True)
            if hi < (1 << (w-1)) - 1: self.e.assume(a <= V.bvval(hi & ((1 << w) - 1), w), definitional=True)
        else:
            if lo > 0: self.e.assume(z3.UGE(a, lo), definitional=True)
            if hi < (1 << w) - 1: self.e.assume(z3.ULE(a, hi), definitional=True)
        return v
    def bool(self, name):
        a = z3.Bool(name)
        v = SymBool(a)
        self._register(name, ('bool', v))
        return v
    def bytes(self, name, n, kind='bv'):
        if kind == 'int':
            self.e.use_general()
            els = []
            for i in range(n):
                a = z3.Int('%s.%d' % (name, i))
                self.e.assume(z3.And(a >= 0, a <= 255), definitional=True)
                els.append(SymInt(a, V.INT, 0, 255))
            v = LBytes._mk(els)
        elif n == 0:
            v = LBytes()
        elif n <= 64:
            d = z3.BitVec(name, 8 * n)
            v = LBytes._mk([SymInt(z3.Extract(8*i + 7, 8*i, d) if n > 1 else d, 8, 0, 255, src=(d, 8*i, 8, None)) for i in range(n)])
        else:
            v = LBytes._mk([SymInt(z3.BitVec('%s.%d' % (name, i), 8), 8, 0, 255) for i in range(n)])
        self._register(name, ('bytes', v))
        return v
    def bytes_except(self, name, n, sym_positions, fill=0xa5):
        """n bytes of which only the given positions are symbolic (large payloads)"""
        els = [fill] * n
        for i in sym_positions:
            els[i] = SymInt(z3.BitVec('%s.%d' % (name, i), 8), 8, 0, 255)
        v = LBytes._mk(els)
        self._register(name, ('bytes', v))
        return v
    def text(self, name, n, lo=0, hi=127):
        els = [SymInt(z3.BitVec('%s.%d' % (name, i), 8), 8, 0, 127) for i in range(n)]
        for c in els:
            if lo > 0: self.e.assume(z3.UGE(c.a, lo), definitional=True)
            if hi < 127: self.e.assume(z3.ULE(c.a, hi), definitional=True)
        v = SymStr(els) if n else ''
        self._register(name, ('text', v))
        return v
    def choice(self, name, n):
        """an arbitrary value of 0..n-1, explored exhaustively"""
        v = self.int(name, 0, n - 1)
        return concretize(v)
    def oracle_bool(self, name, *args):
        """an arbitrary predicate of its byte-string/integer arguments (consistent across calls)"""
        log = self.e.__dict__.setdefault('oracle_log', [])
        if getattr(self.e, 'oracle_owner', None) is not self.e.inputs:
            log.clear(); self.e.oracle_owner = self.e.inputs
        args = tuple(LBytes(a) if isinstance(a, (LBytes, LBytearray)) else a for a in args)
        b = z3.Bool(self.e.fresh_name('O'))
        v = SymBool(b)
        cs = []
        for n2, a2, v2 in log:
            if n2 != name or len(a2) != len(args): continue
            same = land(*[self.eq(p, q) for p, q in zip(args, a2)])
            if same is False: continue
            if same is True: return v2
            cs.append(z3.Implies(zb(same), b == zb(v2)))
        if cs: self.e.assume(z3.And(*cs), definitional=True)
        log.append((name, args, v))
        return v
    # -- logic without forking
    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b): return False
            return land(*[self.eq(p, q) for p, q in zip(a, b)])
        if a is None or b is None: return a is b
        if isinstance(a, (LBytes, LBytearray)) and isinstance(b, (LBytes, LBytearray)):
            return LBytes.__eq__(a, b)
        r = (a == b)
        if r is NotImplemented: return False
        return truthy(r)
    def land(self, *a): return land(*[truthy(x) for x in a])
    def lor(self, *a): return lor(*[truthy(x) for x in a])
    def lnot(self, a): return lnot(truthy(a))
    def implies(self, a, b): return lor(lnot(truthy(a)), truthy(b))
    def iff(self, a, b): 
        a = truthy(a); b = truthy(b)
        if isinstance(a, bool): return b if a else lnot(b)
        return a == b
    def ite(self, c, a, b): return ite(truthy(c), a, b)
    # -- control
    def mod(self, name): return lift.load(name)
    def script(self, path, modules, names):
        """run a program file of the repository as __main__ with some modules replaced and some names predefined"""
        return lift.run_script(path, modules, names)
    def amount(self, v):
        """an amount of v satoshis, as a JSON number of coins with eight decimals"""
        return lift.SymDecimal(v, 8)
    def coins(self, x):
        """the nearest number of satoshis of an amount in coins"""
        if isinstance(x, V.SymFloat): return V.SymFloat(x.n, x.c * 10**8, x.d, x.k, x.e, x.r).__round__()
        if isinstance(x, lift.SymDecimal): return lift.LInt(x * 10**8)
        if isinstance(x, SymInt): return x * 10**8
        import decimal
        return int(round(decimal.Decimal(x) * 10**8))
    def near(self, x, num, den, e2):
        """x is the float num / den * 2**e2 up to a few roundings"""
        x = V.SymFloat.of(x); o = V.SymFloat(num) / V.SymFloat(den)
        if x.r > 16: raise Incomplete('many roundings')
        o.e += e2
        p, q, e = x._both(o)
        return (abs(p - q) << 44) <= abs(q)
    def wire(self, obj):
        """the bytes of a JSON text"""
        return lift.JText(obj)
    def unwire(self, text):
        return lift.json_loads(text)
    def assume(self, cond):
        c = truthy(cond)
        if c is True: return
        if c is False: raise PathAbort('assumption')
        self.e.assume(c.e)
    def check(self, cond, what):
        c = truthy(cond)
        self.e.check(c.e if isinstance(c, SymBool) else c, what)
    def unmodelled(self, what):
        """a stand-in is asked for something it has no model of"""
        raise core.Incomplete('no model of ' + what)

    def fail(self, what): self.e.check(False, what)
    def reach(self, tag):
        if type(tag) is not str: raise RuntimeError('symbolic tag')
        self.e.path_tags.append(tag)
    def obs(self, label, value): self.e.observed.append((label, value))
    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except RecursionError:
            raise Incomplete('recursion limit')
        except Exception as exc:
            return Outcome(exc=exc)
    def patch(self, obj, name, value):
        old = getattr(obj, name, self)       # self: absent, removed again afterwards
        self.patches.append((obj, name, old))
        setattr(obj, name, value)
    def patch_open(self, module, fn):
        """let the module's `open` be fn"""
        self.patches.append((module, 'open', module.__dict__.get('open', self)))
        setattr(module, 'open', fn)
    def set_time(self, t): lift.Clock.value = t
    def note_hash(self, alg, data):
        """make the real digest of concrete data known to the ideal-hash model"""
        lift.LHash(alg, data).digest()
    def unpatch(self):
        for o, n, v in reversed(self.patches):
            if v is self: delattr(o, n)
            else: setattr(o, n, v)
        self.patches = []
    def concrete(self, v):
        """fork exhaustively to a concrete value"""
        if isinstance(v, SymBool): return not concretize(v) == 0
        if isinstance(v, SymInt): return concretize(v)
        return v

def model_value(m, v):
    """evaluate a symbolic value under a model to plain Python data"""
    if isinstance(v, SymBool): return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymInt):
        r = m.eval(v.a, model_completion=True).as_long()
        if v.w != V.INT and v.lo < 0 and r >= 1 << (v.w - 1): r -= 1 << v.w
        return r
    if isinstance(v, (LBytes, LBytearray)): return bytes([model_value(m, x) for x in v._e])
    if isinstance(v, SymStr): return ''.join(chr(model_value(m, x)) for x in v.els())
    if isinstance(v, list): return [model_value(m, x) for x in v]
    if isinstance(v, tuple): return tuple(model_value(m, x) for x in v)
    return v

def jsonable(v):
    if isinstance(v, bytes): return {'hex': v.hex()}
    if isinstance(v, bool) or v is None or isinstance(v, (str, float)): return v
    if isinstance(v, int): return int(v)
    if isinstance(v, (list, tuple)): return [jsonable(x) for x in v]
    if isinstance(v, dict): return {str(k): jsonable(x) for k, x in v.items()}
    return repr(type(v))

def model_inputs(eng, m):
    out = {}
    for name, (kind, v) in eng.inputs.items():
        out[name] = jsonable(model_value(m, v) if kind != 'const' else v)
    return out

def model_hashes(eng, m):
    out = []
    for alg, els, dig, dn, sym, *_ in eng.hashlog:
        if sym:
            out.append([alg, bytes(model_value(m, x) for x in els).hex(), bytes(model_value(m, x) for x in dig).hex()])
    return out

def model_oracles(eng, m):
    out = []
    if getattr(eng, 'oracle_owner', None) is eng.inputs:
        for name, args, v in eng.oracle_log:
            out.append([name, [jsonable(model_value(m, a)) for a in args], model_value(m, v)])
    return out
