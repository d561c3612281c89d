"""Runs a harness against the real, un-instrumented modules with concrete inputs (replay and translator validation).

Started with the repository's own interpreter; one JSON request per line on stdin, one JSON answer per line on stdout.
"""
import sys, os, json, importlib, hashlib, time, random, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, os.path.join(REPO, 'lib/python-bitcoinlib'), os.path.join(REPO, 'lib/python-proofmarshal'), VERIF]
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
time.time = lambda: FIXED[0]
FIXED = [1500000000]
random.getrandbits = lambda n: 0x0123456789abcdef & ((1 << n) - 1)
random.randint = lambda a, b: a
os.urandom = lambda n: bytes([(17 * i + 3) & 255 for i in range(n)])

_real = {n: getattr(hashlib, n) for n in ('sha256', 'sha1', 'md5', 'sha512', 'new')}
HT = {}
class Hash:
    """real hash, except for inputs the ideal-hash model assigned a digest to"""
    def __init__(self, alg, data=b''):
        self.name = alg; self._b = bytes(data)
        self._h = _real['new'](alg); self.digest_size = self._h.digest_size; self.block_size = self._h.block_size
    def update(self, d): self._b += bytes(memoryview(d))
    def digest(self):
        r = HT.get((self.name, self._b))
        if r is not None: return r
        h = _real['new'](self.name); h.update(self._b); return h.digest()
    def hexdigest(self): return self.digest().hex()
    def copy(self): return Hash(self.name, self._b)
def patch_hash():
    for n in ('sha256', 'sha1', 'md5', 'sha512'):
        setattr(hashlib, n, (lambda n: lambda data=b'', **kw: Hash(n, data))(n))
    hashlib.new = lambda name, data=b'', **kw: Hash(name.lower(), data)
def unpatch_hash():
    for n, f in _real.items(): setattr(hashlib, n, f)

class CheckFailed(Exception): pass
class AssumeFailed(Exception): pass

class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value; self.exc = exc
        self.ok = exc is None
        self.name = None if exc is None else type(exc).__name__
    def raised(self, cls): return self.exc is not None and isinstance(self.exc, cls)

def unjson(v):
    if isinstance(v, dict) and 'hex' in v: return bytes.fromhex(v['hex'])
    if isinstance(v, list): return [unjson(x) for x in v]
    return v

class Env:
    symbolic = False
    def __init__(self, inputs, oracles):
        self.inputs = {k: unjson(v) for k, v in inputs.items()}
        self.oracles = [(n, [unjson(a) for a in args], v) for n, args, v in oracles]
        self.tags = []; self.observed = []; self.patches = []; self.checks = 0
    def _get(self, name, default):
        return self.inputs.get(name, default)
    def int(self, name, lo, hi, kind='bv'):
        v = self._get(name, lo)
        if not lo <= v <= hi: raise AssumeFailed(name)
        return v
    def bool(self, name): return self._get(name, False)
    def bytes(self, name, n, kind='bv'): return self._get(name, bytes(n))
    def bytes_except(self, name, n, pos, fill=0xa5): return self._get(name, bytes([fill]) * n)
    def text(self, name, n, lo=0, hi=127): return self._get(name, chr(lo) * n)
    def choice(self, name, n): return self._get(name, 0)
    def oracle_bool(self, name, *args):
        args = [bytes(a) if isinstance(a, (bytes, bytearray)) else a for a in args]
        for n, a, v in self.oracles:
            if n == name and a == args: return v
        return False
    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(self.eq(p, q) for p, q in zip(a, b))
        if a is None or b is None: return a is b
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)): return bytes.__eq__(bytes(a), bytes(b))
        return bool(a == b)
    def land(self, *a): return all(a)
    def lor(self, *a): return any(a)
    def lnot(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b
    def mod(self, name): return importlib.import_module(name)
    def script(self, path, modules, names):
        import types
        m = types.ModuleType('__main__'); m.__file__ = os.path.join(REPO, path)
        m.__dict__.update(names)
        old = {k: sys.modules.get(k) for k in modules}
        sys.modules.update(modules)
        try: exec(compile(open(m.__file__, 'rb').read(), m.__file__, 'exec'), m.__dict__)
        finally:
            for k, v in old.items():
                if v is None: sys.modules.pop(k, None)
                else: sys.modules[k] = v
        return m
    def amount(self, v):
        import decimal
        return decimal.Decimal(v).scaleb(-8)
    def coins(self, x):
        import decimal
        return int(round(decimal.Decimal(x) * 10**8))
    def near(self, x, num, den, e2):
        from fractions import Fraction
        o = Fraction(num, den) * Fraction(2) ** e2
        return abs(Fraction(x) - o) <= abs(o) * Fraction(1, 2**44)
    def wire(self, obj):
        import re
        return re.sub(r'"@@(-?[0-9.]+)@@"', r'\1', json.dumps(obj, default=lambda d: '@@{:.8f}@@'.format(d))).encode('utf8')
    def unwire(self, text):
        return json.loads(text)
    def assume(self, c):
        if not c: raise AssumeFailed()
    def check(self, c, what):
        self.checks += 1
        if not c: raise CheckFailed(what)
    gap = None
    def unmodelled(self, what):
        self.gap = what
        raise AssumeFailed('no model of ' + what)

    def fail(self, what): raise CheckFailed(what)
    def reach(self, tag): self.tags.append(tag)
    def obs(self, label, v): self.observed.append((label, v))
    def call(self, fn, *a, **k):
        try: return Outcome(fn(*a, **k))
        except CheckFailed: raise
        except Exception as exc: return Outcome(exc=exc)
    def patch(self, obj, name, value):
        self.patches.append((obj, name, getattr(obj, name, self)))
        setattr(obj, name, value)
    def patch_open(self, module, fn):
        self.patches.append((module, 'open', module.__dict__.get('open', self)))
        setattr(module, 'open', fn)
    def set_time(self, t): FIXED[0] = t
    def note_hash(self, alg, data): pass
    def concrete(self, v): return v
    def unpatch(self):
        for o, n, v in reversed(self.patches):
            if v is self: delattr(o, n)
            else: setattr(o, n, v)
        self.patches = []

def jsonable(v):
    if isinstance(v, (bytes, bytearray)): return {'hex': bytes(v).hex()}
    if isinstance(v, bool) or v is None or isinstance(v, (str, float)): return v
    if isinstance(v, int): return int(v)
    if isinstance(v, (list, tuple)): return [jsonable(x) for x in v]
    if isinstance(v, dict): return {str(k): jsonable(x) for k, x in v.items()}
    return repr(type(v))

_snap = None
def restore():
    """drop class attributes cached by lazily initialised code, so that runs are independent"""
    import types
    for m in list(sys.modules.values()):
        n = getattr(m, '__name__', '')
        if n.split('.')[0] not in ('bitcoin', 'proofmarshal', 'proofchains', 'props'): continue
        for v in list(vars(m).values()):
            if isinstance(v, type) and getattr(v, '__module__', '') == n:
                key = id(v)
                if key not in CLS: CLS[key] = (v, dict(vars(v)))
                else:
                    d = CLS[key][1]
                    for k in list(vars(v)):
                        if k not in d:
                            try: delattr(v, k)
                            except Exception: pass
        if n not in MODS: MODS[n] = dict(vars(m))
        else:
            for k, v in MODS[n].items():
                if vars(m).get(k) is not v: setattr(m, k, v)
CLS = {}; MODS = {}

def run(req):
    HT.clear()
    for alg, i, d in req.get('hashes', []): HT[(alg, bytes.fromhex(i))] = bytes.fromhex(d)
    FIXED[0] = 1500000000
    env = Env(req['inputs'], req.get('oracles', []))
    r = {}
    try:
        m = importlib.import_module('props.' + req['module'])
        for dep in req.get('preload', []):
            importlib.import_module(dep)
        restore()
        if HT: patch_hash()
        getattr(m, req['fn'])(env, **req.get('args', {}))
        r['status'] = 'ok'
    except CheckFailed as e:
        r['status'] = 'fail'; r['what'] = str(e)
    except AssumeFailed as e:
        r['status'] = 'assume'; r['what'] = str(e)
    except Exception as e:
        r['status'] = 'exc'; r['what'] = '%s: %s' % (type(e).__name__, e); r['tb'] = traceback.format_exc()[-1500:]
    finally:
        unpatch_hash()
        env.unpatch()
    if env.gap is not None and r['status'] != 'ok': r['status'] = 'assume'; r['what'] = 'no model of ' + env.gap
    r['tags'] = env.tags; r['obs'] = [[l, jsonable(v)] for l, v in env.observed]; r['checks'] = env.checks
    return r

if __name__ == '__main__':
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        out.write(json.dumps(run(req)) + '\n'); out.flush()
