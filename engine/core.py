"""Path exploration by deterministic re-execution, with z3 deciding every branch and every assertion."""
import time
import z3

class PathAbort(BaseException):
    """The current path is infeasible (or cut by an assumption)."""

class Incomplete(BaseException):
    """The engine cannot decide this case exhaustively (solver unknown, cap reached, unsupported operation)."""

class OutOfBudget(Incomplete):
    """Time or path budget used up: the whole case stops here."""

class FoundViolation(BaseException):
    pass

class Entry:
    __slots__ = ('kind', 'cond', 'choice', 'alt', 'payload', 'pushed')
    def __init__(self, kind, cond=None, choice=None, alt=False, payload=None, pushed=False):
        self.kind = kind; self.cond = cond; self.choice = choice
        self.alt = alt; self.payload = payload; self.pushed = pushed

E = None   # the current engine

def engine():
    return E

class Engine:
    def __init__(self, timeout_ms=60000, max_paths=200000, deadline=None, concretize_cap=600):
        global E
        E = self
        self.general = False
        self.solver = self._new_solver(timeout_ms)
        self.timeout_ms = timeout_ms
        self.hash_prefix = 0   # >0: this many leading digest bytes already determine the hashed input
        self.trail = []
        self.pos = 0
        self.model = None
        self.max_paths = max_paths
        self.deadline = deadline
        self.concretize_cap = concretize_cap
        self.stats = dict(paths=0, aborted=0, decisions=0, forks=0, queries=0, unsat=0, sat=0,
                          solver_s=0.0, checks=0, check_evals=0, assumptions=0, hashcalls=0)
        self.functions = set()
        self.reached = {}
        self.path_tags = []
        self.violation = None
        self.violation_cond = None
        self.samples = []
        self.lines_model = True

    def _new_solver(self, timeout_ms):
        s = z3.Solver() if self.general else z3.SolverFor('QF_BV')
        s.set('timeout', timeout_ms)
        return s

    def use_general(self):
        """Switch from the bit-vector solver to the general one (mathematical integers appear)."""
        if self.general: return
        self.general = True
        self.solver = self._new_solver(self.timeout_ms)
        for e in self.trail:
            if e.pushed:
                self.solver.push()
                self.solver.add(z3.Not(e.cond) if e.kind == 'd' and not e.choice else e.cond)

    # ---- per path state
    def start_path(self):
        self.pos = 0
        self.fresh_n = 0
        self.inputs = {}       # name -> (kind, value)
        self.hashlog = []      # (alg, LBytes elements, digest elements)
        self.hashindex = {}
        self.digest_src = {}   # id of a symbolic digest term -> index in hashlog
        self.path_tags = []
        self.observed = []
        self.path_checks = 0

    # ---- solver
    def _check(self, *assumptions):
        """sat only with a model in which the hash function is functional and injective on everything hashed so far"""
        for rnd in range(200):
            r = self._check1(*assumptions)
            if r != z3.sat: return r
            m = self._fallback_model if self._use_fallback else self.solver.model()
            self._use_fallback = False
            self._model = m
            if not self.hashlog: return r
            lemmas = self.hash_repair(m, assumptions)
            if not lemmas: return r
            self.stats['lemmas'] = self.stats.get('lemmas', 0) + len(lemmas)
            self.solver.add(*lemmas)
        raise Incomplete('hash lemmas do not converge')

    def hash_values(self, m):
        return [(h[0], h[5] if isinstance(h[5], int) else m.eval(h[5], model_completion=True).as_long(), len(h[1]),
                 h[6] if isinstance(h[6], int) else m.eval(h[6], model_completion=True).as_long(), h) for h in self.hashlog]

    def hash_conflicts(self, m):
        byin = {}; bydig = {}; out = []
        pm = lambda dv: dv & ((1 << (8 * self.hash_prefix)) - 1) if self.hash_prefix else dv
        for alg, iv, n, dv, h in self.hash_values(m):
            o = byin.setdefault((alg, n, iv), (dv, h))
            if o[0] != dv: out.append((o[1], h))
            o = bydig.setdefault((alg, pm(dv)), (n, iv, h))
            if o[:2] != (n, iv): out.append((o[2], h))
        return out

    def hash_repair(self, m, assumptions):
        """[] when m is (made) consistent, otherwise the lemmas it violates"""
        bad = self.hash_conflicts(m)
        if not bad: return []
        lemmas = []
        for h1, h2 in bad: lemmas.append(self.hash_lemma(h1, h2))
        # try the real hash function on this model's inputs before asking the solver again
        saved = []
        for h in self.hashlog: self.hash_assign(m, h)
        ok = all(z3.is_true(m.eval(c, model_completion=True)) for c in self.solver.assertions()) and \
             all(z3.is_true(m.eval(c, model_completion=True)) for c in assumptions) and not self.hash_conflicts(m)
        return [] if ok else lemmas

    def hash_assign(self, m, h):
        if not h[4]: return
        iv = h[5] if isinstance(h[5], int) else m.eval(h[5], model_completion=True).as_long()
        dv = self.real_digest(h[0], iv, len(h[1]))
        m.update_value(h[6], z3.BitVecVal(dv, h[6].size()))

    def hash_lemma(self, h1, h2):
        return self.lemma_fn(h1, h2)

    def new_hash(self, h):
        """extend the current model to a hash application that was just added (its digest is unconstrained so far)"""
        self.hash_assign(self.model, h)
        for h1, h2 in self.hash_conflicts(self.model):
            h1 = h1 if h2 is h else h2
            if h[4] and len(h1[1]) == len(h[1]):    # the same input already has another digest in this model
                self.model.update_value(h[6], self.model.eval(h1[6], model_completion=True) if not isinstance(h1[6], int) else z3.BitVecVal(h1[6], h[6].size()))
            break
        else: return
        if self.hash_conflicts(self.model): self.model = None

    def _check1(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget('case time budget exhausted')
        t = time.time()
        if self.deadline is not None and t + self.timeout_ms / 1000 > self.deadline:
            self.timeout_ms = max(1000, int((self.deadline - t) * 1000))
            self.solver.set('timeout', self.timeout_ms)
        r = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        if r == z3.unknown:
            r = self._fallback(assumptions)
        if r == z3.sat:
            self.stats['sat'] += 1
        else:
            self.stats['unsat'] += 1
        return r

    def _fallback(self, assumptions):
        """Incremental core gave up: a fresh solver with preprocessing on the same assertions."""
        reason = self.solver.reason_unknown()
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*self.solver.assertions())
        s.add(*assumptions)
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        if r == z3.unknown:
            if self.deadline is not None and time.time() > self.deadline: raise OutOfBudget('case time budget exhausted')
            raise Incomplete('solver answered unknown (%s)' % reason)
        self._fallback_model = s.model() if r == z3.sat else None
        self._use_fallback = True
        return r

    _use_fallback = False
    def _get_model(self):
        return self._model

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r != z3.sat:
                raise PathAbort('infeasible')
            self.model = self._get_model()
        return self.model

    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    # ---- decisions
    def decide(self, cond):
        """cond: z3 Bool.  Returns a python bool, forking when both sides are feasible."""
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'd':
                raise Incomplete('non-deterministic re-execution (expected %s)' % e.kind)
            self.pos += 1
            return e.choice
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            v = z3.is_true(cond)
            self.trail.append(Entry('d', None, v)); self.pos += 1
            return v
        self.stats['decisions'] += 1
        m = self._ensure_model()
        mv = z3.is_true(m.eval(cond, model_completion=True))
        this = cond if mv else z3.Not(cond)
        other = z3.Not(cond) if mv else cond
        self.solver.push()
        self.solver.add(other)
        r = self._check()
        om = self._get_model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            self.trail.append(Entry('d', None, mv)); self.pos += 1
            return mv
        self.stats['forks'] += 1
        self._push(this)
        self.trail.append(Entry('d', cond, mv, alt=True, payload=om, pushed=True)); self.pos += 1
        return mv

    def feasible(self, cond):
        """Is cond satisfiable together with the path condition (does not constrain the path)?"""
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'q': raise Incomplete('non-deterministic re-execution (expected %s)' % e.kind)
            self.pos += 1
            return e.choice
        m = self._ensure_model()
        if z3.is_true(m.eval(cond, model_completion=True)):
            v = True
        else:
            self.solver.push(); self.solver.add(cond)
            v = self._check() == z3.sat
            self.solver.pop()
        self.trail.append(Entry('q', None, v)); self.pos += 1
        return v

    def assume(self, cond, definitional=False):
        """Constrain the path (definitional: cannot make it infeasible, so no query is needed)."""
        if z3.is_true(cond): return
        if z3.is_false(cond): raise PathAbort('assume false')
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'a': raise Incomplete('non-deterministic re-execution (expected %s)' % e.kind)
            self.pos += 1
            return
        self._push(cond)
        self.trail.append(Entry('a', cond, True, pushed=True)); self.pos += 1
        if not definitional:
            self.stats['assumptions'] += 1
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        self.model = None
        if not definitional: self._ensure_model()

    def choose_value(self, ast):
        """A feasible value of ast under the path condition (recorded, so re-execution is deterministic)."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'v': raise Incomplete('non-deterministic re-execution (expected %s)' % e.kind)
            self.pos += 1
            return e.payload
        m = self._ensure_model()
        v = m.eval(ast, model_completion=True).as_long()
        self.trail.append(Entry('v', None, None, payload=v)); self.pos += 1
        return v

    def replaying(self):
        return self.pos < len(self.trail)

    # ---- assertions
    def check(self, cond, what):
        """cond: python bool or z3 Bool.  Valid on this path, or a violation is recorded."""
        self.path_checks += 1
        if self.replaying():
            return
        self.stats['checks'] += 1
        if cond is True: return
        if cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond): return
            m = self.model
            if m is not None and z3.is_false(m.eval(cond, model_completion=True)):
                self.violation = (what, m); self.violation_cond = cond
                raise FoundViolation(what)
            self.solver.push()
            self.solver.add(z3.Not(cond))
            r = self._check()
            if r == z3.sat:
                m = self._get_model()
                self.solver.pop()
                self.violation = (what, m); self.violation_cond = cond
                raise FoundViolation(what)
            self.solver.pop()
            return
        self.violation = (what, self._ensure_model())
        raise FoundViolation(what)

    # ---- exploration
    def rebalance(self):
        """drop solver scopes left behind by an exception"""
        n = sum(1 for e in self.trail if e.pushed)
        while self.solver.num_scopes() > n: self.solver.pop()
        self._use_fallback = False
        self.violation = self.violation_cond = None

    def backtrack(self):
        """Flip the deepest decision with an untried side; False when exhausted."""
        while self.trail:
            e = self.trail.pop()
            if e.pushed:
                self.solver.pop()
            if e.alt:
                choice = not e.choice
                self._push(e.cond if choice else z3.Not(e.cond))
                self.trail.append(Entry('d', e.cond, choice, alt=False, pushed=True))
                self.model = e.payload
                return True
        return False

    def fresh_name(self, pfx):
        self.fresh_n += 1
        return '%s!%d' % (pfx, self.fresh_n)
