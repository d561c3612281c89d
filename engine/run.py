"""Decides one property: python3-vt engine/run.py C21 [--tier quick|thorough] [--case NAME] [--replay FILE]"""
import sys, os, json, time, argparse, subprocess, multiprocessing, random, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)
import z3
import core, lift, env as envm, values as V
from core import *

VERIF = lift.VERIF
PY = '/opt/venv/bin/python'

class Server:
    """the real code, in the repository's own interpreter"""
    def __init__(self):
        self.p = None
    def start(self):
        self.p = subprocess.Popen([PY, os.path.join(VERIF, 'engine', 'concrete.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, cwd='/tmp')
    def run(self, req):
        if self.p is None: self.start()
        self.p.stdin.write(json.dumps(req) + '\n'); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            self.p = None
            raise RuntimeError('the concrete runner died')
        return json.loads(l)
    def stop(self):
        if self.p is not None:
            self.p.stdin.close(); self.p.wait(); self.p = None

SERVER = Server()

def tb_str(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return '; '.join('%s:%s:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-8:])

def real_digests(hashes):
    import hashlib
    out = []
    for alg, i, d in hashes:
        h = hashlib.new(alg) ; h.update(bytes.fromhex(i))
        out.append(h.hexdigest() == d)
    return out

def explore(module, case, opts, seed, deadline):
    """Run one case to exhaustion.  Returns a result dict."""
    t0 = time.time()
    fnname, args = case['fn'], case.get('args', {})
    eng = Engine(timeout_ms=opts.get('timeout_ms', 120000), max_paths=opts.get('max_paths', 100000), deadline=deadline,
                 concretize_cap=opts.get('concretize_cap', 600))
    eng.hash_prefix = opts.get('hash_prefix', 0)
    if opts.get('general'): eng.use_general()
    lift.FUNCS.clear()
    mod = lift.load('props.' + module)
    fn = getattr(mod, fnname)
    rng = random.Random('%s|%s|%s' % (seed, module, case['name']))
    nval = opts.get('validate', 6)
    reached = {}
    samples = []
    validated = 0
    res = dict(case=case['name'], status='ok', args=args)
    reservoir = []
    gaps = {}           # reason -> paths that could not be decided
    lim = opts.get('max_gaps', 40)
    probes = [opts.get('probes', 60)]
    def gap(why, extra=(), n=3):
        if probes[0] > 0 and 'time budget' not in why:
            probes[0] -= n
            eng.rebalance()
            v = probe(eng, module, case, rng, extra, n, why)
            if v is not None:
                res['violation'] = v
                raise Probed()
        gaps[why] = gaps.get(why, 0) + 1
        eng.stats['undecided'] = eng.stats.get('undecided', 0) + 1
        eng.rebalance()
        if sum(gaps.values()) >= lim: raise OutOfBudget('%d paths undecided' % lim)
    try:
        while True:
            eng.start_path()
            lift.restore()
            env = envm.SymEnv(eng)
            aborted = False
            viol = None
            try:
                try:
                    fn(env, **args)
                finally:
                    env.unpatch()
            except PathAbort:
                aborted = True
            except FoundViolation as v:
                viol = eng.violation
            except OutOfBudget:
                raise
            except Incomplete as exc:
                gap('%s [%s]' % (exc, tb_str(exc)))
                if not eng.backtrack(): break
                continue
            except (RecursionError, z3.Z3Exception) as exc:
                gap('%s: %s [%s]' % (type(exc).__name__, _safe(exc), tb_str(exc)))
                if not eng.backtrack(): break
                continue
            except Exception as exc:
                viol = ('unexpected %s: %s [%s]' % (type(exc).__name__, _safe(exc), tb_str(exc)), None)
                try: viol = (viol[0], eng._ensure_model())
                except PathAbort: aborted = True; viol = None
            if viol is not None:
                c = confirm(eng, module, case, viol)
                if c['reproduced']:
                    res['violation'] = c
                    break
                if 'nonreproduced' not in res: res['nonreproduced'] = c
                cond = eng.violation_cond
                gap('counterexample does not reproduce on the real code: %s' % c['what'], () if cond is None else (z3.Not(cond),), 12)
                if not eng.backtrack(): break
                continue
            if aborted:
                eng.stats['aborted'] += 1
            else:
                eng.stats['paths'] += 1
                if eng.path_checks: eng.stats['check_evals'] += eng.path_checks
                for t in eng.path_tags: reached[t] = reached.get(t, 0) + 1
                # translator validation: replay a sample of paths on the real code
                n = eng.stats['paths']
                if validated < nval and (n <= 2 or rng.random() < 0.25 or n % 37 == 0):
                    v = validate(eng, module, case)
                    validated += 1
                    if 'reproduced' in v: res['violation'] = v; break
                    if 'mismatch' in v:
                        eng.stats['paths'] -= 1
                        gap(v['mismatch'])
                        if not eng.backtrack(): break
                        continue
                    if len(samples) < 2: samples.append(v)
            if eng.stats['paths'] + eng.stats['aborted'] > eng.max_paths:
                raise OutOfBudget('path limit %d exceeded' % eng.max_paths)
            if time.time() > deadline: raise OutOfBudget('case time budget exhausted')
            if not eng.backtrack(): break
    except Probed: pass
    except Incomplete as exc:
        res['status'] = 'incomplete'; res['why'] = str(exc) + ' [' + tb_str(exc) + ']'
    except Exception as exc:
        res['status'] = 'error'; res['why'] = '%s: %s [%s]' % (type(exc).__name__, _safe(exc), tb_str(exc))
    if gaps and res['status'] == 'ok':
        res['status'] = 'incomplete'; res['why'] = '; '.join('%s (%d paths)' % (w, n) for w, n in list(gaps.items())[:3])
    res['stats'] = eng.stats
    res['reached'] = reached
    res['functions'] = sorted(lift.FUNCS)
    res['samples'] = samples
    res['validated'] = validated
    res['wall'] = time.time() - t0
    if 'violation' not in res and res['status'] == 'ok':
        need = case.get('reach', [])
        miss = [t for t in need if t not in reached]
        if miss: res['status'] = 'vacuous'; res['why'] = 'never reached: ' + ', '.join(miss)
        elif eng.stats['paths'] == 0: res['status'] = 'vacuous'; res['why'] = 'no feasible path'
        elif eng.stats['check_evals'] == 0: res['status'] = 'vacuous'; res['why'] = 'no assertion reached'
    return res

class Probed(Exception): pass

def probe(eng, module, case, rng, extra, n, why):
    """a path that cannot be decided: the real code, at inputs the solver finds for it"""
    t0 = time.time()
    ins = [(k, v) for _, (k, v) in eng.inputs.items() if k != 'const']
    def diverse():
        rng.shuffle(ins)
        for kind, v in ins[:8]:
            if kind == 'bool': c = v.e if rng.random() < .5 else z3.Not(v.e)
            elif kind == 'int' and isinstance(v, V.SymInt): c = V.zb(v == rng.choice([v.lo, v.hi, rng.randint(v.lo, v.hi), rng.randint(v.lo, v.hi), rng.randint(v.lo, v.lo + int((v.hi - v.lo) ** .5))]))
            elif kind == 'bytes' and len(v._e): 
                i = rng.randrange(len(v._e)); x = v._e[i]
                if not isinstance(x, V.SymInt): continue
                c = V.zb(x == rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)]))
            else: continue
            if isinstance(c, bool): continue
            eng.solver.push(); eng.solver.add(c)
            if eng.solver.check() != z3.sat: eng.solver.pop()
    base = eng.solver.num_scopes()
    try:
        eng.solver.set('timeout', 2000)
        for k in range(n):
            if time.time() - t0 > 20: return None
            eng.solver.push()
            if k < max(1, n - 2): eng.solver.add(*extra)
            if k: diverse()
            if eng.solver.check() != z3.sat: eng.solver.pop(eng.solver.num_scopes() - base); return None
            m = eng.solver.model()
            inputs = envm.model_inputs(eng, m); oracles = envm.model_oracles(eng, m)
            eng.solver.pop(eng.solver.num_scopes() - base)
            r = SERVER.run(request(module, case, inputs, [], oracles))
            if r['status'] in ('fail', 'exc'):
                return dict(what='real run: %s' % r.get('what'), inputs=inputs, hashes=[], oracles=oracles, real=r, reproduced=True, undecided_path=why[:300])
    except z3.Z3Exception: return None
    finally:
        if eng.solver.num_scopes() > base: eng.solver.pop(eng.solver.num_scopes() - base)
        eng.solver.set('timeout', eng.timeout_ms)
    return None

def _safe(exc):
    try: return ' '.join(str(a) if isinstance(a, (str, int)) else '<%s>' % type(a).__name__ for a in exc.args)[:300]
    except BaseException: return '?'

def request(module, case, inputs, hashes, oracles):
    return dict(module=module, fn=case['fn'], args=case.get('args', {}), inputs=inputs, hashes=hashes, oracles=oracles)

def validate(eng, module, case):
    m = eng._ensure_model()
    inputs = envm.model_inputs(eng, m)
    hashes = envm.model_hashes(eng, m)
    oracles = envm.model_oracles(eng, m)
    exp_obs = [[l, envm.jsonable(envm.model_value(m, v))] for l, v in eng.observed]
    r = SERVER.run(request(module, case, inputs, hashes, oracles))
    if r['status'] in ('fail', 'exc'):
        # the real code fails where the encoding of it does not: believe the real code, if it also fails with its own hash function
        r2 = SERVER.run(request(module, case, inputs, [], oracles))
        if r2['status'] in ('fail', 'exc'):
            return dict(what='real run: %s' % r2.get('what'), inputs=inputs, hashes=[], oracles=oracles, real=r2, reproduced=True)
    if r['status'] != 'ok' or r['tags'] != eng.path_tags or r['obs'] != exp_obs:
        return dict(mismatch='translator validation mismatch: real run %s, expected tags %s obs %s, inputs %s' %
                    (json.dumps(r)[:900], eng.path_tags, json.dumps(exp_obs)[:400], json.dumps(inputs)[:900]))
    return dict(inputs=_clip(inputs), tags=eng.path_tags, obs=_clip(exp_obs))

def _clip(o):
    s = json.dumps(o)
    return o if len(s) < 2000 else s[:2000] + '...'

def confirm(eng, module, case, viol):
    """replay the counterexample on the real code, refining the ideal hash with real digests"""
    what, m = viol
    first = None
    for rnd in range(25):
        inputs = envm.model_inputs(eng, m)
        hashes = envm.model_hashes(eng, m)
        oracles = envm.model_oracles(eng, m)
        r = SERVER.run(request(module, case, inputs, [], oracles))
        v = dict(what=what, inputs=inputs, hashes=[], oracles=oracles, real=r, reproduced=r['status'] in ('fail', 'exc'))
        if v['reproduced']: return v
        if first is None: first = (inputs, hashes, oracles, r)
        if not hashes: break
        # digests assigned by the model differ from the real ones: tell the solver the real ones and ask again
        import hashlib
        cs = []
        for alg, els, dig, dn, sym, *_ in eng.hashlog:
            if not sym: continue
            i = bytes(envm.model_value(m, x) for x in els)
            h = hashlib.new(alg); h.update(i)
            cs.append(z3.Implies(envm.zb(envm.V.elems_eq(list(els), list(i))), envm.zb(envm.V.elems_eq(list(dig), list(h.digest())))))
        eng.solver.push()
        eng.solver.add(*cs)
        # keep the violation: the model must still falsify it
        if eng.violation is not None and eng.violation_cond is not None: eng.solver.add(z3.Not(eng.violation_cond))
        if eng.solver.check() != z3.sat: break
        m = eng.solver.model()
    inputs, hashes, oracles, r0 = first
    if hashes:
        # the hash function as an arbitrary function: replay with the digests of the model
        r = SERVER.run(request(module, case, inputs, hashes, oracles))
        if r['status'] in ('fail', 'exc'):
            return dict(what=what, inputs=inputs, hashes=hashes, oracles=oracles, real=r, reproduced=True, hash_model=True)
        r0 = r
    return dict(what=what, inputs=inputs, hashes=hashes, oracles=oracles, real=r0, reproduced=False)

def work(job):
    module, case, opts, seed, deadline = job
    try:
        try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        except Exception: pass
        r = explore(module, case, opts, seed, min(deadline, time.time() + opts.get('case_s', 600)))
        json.dumps(r)   # plain data only
        return r
    except BaseException as exc:
        return dict(case=case['name'], status='error', why='%s: %s [%s]' % (type(exc).__name__, exc, tb_str(exc)), stats={}, reached={}, functions=[], samples=[], validated=0, wall=0)

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): 
                out.append(l[len('finding: property=%s ' % pid):])
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case'); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--replay'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    pid = a.property; module = pid.lower()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    if a.replay:
        v = json.load(open(a.replay))
        r = SERVER.run(request(v['module'], v['case'], v['inputs'], v.get('hashes', []), v.get('oracles', [])))
        print(json.dumps(r, indent=1))
        return 1 if r['status'] in ('fail', 'exc') else 0
    budget = a.budget or (700 if tier == 'quick' else 3300)
    deadline = t0 + budget
    Engine()   # module loading runs concretely
    core.E.start_path()
    def loaderr(exc):
        print('ERROR loading the code under test: %s: %s [%s]' % (type(exc).__name__, exc, tb_str(exc)))
        return 3
    try:
        m = lift.load('props.' + module)
        for dep in getattr(m, 'PRELOAD', []): lift.load(dep)
        cases = m.cases(tier)
        opts = dict(getattr(m, 'OPTS', {}))
        lift.snapshot()
    except Exception as exc:
        return loaderr(exc)
    if a.case: cases = [c for c in cases if a.case in c['name']]
    cases = sorted(cases, key=lambda c: -c.get('weight', 1))
    bycase = {c['name']: c for c in cases}
    jobs = [(module, c, dict(opts, **c.get('opts', {})), seed, deadline) for c in cases]
    results = []
    if a.jobs == 1 or len(jobs) == 1:
        for j in jobs:
            r = work(j); results.append(r)
            if a.v: show(r)
        SERVER.stop()
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(a.jobs, len(jobs))) as pool:
            it = pool.imap_unordered(work, jobs, chunksize=1)
            stop = None      # once a violation is confirmed the remaining cases get a little longer
            while True:
                try: r = it.next(None if stop is None else max(0.1, stop - time.time()))
                except StopIteration: break
                except multiprocessing.TimeoutError:
                    pool.terminate(); break
                results.append(r)
                if a.v: show(r)
                if 'violation' in r and stop is None and bycase[r['case']].get('known') is None: stop = time.time() + (30 if tier == 'quick' else 300)
    results.sort(key=lambda r: r['case'])
    return report(pid, m, tier, seed, cases, results, t0)

def show(r):
    s = r['stats']
    print('%-40s %-10s paths=%s aborted=%s checks=%s queries=%s solver=%.1fs wall=%.1fs %s' % (r['case'], 'VIOL' if 'violation' in r else r['status'],
          s.get('paths'), s.get('aborted'), s.get('checks'), s.get('queries'), s.get('solver_s', 0), r['wall'], r.get('why', '')), flush=True)
    if 'violation' in r: print('    ', json.dumps(r['violation'])[:1800], flush=True)

def report(pid, m, tier, seed, cases, results, t0):
    tot = {}
    for r in results:
        for k, v in r['stats'].items(): tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r['functions']})
    viols = []; errors = []; partial = []
    known = known_findings(pid)
    bycase = {c['name']: c for c in cases}
    knownhits = []
    for r in results:
        if 'nonreproduced' in r:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            json.dump(dict(property=pid, module=pid.lower(), case=bycase[r['case']], **r['nonreproduced']), open(os.path.join(VERIF, 'evidence', 'nonreproduced-%s.json' % pid), 'w'), indent=1)
        if 'violation' in r:
            v = r['violation']
            kf = bycase[r['case']].get('known')
            if kf is not None:
                hit = [k for k in known if k.startswith(kf + ':')]
                if hit: knownhits.append(hit[0]); continue
            viols.append((r['case'], v))
        elif r['status'] == 'incomplete' and r['stats'].get('paths'):
            partial.append('%s: %s' % (r['case'], r.get('why')))
        elif r['status'] != 'ok':
            errors.append('%s: %s: %s' % (r['case'], r['status'], r.get('why')))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    lines = []
    for i, (c, v) in enumerate(viols[:5]):
        p = os.path.join(VERIF, 'evidence', 'replays', '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, module=pid.lower(), case=bycase[c], **v), open(p, 'w'), indent=1)
        print('violated in case %s: %s; real run: %s' % (c, v['what'], v['real'].get('what')))
        lines.append('VIOLATION property=%s replay=%s' % (pid, p))
    samples = []
    for r in results:
        for s in r['samples'][:1]: samples.append(dict(case=r['case'], **s))
    bounds = getattr(m, 'BOUNDS', '')
    if callable(bounds): bounds = bounds(tier)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viols),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
              coverage=dict(states=tot.get('paths', 0), transitions=tot.get('decisions', 0),
                            traces_validated_against_impl=sum(r['validated'] for r in results), samples=samples[:12],
                            explanation='states = feasible symbolic paths explored to the end; transitions = symbolic branch decisions put to the solver; every assertion on every path is a solver query over all values',
                            cases=len(results), cases_not_run=len(cases) - len(results), functions_encoded=funcs, bounds=bounds, queries_discharged=tot.get('queries', 0), unsat=tot.get('unsat', 0),
                            sat=tot.get('sat', 0), assertions_decided=tot.get('checks', 0), solver_time_s=round(tot.get('solver_s', 0), 2),
                            paths_cut_by_assumptions=tot.get('aborted', 0), reached={t: sum(r['reached'].get(t, 0) for r in results) for r0 in results for t in r0['reached']},
                            per_case=[dict(case=r['case'], status='violation' if 'violation' in r else r['status'], paths=r['stats'].get('paths', 0), queries=r['stats'].get('queries', 0), wall_s=round(r['wall'], 2)) for r in results],
                            solver='z3 ' + z3.get_version_string(), errors=errors, incomplete=partial))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in sorted(set(knownhits)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d cases, %d paths, %d decisions, %d assertions, %d queries (%.1fs solver), %d traces validated, %.1fs' % (
        pid, tier, len(results), tot.get('paths', 0), tot.get('decisions', 0), tot.get('checks', 0), tot.get('queries', 0), tot.get('solver_s', 0),
        sum(r['validated'] for r in results), time.time() - t0))
    for l in lines: print(l)
    if lines: return 1
    # what was not decided is said, here and in the evidence; the property held on everything that was explored
    for e in partial[:20]: print('INCOMPLETE ' + e[:1500])
    if errors:
        for e in errors[:20]: print('INCONCLUSIVE ' + e[:1500])
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
