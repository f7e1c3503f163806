"""Runner: one property, one tier.  Exit 0 or 1 only."""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Run:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obl = {}            # name -> count proved
        self.backend = {}
        self.refuted = []        # (name, detail)
        self.undecided = []      # (name, detail)
        self.bounded = []        # notes on bounded stand-ins
        self.assume = []
        self.trusted = ['clang-18 -O0 front end and LLVM always-inline/sroa/simplifycfg (the IR is what is verified)',
                        'the symbolic executor and term normaliser in /verif/dv (VC generator)', 'z3']
        self.fns = {}
        self.contracts = {}
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='dv.%s.' % pid)
        self.quick = tier == 'quick'
        self.log = []

    # ---- obligations
    def ok(self, name, n=1, by='normal form'):
        self.obl[name] = self.obl.get(name, 0) + n
        self.backend[by] = self.backend.get(by, 0) + n

    def no(self, name, detail=''):
        self.refuted.append((name, str(detail)[:3000]))

    def unk(self, name, detail=''):
        self.undecided.append((name, str(detail)[:3000]))

    def eq(self, name, a, b, pc=()):
        """obligation: term a == term b (lists of terms are compared elementwise)"""
        from dv import solver
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return self.no(name, 'lengths differ')
            if any(not hasattr(x, 'op') for x in a):
                return self.no(name, 'a pointer where data was expected: %r' % (a,))
            bad = 0
            for i, (x, y) in enumerate(zip(a, b)):
                if x is y:
                    self.ok(name)
                elif bad < 2:
                    n0 = len(self.undecided) + len(self.refuted)
                    self.eq('%s[%d]' % (name, i) if len(a) > 1 else name, x, y, pc)
                    bad += len(self.undecided) + len(self.refuted) - n0
            return
        if a is b:
            self.ok(name.split('[')[0])
            return
        try:
            r = solver.equal(a, b, pc, 20000 if not self.undecided else 3000)
        except Exception as e:
            r = 'unknown'
        if r == 'yes':
            self.ok(name.split('[')[0], by='z3')
        elif r == 'no':
            self.no(name, 'code: %r\nspec: %r' % (a, b))
        else:
            self.unk(name, 'solver gave no answer; code: %r  spec: %r' % (a, b))

    def cond(self, name, c, pc=()):
        from dv import solver, terms as tm
        if c is tm.TRUE:
            self.ok(name)
            return
        r = solver.valid(list(pc), c)
        if r is True:
            self.ok(name, by='z3')
        elif r is False:
            self.no(name, repr(c))
        else:
            self.unk(name, repr(c))

    def truth(self, name, b, detail='', by='ground evaluation'):
        if b:
            self.ok(name, by=by)
        else:
            self.no(name, detail)

    def absorb(self, ex, where):
        """memory-safety and other obligations raised by an executor"""
        res = ex.res
        for n, k in res.names.items():
            self.ok('%s: %s' % (where, n), k)
        for n, d in res.failed:
            self.no('%s: %s' % (where, n), d)
        for n, d in res.unknown:
            self.unk('%s: %s' % (where, n), d)
        for f, k in res.fns.items():
            self.fns[f] = self.fns.get(f, 0) + k
        res.names = {}
        res.failed = []
        res.unknown = []

    def assumption(self, *t):
        for x in t:
            if x not in self.assume:
                self.assume.append(x)

    def attempt(self, name, f, *a, **k):
        """run one part of the proof; anything outside the verifier's reach is undecided"""
        from dv.exec import Undecided, NeedCut
        t = time.time()
        try:
            r = f(*a, **k)
            self.log.append('%s: %.1fs' % (name, time.time() - t))
            return r
        except Undecided as e:
            self.unk(name, 'outside the verifier\'s reach: %s' % e)
        except NeedCut as e:
            self.unk(name, 'no invariant for loop %s' % (e.key,))
        except RecursionError:
            self.unk(name, 'term too deep')
        except Exception as e:
            self.unk(name, 'verifier error: %s' % traceback.format_exc()[-1500:])
        return None


    def parallel(self, tasks, limit=700, workers=8):
        """tasks: [(name, function of R)], each in a forked child; results are merged in order"""
        import pickle
        import signal
        from dv import solver
        from dv.terms import T
        todo = list(enumerate(tasks))
        live = {}
        res = {}
        t0 = time.time()
        while todo or live:
            while todo and len(live) < workers:
                k, (name, f) = todo.pop(0)
                path = os.path.join(self.tmp, 'par%d' % k)
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        W = Run.__new__(Run)
                        W.__dict__.update(self.__dict__)
                        W.obl, W.backend, W.refuted, W.undecided = {}, {}, [], []
                        W.fns, W.log, W.assume, W.contracts, W.bounded = {}, [], [], {}, []
                        for q in solver.STAT:
                            solver.STAT[q] = 0
                        W.attempt(name, f, W)
                        d = {q: getattr(W, q) for q in ('obl', 'backend', 'refuted', 'undecided', 'fns', 'log', 'assume', 'contracts', 'bounded')}
                        d['stat'] = dict(solver.STAT)
                        with open(path, 'wb') as fh:
                            pickle.dump(d, fh)
                        rc = 0
                    except BaseException:
                        try:
                            open(path + '.err', 'w').write(traceback.format_exc())
                        except Exception:
                            pass
                    os._exit(rc)
                live[pid] = (k, name, path)
            if time.time() - t0 > limit:
                for pid in live:
                    os.kill(pid, signal.SIGKILL)
            p, status = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                time.sleep(0.02)
                continue
            if p not in live:
                continue
            k, name, path = live.pop(p)
            if status == 0 and os.path.exists(path):
                res[k] = pickle.load(open(path, 'rb'))
            else:
                err = open(path + '.err').read()[-800:] if os.path.exists(path + '.err') else ('time limit' if time.time() - t0 > limit else 'ended with status %d' % status)
                res[k] = {'undecided': [(name, 'proof task: ' + err)]}
            if time.time() - t0 > limit:
                for j, (n2, f2) in todo:
                    res[j] = {'undecided': [(n2, 'proof task not started: time limit')]}
                todo = []
        for k in sorted(res):
            d = res[k]
            for q in ('obl', 'backend', 'fns'):
                m = getattr(self, q)
                for a, b in d.get(q, {}).items():
                    m[a] = m.get(a, 0) + b
            self.refuted.extend(d.get('refuted', []))
            self.undecided.extend(d.get('undecided', []))
            self.log.extend(d.get('log', []))
            self.bounded.extend(d.get('bounded', []))
            self.contracts.update(d.get('contracts', {}))
            self.assumption(*d.get('assume', []))
            for a, b in d.get('stat', {}).items():
                solver.STAT[a] = solver.STAT.get(a, 0) + b


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    try:
        return [e for e in json.load(open(p)) if e.get('property') == pid and e.get('status') == 'open']
    except FileNotFoundError:
        return []


def search(R, mod, mode, budget):
    """concrete runs of the real code in a child process; -> (result dict or None)"""
    out = os.path.join(R.tmp, 'search.json')
    cur = os.path.join(R.tmp, 'case.json')
    for p in (out, cur):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ)
    env['DV_TMP'] = R.tmp
    env['PYTHONPATH'] = ROOT
    asan = getattr(mod, 'ASAN', False)
    cmd = [PY, '-m', 'dv.searcher', R.pid, str(R.seed), str(budget), mode, out, cur]
    if asan:
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        env['LD_PRELOAD'] = lib
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
        env['DV_ASAN'] = '1'
    hard = budget * 2 + 60
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=hard, env=env, cwd=ROOT, errors='replace')
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'evals': 0}
    if os.path.exists(out):
        d = json.load(open(out))
        if d.get('status') in ('ok', 'violation', 'error'):
            return d
    case = None
    if os.path.exists(cur):
        try:
            case = json.load(open(cur))
        except Exception:
            case = open(cur).read()
    if case is not None and (r.returncode < 0 or r.returncode == 99):
        return {'status': 'violation', 'what': 'the process died (exit %d) while executing this case' % r.returncode, 'case': case,
                'sig': 'crash:%s' % (case.get('kind') if isinstance(case, dict) else ''), 'stderr': r.stderr[-3000:], 'evals': 0}
    return {'status': 'error', 'what': 'searcher ended with %d: %s' % (r.returncode, r.stderr[-2000:]), 'evals': 0}


def main(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    R = Run(pid, tier, seed)
    mod = importlib.import_module('props.' + pid)
    try:
        return _main(R, mod)
    finally:
        shutil.rmtree(R.tmp, True)


def _main(R, mod):
    from dv import solver
    pid = R.pid
    if hasattr(mod, 'prove'):
        R.attempt('proof', mod.prove, R)
    else:
        R.unk('proof', 'no proof yet: bounded check of the compiled code only')
    t_proof = time.time() - R.t0
    nproved = sum(R.obl.values())
    if nproved == 0 and not R.refuted and not R.undecided:
        R.unk('vacuity', 'no obligation was generated')
    decided = not R.refuted and not R.undecided
    sres = None
    if hasattr(mod, 'search'):
        if decided:
            budget = getattr(mod, 'QUICK_S', 15) if R.quick else getattr(mod, 'THOROUGH_S', 150)
            sres = search(R, mod, 'cross' if R.quick else 'deep', budget)
        else:
            sres = search(R, mod, 'deep', getattr(mod, 'DEEP_S', 150))
    kf = known_findings(pid)
    violations = []
    known = []

    def report(sig, what, replay, noinput):
        for e in kf:
            if e.get('sig') == sig:
                if e not in known:
                    known.append(e)
                return
        violations.append((sig, what, replay, noinput))
    outdir = os.environ.get('DV_EVID') or ROOT      # elsewhere only while trying seeded changes
    os.makedirs(os.path.join(outdir, 'replay'), exist_ok=True)
    rp = os.path.join(outdir, 'replay', pid + '.json')
    hits = []
    if sres and sres.get('hits'):
        hits = sres['hits']
    if sres and sres.get('status') == 'violation':
        hits = hits + [sres]
    for h in hits:
        report(h.get('sig') or h['what'], h['what'], h, False)
    if not [v for v in violations if not v[3]]:
        for n, d in R.refuted:
            report(n, 'obligation not discharged: %s' % n, {'obligation': n, 'verifier_output': d}, True)
    bnote = None
    if not violations and R.undecided and hasattr(mod, 'search'):
        bnote = 'bounded stand-in for the undecided parts: %s' % json.dumps({k: v for k, v in (sres or {}).items() if k in ('status', 'evals', 'rule')})
    level = mod.LEVEL if not R.undecided and not R.refuted else 'exploration'
    nob = nproved + len(R.refuted) + len(R.undecided)
    cov = {
        'obligations': nob, 'discharged': nproved,
        'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, R.tier),
        'trusted_base': R.trusted + list(getattr(mod, 'TRUSTED', [])),
        'obligation_groups': dict(sorted(R.obl.items())),
        'back_ends': R.backend,
        'functions_executed_under_contract_proof': dict(sorted(R.fns.items())),
        'contracts_used_at_call_sites': R.contracts,
        'z3_queries': solver.STAT['queries'], 'z3_seconds': round(solver.STAT['z3_s'], 2),
        'proof_seconds': round(t_proof, 2),
        'undecided': R.undecided, 'not_discharged': R.refuted,
        'bounded': R.bounded + ([bnote] if bnote else []),
        'log': R.log,
    }
    if sres is not None:
        cov['evaluations'] = int(sres.get('evals', 0))
        cov['distinct_nontrivial'] = int(sres.get('distinct', sres.get('evals', 0)))
        cov['rule'] = sres.get('rule', getattr(mod, 'RULE', 'concrete runs of the compiled engine against the executable form of the specification'))
        cov['samples'] = (sres.get('samples') or [])[:5]
        cov['cross_check'] = {k: v for k, v in sres.items() if k not in ('samples', 'hits')}
    ev = {'property': pid, 'tier': R.tier, 'seed': R.seed, 'level': level, 'coverage': cov,
          'assumptions': R.assume + list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - R.t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(outdir, 'evidence'), exist_ok=True)
    with open(os.path.join(outdir, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: obligations %d discharged %d refuted %d undecided %d; proof %.1fs; z3 %d queries %.1fs; cross-check %s (%s evaluations); %.1fs' % (
        pid, R.tier, nob, nproved, len(R.refuted), len(R.undecided), t_proof, solver.STAT['queries'], solver.STAT['z3_s'],
        sres.get('status') if sres else 'none', sres.get('evals') if sres else 0, time.time() - R.t0))
    for n, d in R.undecided[:6]:
        print('UNDECIDED %s: %s' % (n, d[:600]))
    if sres and sres.get('status') in ('error', 'timeout'):
        print('SEARCH %s: %s' % (sres['status'], str(sres.get('what'))[-800:]))
    for e in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, e.get('what')))
    if violations:
        with open(rp, 'w') as f:
            json.dump([{'what': w, 'replay': r, 'signature': s} for s, w, r, n in violations], f, indent=1, default=str)
        for s, w, r, n in violations[:8]:
            print('FAILED %s' % w[:500])
        ni = all(v[3] for v in violations)
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if ni else ''))
        return 1
    return 0
