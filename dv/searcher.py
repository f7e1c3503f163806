"""child process: runs a property's concrete search against the freshly compiled real code"""
import importlib
import json
import os
import random
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, what, case, sig=None):
        self.what = what
        self.case = case
        self.sig = sig


class Search:
    def __init__(self, pid, seed, budget, mode, out, cur):
        self.pid = pid
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.t0 = time.time()
        self.budget = budget
        self.mode = mode
        self.deep = mode == 'deep'
        self.out = out
        self.cur = cur
        self.evals = 0
        self.seen = set()
        self.samples = []
        self.hits = []
        self.rule = None
        self.lib = None
        self.f = open(cur, 'w')
        self.known = set()

    def left(self):
        return self.budget - (time.time() - self.t0)

    def more(self):
        return self.left() > 0

    def bytes(self, n):
        return self.rng.randbytes(n)

    def case(self, **k):
        """record the case about to be executed (survives a crash of this process)"""
        self.evals += 1
        s = json.dumps(k, default=lambda b: b.hex() if isinstance(b, (bytes, bytearray)) else str(b))
        self.seen.add(hash(s))
        if len(self.samples) < 3 or (len(self.samples) < 6 and self.evals % 50 == 0):
            self.samples.append(s[:300])
        self.f.seek(0)
        self.f.write(s)
        self.f.truncate()
        self.f.flush()
        self.last = json.loads(s)

    def fail(self, what, sig=None, **k):
        c = dict(self.last)
        c.update({a: (b.hex() if isinstance(b, (bytes, bytearray)) else b) for a, b in k.items()})
        h = {'status': 'violation', 'what': what, 'case': c, 'sig': sig or what}
        if h['sig'] in self.known:
            if not any(x['sig'] == h['sig'] for x in self.hits):
                self.hits.append(h)
            return
        raise Violation(what, c, sig or what)

    def expect(self, got, want, what, **k):
        if got != want:
            self.fail(what, got=got if isinstance(got, (bytes, bytearray)) else repr(got), want=want if isinstance(want, (bytes, bytearray)) else repr(want), **k)


def main():
    pid, seed, budget, mode, out, cur = sys.argv[1:7]
    from dv import run
    S = Search(pid, int(seed), float(budget), mode, out, cur)
    S.known = {e.get('sig') for e in run.known_findings(pid)}
    d = {}
    try:
        mod = importlib.import_module('props.' + pid)
        if getattr(mod, 'NEEDS_LIB', True):
            from dv import real
            so = real.build(os.path.join(os.environ.get('DV_TMP', '/tmp'), 'real'), asan=bool(os.environ.get('DV_ASAN')))
            S.lib = real.Lib(so)
            S.so = so
        S.t0 = time.time()
        mod.search(S)
        d = {'status': 'ok'}
    except Violation as e:
        d = {'status': 'violation', 'what': e.what, 'case': e.case, 'sig': e.sig}
    except Exception as e:
        d = {'status': 'error', 'what': traceback.format_exc()[-3000:]}
    d.update(evals=S.evals, distinct=len(S.seen), samples=S.samples, rule=S.rule, hits=S.hits, seconds=round(time.time() - S.t0, 1))
    with open(out, 'w') as f:
        json.dump(d, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
