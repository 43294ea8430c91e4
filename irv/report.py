"""Outcome of one check: evidence file, VIOLATION / KNOWN-FINDING lines, exit code."""
import json, os, sys, time
from . import build
HERE = build.HERE
TRUST = ['clang 18 front end and the opt passes sroa, early-cse, instsimplify, simplifycfg (source -> LLVM IR)',
         'irv (this verifier: LLVM IR parser, symbolic execution, contract checker; Python, /verif/irv)', 'z3 5.x (python wheel) as decision procedure',
         'the C++ standard library and libc as installed; x86-64 object layout']

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time(); self.viol = []; self.known = []; self.obl = 0; self.dis = 0; self.errors = []; self.undecided = []
        self.cov = {}; self.assumptions = []; self.trusted = list(TRUST); self.funcs = set(); self.solver_s = 0.0; self.queries = 0; self.groups = {}
        self.kf = load_known()
        self.failed = []; self.nreplay = 0; self.level = 'proof'
    def count(self, group, n, d):
        self.obl += n; self.dis += d
        g = self.groups.setdefault(group, [0, 0]); g[0] += n; g[1] += d
    def is_known(self, key):
        for e in self.kf:
            if e.get('kind') == 'known' and e['property'] == self.pid and key.startswith(e['match']):
                if e not in self.known: self.known.append(e)
                return True
        return False
    def violation(self, key, what, data, found=True):
        """key identifies the failing input, call site or obligation"""
        if self.is_known(key): return
        d = os.path.join(HERE, '.cache', 'replay'); os.makedirs(d, exist_ok=True)
        self.nreplay += 1
        f = os.path.join(d, '%s-%d.json' % (self.pid, self.nreplay))
        with open(f, 'w') as o: json.dump({'property': self.pid, 'key': key, 'what': what, 'failing_input_found': found, 'detail': data}, o, indent=1, default=str)
        self.viol.append((key, what, f, found))
    def error(self, what): self.errors.append(what)
    def finish(self):
        wall = time.time() - self.t0
        if not self.obl: self.errors.append('no obligations were generated')
        cov = {'obligations': self.obl, 'discharged': self.dis, 'checker_cmd': 'python3-vt checks/run.py %s %s' % (self.pid, self.tier), 'trusted_base': self.trusted,
               'backend': 'z3 (python API), all obligations', 'solver_s': round(self.solver_s, 1), 'solver_queries': self.queries,
               'by_group': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(self.groups.items())},
               'functions_under_contract_or_inlined': sorted(self.funcs)[:400], 'functions': len(self.funcs), 'undecided': self.undecided[:50]}
        cov.update(self.cov)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 1), 'violations': len(self.viol)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        for e in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        seen = 0
        order = sorted(self.viol, key=lambda x: not x[3])
        for key, what, f, found in order[:25]:
            print('  %s: %s' % (key, what[:300]))
            print('VIOLATION property=%s replay=%s%s' % (self.pid, f, '' if found else ' no-failing-input-found'))
        for u in self.undecided[:20]: print('  undecided (bounded stand-in found no mismatch): %s' % u)
        print('%s %s: %d obligations, %d discharged, %d violations, %d undecided, %.1f s' % (self.pid, self.tier, self.obl, self.dis, len(self.viol), len(self.undecided), wall))
        if self.viol: sys.stdout.flush(); return 1
        if self.errors:
            for e in self.errors[:20]: print('ERROR: ' + e[:1500])
            sys.stdout.flush(); return 2
        return 0

def load_known():
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f): return []
    return json.load(open(f))['findings']
