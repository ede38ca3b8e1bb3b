"""Verdict collection, evidence files, VIOLATION / KNOWN-FINDING lines."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.done = []          # obligations discharged: (rule, instance, how)
        self.undecided = []     # (rule, instance, why)
        self.info = {}
        self.assume = []

    def ok(self, rule, inst, how=''):
        self.done.append((rule, inst, how))

    def bad(self, rule, inst, text):
        self.viol.append(('%s | %s' % (rule, inst), text))

    def unk(self, rule, inst, why):
        self.undecided.append((rule, inst, why))

    def finish(self, level='other', floor=1):
        if len(self.done) + len(self.viol) + len(self.undecided) < floor:
            self.bad('coverage-floor', self.pid, 'only %d rule instances found on this tree, %d expected: an anchor of the property is gone'
                     % (len(self.done) + len(self.viol) + len(self.undecided), floor))
        kf = known()
        out, listed = [], []
        for k, t in self.viol:
            if (self.pid, k) in kf:
                listed.append((k, t))
            else:
                out.append((k, t))
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        n = len(self.done) + len(self.viol) + len(self.undecided)
        expl = ('%d obligations: %d discharged, %d violated, %d not decided by the analysis (no alarm is raised for those). '
                % (n, len(self.done), len(self.viol), len(self.undecided)))
        cov = {'explanation': expl + self.info.get('explanation', ''),
               'obligations': n, 'discharged': len(self.done),
               'rules': sorted({r for r, _, _ in self.done}),
               'instances': [{'rule': r, 'instance': i, 'how': h} for r, i, h in self.done][:400],
               'undecided': [{'rule': r, 'instance': i, 'why': str(w)[:400]} for r, i, w in self.undecided][:200]}
        for k, v in self.info.items():
            if k != 'explanation':
                cov[k] = v
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 3),
              'assumptions': self.assume,
              'violations': [{'key': k, 'text': t} for k, t in out]}
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(evd, self.pid + '.violation.txt')
        if os.path.exists(rp):
            os.remove(rp)
        print('%s: %s' % (self.pid, expl))
        for r, i, w in self.undecided:
            print('  undecided: %s | %s: %s' % (r, i, str(w)[:200]))
        for k, t in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if out:
            with open(rp, 'w') as f:
                for k, t in out:
                    f.write('%s\n    %s\n' % (k, t))
            for k, t in out:
                print('  %s\n      %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def known():
    """known-findings.txt: lines `known: property=<id> <exact key>`; `fixed:` lines suppress nothing"""
    out = set()
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: property='):
                pid, _, key = ln[len('known: property='):].strip().partition(' ')
                out.add((pid, key))
    return out
