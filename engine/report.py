"""Obligation bookkeeping, evidence file and exit status of one check."""
import os, json, time, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ['rustc nightly front end and MIR construction (rustc_public)', 'the MIR driver /verif/driver/main.rs',
           'the abstract interpreter and std-API models in /verif/engine', 'no object exceeds 2^48 bytes']


class Report:
    def __init__(self, pid, tier='quick', level='proof'):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.t0 = time.time()
        self.obl = {}          # rule -> [total, discharged]
        self.viol = {}         # key -> text
        self.samples = {}
        self.analysed = {}
        self.notes = []
        self.assumptions = []
        self.known = load_known()

    def ob(self, rule, ok, key=None, text='', sample=None):
        """one obligation; key identifies the construct without line numbers"""
        t = self.obl.setdefault(rule, [0, 0])
        t[0] += 1
        if ok:
            t[1] += 1
        else:
            k = '%s: %s' % (rule, key or '')
            if k not in self.viol:
                self.viol[k] = text
        if sample is not None and len(self.samples.setdefault(rule, [])) < 3:
            self.samples[rule].append(sample if isinstance(sample, str) else repr(sample))
        return ok

    def fail(self, rule, key, text=''):
        return self.ob(rule, False, key, text)

    def floor(self, rule, n):
        got = self.obl.get(rule, [0, 0])[0]
        if got < n:
            self.viol['floor: %s' % rule] = 'only %d instances of rule %s were found, at least %d expected' % (got, rule, n)

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def finish(self):
        E = os.environ.get('VP_EVID') or os.path.join(V, 'evidence')
        os.makedirs(E, exist_ok=True)
        new, old = [], []
        for k, t in self.viol.items():
            (old if (self.pid, k) in self.known else new).append((k, t))
        tot = sum(a for a, b in self.obl.values())
        dis = sum(b for a, b in self.obl.values())
        if tot == 0 and not new:
            new.append(('nothing analysed', 'no obligation was generated'))
        cov = {'obligations': tot, 'discharged': dis,
               'checker_cmd': 'python3 check.py %s' % self.pid,
               'trusted_base': TRUSTED,
               'rules': {r: {'instances': a, 'discharged': b} for r, (a, b) in sorted(self.obl.items())},
               'analysed': self.analysed,
               'samples': [('%s: %s' % (r, x)) for r, v in self.samples.items() for x in v][:40],
               'explanation': 'static analysis of the MIR of the current tree; each rule instance is one obligation'}
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(E, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, t in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        rp = os.path.join(E, self.pid + '.violations.txt')
        if new:
            with open(rp, 'w') as f:
                for k, t in new:
                    f.write('%s\n    %s\n' % (k, str(t).replace('\n', '\n    ')))
            for k, t in new[:10]:
                print('  [%s] %s\n      %s' % (self.pid, k, str(t).replace('\n', '\n      ')[:1500]))
            if len(new) > 10:
                print('  ... %d more' % (len(new) - 10))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print('OK property=%s obligations=%d discharged=%d wall=%.1fs' % (self.pid, tot, dis, time.time() - self.t0))
        return 0


def load_known():
    out = set()
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('open: property='):
                pid, key = l[len('open: property='):].split(' ', 1)
                out.add((pid, key))
    return out
