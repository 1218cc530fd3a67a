"""Common part of checks: context, evidence, verdicts."""
import json
import os
import random
import sys
import time

import lab
import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.r = random.Random('%s-%s' % (pid, seed))
        self.lab = lab.Lab(pid)
        self.root = self.lab.root
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], modelchecked=[], evaluations=0,
                        unspecified=0, corrupted_traces_rejected=0)
        self.assumptions = []

    def note(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # --- exhaustive model checking of the specification
    def modelcheck(self, module, config, timeout=850, workers=8):
        m = tlc.modelcheck(self.root, module, config, timeout=timeout, workers=workers)
        if not m['ok']:
            raise tlc.MachineryError('model checking of %s %s failed\n%s' % (module, config, m['output']))
        self.note('TLC %s %s: %d distinct states' % (module, config, m['states']))
        self.cov['states'] += m['states']
        self.cov['transitions'] += m['transitions']
        self.cov['modelchecked'].append(dict(module=module, config=config, distinct_states=m['states'], initial_states=m['inits']))

    # --- expected to fail: shows that a specification without the mechanism breaks the invariant
    def mustfail(self, module, config, invariant):
        m = tlc.modelcheck(self.root, module, config)
        if m['ok'] or not any(invariant in x for x in m['broken']):
            raise tlc.MachineryError('%s %s was expected to violate %s\n%s' % (module, config, invariant, m['output']))
        self.note('TLC %s %s: %s violated, as expected' % (module, config, invariant))
        self.cov['modelchecked'].append(dict(module=module, config=config, expected_violation=invariant))

    def validate(self, module, records, config=None):
        v, st = tlc.validate(self.root, module, records, config=config)
        self.cov['states'] += st['states']
        self.cov['transitions'] += st['transitions']
        return v

    def violation(self, clauses, detail):
        if self.known_finding(detail):
            return
        self.violations.append((clauses, detail))

    def known_finding(self, detail):
        kid = detail.get('known')
        if not kid:
            return False
        for k in load_known():
            if k.get('status') == 'open' and k['property'] == self.pid and k['id'] == kid:
                if k not in self.known:
                    self.known.append(k)
                return True
        return False

    def sample(self, x, n=5):
        if len(self.cov['samples']) < n:
            self.cov['samples'].append(x)

    def finish(self):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        for x in os.listdir(os.path.join(ev, 'replay')):
            if x.startswith(self.pid + '-'):
                os.unlink(os.path.join(ev, 'replay', x))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for i, (clauses, detail) in enumerate(self.violations[:12]):
            path = os.path.join(ev, 'replay', '%s-%d.json' % (self.pid, i + 1))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, clauses=clauses, detail=detail), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('   clauses: %s  %s' % (clauses, json.dumps(detail, default=str)[:1500]))
        out = dict(property=self.pid, tier='quick' if self.quick else 'thorough', seed=self.seed, level='model_checking', coverage=self.cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(out, f, indent=1, default=str)
        self.lab.close()
        self.note('%d violations; %s' % (len(self.violations), {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0


def load_known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)['findings']
