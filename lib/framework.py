"""What all checks share: validation of traces by TLC, confirmation, evidence, verdict."""
import json
import os
import random
import re
import sys
import time

import vlib
from vlib import *


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random('%s-%d' % (pid, SEED))
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'evaluations': 0, 'distinct_nontrivial': 0, 'samples': []}
        self.assumptions = []
        self.viol = []
        self.parts = {}

    # ---------------------------------------------------------------- model checking
    def model(self, module, cfg, what, env=None, must=(), **kw):
        """Check a specification on its own.  A failure is an error of the machinery."""
        rc, out, st = tlc(module, cfg, env, **kw)
        if rc != 0 or any(m not in out for m in must):
            log(error_lines(out))
            log(out[-2500:])
            raise Machinery('%s: the specification fails its own check (%s), rc %s' % (module, what, rc))
        self.cov['states'] += st['states']
        self.cov['transitions'] += st['transitions']
        self.parts.setdefault('models', []).append(
            {'module': module, 'checked': what, 'states': st['states'], 'transitions': st['transitions'],
             'wall_s': round(st['wall'], 1)})
        log('%s: %s: %d states, %d transitions, %.1f s'
            % (module, what, st['states'], st['transitions'], st['wall']))
        return out, st

    # ---------------------------------------------------------------- trace validation
    def traces(self, module, cases, consts='', schemas=None, heap='8g', timeout=780, spec='TSpec', cfg=None):
        """Indices of the cases that the specification rejects."""
        if not cases:
            return []
        env = {'CASES': ndjson('cases-%s.ndjson' % module, cases)}
        if schemas is not None:
            env['SCHEMAS'] = ndjson('schemas-%s.ndjson' % module, schemas)
        rc, out, st = tlc(module, (cfg or '') + 'CONSTANTS\n%s\nSPECIFICATION %s\n' % (consts, spec)
                          if consts or cfg else 'SPECIFICATION %s\n' % spec, env, heap=heap, timeout=timeout)
        if rc != 0:
            log(error_lines(out))
            log(out[-2500:])
            raise Machinery('%s: TLC failed on the traces, rc %s' % (module, rc))
        acc = accepted(out)
        self.cov['states'] += st['states']
        self.cov['transitions'] += st['transitions']
        self.last = st
        return [i for i in range(len(cases)) if i + 1 not in acc]

    def rejected(self, module, cases, cfg, heap='8g', timeout=780):
        """Indices of the cases for which a specification that explores every case finds a difference."""
        if not cases:
            return []
        rc, out, st = tlc(module, cfg, {'CASES': ndjson('cases-%s.ndjson' % module, cases)}, heap=heap, timeout=timeout)
        if rc != 0:
            log(error_lines(out))
            log(out[-2500:])
            raise Machinery('%s: TLC failed on the cases, rc %s' % (module, rc))
        self.cov['states'] += st['states']
        self.cov['transitions'] += st['transitions']
        self.last = st
        if st.get('init', len(cases)) < len(cases):
            raise Machinery('%s: TLC left out some cases' % module)
        return sorted({int(x) - 1 for x in re.findall(r'<<"REJECT", (\d+)>>', out)})

    def shortest(self, module, case, cfg):
        """TLC's shortest run to the difference."""
        rc, out, st = tlc(module, cfg + 'INVARIANT Explains\n', {'CASES': ndjson('one.ndjson', [case])}, workers=1, timeout=120)
        i = out.find('\nState 1')
        return out[i:i + 4000] if i >= 0 else ''

    def explain(self, module, case, consts='', schemas=None):
        """TLC's account of where a rejected case parts from the specification."""
        env = {'CASES': ndjson('one.ndjson', [case])}
        if schemas is not None:
            env['SCHEMAS'] = ndjson('oneschemas.ndjson', schemas)
        rc, out, st = tlc(module, ('CONSTANTS\n%s\n' % consts if consts else '') +
                          'SPECIFICATION TSpec\nINVARIANT Explains\n', env, workers=1, timeout=120)
        i = out.rfind('\nState ')
        return out[i:i + 3000] if i >= 0 else ''

    def validated(self, n, distinct, samples):
        self.cov['traces_validated_against_impl'] += n
        self.cov['evaluations'] += n
        self.cov['distinct_nontrivial'] += distinct
        self.cov['samples'] += samples[:max(0, 4 - len(self.cov['samples']))]

    # ---------------------------------------------------------------- verdict
    def violation(self, what, replay):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', '%s-replay-%d.json' % (self.pid, len(self.viol) + 1))
        replay = dict(replay)
        replay.update({'property': self.pid, 'what': what})
        with open(p, 'w') as f:
            json.dump(replay, f, indent=1, default=str)
        self.viol.append((what, p))
        log('VIOLATION property=%s replay=%s' % (self.pid, p))
        log('  ' + what[:600])

    def finish(self):
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': dict(self.cov), 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}
        ev['coverage'].update(self.parts)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        log('%s: %d traces validated, %d states, %.1f s: %s'
            % (self.pid, self.cov['traces_validated_against_impl'], self.cov['states'],
               time.time() - self.t0, 'VIOLATED' if self.viol else 'held'))
        return 1 if self.viol else 0


class Machinery(Exception):
    pass
