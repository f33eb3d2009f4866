"""Checks over histories of operations on one of the library's data structures."""
import copy
import itertools

from framework import *


class History:
    """Commands for the harness, and how its records become a case."""

    def __init__(self, commands, case):
        self.commands, self.case = commands, case

    def key(self):
        return repr(self.commands)


class HistoryCheck(Check):
    def __init__(self, pid, parts):
        super().__init__(pid)
        self.exe = build(parts)

    def observe(self, items):
        res = run_harness(self.exe, [(str(i), (), it.commands) for i, it in enumerate(items)], chunk=None)
        return [it.case(res[str(i)]) for i, it in enumerate(items)]

    def histories(self, module, items, what, spoil, consts='', nspoil=100, batch=15000):
        """Run the histories on the real code, let TLC judge them; spoil(case, rng) changes one observation."""
        bad = []
        t = time.time()
        cases = self.observe(items)
        for a in range(0, len(cases), batch):
            cs = cases[a:a + batch]
            mut = []
            for i in self.rng.sample(range(len(cs)), min(nspoil, len(cs))):
                d = spoil(copy.deepcopy(cs[i]), self.rng)
                if d is not None:
                    mut.append((i, d))
            rej = set(self.traces(module, cs + [d for _, d in mut], consts))
            for j, (i, d) in enumerate(mut):
                if len(cs) + j not in rej and i not in rej:
                    log(json.dumps(d)[:2000])
                    raise Machinery('%s accepts a corrupted history' % module)
            self.parts['corrupted_traces_rejected'] = self.parts.get('corrupted_traces_rejected', 0) + len(mut)
            bad += [a + i for i in rej if i < len(cs)]
        ops = sum(len(it.commands) for it in items)
        log('%s: %s: %d histories with %d operations in %.1f s, %d rejected' % (module, what, len(items), ops, time.time() - t, len(bad)))
        self.parts.setdefault('histories', []).append({'what': what, 'histories': len(items), 'operations': ops})
        self.validated(len(items), len({it.key() for it in items}), [{'history': items[len(items) // 2].commands[:12]}])
        n = 0
        for i in sorted(bad, key=lambda i: len(items[i].key()))[:6]:
            c = self.observe([items[i]])[0]
            if n < 3 and self.traces(module, [c], consts):
                self.violation('%s: the history %s is not one of the specification (ended with: %s)'
                               % (what, '; '.join(x[:60] for x in items[i].commands[:25]), c['end']),
                               {'commands': items[i].commands, 'observed': c, 'tlc': self.explain(module, c, consts)})
                n += 1
        if bad and not n:
            raise Machinery('rejected once but accepted when run again')
