"""C12: copies of events (Copies.tla, MCCopies.tla, CopyTrace.tla)."""
import copy as cpy

from logcheck import *

SHOWN = ['ts', 'toks', 'same', 'str', 'lt', 'ml', 'vars']
SLOTS = ['a', 'b', 'c', 'd']


class History:
    def __init__(self, sc, sizes, kind, ops):
        self.sc, self.sizes, self.kind, self.ops = sc, sizes, kind, ops
        self.slot = '%s_%d_%d_%d' % ((kind, sc) + sizes)

    def key(self):
        return (self.kind, self.sc, self.sizes)

    def preset(self, schs):
        return 'sizes %d %d\n%s%s.new %s s%s\n' % (self.sizes + (schs[self.sc].script('s' + self.slot),
                                                                self.kind, self.slot, self.slot))

    def commands(self):
        c = ['sizes %d %d' % self.sizes] + ['drop %s' % s for s in SLOTS]
        for op in self.ops:
            if op[0] == 'input':
                h = op[1].hex() or '-'
                if self.kind == 'rp':
                    c.append('rp.set %s %s %s' % (self.slot, h, op[2]))
                else:
                    c += ['bp.reset ' + self.slot, 'bp.buf %s %s' % (self.slot, h)]
                    self_off = len(op[1])
            elif op[0] == 'parse':
                c.append('rp.some %s 1' % self.slot if self.kind == 'rp' else 'bp.step %s' % self.slot)
            elif op[0] == 'copy':
                c.append('%s.copy %s %s' % (self.kind, self.slot, op[1]))
            elif op[0] == 'copycopy':
                c.append('copycopy %s %s' % (op[1], op[2]))
            elif op[0] == 'move':
                c.append('movecopy %s %s' % (op[1], op[2]))
            else:
                c.append('%s %s' % (op[0], op[1]))
        return c

    def lines(self, recs):
        """The history as CopyTrace reads it."""
        recs = [o for o in recs if o['ev'] not in ('end',)]
        end = 'end'
        out = []
        it = iter(recs)
        none = False  # the view shows nothing to rely on
        try:
            for op in self.ops:
                if op[0] == 'drop':
                    out.append({'op': 'drop', 's': op[1], 't': '', 'v': {}})
                    continue
                o = next(it)
                if o['ev'] in ('crash', 'skipped', 'escaped', 'throw'):
                    return out, o['ev']
                val = {f: o[f] for f in SHOWN if f in o}
                if op[0] == 'input':
                    none = True
                    out.append({'op': 'forget', 's': '', 't': '', 'v': {}})
                elif op[0] == 'parse':
                    none = o.get('rc') != 'Success'
                    out.append({'op': 'forget' if none else 'parse', 's': '', 't': '', 'v': val})
                elif o['ev'] == 'nosuch':
                    out.append({'op': 'drop', 's': op[1], 't': '', 'v': {}})
                    if op[0] == 'copycopy':
                        pass
                elif op[0] == 'copy':
                    if none:  # not looked at
                        out.append({'op': 'drop', 's': op[1], 't': '', 'v': {}})
                    else:
                        out.append({'op': 'copy' if o.get('ok') else 'nocopy', 's': op[1], 't': '', 'v': val})
                elif op[0] == 'copycopy':
                    out.append({'op': 'copycopy', 's': op[1], 't': op[2], 'v': val if o.get('ok') else {}})
                elif op[0] == 'move':
                    out.append({'op': 'move', 's': op[1], 't': op[2], 'v': {}})
                elif op[0] == 'show':
                    out.append({'op': 'show', 's': op[1], 't': '', 'v': val})
            rest = list(it)
            if rest:
                end = rest[0]['ev']
        except StopIteration:
            end = 'incomplete'
        return out, end

    def describe(self, schs):
        return {'schema': schs[self.sc].text(), 'parser': self.kind, 'buffer_sizes': self.sizes,
                'ops': [[x.decode('latin1')[:300] if isinstance(x, bytes) else x for x in op] for op in self.ops],
                'commands': [x[:2000] for x in self.commands()]}


def random_ops(rng, text, n, with_input=True):
    ops = [('input', text(), rand_plan(rng))]
    full = set()
    parsed = False
    for _ in range(n):
        k = rng.random()
        if k < .4:
            ops.append(('parse',))
            parsed = True
        elif k < .6 and parsed:
            s = rng.choice(SLOTS)
            ops.append(('copy', s))
            full.add(s)
        elif k < .7 and full:
            s, t = rng.choice(sorted(full)), rng.choice(SLOTS)
            ops.append(('copycopy', s, t))
            full.add(t)
        elif k < .77 and full:
            s, t = rng.choice(sorted(full)), rng.choice(SLOTS)
            ops.append(('move', s, t))
            full.discard(s)
            full.add(t)
        elif k < .92 and full:
            ops.append(('show', rng.choice(sorted(full))))
        elif k < .96 and full:
            s = rng.choice(sorted(full))
            ops.append(('drop', s))
            full.discard(s)
        elif k >= .96 and with_input:
            ops.append(('input', text(), rand_plan(rng)))
            parsed = False
    return ops + [('show', s) for s in sorted(full)]


@guard
def main():
    r = random.Random('C12-%d' % SEED)
    schs = standard_schemas(r, 60 if THOROUGH else 20)
    ck = LogCheck('C12', schs, ('RP', 'BP'))
    slots = '{"a", "b"}'
    cfg = 'CONSTANTS\nSlots = %s\nBytes = {1, 2}\nN = %d\nOwn = %s\nSPECIFICATION Spec\nPROPERTIES Independent%s\n'
    ck.model('MCCopies', cfg % (slots, 3 if THOROUGH else 2, 'TRUE', ''), 'copies with storage of their own')
    ck.model('MCCopies', cfg % ('{"a"}', 2, 'TRUE', ' Refines'), 'refines Copies')
    rc, out, st = tlc('MCCopies', cfg % (slots, 2, 'FALSE', ''))
    if rc == 0:
        raise Machinery('MCCopies does not notice copies that share storage')
    hs = []

    def text(sc, n):
        if ck.rng.random() < .04:
            return long_text(schs[sc], ck.rng)
        return nosof(log_text(schs[sc], ck.rng, ck.rng.randint(2, n)))

    for _ in range(12000 if THOROUGH else 1500):
        sc = ck.rng.randrange(len(schs))
        kind = ck.rng.choice(['rp', 'rp', 'bp'])
        sizes = (0, ck.rng.choice((0, 4, 5, 8))) if kind == 'bp' else rand_sizes(ck.rng)
        hs.append(History(sc, sizes, kind, random_ops(ck.rng, lambda: text(sc, 30), ck.rng.randint(4, 40))))
    # every event of a text is copied at once, all is shown after the parser went on
    for sc in range(len(schs)):
        for sizes in (DEF, (4, 4), (16, 5)):
            w = text(sc, 20)
            ops = [('input', w, '-1')]
            for s in SLOTS:
                ops += [('parse',), ('copy', s)]
            ops += [('parse',)] * 3 + [('show', s) for s in SLOTS]
            ops += [('input', text(sc, 20), '1,2,3'), ('parse',), ('parse',)] + [('show', s) for s in SLOTS]
            ops += [('copycopy', 'a', 'b'), ('drop', 'a'), ('copycopy', 'b', 'a'), ('show', 'a'), ('parse',), ('show', 'b')]
            ops += [('move', 'b', 'd'), ('drop', 'a'), ('parse',), ('show', 'd'), ('show', 'c')]
            hs.append(History(sc, sizes, 'rp', ops))
    # long events: the buffers as shipped have to grow, and wrap around under the copies
    sc = 2
    for w in (b'ab 1\n' + b' x' * 25000 + b' 12\n' + b'zz 7 ab\n' * 9000, b' 7' * (30000 if THOROUGH else 1000) + b'\n ab 1\n' + b'q w 1\n' * 9000):
        ops = [('input', w, '-1'), ('parse',), ('copy', 'a'), ('parse',), ('copy', 'b'), ('parse',), ('copy', 'c')]
        ops += [('parse',)] * 60 + [('show', 'a'), ('show', 'b'), ('copycopy', 'b', 'd'), ('show', 'd'), ('drop', 'b'), ('show', 'd'), ('move', 'a', 'b'), ('move', 'b', 'a')]
        ops += [('input', b'y' * 97000 + b'\n', '-1'), ('parse',), ('show', 'a'), ('show', 'd'), ('show', 'c')]
        hs.append(History(sc, DEF, 'rp', ops))

    def observe(hs):
        presets, cases = {}, []
        for n, h in enumerate(hs):
            presets.setdefault(h.key(), h.preset(schs))
            cases.append((str(n), (h.key(),), h.commands()))
        res = run_harness(ck.exe, cases, presets)
        out = []
        for n, h in enumerate(hs):
            ls, end = h.lines(res[str(n)])
            out.append({'lines': ls, 'end': end})
        return out

    cases = observe(hs)
    mut = []
    for c in ck.rng.sample(cases[:-2], 150):
        d = cpy.deepcopy(c)
        at = [x for x in d['lines'] if x['op'] in ('show', 'copy', 'copycopy') and x['v'].get('toks')]
        if not at:
            continue
        v = ck.rng.choice(at)['v']
        f = ck.rng.choice(['toks', 'str', 'ml', 'vars', 'lt', 'ts'])
        if f == 'toks':
            v['toks'][-1]['ty'] = v['toks'][-1]['ty'] + ['x']
        elif f == 'ml':
            v['ml'] = not v['ml']
        elif f == 'vars':
            v['vars'][0]['o'].append([1])
        elif f == 'ts':
            v['ts'] = [] if v['ts'] else [[1]]
        else:
            v[f] = v[f] + [7]
        mut.append(d)
    t = time.time()
    rej = ck.traces('CopyTrace', cases + mut)
    bad = [i for i in rej if i < len(cases)]
    log('CopyTrace: TLC judged %d histories (%d corrupted copies) in %.1f s: %d rejected'
        % (len(cases), len(mut), time.time() - t, len(bad)))
    if len(rej) - len(bad) < len(mut):
        raise Machinery('CopyTrace accepts a corrupted trace')
    ck.parts['corrupted_traces_rejected'] = len(mut)
    ck.validated(len(hs), len({json.dumps(h.describe(schs)) for h in hs}), [hs[5].describe(schs)])
    n = 0
    for i in sorted(bad, key=lambda i: len(hs[i].ops))[:8]:
        c = observe([hs[i]])[0]
        if n < 3 and ck.traces('CopyTrace', [c]):
            d = hs[i].describe(schs)
            d.update({'observed': c, 'tlc': ck.explain('CopyTrace', c)})
            ck.violation('a copy of an event does not show what its source showed, or does not keep it (ended with: %s)'
                         % c['end'], d)
            n += 1
    if bad and not n:
        raise Machinery('rejected histories were accepted when run again')
    return ck
