"""C23: reading ahead and memory are bounded by the size of the events (ReadAhead.tla, RingParser.tla)."""
from logcheck import *
import mc

SLACK = 20000


class Drain:
    def __init__(self, sc, parts, first=0, most=10**9, kind='rp'):
        self.sc, self.parts, self.first, self.most, self.kind = sc, parts, first, most, kind
        self.size = sum(len(u) * n for u, n in parts)
        self.slot = '%s_%d_%d' % (kind, sc, first)

    def sizes(self):
        return 'sizes %d %d' % (self.first, 0 if not self.first else max(4, self.first))

    def preset(self, schs):
        return '%s\n%s%s.new %s s%s\n' % (self.sizes(), schs[self.sc].script('s' + self.slot), self.kind, self.slot, self.slot)

    def commands(self):
        # an odd number of events between reports, some 60 reports
        n = sum(u.count(b'\n') * t for u, t in self.parts)
        every = max(1, n // 60) | 1
        if self.kind == 'bp':
            return [self.sizes(), 'bp.drain %s %s %d %d' % (self.slot, self.parts[0][0].hex(), self.parts[0][1], every)]
        return [self.sizes(),
                'rp.parts %s %d %s' % (self.slot, self.most, ' '.join('%s:%d' % (u.hex(), n) for u, n in self.parts)),
                'rp.drain %s %d' % (self.slot, every)]

    def describe(self, schs):
        return {'schema': schs[self.sc].text(), 'parser': self.kind, 'first_buffer_size': self.first or 48000,
                'reads_at_most': self.most, 'input': [[repr(u)[:200], n] for u, n in self.parts],
                'commands': [x[:3000] for x in self.commands()]}


def observe(ck, ds):
    presets, cases = {}, []
    for n, d in enumerate(ds):
        # each in a process of its own part of the heap is not needed: only growth counts
        presets[d.slot] = d.preset(ck.schs)
        cases.append((str(n), (d.slot,), d.commands()))
    res = run_harness(ck.exe, cases, presets, limit=60, chunk=1)
    out = []
    for n, d in enumerate(ds):
        recs = [o for o in res[str(n)] if o['ev'] == 'drain']
        end = res[str(n)][-1]['ev']
        half = d.size // 2
        out.append({'first': d.first or 48000, 'size': d.size, 'end': end,
                    'recs': [{f: o[f] for f in ('rc', 'out', 'longest', 'ahead', 'ask', 'mem', 'done')}
                             | {'warm': o['out'] <= half} for o in recs]})
    return out


@guard
def main():
    schs = realistic() + small() + [random_schema(random.Random('C23-%d' % SEED)) for _ in range(6)]
    ck = LogCheck('C23', schs, ('RP', 'BP'))
    if THOROUGH:
        mc.ring(ck, 'bounded buffer', 6, initial=2)
        mc.ring(ck, 'bounded buffer', 7, initial=4, chunks=(9,))
    else:
        mc.ring(ck, 'bounded buffer', 5, initial=4, chunks=(9,))
    ds = []
    nofit = 0
    for sc in range(len(schs)):
        for first in ((4, 64, 0) if not THOROUGH else (2, 4, 10, 64, 500, 0)):
            for m in range(1 if not THOROUGH else 4):
                u = b''
                while u.count(b'\n') < 6 and len(u) < 4000:
                    u += nosof(log_text(schs[sc], ck.rng, 12)) + b'\n'
                total = 400000 if first == 0 else 60000 * (4 if THOROUGH else 1)
                ds.append(Drain(sc, [(u, total // len(u) + 1)], first, ck.rng.choice((7, 1000, 10**9))))
    for sc in (0, 2, len(realistic()), len(realistic()) + 1):
        u = nosof(log_text(schs[sc], ck.rng, 20)) + b'\n'
        # a long event early on (the buffer grows once), small ones; tiny events; one byte events
        ds.append(Drain(sc, [(u, 50), (b'xy ' * 3000 + b'\n', 2), (u, 4000)], 16))
        ds.append(Drain(sc, [(b'\n', 40000)], 4))
        ds.append(Drain(sc, [(b'\n', 200000)], 0))
        ds.append(Drain(sc, [(b'a1 2 x\n', 20000)], 4))
        ds.append(Drain(sc, [(u, 60000 // len(u) + 1)], 0, kind='bp'))
        ds.append(Drain(sc, [(u, 3000), (b'q ' * 20000 + b'\n', 1)], 8))
    cases = observe(ck, ds)
    con = 'Slack = %d' % SLACK
    mut = []
    for c in cases:
        d = json.loads(json.dumps(c))
        if len(d['recs']) < 8:
            continue
        r = d['recs'][-3]
        k = len(mut) % 3
        if k == 0:
            r['mem'] += 5000000
        elif k == 1:
            r['ahead'] += 40 * d['recs'][-1]['longest'] + 200000
        else:
            r['ask'] += 40 * d['recs'][-1]['longest'] + 200000
        mut.append(d)
    rej = ck.traces('AheadTrace', cases + mut, con)
    bad = [i for i in rej if i < len(cases)]
    if len(rej) - len(bad) < len(mut):
        raise Machinery('AheadTrace accepts a corrupted trace')
    ck.parts['corrupted_traces_rejected'] = len(mut)
    ck.parts['bytes_parsed'] = sum(d.size for d in ds)
    ck.validated(len(ds), len(ds), [ds[0].describe(schs)])
    n = 0
    for i in sorted(bad, key=lambda i: ds[i].size)[:8]:
        c = observe(ck, [ds[i]])[0]
        if c['end'] != 'end' or not c['recs'] or not c['recs'][-1]['done'] or c['recs'][-1]['out'] != ds[i].size:
            nofit += 1       # not all of the stream came out: another property
            if c['end'] == 'end':
                continue
        if n < 3 and ck.traces('AheadTrace', [c], con):
            d = ds[i].describe(schs)
            d.update({'observed': c, 'tlc': ck.explain('AheadTrace', c, con)})
            ck.violation('the parser reads too far ahead, or its memory keeps growing (ended with: %s)' % c['end'], d)
            n += 1
    if bad and not n and not nofit:
        raise Machinery('rejected once but accepted when run again')
    return ck
