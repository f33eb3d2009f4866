"""C16: a failing reader is reported and loses nothing (SessionTrace.tla; RingParser.tla with failures)."""
from session import *
import mc


def blame(ck, s, c):
    """Is anything but the events of the same bytes read without failures returned?"""
    ok = Session(s.sc, [Run(s.runs[0].inp, None, ','.join(x for x in s.runs[0].plan.split(',') if int(x) > -2) or '-1')],
                 s.sizes, s.kind)
    f = observe(ck, [ok], fresh=True)[0]
    strip = lambda run: [{k: o[k] for k in BASE if k in o} for o in run['evs'] if o['rc'] == 'Success']
    fails = [o for o in c['runs'][0]['evs'] if o['rc'] != 'Success']
    er = 0
    told = True
    for o in c['runs'][0]['evs']:
        told = told and o['er'] == er + (o['rc'] != 'Success') and (o['rc'] == 'Success' or o['rc'] == o['ec'])
        er = o['er']
    return not told or c['end'] != f['end'] or strip(c['runs'][0]) != strip(f['runs'][0])


@guard
def main():
    r = random.Random('C16-%d' % SEED)
    schs = standard_schemas(r, 60 if THOROUGH else 15)
    ck = LogCheck('C16', schs, ('RP',))
    if THOROUGH:
        mc.ring(ck, 'failures at every read', 5, initial=2, failures=2)
        mc.ring(ck, 'failures at every read', 6, initial=4, failures=1)
    else:
        mc.ring(ck, 'failures at every read', 4, initial=2, failures=2)
        mc.ring(ck, 'failures at every read', 4, initial=4, failures=1)
    base = len(realistic())
    ss = []
    code = lambda: ck.rng.choice((-2, -2, -3, -4, -5, -6))

    def text(sc, n):
        return nosof(log_text(schs[sc], ck.rng, ck.rng.randint(1, n)))

    # one failure, at every read
    for sc in range(len(schs)):
        for sizes in ((4, 4), (8, 4), (64, 8), DEF):
            w = text(sc, 14)
            for n in range(0, 14 if sizes == DEF else min(40, len(w) + 3)):
                for step in (1, 3):
                    plan = [str(step)] * n + [str(code())]
                    if n % 2:
                        plan += [str(code())]
                    ss.append(Session(sc, [Run(w, None, ','.join(plan + [str(step)] * 3))], sizes))
    # every read fails once before it works
    for off, ws in small_words(3):
        for w in ck.rng.sample(ws, min(len(ws), 400 if THOROUGH else 40)):
            for sizes in ((2, 4), (4, 4)):
                ss.append(Session(base + off, [Run(w, None, ','.join(['-2,1'] * (len(w) + 2)))], sizes))
    for _ in range(8000 if THOROUGH else 900):
        sc = ck.rng.randrange(len(schs))
        plan = [str(code() if ck.rng.random() < .3 else ck.rng.choice((1, 2, 3, 7, 30))) for _ in range(ck.rng.randint(1, 60))]
        ss.append(Session(sc, [Run(text(sc, 20), None, ','.join(plan))], rand_sizes(ck.rng)))
    nsmall = len(ss)
    cases = observe(ck, ss)
    bad = judge(ck, ss, cases)
    # the buffers as shipped: the reads of a long input fail here and there
    con = 'SchOf <- TSchOf\nInpOf <- TInpOf\n'
    big, bigs = [], []
    for n in range(6 if THOROUGH else 1):
        w = b''
        while len(w) < (110000 if THOROUGH else 76000):
            w += nosof(log_text(schs[n % 3], ck.rng, 30, b'aT12xF.- :'))
        big.append(Session(n % 3, [Run(w, None, '24000,-2,1000,-3,23000,-2,-2,7,-5,40000,-2,-2,100')]))
    for s, c in zip(big, observe(ck, big)):
        evs = c['runs'][0]['evs']
        er, told = 0, True
        for o in evs:
            told = told and o['er'] == er + (o['rc'] != 'Success') and (o['rc'] == 'Success' or o['rc'] == o['ec'])
            er = o['er']
        bigs.append({'sc': s.sc + 1, 'inp': list(s.runs[0].inp), 'evs': [o for o in evs if o['rc'] == 'Success'],
                     'end': c['end'] if told and er >= 4 else 'not told'})
    late = set(ck.traces('LexTrace', [lex_case(c) for c in bigs], con, ck.sj))
    late |= set(ck.traces('StreamTrace', bigs, 'Strict = FALSE'))
    ck.validated(len(ss) + len(big), len({json.dumps(s.describe(schs)) for s in ss}), [ss[len(ss) // 2].describe(schs)])
    ck.parts['rejected_sessions'] = len(bad)
    report(ck, ss, bad, 'failing reads are not reported or lose or change something', lambda s, c: blame(ck, s, c))
    for i in sorted(late)[:2]:
        c = observe(ck, [big[i]], fresh=True)[0]
        if blame(ck, big[i], c):
            ck.violation('failing reads of a long input (%s) are not reported or lose or change something'
                         % big[i].runs[0].plan, big[i].describe(schs))
    return ck
