"""C21: the interval tree (IntervalTree.tla, AvlTree.tla)."""
from history import *
from logcheck import guard


def case(recs):
    return {'ops': [{f: o[f] for f in ('op', 'lo', 'hi', 'v', 'res', 'all')} for o in recs if o['ev'] == 'itop'], 'end': recs[-1]['ev']}


def hist(seq):
    return History(['it.new'] + ['it.' + x for x in seq], case)


def spoil(c, rng):
    for _ in range(30):
        o = rng.choice(c['ops'])
        k = rng.randrange(3)
        if k == 0 and o['res']:
            o['res'] = o['res'][1:]
            return c
        if k == 1 and o['all']:
            del o['all'][rng.randrange(len(o['all']))]
            return c
        if k == 2 and len(o['all']) > 1:
            o['all'] = o['all'][1:] + o['all'][:1]
            return c
    return None


def random_history(rng, n, top, width):
    out = []
    known = []
    for i in range(n):
        k = rng.random()
        lo = rng.randint(0, top)
        hi = min(top, lo + rng.randint(0, width))
        if known and rng.random() < .4:
            lo, hi = rng.choice(known)
            if rng.random() < .3:
                hi = min(top, hi + rng.randint(0, width))
        if k < .6:
            out.append('insert %d %d %d' % (lo, hi, i))
            known.append((lo, hi))
        elif k < .8:
            out.append('find %d %d' % (lo, hi))
        elif k < .97:
            out.append('pop %d %d' % (lo, hi))
        elif k < .98:
            out.append('reset')
    return out or ['reset']


def churn(rng, n, m, pi, width):
    """Insertions and removals near m places, for trees that keep being rebalanced on both ways."""
    out = []
    for i in range(n):
        lo = rng.randrange(m) * 3
        k = rng.random()
        if k < .05:
            out.append('find %d %d' % (lo, lo + rng.randint(0, 9)))
        elif k < pi:
            out.append('insert %d %d %d' % (lo, lo + rng.randint(0, width), i))
        else:
            out.append('pop %d %d' % (lo, lo + rng.randint(0, width)))
    return out


@guard
def main():
    ck = HistoryCheck('C21', ('IT',))
    rng = ck.rng
    mx, held = (4, 7) if THOROUGH else (3, 6)
    cfg = 'CONSTANTS\nMax = %d\nVals = {1}\nMaxHeld = %d\nSloppy = %s\nSPECIFICATION Spec\nINVARIANT Balanced\nPROPERTY Refines\nVIEW View\n'
    ck.model('AvlTree', cfg % (mx, held, 'FALSE'), 'the balanced tree refines the set of intervals (bounds to %d, %d held)' % (mx, held))
    rc, out, st = tlc('AvlTree', cfg % (3, 4, 'TRUE'))
    if rc == 0:
        raise Machinery('AvlTree: stale bounds are not noticed')
    # every short history over bounds 0..2
    bounds = [(a, b) for a in range(3) for b in range(a, 3)]
    ins = list(itertools.product(bounds, repeat=3))
    items = []
    for t in (ins if THOROUGH else rng.sample(ins, 100)):
        for q in bounds:
            s = ['insert %d %d %d' % (a, b, i) for i, (a, b) in enumerate(t)]
            items.append(hist(s + ['find %d %d' % q, 'pop %d %d' % q] + ['find %d %d' % x for x in bounds]))
    # insertion orders, then removals
    for _ in range(3000 if THOROUGH else 300):
        n = rng.randint(4, 12)
        order = list(range(n))
        rng.shuffle(order)
        s = ['insert %d %d %d' % (x * 3, x * 3 + rng.randint(0, 6), x) for x in order]
        rng.shuffle(order)
        for x in order:
            s += ['pop %d %d' % (x * 3, x * 3 + rng.randint(0, 1)), 'find %d %d' % (rng.randint(0, 3 * n), 3 * n)]
        items.append(hist(s))
    for _ in range(6000 if THOROUGH else 700):
        top = rng.choice((5, 10, 40, 1000, 0x10ffff, 2**31 - 2))
        items.append(hist(random_history(rng, rng.randint(1, 60), top, rng.choice((0, 1, 3, top // 4)))))
    for _ in range(40 if THOROUGH else 6):
        items.append(hist(random_history(rng, 300, 3000, 10)))
    for _ in range(400 if THOROUGH else 50):
        items.append(hist(churn(rng, 300, 30, .5, 2)))
        items.append(hist(churn(rng, 150, 20, .5, rng.choice((0, 1, 2)))))
    ck.histories('TreeTrace', items, 'interval tree', spoil)
    return ck
