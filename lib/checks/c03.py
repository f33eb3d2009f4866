"""C03: events are cut where LogSem cuts them."""
from logcheck import *
import mc


def ts_text(sch, rng):
    """Text full of timestamps, near timestamps, timestamps in the middle of lines, and newlines."""
    tss = [e for m, e in sch.rules if m == 'timestamp']
    out = b''
    for _ in range(rng.randint(1, 8)):
        k = rng.random()
        if k < .35 and tss:
            out += sample(rng.choice(tss), rng)
        elif k < .5 and tss:
            out += mutate(sample(rng.choice(tss), rng), rng, b'T12: \n')
        elif k < .8:
            out += log_text(sch, rng, 2)
        out += rng.choice((b'\n', b'\n', b'\n\n', b' ', b'', bytes([rng.choice(sch.delims)])))
    return nosof(out)


@guard
def main():
    r = random.Random('C03-%d' % SEED)
    schs = standard_schemas(r, 150 if THOROUGH else 40)
    schs += [timestamps_only(r) for _ in range(40 if THOROUGH else 8)]
    ck = LogCheck('C03', schs, ('RP', 'BP'))
    mc.logsem(ck, 'events')
    items = []
    base = len(realistic())
    for off, ws in small_words(6 if THOROUGH else 4):
        items += [Item(base + off, w) for w in ws]
    for _ in range(20000 if THOROUGH else 1800):
        sc = ck.rng.randrange(len(schs))
        kind = ck.rng.choice(['rp', 'rp', 'rp', 'bp'])
        items.append(Item(sc, ts_text(schs[sc], ck.rng), DEF if kind == 'bp' else rand_sizes(ck.rng), '-1', kind))
    ck.widen(items)
    keep = ['rc', 'done', 'str', 'ts', 'toks']
    cases = ck.observe(items, keep)
    stage = ('LogTrace', 'SchOf <- TSchOf\nInpOf <- TInpOf\nAspects = {"str", "done", "ts"}', None)
    bad = ck.judge(stage, items, cases, ('str', 'drop', 'done', 'ts'))
    ck.count(items, cases)
    ck.report(stage, items, bad, 'events are not cut as the schema says', keep)
    return ck
