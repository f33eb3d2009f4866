"""C14: BufferParser returns an event or says where to resume (BufSem.tla)."""
from logcheck import *
import mc


@guard
def main():
    r = random.Random('C14-%d' % SEED)
    schs = standard_schemas(r, 100 if THOROUGH else 25)
    ck = LogCheck('C14', schs, ('RP', 'BP'))
    mc.buf(ck)
    items = []
    base = len(realistic())

    def add(sc, w, plan, cap, late):
        items.append(Item(sc, w, (0, ck.rng.choice((0, 4, 8))), plan, 'bp', max(cap, 1), late))

    # short inputs: every way to cut them in two, byte by byte, all at once; small buffers that move and grow
    for off, ws in small_words(5 if THOROUGH else 3):
        for w in (ws if THOROUGH else ck.rng.sample(ws, min(len(ws), 110))):
            for n in range(len(w)):
                add(base + off, w, '%d,%d' % (n, len(w)), len(w) + 2, ck.rng.random() < .5)
            add(base + off, w, ','.join('1' * (len(w) + 3)), ck.rng.choice((1, 2, len(w) + 1)), ck.rng.random() < .5)
    for _ in range(15000 if THOROUGH else 1300):
        sc = ck.rng.randrange(len(schs))
        w = nosof(log_text(schs[sc], ck.rng, ck.rng.randint(1, 16)))
        if w.find(b'\n') < 0 and ck.rng.random() < .7:
            continue
        add(sc, w, rand_plan(ck.rng), ck.rng.choice((1, 2, 3, 8, 16, 20, 40, len(w) + 1)), ck.rng.random() < .5)
    # every cut of longer texts
    for sc in range(base + len(small())):
        w = nosof(log_text(schs[sc], ck.rng, 9))
        for n in range(len(w)):
            add(sc, w, '%d,%d' % (n, len(w)), len(w) + 1, n % 2 == 0)
    # the whole buffer at once
    for _ in range(300):
        sc = ck.rng.randrange(len(schs))
        items.append(Item(sc, nosof(log_text(schs[sc], ck.rng, 12)), DEF, '-1', 'bp'))
    keep = BASE + ['from', 'off', 'lim', 'fin']
    cases = ck.observe(items, keep)
    con = 'SchOf <- TSchOf\nInpOf <- TInpOf\nAspects = {"toks", "types", "str", "done", "ts"}'
    stage = ('BufTrace', con, None)
    bad = ck.judge(stage, items, cases, ('str', 'drop', 'off', 'rc'))
    if bad:
        # events that ReaderParser gets wrong in the same way are not a matter of the buffer
        ref = [Item(items[i].sc, items[i].inp) for i in bad]
        rc = ck.observe(ref)
        other = ck.judge(('LogTrace', con, None), ref, rc)
        pure = set(ck.judge(('BufTrace', con.replace('"toks", "types", "str", "done", "ts"', ''), None),
                            [items[i] for i in bad], [cases[i] for i in bad]))
        bad = [i for j, i in enumerate(bad) if j not in other or j in pure]
    ck.count(items, cases, lambda c: any(o['rc'] == 'BufferOutOfBounds' for o in c['evs']))
    ck.report(stage, items, bad, 'BufferParser does not return the event or where to resume', keep)
    return ck
