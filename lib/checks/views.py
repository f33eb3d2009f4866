"""C10 and C11: what an event says about itself."""
from logcheck import *
import mc
from checks.c03 import ts_text


def run(pid, aspects, fields, what):
    r = random.Random('%s-%d' % (pid, SEED))
    schs = standard_schemas(r, 150 if THOROUGH else 45)
    ck = LogCheck(pid, schs, ('RP', 'BP'))
    mc.logsem(ck, 'views')
    items = []
    base = len(realistic())
    for off, ws in small_words(5 if THOROUGH else 3):
        items += [Item(base + off, w) for w in ws]
    for _ in range(20000 if THOROUGH else 2000):
        sc = ck.rng.randrange(len(schs))
        w = ts_text(schs[sc], ck.rng) if ck.rng.random() < .5 else nosof(log_text(schs[sc], ck.rng, ck.rng.randint(1, 16)))
        kind = ck.rng.choice(['rp', 'rp', 'rp', 'bp'])
        items.append(Item(sc, w, DEF if kind == 'bp' else rand_sizes(ck.rng), '-1', kind))
    # events of many tokens: the token buffer as shipped has to grow
    if pid == 'C10' or THOROUGH:
        pass
    ck.widen(items)
    cases = ck.observe(items)
    con = 'SchOf <- TSchOf\nInpOf <- TInpOf\nAspects = {%s}'
    asp = ', '.join('"%s"' % a for a in aspects)
    own = ('EventTrace', con % asp, None)
    bad = ck.judge(own, items, cases, fields)
    ck.report(own, items, bad, what)
    full = ('LogTrace', con % asp, None)
    left = sorted(set(ck.judge(full, items, cases, fields)) - set(bad))
    if left:
        tk = ('LogTrace', con % '"toks", "types", "str", "done"', None)
        other = ck.judge(tk, [items[i] for i in left], [cases[i] for i in left])
        left = [i for j, i in enumerate(left) if j not in other]
        ck.report(full, items, left, what)
    ck.count(items, cases)
    return ck
