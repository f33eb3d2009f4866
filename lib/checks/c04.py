"""C04: the tokens of a run are those that LogSem's lexer cuts."""
from logcheck import *
import mc


@guard
def main():
    r = random.Random('C04-%d' % SEED)
    schs = standard_schemas(r, 200 if THOROUGH else 60)
    schs += [timestamps_only(r) for _ in range(40 if THOROUGH else 8)]
    ck = LogCheck('C04', schs, ('RP',))
    mc.logsem(ck, 'tokens')
    items = []
    base = len(realistic())
    for off, ws in small_words(6 if THOROUGH else 4):
        items += [Item(base + off, w) for w in ws]
    for _ in range(20000 if THOROUGH else 2200):
        sc = ck.rng.randrange(len(schs))
        if ck.rng.random() < .3:
            al = bytes(schs[sc].delims[:2]) + b'aab112T'
            w = bytes(ck.rng.choice(al) for _ in range(ck.rng.randint(1, 20)))
        else:
            w = nosof(log_text(schs[sc], ck.rng, ck.rng.randint(1, 14)))
        items.append(Item(sc, w, *ck.rng.choice([(DEF, '-1'), (DEF, '-1'), (rand_sizes(ck.rng), '-1')])))
    ck.widen(items)
    keep = ['rc', 'done', 'str', 'toks']
    cases = ck.observe(items, keep)
    stage = ('LexTrace', 'SchOf <- TSchOf\nInpOf <- TInpOf', lex_case)
    bad = ck.judge(stage, items, cases, ('toks', 'tokbyte'))
    ck.count(items, cases, lambda c: sum(len(o.get('toks', ())) for o in c['evs']) > 2)
    ck.report(stage, items, bad, 'tokens are not the leftmost longest matches', keep)
    return ck
