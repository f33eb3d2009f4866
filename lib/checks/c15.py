"""C15: parsing completes, with the last event and not before (Stream.tla, its promises about completion)."""
from logcheck import *
import mc
from checks.c01 import scenarios


@guard
def main():
    schs = standard_schemas(random.Random('C15-%d' % SEED), 120 if THOROUGH else 25)
    ck = LogCheck('C15', schs, ('RP', 'BP'))
    ck.model('Stream', 'CONSTANT Totals = {0, 1, 2, 3, 4, 5, 6, 7, 8}\nSPECIFICATION Spec\n'
             'INVARIANTS TypeOK Complete\nPROPERTIES Terminates Progress\n', 'streams of up to 8 bytes', workers=1)
    mc.logsem(ck, 'stream', live=True)
    items = scenarios(ck.rng, schs, 40000 if THOROUGH else 2500, anybyte=False)
    # inputs that end in the middle of something, at every position
    for sc in range(len(realistic()) + len(small())):
        w = nosof(log_text(schs[sc], ck.rng, 12))
        for n in range(len(w) + 1):
            items.append(Item(sc, w[:n], *ck.rng.choice([(DEF, '-1'), ((4, 4), '2,1,3')])))
    # no newline, one newline, only newlines
    for sc in range(len(schs)):
        for w in (b'', b'\n', b'\n\n', b' ', b'a\n\n'):
            items.append(Item(sc, w))
    keep = ['rc', 'done', 'str', 'toks']
    cases = ck.observe(items, keep)
    for c in cases:
        for o in c['evs']:
            o.pop('toks', None)
    stage = ('StreamTrace', 'Strict = TRUE', None)
    bad = ck.judge(stage, items, cases, ('done', 'drop'))
    ck.count(items, cases)
    ck.report(stage, items, bad, 'completion', keep)
    return ck
