"""C24: the line numbers of tokens (LineTrace.tla, MCLines.tla)."""
from logcheck import *
import mc
from checks.c03 import ts_text


def line_case(c):
    return {'evs': [[{'ty': t['ty'], 's': t['s'], 'ln': t['ln']} for t in o.get('toks', ())] for o in c['evs']],
            'end': 'end' if all(o['rc'] == 'Success' for o in c['evs']) else 'error'}


def intact(c):
    """All of the input came out (if not, it is not the matter of this check)."""
    return (c['end'] == 'end' and all(o['rc'] == 'Success' for o in c['evs'])
            and [b for o in c['evs'] for t in o['toks'] for b in t['s']] == c['inp'])


@guard
def main():
    r = random.Random('C24-%d' % SEED)
    schs = standard_schemas(r, 150 if THOROUGH else 40)
    ck = LogCheck('C24', schs, ('RP', 'BP'))
    mc.lines(ck)
    items = []
    base = len(realistic())
    for off, ws in small_words(6 if THOROUGH else 4):
        items += [Item(base + off, w) for w in ws if b'\n' in w]
    for _ in range(20000 if THOROUGH else 2500):
        sc = ck.rng.randrange(len(schs))
        k = ck.rng.random()
        if k < .3:
            w = ts_text(schs[sc], ck.rng)
        else:
            w = nosof(log_text(schs[sc], ck.rng, ck.rng.randint(1, 16)))
            if k < .7:
                at = ck.rng.randint(0, len(w))
                w = w[:at] + b'\n' * ck.rng.randint(1, 4) + w[at:]
        kind = ck.rng.choice(['rp', 'rp', 'rp', 'bp'])
        pre = None
        if kind == 'rp' and ck.rng.random() < .3:
            v = nosof(log_text(schs[sc], ck.rng, 12)) + b'\nab\n 1\n'
            pre = (v, ck.rng.choice((0, 1, 2, 3, len(v) + 20)))
        items.append(Item(sc, w, DEF if kind == 'bp' else rand_sizes(ck.rng), rand_plan(ck.rng) if kind == 'rp' else '-1', kind, pre=pre))
    ck.widen(items)
    # more lines than 16 bits count, long lines, lines over the end of the buffers as shipped
    for w in (b'\n' * 66000 + b'ab 1\nx', b'ab 12\n' * 11000 + b'1', b' x' * 30000 + b'\n12 a\n' + b'\n a1' * 9000):
        items.append(Item(2, w, DEF, '-1', ck.rng.choice(('rp', 'bp'))))
    cases = ck.observe(items, BASE)
    stage = ('LineTrace', '', line_case)
    bad = ck.judge(stage, items, cases, ('line',))
    ck.count(items, cases, lambda c: sum(o.get('str', []).count(10) for o in c['evs']) > 1)
    ck.parts['newlines'] = sum(c['inp'].count(10) for c in cases)
    mine = [i for i in bad if intact(cases[i])]
    ck.parts['rejected_for_other_reasons'] = len(bad) - len(mine)
    ck.report(stage, items, mine, 'a token does not carry the line it ends on', BASE)
    return ck
