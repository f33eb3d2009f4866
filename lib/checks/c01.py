"""C01: events are consecutive pieces of the stream (Stream.tla)."""
from logcheck import *


def scenarios(rng, schs, n, anybyte=True):
    items = []
    base = len(realistic())
    for off, ws in small_words(4 if THOROUGH else 3):
        for w in ws:
            items.append(Item(base + off, w, *rng.choice([(DEF, '-1'), ((4, 4), '-1'), ((8, 4), '1,2,1,1,3,1,1,1')])))
    for _ in range(n):
        sc = rng.randrange(len(schs))
        k = rng.random()
        if anybyte and k < .15:
            w = bytes(rng.choice(b'\n a1T\xfd\x00\xff:') for _ in range(rng.randint(0, 30)))
        elif k < .25:
            w = bytes(rng.choice(b'\n a1T:') for _ in range(rng.randint(0, 40)))
        else:
            w = log_text(schs[sc], rng, rng.randint(1, 25))
        if not anybyte:
            w = nosof(w)
        kind = rng.choice(['rp', 'rp', 'rp', 'bp'])
        it = Item(sc, w, rand_sizes(rng), rand_plan(rng), kind)
        if kind == 'bp':
            it.sizes = (0, it.sizes[1])
        items.append(it)
    # streams that are longer than the buffers as shipped
    for _ in range(8 if THOROUGH else 2):
        sc = rng.randrange(3)
        w = b''
        while len(w) < rng.choice((30000, 60000, 120000)):
            w += log_text(schs[sc], rng, 30, b'aT12xF.- :')
        items.append(Item(sc, w if anybyte else nosof(w), DEF, rng.choice(['-1', '30000,1,20000'])))
    return items


@guard
def main():
    schs = standard_schemas(random.Random('C01-%d' % SEED), 120 if THOROUGH else 25)
    ck = LogCheck('C01', schs, ('RP', 'BP'))
    ck.model('Stream', 'CONSTANT Totals = {0, 1, 2, 3, 4, 5, 6}\nSPECIFICATION Spec\n'
             'INVARIANTS TypeOK Complete\nPROPERTIES Terminates Progress\n', 'streams of up to 6 bytes', workers=1)
    items = scenarios(ck.rng, schs, 40000 if THOROUGH else 2500)
    keep = ['rc', 'done', 'toks', 'str']
    cases = ck.observe(items, keep)
    for c in cases:
        for o in c['evs']:
            for t in o.get('toks', ()):
                t.pop('ty', None)
    stage = ('StreamTrace', 'Strict = FALSE', None)
    bad = ck.judge(stage, items, cases, ('str', 'drop', 'tokbyte'))
    ck.count(items, cases)
    ck.report(stage, items, bad, 'the events do not spell the input', keep)
    return ck
