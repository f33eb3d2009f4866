"""C13: a reset parser behaves like a new one (SessionTrace.tla; RingParser.tla with resets)."""
from session import *
import mc


def last_run(ck, s, c):
    """Does the last run differ from the same run on a parser that was never used?"""
    one = Session(s.sc, s.runs[-1:], s.sizes, s.kind)
    f = observe(ck, [one], fresh=True)[0]
    return c['end'] != f['end'] or c['runs'][-1] != f['runs'][-1]


@guard
def main():
    r = random.Random('C13-%d' % SEED)
    schs = standard_schemas(r, 60 if THOROUGH else 20)
    ck = LogCheck('C13', schs, ('RP', 'BP'))
    if THOROUGH:
        mc.ring(ck, 'reset at every point', 5, initial=2, resets=1)
        mc.ring(ck, 'reset at every point', 5, initial=4, failures=1, resets=2)
        mc.ring(ck, 'reset at every point, termination', 3, initial=2, resets=1, live=True)
    else:
        mc.ring(ck, 'reset at every point', 4, initial=2, failures=0, resets=1)
    base = len(realistic())
    ss = []

    def text(sc, n):
        return nosof(log_text(schs[sc], ck.rng, ck.rng.randint(1, n)))

    # every point of a text, then another text
    for sc in range(len(schs)):
        for kind in ('rp', 'bp'):
            w = text(sc, 12) + b'\n' + text(sc, 8)
            for n in range(0, 1 + min(8, w.count(b'\n') + 2)):
                for sizes in ((DEF,) if kind == 'bp' else (DEF, (4, 4))):
                    ss.append(Session(sc, [Run(w, n, rand_plan(ck.rng)), Run(text(sc, 8))], sizes, kind))
    # short inputs
    for off, ws in small_words(3):
        for w in ck.rng.sample(ws, min(len(ws), 400 if THOROUGH else 30)):
            for v in ck.rng.sample(ws, 8 if THOROUGH else 2):
                for n in (0, 1, 2, 4):
                    ss.append(Session(base + off, [Run(w, n), Run(v)], ck.rng.choice([DEF, (2, 4)]), ck.rng.choice(['rp', 'bp'])))
    # several resets, failing readers, buffers given up for lack of bytes, calls after the end
    for _ in range(6000 if THOROUGH else 500):
        sc = ck.rng.randrange(len(schs))
        kind = ck.rng.choice(['rp', 'rp', 'bp'])
        runs = []
        for _ in range(ck.rng.randint(1, 3)):
            plan = rand_plan(ck.rng)
            if ck.rng.random() < .4:
                plan = ','.join(str(ck.rng.choice((1, 2, 5, -2, -2, -4))) for _ in range(ck.rng.randint(1, 9)))
            runs.append(Run(text(sc, 14), ck.rng.choice((0, 1, 1, 2, 3, 5, 30)), plan, ck.rng.random() < .6))
        runs.append(Run(text(sc, 10), None, rand_plan(ck.rng)))
        ss.append(Session(sc, runs, DEF if kind == 'bp' else rand_sizes(ck.rng), kind))
    # the buffers as shipped: grown by a long event or by many tokens, then reset
    big = [b'x' * 49000 + b'\n12 ab\n', b' 1' * 50000, b'ab\n' + b'a' * 100000 + b' 12\n', b'\n' * 10 + b'zz 1' * 13000]
    for j, w in enumerate(big if THOROUGH else big[:2]):
        for kind in ('rp', 'bp'):
            for sc in (2, base + 1):
                # (what the first run returns is not judged here: its calls are not recorded in full)
                ss.append(Session(sc, [Run(w, 1, '-1'), Run(text(sc, 10))], DEF, kind))
    cases = observe(ck, ss)
    for s, c in zip(ss, cases):
        for i, x in enumerate(c['runs'][:-1]):
            if len(x['inp']) > 5000:
                x['inp'], x['evs'] = [], []
    bad = judge(ck, ss, cases)
    ck.validated(len(ss), len({json.dumps(s.describe(schs)) for s in ss}),
                 [ss[len(ss) // 2].describe(schs)])
    seen = report(ck, ss, bad, 'after a reset the parser does not behave like a new one', lambda s, c: last_run(ck, s, c))
    ck.parts['rejected_sessions'] = len(bad)
    return ck
