"""C02: buffering and chunking do not change the result."""
from logcheck import *
import mc


def turns(ck, pairs):
    """Records of two parsers whose events are asked for alternately (until both have seen the end)."""
    presets, cs = {}, []
    for n, (a, b) in enumerate(pairs):
        cmds = []
        for x in (a, b):
            presets.setdefault(x.key(), x.preset(ck.schs))
            cmds += ['sizes %d %d' % x.sizes, 'rp.set %s %s %s' % (x.slot(), x.inp.hex() or '-', x.plan)]
        for i in range(max(len(a.inp), len(b.inp)) + 2):
            for x in (a, b):
                cmds += ['sizes %d %d' % x.sizes, 'rp.upto %s' % x.slot()]
        cs.append((str(n), (a.key(), b.key()), cmds))
    res = run_harness(ck.exe, cs, presets)
    return [res[str(n)] for n in range(len(pairs))]


@guard
def main():
    r = random.Random('C02-%d' % SEED)
    schs = standard_schemas(r, 60 if THOROUGH else 14)
    ck = LogCheck('C02', schs, ('RP',))
    if THOROUGH:
        mc.ring(ck, 'every chunking', 6, initial=2)
        mc.ring(ck, 'every chunking', 7, initial=4, chunks=(1, 3, 9))
        mc.ring(ck, 'termination', 4, initial=2, live=True)
    else:
        mc.ring(ck, 'every chunking', 5, initial=2)
    items = []
    group = []
    base = len(realistic())
    g = 0
    every = [(DEF, '-1'), ((2, 4), '-1'), ((4, 4), '-1'), ((4, 4), '1,1,1,2,1,1,1,3'), ((8, 4), '-1'), ((16, 5), '3,1,4,1,5'),
             ((6, 4), '2,2,2'), ((64, 64), '1,' * 60 + '1')]
    for off, ws in small_words(4 if THOROUGH else 3):
        for w in (ws if THOROUGH else ck.rng.sample(ws, min(len(ws), 45))):
            g += 1
            for sz, plan in every[:6]:
                items.append(Item(base + off, w, sz, plan))
                group.append(g)
    for _ in range(2500 if THOROUGH else 220):
        g += 1
        sc = ck.rng.randrange(len(schs))
        w = nosof(log_text(schs[sc], ck.rng, ck.rng.randint(2, 40)))
        items.append(Item(sc, w))
        group.append(g)
        for _ in range(8):
            items.append(Item(sc, w, rand_sizes(ck.rng), rand_plan(ck.rng)))
            group.append(g)
    # a token or an event across every position of the buffers: padding of every length
    for sc in range(base):
        for pad in range(0, 34, 1 if THOROUGH else 3):
            g += 1
            w = b' ' + b'x' * pad + b'\n' + nosof(log_text(schs[sc], ck.rng, 10))
            for sz, plan in every[:5]:
                items.append(Item(sc, w, sz, plan))
                group.append(g)
    nsmall = len(items)
    # the buffers as shipped: wrapping around, a big event, many tokens
    big = []
    for n in range(6 if THOROUGH else 1):
        w = b''
        while len(w) < (130000 if THOROUGH else 75000):
            w += log_text(schs[n % 3], ck.rng, 30, b'aT12xF.- :')
        big.append((n % 3, nosof(w)))
    big.append((2, b'x 1' * 17000 + b' 12\nab 7\n' + b'y' * 3000))
    if THOROUGH:
        big.append((2, b'x' * 70000 + b' 12\nab 7\n' + b'y' * 30000))
        big.append((2, b' 7' * 52000 + b'\n ab 1\n'))
    for sc, w in big:
        g += 1
        for plan in ('-1', '24000,1,23999,5000,47'):
            items.append(Item(sc, w, DEF, plan))
            group.append(g)
    keep = ['rc', 'done', 'str', 'toks']
    cases = ck.observe(items, keep)
    con = 'SchOf <- TSchOf\nInpOf <- TInpOf\n'
    stage = ('LogTrace', con + 'Aspects = {"toks", "types", "str", "done"}', None)
    bad = set(ck.judge(stage, items[:nsmall], cases[:nsmall], ('str', 'drop', 'toks', 'types', 'done')))
    lex = ('LexTrace', con, lex_case)
    bad |= {nsmall + i for i in ck.judge(lex, items[nsmall:], cases[nsmall:])}
    pieces = ('StreamTrace', 'Strict = FALSE', None)
    bad |= {nsmall + i for i in ck.judge(pieces, items[nsmall:], cases[nsmall:])}
    # a run that the specification rejects is a matter of buffering if another way of
    # reading the same bytes gives a different result
    by = {}
    for i, x in enumerate(group):
        by.setdefault(x, []).append(i)
    sig = lambda i: json.dumps([cases[i]['evs'], cases[i]['end']])
    mine = [i for i in sorted(bad) if any(sig(j) != sig(i) for j in by[group[i]])]
    ck.parts['groups'] = len(by)
    ck.parts['rejected_but_independent_of_buffering'] = len(bad) - len(mine)
    ck.count(items, cases)
    ck.report(stage, items, [i for i in mine if i < nsmall], 'the result depends on how the input is buffered or chunked', keep)
    if not ck.viol:
        for st in (lex, pieces):
            late = [i for i in mine if i >= nsmall and ck.confirm(st, items, [i], keep)]
            ck.report(st, items, late, 'the result depends on how a long input is buffered or chunked', keep)
    together(ck, stage, keep)
    return ck


def together(ck, stage, keep):
    """Two parsers that are used in turns return what each returns by itself."""
    pairs = []
    for _ in range(900 if THOROUGH else 150):
        a, b = (Item(sc, nosof(log_text(ck.schs[sc], ck.rng, 14)), rand_sizes(ck.rng), rand_plan(ck.rng))
                for sc in (ck.rng.randrange(len(ck.schs)), ck.rng.randrange(len(ck.schs))))
        if a.slot() != b.slot():
            pairs.append((a, b))

    def cases_of(pairs):
        out = []
        for (a, b), recs in zip(pairs, turns(ck, pairs)):
            for it in (a, b):
                own = [o for o in recs if o.get('sl', it.slot()) == it.slot() and o['ev'] != 'set']
                out.append(to_case(ck.schs[it.sc], it, own, keep))
        return out

    cases = cases_of(pairs)
    flat = [it for p in pairs for it in p]
    ck.cov['traces_validated_against_impl'] += len(cases)
    n = 0
    for i in ck.judge(stage, flat, cases)[:20]:
        alone = ck.observe([flat[i]], keep)[0]
        again = cases_of([pairs[i // 2]])[i % 2]
        if n < 2 and [again['evs'], again['end']] != [alone['evs'], alone['end']]:
            d = {'first': pairs[i // 2][0].describe(ck.schs), 'second': pairs[i // 2][1].describe(ck.schs),
                 'observed': again, 'alone': alone}
            ck.violation('a parser returns something else if another parser is used in between', d)
            n += 1
