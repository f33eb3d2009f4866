"""C05: a token has the names of all rules that match it, in schema order."""
from logcheck import *
import mc


def overlapping(rng):
    """A schema whose rules overlap: the same text matches several of them."""
    pool = [plus(cls('12')), plus(cls('1-3')), cat(L('1'), star(DOT)), plus(DOT), rep(cls('12'), 1, 3),
            alt(L('1'), L('2')), plus(alt(L('1'), L('2'), L('a'))), cat(star(DOT), L('2'), star(DOT)),
            cat(opt(L('-')), plus(D)), L('12'), plus(cls('ab12')), cat(star(cls('a-c')), plus(D))]
    names = ['u', 'v', 'w', 'x', 'y', 'a', 'zz', 'int', 'float', 'hex', 'm1', 'm2']
    rng.shuffle(names)
    rules = [(rng.choice(names[:4]) if rng.random() < .3 else names[i], rng.choice(pool)) for i in range(rng.randint(2, 7))]
    ts = [cat(L('T'), plus(D)), cat(plus(cls('12')), L('a')), cat(rep(D, 2), L(':'), rep(D, 2))]
    rng.shuffle(ts)
    for e in ts[:rng.randint(0, 2)]:
        rules.insert(rng.randint(0, len(rules)), ('timestamp', e))
    n = [0]
    rules = [(m, captured(e, rng, n, .3)) if rng.random() < .3 else (m, e) for m, e in rules]
    return Schema(rng.choice([' \n:', '\n ,', ' \t\n']), rules)


@guard
def main():
    r = random.Random('C05-%d' % SEED)
    schs = standard_schemas(r, 60 if THOROUGH else 10) + [overlapping(r) for _ in range(200 if THOROUGH else 50)]
    ck = LogCheck('C05', schs, ('RP',))
    mc.logsem(ck, 'types')
    items = []
    for sc in range(len(schs)):
        d = schs[sc].delims
        for _ in range(120 if THOROUGH else 28):
            if ck.rng.random() < .4:
                w = nosof(log_text(schs[sc], ck.rng, ck.rng.randint(1, 14)))
            else:
                w = b''
                for _ in range(ck.rng.randint(1, 8)):
                    w += bytes([ck.rng.choice(d)]) if w or ck.rng.random() < .6 else b''
                    w += bytes(ck.rng.choice(b'1122ab3-T') for _ in range(ck.rng.randint(1, 4)))
            items.append(Item(sc, w, *ck.rng.choice([(DEF, '-1'), (DEF, '-1'), (rand_sizes(ck.rng), '-1')])))
    ck.widen(items)
    keep = ['rc', 'done', 'str', 'toks']
    cases = ck.observe(items, keep)
    own = ('TypeTrace', 'SchOf <- TSchOf\nInpOf <- TInpOf', type_case)
    bad = ck.judge(own, items, cases, ())
    ck.report(own, items, bad, 'types are not those of the rules that match the token', keep)
    # the same tokens with the types that the whole specification gives them
    con = 'SchOf <- TSchOf\nInpOf <- TInpOf\nAspects = {%s}'
    full = ('LogTrace', con % '"toks", "types"', None)
    left = sorted(set(ck.judge(full, items, cases, ('types',))) - set(bad))
    if left:
        # not a matter of types if the tokens already differ
        base = ('LogTrace', con % '"toks"', None)
        other = ck.judge(base, [items[i] for i in left], [cases[i] for i in left])
        left = [i for j, i in enumerate(left) if j not in other]
        ck.report(full, items, left, 'types are not those of the rules that match the token', keep)
    ck.count(items, cases, lambda c: any(len(set(t['ty'])) > 1 for o in c['evs'] for t in o.get('toks', ())))
    return ck
