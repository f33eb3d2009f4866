"""C06: the automaton of an expression accepts its language (RegexEquiv.tla)."""
from autcheck import *
import mc
from gen import small as small_schemas

LEAVES = [('l', 97), ('l', 98), ('s', False, ((97, 98),))]


@guard
def main():
    ck = AutoCheck('C06')
    rng = ck.rng
    # every small expression
    small = [e for n in range(3) for e in all_exprs(n, LEAVES)]
    three = all_exprs(3, LEAVES)
    small += three if THOROUGH else rng.sample(three, 1500)
    mc.regex(ck, small if THOROUGH else rng.sample(small, 700), 6 if THOROUGH else 5)
    ck.equivalent([Auto('rules', [e]) for e in small], 'all small expressions')
    # large ones, over all bytes and over text
    items = []
    while len(items) < (6000 if THOROUGH else 700):
        e = byte_expr(rng, rng.randint(1, 4)) if len(items) % 2 else expr(rng, rng.randint(2, 5), b'ab1-', caps=[0])
        if size(e) <= 60:
            items.append(Auto('rules', [e]))
    ck.equivalent(items, 'random expressions')
    # many repetitions
    ab = ('o', ('c', ('l', 97), ('l', 98)), ('l', 99))
    items = []
    for lo, hi in [(1, 300), (257, 257), (0, 260), (255, 256), (256, 300), (40, 300), (2, 130), (70, 70)] \
            + [tuple(sorted((rng.randint(0, 90), rng.randint(1, 520)))) for _ in range(30 if THOROUGH else 6)]:
        for e in (('l', 97), ('s', True, ((98, 120),)), ab):
            if e is ab and hi > 150 and not THOROUGH:
                hi = 150 if lo < 150 else lo
            e = ('r', e, lo, hi)
            k = rng.random()
            items.append(Auto('rules', [e if k < .5 else ('c', e, ('l', 98)) if k < .75 else ('c', ('l', 98), e)]))
    ck.equivalent(items, 'many repetitions')
    # several at once
    items = []
    while len(items) < (4000 if THOROUGH else 500):
        es = [byte_expr(rng, rng.randint(0, 2)) if rng.random() < .3 else expr(rng, rng.randint(0, 3), b'ab', caps=[0])
              for _ in range(rng.randint(2, 6))]
        if sum(size(e) for e in es) <= 40:
            items.append(Auto('rules', es))
    ck.equivalent(items, 'several expressions')
    # the lexers of whole schemas
    items = [Auto('schema', schema=s, built=b) for s in realistic() + small_schemas() for b in ('ast', 'text')]
    n = 1200 if THOROUGH else 150
    while n:
        s = random_schema(rng, nullable=rng.random() < .3)
        if sum(size(e) for _, e in s.rules) <= 40:
            items.append(Auto('schema', schema=s, built=rng.choice(('ast', 'text'))))
            n -= 1
    ck.equivalent(items, 'lexers of whole schemas')
    return ck
