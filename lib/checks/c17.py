"""C17: the intersection of two automata (Intersect.tla)."""
from autcheck import *
import mc


class Pair:
    def __init__(self, exprs, pats, schema=None):
        self.exprs, self.pats, self.schema = exprs, pats, schema

    def commands(self):
        c = ['ast.new p'] + ['ast.var p p%d %d %s' % (i, i, cmd(e)) for i, e in enumerate(self.pats)]
        if self.schema:
            return c + self.schema.ast_script('s').rstrip('\n').split('\n') + ['intersectlp s p']
        return c + ['ast.new s'] + ['ast.var s v%d %d %s' % (i, i, cmd(e)) for i, e in enumerate(self.exprs)] + ['intersect s p']

    def case(self, r):
        PT = []
        proots = [table(e, PT) for e in self.pats]
        c = {'PT': PT, 'proots': proots, 'r': r}
        if self.schema:
            j = self.schema.json()
            j['nb'] = []
            return dict(c, kind='schema', sch=j)
        T = []
        roots = [table(e, T) for e in self.exprs]
        return dict(c, kind='rules', T=T, roots=roots, ids=[str(100 + i) for i in range(len(roots))])

    def key(self):
        return repr((self.exprs, self.pats, self.schema and (self.schema.delims, self.schema.rules)))


def search(rng, e):
    """A search pattern made from an expression: some of its parts replaced by '.*' or characters."""
    if rng.random() < .2:
        return star(DOT) if rng.random() < .6 else ('l', rng.choice(b'ab1'))
    t = e[0]
    if t in 'co':
        return (t, search(rng, e[1]), search(rng, e[2]))
    if t == 'r':
        return ('r', search(rng, e[1]), e[2], e[3])
    return e


@guard
def main():
    ck = AutoCheck('C17')
    rng = ck.rng
    if THOROUGH:
        mc.regex(ck, [e for n in range(3) for e in all_exprs(n, [('l', 97), ('l', 98)])], 6)
    else:
        mc.regex(ck, rng.sample(all_exprs(2, [('l', 97), ('l', 98)]), 300), 5)
    items = []
    # every pair of small expressions
    small = [e for n in range(2) for e in all_exprs(n, [('l', 97), ('l', 98)], caps=False)]
    pairs = [(a, b) for a in small for b in small]
    items += [Pair([a], [b]) for a, b in (pairs if THOROUGH else rng.sample(pairs, 500))]
    while len(items) < (9000 if THOROUGH else 1500):
        es = [expr(rng, rng.randint(0, 3), b'ab1', caps=[0]) if rng.random() < .8 else byte_expr(rng, rng.randint(0, 3))
              for _ in range(rng.randint(1, 5))]
        k = rng.random()
        pats = [search(rng, rng.choice(es)) if rng.random() < .6 else expr(rng, rng.randint(0, 3), b'ab1')
                for _ in range(1 if k < .8 else 2)]
        if sum(size(e) for e in es + pats) <= 36:
            items.append(Pair(es, pats))
    n = 1500 if THOROUGH else 150
    while n:
        s = random_schema(rng)
        e = rng.choice(s.rules)[1]
        lead = cat(('l', rng.choice(s.delims)), search(rng, e)) if rng.random() < .8 else cat(DOT, search(rng, e))
        if sum(size(e) for _, e in s.rules) <= 30:
            items.append(Pair(None, [lead], s))
            n -= 1

    res = ck.observe(items)

    def reported(r):
        d = [o for o in r if o['ev'] == 'intersect']
        return d[0]['r'] if d and r[-1]['ev'] == 'end' else ['no answer']
    cases = [it.case(reported(r)) for it, r in zip(items, res)]
    mut = []
    for i in rng.sample(range(len(cases)), 80):
        d = dict(cases[i])
        names = d.get('ids') or [v['n'] for v in d['sch']['vars'] if v['n'] != 'timestamp'] or ['newLine']
        x = rng.choice(names)
        d['r'] = [y for y in d['r'] if y != x] if x in d['r'] else d['r'] + [x]
        mut.append((i, d))
    t = time.time()
    rej = set(ck.traces('Intersect', cases + [d for _, d in mut]))
    bad = sorted(i for i in rej if i < len(cases))
    log('Intersect: %d pairs judged in %.1f s, %d rejected' % (len(cases), time.time() - t, len(bad)))
    for j, (i, d) in enumerate(mut):
        if len(cases) + j not in rej and i not in rej:
            raise Machinery('Intersect accepts a wrong answer')
    ck.parts['wrong_answers_rejected'] = len(mut)
    ck.validated(len(items), len({it.key() for it in items}), [{'commands': items[0].commands(), 'reported': cases[0]['r']}])
    ck.parts['pairs_with_common_strings'] = sum(1 for c in cases if c['r'])
    n = 0
    for i in sorted(bad, key=lambda i: len(items[i].key()))[:6]:
        c = items[i].case(reported(ck.observe([items[i]])[0]))
        if n < 3 and ck.traces('Intersect', [c]):
            ck.violation('intersection reports %s for %s' % (c['r'], items[i].key()[:300]),
                         {'commands': items[i].commands(), 'observed': c['r'], 'tlc': ck.explain('Intersect', c)})
            n += 1
    if bad and not n:
        raise Machinery('rejected once but accepted when run again')
    return ck
