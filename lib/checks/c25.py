"""C25: parsers generated from grammars (Lr.tla, LrTrace.tla)."""
import re

import mc
from history import *
from logcheck import guard

# id head -> body; lower case: tokens
CURATED = [
    ['S -> S + T', 'S -> T', 'T -> T * F', 'T -> F', 'F -> ( S )', 'F -> a'],
    ['S -> L', 'L -> L a', 'L -> '],
    ['S -> a S', 'S -> '],
    ['S -> a S b', 'S -> '],
    ['S -> a S b', 'S -> c'],
    ['S -> S S', 'S -> a'],                                        # ambiguous
    ['S -> a S', 'S -> a S b S', 'S -> c'],                        # dangling else
    ['S -> a A d', 'S -> b B d', 'S -> a B e', 'S -> b A e', 'A -> c', 'B -> c'],  # LR(1), not LALR(1)
    ['S -> L = R', 'S -> R', 'L -> * R', 'L -> a', 'R -> L'],      # LALR(1), not SLR(1)
    ['S -> A a', 'S -> b A c', 'S -> d c', 'S -> b d a', 'A -> d'],
    ['S -> A', 'A -> S', 'A -> a'],                                # goes in circles
    ['S -> S', 'S -> a'],
    ['S -> A B', 'A -> a', 'A -> ', 'B -> b', 'B -> '],
    ['S -> A A', 'A -> a', 'A -> '],
    ['S -> A B C', 'A -> a A', 'A -> ', 'B -> b', 'B -> ', 'C -> c C', 'C -> c'],
    ['S -> ( S ) S', 'S -> '],
    ['S -> a', 'S -> ( L )', 'L -> S', 'L -> L , S'],
    ['S -> a b c d a b c d'],
    ['S -> '],
    ['S -> A b', 'S -> B c', 'A -> a A', 'A -> a', 'B -> a B', 'B -> a'],
    ['S -> N a', 'S -> N b', 'N -> '],
    ['S -> M a', 'S -> N b', 'N -> ', 'M -> '],
    ['S -> S a', 'S -> S b', 'S -> c'],
    ['S -> P', 'S -> S , P', 'P -> a', 'P -> a : V', 'V -> b', 'V -> V b', 'V -> ( S )'],
]
CHARS = 'abcdefgh+*=():,'


class Grammar:
    """tokens: name -> texts; prods: (id, head, body)."""

    def __init__(self, toks, prods, full=True):
        self.toks, self.prods, self.full = toks, prods, full
        self.heads = []
        for _, h, _ in prods:
            if h not in self.heads:
                self.heads.append(h)

    def productive(self):
        ok, more = set(), True
        while more:
            more = False
            for _, h, b in self.prods:
                if h not in ok and all(x in self.toks or x in ok for x in b):
                    ok.add(h)
                    more = True
        return ok

    def sound(self):
        """Every nonterminal has productions, derives a word and is used."""
        used, more = {self.heads[0]}, True
        while more:
            more = False
            for _, h, b in self.prods:
                if h in used:
                    for x in b:
                        if x not in self.toks and x not in used:
                            used.add(x)
                            more = True
        return used == set(self.heads) == self.productive()

    def depths(self):
        d = {}
        for _ in range(len(self.prods) + 1):
            for _, h, b in self.prods:
                if all(x in self.toks or x in d for x in b):
                    d[h] = min(d.get(h, 99), 1 + max([0] + [d[x] for x in b if x not in self.toks]))
        return d

    def sentence(self, rng, budget):
        d = self.depths()
        out = []
        stack = [(self.heads[0], budget)]
        while stack and len(out) < 400:
            x, n = stack.pop()
            if x in self.toks:
                out.append(x)
                continue
            ps = [b for _, h, b in self.prods if h == x]
            if n <= 0:
                ps.sort(key=lambda b: max([0] + [d[y] for y in b if y not in self.toks]))
                b = ps[0]
            else:
                b = rng.choice(ps)
            stack += [(y, n - 1) for y in reversed(b)]
        return out

    def text(self, rng, ws):
        return ''.join(rng.choice(self.toks[w]) for w in ws)

    def key(self):
        return repr((self.toks, self.prods))


def curated():
    out = []
    for g in CURATED:
        prods = []
        for i, p in enumerate(g):
            h, b = p.split('->')
            prods.append(('p%d' % i, h.strip(), b.split()))
        toks = {x: [x] for _, _, b in prods for x in b if x in CHARS}
        out.append(Grammar(toks or {'a': ['a']}, prods))
    return out


def random_grammar(rng):
    while True:
        nt = ['S', 'A', 'B', 'C'][:rng.choice((1, 2, 2, 3, 3, 4))]
        tk = list('abcd')[:rng.randint(1, 4)]
        prods = []
        for h in nt:
            bodies = []
            for _ in range(rng.choice((1, 1, 2, 2, 3))):
                b = [rng.choice(tk) if rng.random() < .6 else rng.choice(nt) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 3, 4)))]
                bodies.append(b)
            prods += [(h, b) for b in bodies]
        rest = prods[1:]
        if rng.random() < .4:  # the productions of a head need not be next to each other
            rng.shuffle(rest)
        prods = [('p%d' % i, h, b) for i, (h, b) in enumerate(prods[:1] + rest)]
        toks = {}
        style = rng.random()
        for i, t in enumerate(tk):
            if style < .6:
                toks[t] = [t]
            elif style < .8:  # several characters, one token the beginning of another
                toks[t] = [['x', 'xy', 'xyx', 'zz'][i]]
            else:
                toks[t] = [['x'], ['y', 'z', 'w'], ['v', 'u'], ['t']][i]
        g = Grammar(toks, prods)
        if len(prods) <= 8 and g.sound():
            return g


def chained(rng):
    """Nonterminals that are empty, or start with a token, only by way of others."""
    while True:
        tk = list('abcd')
        m = rng.randint(2, 5)
        chain = ['A', 'B', 'C', 'D', 'E'][:m]
        prods = []
        for x, y in zip(chain, chain[1:]):
            prods.append((x, [y] if rng.random() < .8 else [y, y] if rng.random() < .4 else [y, 'F']))
        prods.append((chain[-1], [] if rng.random() < .7 else [rng.choice(tk)]))
        if any('F' in b for _, b in prods):
            prods.append(('F', []))
        if rng.random() < .4:
            prods.append((rng.choice(chain), [rng.choice(tk)]))
        if rng.random() < .3:
            prods.append((rng.choice(chain), [rng.choice(tk), rng.choice(chain)]))
        first = [('S', rng.choice((['X', 'Y'], ['X', 'A', rng.choice(tk)], ['Y', 'X', 'A'], ['X', 'Y', rng.choice(tk)])))]
        prods.append(('X', rng.choice(([rng.choice(tk)], [rng.choice(tk)], [rng.choice(tk), 'A'], []))))
        if any('Y' in b for _, b in first):
            prods.append(('Y', rng.choice((['A', rng.choice(tk)], ['A', rng.choice(chain), rng.choice(tk)], ['A']))))
        if rng.random() < .6:
            rng.shuffle(prods)
        prods = [('p%d' % i, h, b) for i, (h, b) in enumerate(first + prods)]
        toks = {x: [x] for _, _, b in prods for x in b if x in tk}
        g = Grammar(toks or {'a': ['a']}, prods)
        if len(prods) <= 11 and g.sound():
            return g


def inputs(g, rng, n):
    out = ['']
    tk = sorted(g.toks)
    ws = [list(w) for m in range(1, 4) for w in itertools.product(tk, repeat=m)]
    out += [g.text(rng, w) for w in rng.sample(ws, min(n, len(ws)))]
    for _ in range(n):
        w = g.sentence(rng, rng.randint(0, 6))[:9]
        k = rng.random()
        if k < .35 and w:
            w[rng.randrange(len(w))] = rng.choice(tk)
        elif k < .5:
            w.insert(rng.randint(0, len(w)), rng.choice(tk))
        elif k < .6 and w:
            w.pop(rng.randrange(len(w)))
        t = g.text(rng, w)
        if rng.random() < .1:
            at = rng.randint(0, len(t))
            t = t[:at] + '?' + t[at:]
        out.append(t)
    return out


# Tokens with texts in common: a token is the first of its names that can follow.  (Grammars where
# nothing is reduced on a symbol that can't follow in fact.)
SHARED = [
    ({'k': ['x'], 'n': ['x', 'y', 'z']}, ['S -> k n', 'S -> n']),
    ({'n': ['x', 'y', 'z'], 'k': ['x']}, ['S -> n k', 'S -> n']),
    ({'k': ['xy'], 'n': ['xy', 'x', 'z']}, ['S -> S n', 'S -> S k ;', 'S -> '], ';'),
    ({'a': ['x', 'y'], 'b': ['y', 'z'], 'c': ['z', 'x']}, ['S -> S a b c', 'S -> c']),
    ({'a': ['x', 'y'], 'b': ['y', 'z'], 'c': ['z', 'x']}, ['S -> A c', 'S -> B a', 'A -> a', 'B -> b']),
    ({'l': ['('], 'r': [')'], 'p': ['(', ')', 'x']}, ['S -> l S r', 'S -> p']),
    ({'h': ['x', 'y'], 'i': ['x', 'z'], ':': [':']}, ['S -> L', 'L -> L P', 'L -> P', 'P -> h : i', 'P -> i ;'], ';'),
    ({'u': ['x', 'y', 'z'], 'v': ['x', 'y'], 'w': ['x']}, ['S -> w S w', 'S -> v S v', 'S -> u']),
    ({'w': ['x'], 'v': ['x', 'y'], 'u': ['x', 'y', 'z']}, ['S -> w E', 'E -> v T', 'T -> u T', 'T -> w']),
    ({'u': ['x', 'y', 'z'], 'w': ['x']}, ['S -> N u', 'S -> w', 'N -> ']),
    ({'w': ['x'], 'u': ['x', 'y', 'z']}, ['S -> N u', 'S -> M w w', 'N -> u', 'M -> w']),
]


def shared():
    for toks, prods, *more in SHARED:
        toks = dict(toks, **{x: [x] for m in more for x in m})
        ps = []
        for i, p in enumerate(prods):
            h, b = p.split('->')
            ps.append(('p%d' % i, h.strip(), b.split()))
        yield Grammar(toks, ps)


def texts_of(g, rng, n):
    """Inputs by their texts, not by their tokens."""
    ts = sorted({t for xs in g.toks.values() for t in xs})
    out = ['']
    for m in range(1, 5):
        out += [''.join(w) for w in itertools.product(ts, repeat=m)]
    out = rng.sample(out, min(n, len(out)))
    return out + [g.text(rng, g.sentence(rng, rng.randint(1, 6))[:9]) for _ in range(n)]


def long_grammars(rng, n):
    """More children than there is room for at first; deep stacks."""
    left = Grammar({'a': ['a'], 'b': ['b']}, [('p0', 'S', ['L']), ('p1', 'L', ['L', 'E']), ('p2', 'L', ['E']),
                                             ('p3', 'E', ['a']), ('p4', 'E', ['a', 'b'])], False)
    right = Grammar({'a': ['a'], 'b': ['b']}, [('p0', 'S', ['a', 'S']), ('p1', 'S', ['b'])], False)
    return [(left, [''.join(rng.choice(('a', 'ab')) for _ in range(n)), 'ab' * 40, 'aab' * 30 + 'bb']),
            (right, ['a' * (n // 6) + 'b', 'aab', 'a' * 40])]


def history(g, ins, most, fuses=()):
    """fuses: for inputs, the reduction at which the rule throws."""
    fuses = dict(fuses)
    c = ['lr.new g %d' % g.full]
    c += ['lr.tok g %s %s' % (t, ' '.join(x.encode().hex() for x in xs)) for t, xs in g.toks.items()]
    c += ['lr.prod g %s %s %s' % (i, h, ' '.join(b)) for i, h, b in g.prods]
    c.append('lr.gen g')
    c += ['lr.parse g %s %d %d' % (x.encode().hex() or '-', most, fuses.get(i, 0)) for i, x in enumerate(ins)]

    def case(recs):
        gen = [o for o in recs if o['ev'] == 'gen']
        runs = []
        ok = bool(gen) and gen[0]['ok']
        if ok:
            for x, o in zip(ins, [o for o in recs if o['ev'] == 'parse']):
                col, ch, thrown = 0, '-', False
                if not o['ok']:
                    m = bytes(o['what']).decode('latin1')
                    f = re.match(r"Schema:1:(\d+): error: (?:expected .*?before '(.)' token"
                                 r"|expected .*?(before the end of the schema)|(empty file))\n", m)
                    thrown = m == 'thrown by a rule'
                    if f:
                        col, ch = int(f.group(1)), f.group(2) or ''
                runs.append({'inp': list(x), 'ok': o['ok'], 'root': o.get('root', ''), 'reds': o['reds'], 'col': col, 'ch': ch,
                             'thrown': thrown})
        end = recs[-1]['ev']
        if ok and len(runs) < len(ins) and end == 'end':
            end = 'incomplete'
        return {'toks': [{'n': t, 'ts': [list(x) for x in xs]} for t, xs in g.toks.items()],
                'prods': [{'id': i, 'h': h, 'b': b} for i, h, b in g.prods],
                'gen': ok, 'full': g.full, 'runs': runs, 'end': end if gen else 'nothing'}
    return History(c, case)


def spoil(c, rng):
    if not c['gen']:
        return None
    rs = [r for r in c['runs'] if len(r['inp']) < 50]
    if not rs:
        return None
    r = rng.choice(rs)
    f = rng.choice(('verdict', 'root', 'drop', 'col', 'value', 'swap'))
    if f == 'verdict':
        r['ok'] = not r['ok']
    elif f == 'root' and r['ok']:
        r['root'] += 'x'
    elif f == 'drop' and r['ok']:
        r['reds'].pop(rng.randrange(len(r['reds'])))
    elif f == 'col' and not r['ok'] and not r['thrown']:
        r['col'] += rng.choice((-1, 1))
    elif f == 'value' and r['reds'] and r['ok']:
        x = rng.choice(r['reds'])
        x['v'] += '1'
    elif f == 'swap' and len(r['reds']) > 1 and r['ok'] and r['reds'][0] != r['reds'][-1]:
        r['reds'] = r['reds'][-1:] + r['reds'][1:-1] + r['reds'][:1]
    else:
        return None
    return c


@guard
def main():
    ck = HistoryCheck('C25', ('LR',))
    rng = ck.rng
    mc.lr(ck)
    items = []
    gs = curated()
    for g in gs:
        items.append(history(g, inputs(g, rng, 40 if THOROUGH else 12), rng.choice((1, 1000))))
    for _ in range(6000 if THOROUGH else 450):
        g = random_grammar(rng)
        if rng.random() < .15:  # a production given twice: the last rule counts
            i, h, b = rng.choice(g.prods)
            g.prods.append(('q' + i, h, b))
        items.append(history(g, inputs(g, rng, 12 if THOROUGH else 7), rng.choice((1, 3, 1000))))
    for _ in range(1500 if THOROUGH else 130):
        g = chained(rng)
        items.append(history(g, inputs(g, rng, 8 if THOROUGH else 5), rng.choice((1, 1000))))
    for g in shared():
        items.append(history(g, texts_of(g, rng, 120 if THOROUGH else 25), rng.choice((1, 1000))))
    for g in gs + [random_grammar(rng) for _ in range(400 if THOROUGH else 40)]:
        ins = inputs(g, rng, 4)
        ins = [x for y in ins for x in (y, y)]  # a rule throws; the same input after that
        fuses = {i: rng.randint(1, 3) for i in range(0, len(ins), 2)}
        items.append(history(g, ins, rng.choice((1, 1000)), fuses))
    for g, ins in long_grammars(rng, 12000 if THOROUGH else 1500):
        items.append(history(g, ins, 500))
    ck.histories('LrTrace', items, 'parsers generated from grammars', spoil)
    return ck
