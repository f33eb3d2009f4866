"""C28: lexers used on their own (Alone.tla, MCAlone.tla, AloneTrace.tla)."""
import mc
from autcheck import byte_expr, size
from history import *
from gen import *
from logcheck import guard

NLRULE = ('l', 10)
SEEN = [0, 0]  # words before wildcards, those that were variables


class Lexer:
    """Rules (id, expression) and delimiters (bytes, empty: none)."""

    def __init__(self, delims, rules):
        self.delims, self.rules = delims, rules

    def commands(self):
        c = ['ast.new a'] + ['ast.var a v%d %d %s' % (i, i, cmd(e)) for i, (_, e) in enumerate(self.rules)]
        return c + ['lx.new x a %s %s' % (self.delims.hex() or '-', ' '.join(str(n) for n, _ in self.rules))]

    def json(self):
        T = []
        roots = [table(e, T) for _, e in self.rules]
        return {'T': T, 'roots': roots, 'ids': [str(n) for n, _ in self.rules], 'delims': list(self.delims)}


def text_of(lx, rng, n):
    out = b''
    for _ in range(n):
        w = sample(rng.choice(lx.rules)[1], rng, b'', 4) or b'a'
        k = rng.random()
        if k < .15:
            w = mutate(w, rng, b'ab1-\x00\xff')
        elif k < .25:
            w = w[:rng.randint(0, len(w))]
        out += w
        if lx.delims and rng.random() < .7:
            out += bytes([rng.choice(lx.delims)])
    return out.replace(b'\xfd', b'')


def word_of(lx, rng):
    return bytes(b for b in text_of(lx, rng, rng.choice((1, 1, 1, 2))) if b != 10 and b not in lx.delims)


def history(lx, rng, texts, wild=False):
    c = lx.commands()
    runs = []
    sizes = rng.choice([(0, 0), (2, 0), (4, 0), (6, 0), (8, 0), (16, 0)])
    c.append('sizes %d %d' % sizes)
    for w in texts:
        if not any(e == NLRULE for _, e in lx.rules) and lx.delims:
            w = w.replace(b'\n', b'')
        k = rng.random()
        wc = '-'
        most = 10 ** 6 if k > .12 else rng.randint(0, 4)
        if wild and rng.random() < .85:
            wc = rng.choice('?*')
            w = w.replace(b'\n', b'')
            most = 1
            if not w:
                continue
        c.append('lx.scan x %s %d %d %s' % (w.hex() or '-', rng.choice((1, 2, 5, 10 ** 6, 10 ** 6, 0)), min(most, len(w) + 5), wc))
        runs.append((w, wc))

    def case(recs):
        got = [o for o in recs if o['ev'] == 'lex']
        d = lx.json()
        ok = len(got) == len(runs) and recs[-1]['ev'] == 'end'
        d['end'] = 'end' if ok else recs[-1]['ev']
        d['runs'] = [{'inp': list(w), 'wild': x, 'toks': o['toks'], 'end': o['end']} for (w, x), o in zip(runs, got)] \
            if ok else [{'inp': [], 'wild': '-', 'toks': [], 'end': 'end'}]
        if ok:
            ws = [r for r in d['runs'] if r['wild'] != '-']
            SEEN[0] += len(ws)
            SEEN[1] += sum(r['toks'][0]['ty'] != ['1'] for r in ws if r['toks'])
        return d
    return History(c, case) if runs else None


def spoil(c, rng):
    runs = [r for r in c['runs'] if r['toks']]
    if not runs or c['end'] != 'end':
        return None
    r = rng.choice(runs)
    i = rng.randrange(len(r['toks']))
    t = r['toks'][i]
    k = rng.random()
    if k < .3:
        t['ty'] = ['1'] if t['ty'] != ['1'] else ['100']
    elif k < .6 and t['s']:
        t['s'][rng.randrange(len(t['s']))] ^= 1
    elif k < .8 and r['wild'] == '-' and r['end'] == 'end':
        del r['toks'][i]
    else:
        t['ty'] = t['ty'] + ['77']
    return c


def rules(rng, n, delims, wide):
    """Rules with ids of no particular order, none of which matches the empty text."""
    ids = rng.sample(range(100, 130), n)
    if n > 2 and rng.random() < .2:
        ids[-1] = ids[0]
    out = []
    for i in ids:
        while True:
            k = rng.random()
            e = byte_expr(rng, rng.randint(0, 2)) if k < .2 else expr(rng, rng.randint(0, 3), b'ab1', caps=[0])
            if wide and rng.random() < .7:
                cls = ('s', True, tuple((b, b) for b in sorted(delims)) or ((0, 0),))
                rest = rng.choice([DOT, cls, D, ('s', False, ((97, 122),)), ('s', True, ((98, 98),))])
                lo = rng.choice((0, 0, 1))
                rest = ('r', rest, lo, rng.choice((-1, -1, 1, 2)))
                e = rng.choice([('c', e, rest), ('c', rest, e), rest, ('o', e, ('c', e, rest)), ('c', e, ('o', rest, D))])
            if not is_nullable(e) and size(e) < 40:
                break
        out.append((i, e))
    return out


def reads(e, bs):
    """Whether the expression has a place for one of these bytes."""
    t = e[0]
    if t == 'l':
        return e[1] in bs
    if t == 's':
        return any(e[1] != any(lo <= b <= hi for lo, hi in e[2]) for b in bs)
    if t in 'dw':
        return t == 'w' and any(b == 32 or 9 <= b <= 13 for b in bs)
    if t == '.':
        return True
    return any(reads(x, bs) for x in e[1:] if isinstance(x, tuple))


@guard
def main():
    ck = HistoryCheck('C28', ('AST', 'LX'))
    rng = ck.rng
    mc.alone(ck)

    def some(n, make, what, texts, wild=False):
        items = []
        while len(items) < n:
            lx = make()
            h = history(lx, rng, texts(lx), wild)
            if h:
                items.append(h)
        ck.histories('AloneTrace', items, what, spoil, 'LexerOf <- TLexerOf\nTextOf <- TTextOf', batch=4000)

    n = 6000 if THOROUGH else 500
    some(n, lambda: Lexer(b'', rules(rng, rng.randint(1, 5), b'', False)), 'lexers without delimiters',
         lambda lx: [text_of(lx, rng, rng.randint(0, 8)) for _ in range(rng.randint(1, 5))])

    def delimited():
        d = rng.choice((b' ', b' :', b' \n', b' \n:,', b'\n'))
        rs = []
        while len(rs) < 3:
            rs += [(i, e) for i, e in rules(rng, 1, d, False) if not reads(e, d)]
        rs = [(i + 40 * j, e) for j, (i, e) in enumerate(rs[:rng.randint(1, 3)])]
        if rng.random() < .6:
            pre = ('s', False, tuple((b, b) for b in sorted(d)))
            rs = [(i, ('c', pre, e)) if rng.random() < .8 else (i, e) for i, e in rs]
        if 10 in d:
            rs.insert(rng.randint(0, len(rs)), (99, NLRULE))
        return Lexer(d, rs)
    some(n, delimited, 'lexers with delimiters', lambda lx: [text_of(lx, rng, rng.randint(0, 8)) for _ in range(rng.randint(1, 5))])
    some(n, lambda: Lexer(b' :', rules(rng, rng.randint(1, 4), b' :', False)), 'words',
         lambda lx: [word_of(lx, rng) for _ in range(rng.randint(1, 8))])
    some(n, lambda: Lexer(rng.choice((b' ', b' :')), rules(rng, rng.randint(1, 3), b' :', True)), 'words that end in wildcards',
         lambda lx: [word_of(lx, rng) for _ in range(rng.randint(1, 8))], True)
    ck.parts['words_before_wildcards'] = {'all': SEEN[0], 'variables': SEEN[1]}
    return ck
