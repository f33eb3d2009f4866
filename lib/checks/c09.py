"""C09: a parser is built from a schema exactly if no variable matches a delimiter (Delimiting.tla, BuildTrace.tla)."""
from schemacheck import *
from gen import realistic, random_schema, expr
from rx import *
import texts
from checks.c07 import DOC, big

CFG = 'SPECIFICATION Spec\n'


class Built:
    """A schema, as a text or as nodes, that a parser is built from."""

    def __init__(self, text=None, nodes=None, how='string'):
        self.text, self.nodes, self.how = text, nodes, how

    def key(self):
        return repr((self.text, self.nodes, self.how))

    def define(self):
        if self.text is not None:
            return ['schema s %s' % (self.text.hex() or '-')]
        delims, rules = self.nodes
        c = ['ast.new s'] + ['ast.delim s %s' % d.hex() for d in delims]
        return c + ['ast.var s %s %d %s' % (n, l, cmd(e)) for n, l, e in rules]

    def commands(self, i=0):
        if self.how == 'file':
            f = ('built-%s' % i).encode().hex()
            b = ['schemafile %s %s' % (f, self.text.hex() or '-'), 'schema.buildfile ' + f]
        else:
            b = self.define() + ['schema.build s']
        return b + self.define() + ['dfa s']

    def case(self, recs):
        d = [o for o in recs if o['ev'] == 'build']
        a = [o for o in recs if o['ev'] == 'dfa']
        r = {'kind': 'text', 'text': list(self.text)} if self.text is not None else {'kind': 'nodes', 'sch': self.sch()}
        r.update(end=recs[-1]['ev'] if len(d) == 1 and len(a) == 1 else 'nothing', ok=False, odd=False, msg=[], dfa=[])
        if r['end'] == 'end':
            r['ok'], r['odd'] = bool(d[0].get('ok')), bool(d[0].get('odd'))
            r['msg'] = d[0].get('what', [])
            if bool(a[0].get('ok')) != r['ok']:
                r['end'] = 'inconsistent'
            if r['ok']:
                r['dfa'] = a[0].get('dfa', [])
        return r

    def sch(self):
        delims, rules = self.nodes
        T = []
        vs = [{'n': list(n.encode()), 'l': l + 1, 'root': table(e, T)} for n, l, e in rules]
        return {'delims': [list(d) for d in delims], 'T': T, 'vars': vs}

    def describe(self):
        return {'schema': repr(self.text if self.text is not None else self.nodes), 'how': self.how, 'commands': self.commands()}


def spoil(c, rng):
    d = copy.deepcopy(c)
    k = rng.randrange(3)
    if d['ok']:
        if k == 0 or len(d['dfa']) < 2:
            d['ok'], d['dfa'], d['msg'] = False, [], list(b":1:'x' ' '")
            return d
        # a variable that goes on after a delimiter
        names = [x for s in d['dfa'] for x in s['ty'] if x not in ('newLine', 'firstTimestamp', 'newLineTimestamp')]
        at = [s for s in d['dfa'] if any(x in names for x in s['ty'])]
        if not at:
            return None
        s = rng.choice(at)
        i = d['dfa'].index(s) + 1
        s['tr'] = [[a, b, i] for a, b, _ in s['tr']]
        return d
    if not d['msg']:
        return None
    if k == 0:
        d['ok'] = True
    elif k == 1 and b':' in bytes(d['msg']):
        d['msg'] = [c for c in d['msg'] if not 48 <= c <= 57]
    else:
        d['msg'] = [c for c in d['msg'] if c != 39]
    return d


def probes(rng):
    """Schemas about what contains a delimiter and what does not."""
    out = []
    D = b'delimiters: \\n:,'
    for p in (b'.', b'.*', b'a.b', b'[^ ]', b'[^ \\n:,]', b'[^ \\n:,]*', b'[^ \\n:]', b'\\s', b'\\d', b'[\\s]', b'[^\\s:,]', b'[^\\s]', b' {0}a', b'( a){0}b',
              b'a{2}', b'(a:){0,2}', b'(a){0,2}', b'(?<x>a:)', b'(?<x>a)', b'a|:', b'a|(b|:)', b'[!-~]', b'[a-z]', b'[!-\\-]', b'[;-~]', b'a\\n', b'\\t', b'[^\\d]',
              b'(.)*', b'(.|:)', b'(?<x>.*)', b'.{0,3}', b'(a(b(c(:))))'):
        for l in (b'v:%s\n' + D, D + b'\nv:%s', b'a:b\n//c\n  v:%s\n' + D, D + b'\ntimestamp:%s', D + b'\nok:x\nv:%s\nw:%s'):
            out.append(l.replace(b'%s', p))
    for e in (b'v:a:b\ndelimiters: \ndelimiters::', b'v:a:b\ndelimiters::\ndelimiters: ', b'delimiters:a\nv:a\ndelimiters: ', b'v:a', b'', b'//x', b'timestamp:a',
              b'delimiters:a', b'delimiters:a\nv:a', b'delimiters:aaa\nv:ba', b'delimiters:\\\\\nv:\\\\', b'delimiters:(\\()\nv:\\)', b'delimiters:0\nv:\\d', b'delimiters:0\nv:[1-9]'):
        out.append(e)
    return out


def nodes(rng):
    bs = list(range(256)) if rng.random() < .3 else list(b'ab1 :\n') + [200, 255]
    bs = [b for b in bs if b != 253]

    def d():
        return bytes(rng.choice(bs) for _ in range(rng.randint(1, 4)))
    ds = [d() for _ in range(rng.choice((0, 1, 1, 1, 1, 2, 3)))]
    rules = []
    for i in range(rng.randint(0, 4)):
        al = [b for b in bs if rng.random() < .1 or not any(b in x for x in ds)] or bs
        e = expr(rng, rng.randint(0, 3), bytes(al), caps=[i * 10])
        if rng.random() < .3:
            rg = tuple(sorted((a, min(255, a + rng.randint(0, 3))) for a in rng.sample(al, min(len(al), rng.randint(1, 3)))))
            e = ('c', e, ('s', rng.random() < .5, rg))
        rules.append((rng.choice(('v', 'w', 'x', 'timestamp')), rng.randint(0, 120), e))
    return ds, rules


def random_text(rng):
    ls = []
    # delimiters that patterns don't often contain
    pool = rng.choice((b' ', b'~!', b'`', b'_\'"', b'z', b':,', b'abc'))

    def dl():
        return b'delimiters:' + bytes(rng.choice(pool) for _ in range(rng.randint(1, 3))) + rng.choice((b'', b'\\n', b'\\r\\n', b'\\t'))
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        ls.append(b'timestamp:' + texts.pattern(rng, 1) if k < .1 else texts.comment(rng) if k < .2 else texts.rule(rng, rng.choice((0, 1, 1, 2))))
    for _ in range(rng.choice((0, 1, 1, 1, 1, 1, 2))):
        ls.insert(rng.randint(0, len(ls)), dl())
    return rng.choice((b'\n', b'\n', b'\r\n', b'\n\n')).join(ls) + rng.choice((b'', b'\n'))


def wildcards(rng):
    """Delimiters close to each other, and wildcards in all kinds of places."""
    a = rng.randrange(32, 121)
    ds = [c for c in range(a, a + 7) if rng.random() < .5] or [a]
    rng.shuffle(ds)
    x = bytes([rng.choice([c for c in range(97, 123) if c not in ds])])
    ps = [b'.', b'x.', b'.x', b'.*', b'x.+x', b'.{2}', b'.{0,1}x', b'x{1,2}.{2,3}', b'(x.){1,2}', b'(.x)*', b'x|(.)', b'.x|(.)', b'(?<q>.)', b'(?<q>x.)(?<r>.x)', b'(?<q>.)|x', b'((.))x', b'(.|x)x', b'(?<q>(?<r>.)x)*']
    ls = [b'v%d:' % i + rng.choice(ps).replace(b'q', b'q%d' % i).replace(b'r', b'r%d' % i).replace(b'x', x) for i in range(rng.choice((1, 1, 2)))]
    if rng.random() < .2:
        ls.append(b'timestamp:' + rng.choice((b'..', b'x.*y', b'.x{2}')))
    d = b'delimiters:' + b''.join(lit_text(c).encode('latin1') for c in ds) + rng.choice((b'\\n', b'\\n', b'\\t\\n', b''))
    ls.insert(rng.randint(0, len(ls)), d)
    return b'\n'.join(ls)


@guard
def main():
    ck = SchemaCheck('C09')
    rng = ck.rng
    # what "can match a delimiter" means
    ex = []
    for _ in range(3000 if THOROUGH else 300):
        e = expr(rng, rng.randint(1, 3), b'ab', caps=[0])
        if rng.random() < .3:
            e = ('c', e, ('r', ('l', 97), 0, 0)) if rng.random() < .5 else ('c', ('s', True, ((0, 255),)), e)
        T = []
        r = table(e, T)
        ex.append({'T': T, 'root': r, 'c': 97, 'alphabet': [97, 98, 49, 99], 'nodot': rng.choice(([97], [97, 99], [])), 'n': 7})
    ex = [x for x in ex if shortest_hit(x['T'], x['root']) <= 5]
    for x in ex:
        x['n'] = shortest_hit(x['T'], x['root'])
    ck.model('MCDelimiting', 'SPECIFICATION Spec\nINVARIANTS Exact Weaker\n', 'an expression contains a byte exactly if it matches a word with it',
             {'EXPRS': ndjson('exprs.ndjson', ex)})
    items = []
    for t in probes(rng):
        items += [Built(t), Built(t, how='file')] if rng.random() < .3 else [Built(t)]
    items.append(Built(DOC))
    items += [Built(s.text().encode('latin1'), how=rng.choice(('string', 'file'))) for s in realistic()]
    cand = [random_text(rng) for _ in range(12000 if THOROUGH else 1500)]
    cand = [t for t in cand if all(len(x) < 70 and x.count(b'{') < 4 for x in t.split(b'\n'))]
    good = [c['ok'] for c in ck.outcomes([Text(t) for t in cand], 'candidates')]
    items += [Built(t, how=rng.choice(('string', 'string', 'file'))) for t, ok in zip(cand, good) if ok]
    items += [Built(wildcards(rng)) for _ in range(3000 if THOROUGH else 250)]
    items += [Built(nodes=nodes(rng)) for _ in range(8000 if THOROUGH else 1000)]
    items += [Built(random_schema(rng, nullable=True).text().encode('latin1')) for _ in range(1000 if THOROUGH else 100)]
    t = time.time()
    res = run_harness(ck.exe, [(str(i), (), it.commands(i)) for i, it in enumerate(items)])
    cases = [it.case(res[str(i)]) for i, it in enumerate(items)]
    mut = [m for m in (spoil(cases[i], rng) for i in rng.sample(range(len(cases)), 150)) if m]
    bad = []
    caught = 0
    B = 4000
    for a in range(0, len(cases), B):
        cs = cases[a:a + B]
        rej = ck.rejected('BuildTrace', cs + (mut if a == 0 else []), CFG)
        bad += [a + i for i in rej if i < len(cs)]
        caught += len([i for i in rej if i >= len(cs)])
    if caught < len(mut) * .8:
        raise Machinery('BuildTrace accepts corrupted outcomes: %d of %d' % (len(mut) - caught, len(mut)))
    ck.parts['corrupted_outcomes_rejected'] = '%d of %d' % (caught, len(mut))
    built = sum(1 for c in cases if c['ok'])
    log('BuildTrace: %d schemas (%d parsers built), %.1f s: %d differ' % (len(items), built, time.time() - t, len(bad)))
    ck.parts['schemas'] = {'schemas': len(items), 'built': built, 'refused': len(items) - built}
    ck.validated(len(items), len({it.key() for it in items}), [items[len(items) // 2].describe()])
    n = 0
    for i in sorted(bad, key=lambda i: len(items[i].key()))[:6]:
        rec = run_harness(ck.exe, [('0', (), items[i].commands())])['0']
        c = items[i].case(rec)
        if n < 3 and ck.rejected('BuildTrace', [c], CFG):
            d = items[i].describe()
            d.update(observed={k: v for k, v in c.items() if k != 'dfa'}, said=bytes(c['msg']).decode('latin1'), tlc=ck.shortest('BuildTrace', c, CFG))
            ck.violation('building a parser from %s does not end as specified' % items[i].key()[:300], d)
            n += 1
    if bad and not n:
        raise Machinery('rejected once but accepted when run again')
    # the lexers of those that were built
    lex = []
    for i, it in enumerate(items):
        if cases[i]['ok'] and it.text is not None and it.how == 'string' and all(big(x) <= 40 for x in it.text.split(b'\n')):
            o = [o for o in res[str(i)] if o['ev'] == 'dfa'][0]
            lex.append((i, {'kind': 'lexer', 'text': cases[i]['text'], 'names': names_of(it.text), 'isd': o['isd'], 'isf': o['isf'], 'dfa': o['dfa']}))
    t = time.time()
    rej = ck.rejected('RegexEquiv', [c for _, c in lex], EQUIV)
    log('RegexEquiv: %d lexers, %d states, %.1f s: %d differ' % (len(lex), sum(len(c['dfa']) for _, c in lex), time.time() - t, len(rej)))
    ck.parts['lexers'] = {'lexers': len(lex), 'states': sum(len(c['dfa']) for _, c in lex)}
    for j in rej[:3]:
        i, c = lex[j]
        d = items[i].describe()
        d['tlc'] = ck.shortest('RegexEquiv', c, EQUIV)
        ck.violation('the lexer built from %s does not have its delimiters and rules' % items[i].key()[:300], d)
    return ck


def names_of(text):
    r = []
    for l in text.replace(b'\r', b'').split(b'\n'):
        l = l.lstrip(b' ')
        if l and not l.startswith(b'//') and not l.startswith(b'delimiters:'):
            r.append(l.split(b':')[0].decode('latin1'))
    return r


def shortest_hit(T, root):
    """A word that shows that the expression contains a byte needs no more bytes than this."""
    n = T[root - 1]
    if n['t'] == 'eps':
        return 0
    if n['t'] in ('set', 'dot'):
        return 1
    if n['t'] in ('cat', 'or'):
        a, b = shortest_hit(T, n['a']), shortest_hit(T, n['b'])
        return a + b if n['t'] == 'cat' else max(a, b)
    if n['t'] == 'rep':
        return shortest_hit(T, n['a']) * max(1, n['lo'])
    return shortest_hit(T, n['a'])


if __name__ == '__main__':
    main()
