"""C27: names and ids (Symbols.tla, MCSymbols.tla, SymbolTrace.tla)."""
import re

from history import *
from gen import *
from logcheck import guard, nosof

OWN = ['$end', '$UncaughtString', 'int', 'float', 'hex', 'firstTimestamp', 'newLineTimestamp', 'newLine']


def near(n, rng):
    return rng.choice((n[:-1], n + 'x', n + ' ', ' ' + n, n.upper(), n.lower(), n.capitalize(), n[1:], n + n, n[::-1]))


def history(kind, text, names, sch, rng, most=None):
    """A parser of that schema; questions before, between and after runs."""
    c = ['schema s %s' % text.encode('latin1').hex(), '%s.new x s' % kind]

    def ask(n):
        qs = []
        for _ in range(n):
            k = rng.random()
            qs.append(rng.choice(names) if k < .55 else rng.choice(OWN) if k < .7 else near(rng.choice(names + OWN), rng)
                      if k < .92 else rng.choice(('', 'timestamp', 'delimiters', 'x', '\n', 'newline', 'TokenEnd', '0', '8')))
        c.append('%s.ask x %s' % (kind, ' '.join(q.encode('latin1').hex() or '-' for q in qs)))
    c.append('%s.ask x %s' % (kind, ' '.join(q.encode().hex() for q in rng.sample(names, min(len(names), most or 400)))))
    ask(6)
    for _ in range(rng.randint(0, 3)):
        w = nosof(log_text(sch, rng, rng.randint(1, 14))) if sch else ' '.join(rng.sample(names, min(8, len(names)))).encode()
        if kind == 'rp':
            c.append('rp.set x %s -1' % (w.hex() or '-'))
        else:
            c += ['bp.reset x', 'bp.buf x %s' % (w.hex() or '-')]
        ask(2)
        for _ in range(rng.randint(1, 5)):
            c += ['%s.upto x' % kind, '%s.types x' % kind]
            if rng.random() < .3:
                ask(2)
    ask(6)

    def case(recs):
        obs = [{f: o[f] for f in ('ev', 'n', 'id', 'back') if f in o} for o in recs if o['ev'] in ('ask', 'type')]
        end = recs[-1]['ev']
        if any(o['ev'] in ('escaped', 'throw') for o in recs):
            end = 'exception'
        return {'vars': [n for n in names], 'obs': obs, 'end': end}
    return History(c, case)


def spoil(c, rng):
    if not c['obs']:
        return None
    o = rng.choice(c['obs'])
    if o['ev'] == 'type':
        o['n'] += 'x'
    elif o['id']:
        k = rng.random()
        if k < .4:
            o['back'] = [o['back'][0] + 'x']
        elif k < .7:
            o['id'], o['back'] = [], []
        elif o['n'] in OWN:
            o['id'] = [o['id'][0] + 1]
        else:
            o['id'] = [rng.randrange(8)]
    else:
        o['id'], o['back'] = [rng.randint(0, 9)], [o['n']]
    return c


def many(n, rng):
    """A schema of n variables whose names are alike."""
    names = []
    for i in range(n):
        names.append(rng.choice(('v%d', 'v%da', 'var%d', 'V%d', 'v%dv')) % i)
    rng.shuffle(names)
    return names, 'delimiters: \\n\n' + '\n'.join('%s:%s' % (x, x) for x in names)


@guard
def main():
    ck = HistoryCheck('C27', ('RP', 'BP'))
    rng = ck.rng
    cfg = 'CONSTANTS\nAlphabet = {"a", "b", "c", "int", "newLine", "timestamp", "$end"}\nMost = %d\nStale = %s\nSPECIFICATION Spec\nINVARIANTS Answers Dense\n'
    ck.model('MCSymbols', cfg % (5 if THOROUGH else 4, 'FALSE'), 'the table of symbols')
    rc, out, st = tlc('MCSymbols', cfg % (3, 'TRUE'))
    if rc != 12:
        raise Machinery('MCSymbols does not notice ids given twice')
    items = []
    schs = realistic() + small() + [random_schema(rng) for _ in range(300 if THOROUGH else 40)]
    for sch in schs:
        names = [n for n, _ in sch.rules]
        for kind in ('rp', 'bp'):
            items.append(history(kind, sch.text(), names, sch, rng))
    # names that are nearly those of the library
    for _ in range(60 if THOROUGH else 12):
        names = []
        while len(names) < 6:
            n = rng.choice(('timestamp', 'newLine', 'newLineTimestamp', 'firstTimestamp', 'int', 'float', 'hex', 'end'))
            n = rng.choice((near(n, rng), rng.choice('my_tD') + n, n + rng.choice('s1_T'), near(near(n, rng), rng))).strip()
            if re.fullmatch('[A-Za-z0-9]+', n) and n not in OWN + names + ['timestamp', 'delimiters']:
                names.append(n)
        text = 'delimiters: \\n\n' + '\n'.join('%s:%s' % (x, x.lower()) for x in names)
        items.append(history(rng.choice(('rp', 'bp')), text, names, None, rng))
    for n in (2, 30, 120, 300) + ((700,) if THOROUGH else ()):
        for kind in ('rp', 'bp'):
            names, text = many(n, rng)
            items.append(history(kind, text, names, None, rng))
    # the same name more than once, names of the library's own, long names
    for names in (['a', 'b', 'a', 'c', 'b', 'd'], ['int', 'a', 'hex', 'float', 'int'], ['timestamp', 'a', 'timestamp', 'b'],
                  ['a' * 300, 'a' * 299, 'a' * 301], ['A', 'a', 'aA', 'Aa', 'AA', 'aa'], ['x', 'x'], ['timestamp']):
        text = 'delimiters: \\n\n' + '\n'.join('%s:%s%d' % (x, 'k', i) for i, x in enumerate(names))
        for kind in ('rp', 'bp'):
            items.append(history(kind, text, names, None, rng))
    ck.histories('SymbolTrace', items, 'names and ids', spoil)
    return ck
