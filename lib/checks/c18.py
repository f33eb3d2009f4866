"""C18: the tagged NFA records the captures of a match (TagRegex.tla, TagNfa.tla)."""
import re

from autcheck import *

TAGS = 'SPECIFICATION Spec\nVIEW View\n'


def captures(e):
    if e[0] in 'co':
        return captures(e[1]) + captures(e[2])
    if e[0] in 'rm':
        return captures(e[1])
    if e[0] == 'k':
        return captures(e[2]) + [e[1]]
    return []


def tag_table(es):
    T = []
    roots = [table(e, T) for e in es]
    names = sorted({n for e in es for n in captures(e)})
    for nd in T:
        if nd['t'] == 'cap':
            nd['i'] = names.index(nd.pop('n')) + 1
    return T, roots, names


class Tagged:
    def __init__(self, exprs, how='nfadump', clone=0):
        self.exprs, self.how, self.clone = exprs, how, clone

    def commands(self):
        return (['ast.new s'] + ['ast.var s v%d %d %s' % (i, i, cmd(e)) for i, e in enumerate(self.exprs)] + ['ast.clone s'] * self.clone
                + [self.how + ' s'])

    def key(self):
        return repr(self.exprs) + self.how + ' cloned' * self.clone

    def describe(self):
        return {'expressions': [repr(e) for e in self.exprs], 'commands': self.commands()}

    def case(self, recs):
        """The case for TagNfa; None if the code did not deliver an NFA."""
        d = [o for o in recs if o['ev'] in ('nfa', 'nfadump')]
        if not d or not d[0].get('ok') or recs[-1]['ev'] != 'end':
            return None
        T, roots, names = tag_table(self.exprs)

        def tags(kind, s):
            m = re.fullmatch(r'(\d+)\[(.*)\]', s)
            ns = m.group(2).split(',')
            return [kind, [names.index(x) + 1 if x in names else 20 for x in ns], int(m.group(1))]
        try:
            if self.how == 'nfadump':
                nfa = [dict(s, tag=[tags(*t) for t in s['tag']]) for s in d[0]['nfa']]
            else:
                nfa = parse(d[0]['nfa'], tags)
        except (AttributeError, ValueError, IndexError):
            return None
        return {'T': T, 'roots': roots, 'ids': [100 + i for i in range(len(roots))], 'ncaps': len(names), 'nfa': nfa}


LINE = re.compile(r'(\d+):(?:accepting_tag=(\d+),)?byte_transitions=\{(.*)\},epsilon_transitions=\{(.*)\},'
                  r'positive_tagged_start_transitions=\{(.*)\},positive_tagged_end_transitions=\{(.*)\},'
                  r'negative_tagged_transition=\{(.*)\}')


def parse(text, tags):
    """The serialization as text (only for expressions over letters)."""
    nfa = []
    for i, line in enumerate(text.rstrip('\n').split('\n')):
        m = LINE.fullmatch(line)
        if int(m.group(1)) != i:
            raise ValueError
        by = {}
        for t in m.group(3).split(',') if m.group(3) else []:
            by.setdefault(ord(t[0]), []).append(int(t[4:]) + 1)
        tg = []
        for kind, s in zip('ocn', m.groups()[4:]):
            for t in re.findall(r'\d+\[[^\]]*\]', s):
                x = tags(kind, t)
                x[2] += 1
                tg.append(x)
        nfa.append({'acc': int(m.group(2)) if m.group(2) else -1,
                    'eps': [int(x) + 1 for x in m.group(4).split(',')] if m.group(4) else [],
                    'by': [[b, b, d] for b, d in sorted(by.items())], 'tag': tg})
    return nfa


def spoil(c, rng):
    """The same NFA with one mark, one end or one byte changed."""
    d = copy.deepcopy(c)
    for _ in range(20):
        s = rng.choice(d['nfa'])
        j = rng.randrange(4)
        if j == 0 and s['tag']:
            t = rng.choice(s['tag'])
            if t[0] == 'n' and len(t[1]) > 1:
                t[1] = t[1][1:]
            else:
                s['tag'].remove(t)
                s['eps'] = s['eps'] + [t[2]]
            return d
        if j == 1 and s['tag']:
            t = rng.choice(s['tag'])
            if t[1] == [20]:
                continue
            t[1] = [20]
            return d
        if j == 2 and s['acc'] >= 0:
            s['acc'] = -1
            return d
        if j == 3 and s['by']:
            s['by'] = []
            return d
    return None


@guard
def main():
    ck = AutoCheck('C18')
    rng = ck.rng
    leaves = [('l', 97), ('k', 'x', ('l', 97)), ('k', 'y', ('l', 98))]
    reps = [(0, -1), (1, -1), (0, 1), (2, 2), (1, 2), (0, 2)]
    small = [e for n in range(3) for e in all_exprs(n, leaves, reps)]
    js = []
    for e in (small if THOROUGH else rng.sample(small, 300)):
        T, (root,), names = tag_table([e])
        js.append({'T': T, 'root': root, 'alphabet': [97, 98], 'n': 9 if THOROUGH else 7, 'ncaps': len(names),
                   'once': len(set(captures(e))) == len(captures(e)) and "'r'" not in repr(e)})
    ck.model('MCTag', 'SPECIFICATION Spec\nINVARIANTS Nested Accounted Disjoint Projects\n',
             'captures nest and are accounted for (%d expressions)' % len(js), {'EXPRS': ndjson('exprs.ndjson', js)})
    items = [Tagged([e], how) for e in small for how in ('nfadump', 'nfa')]
    items += [Tagged([e], clone=1) for e in (small if THOROUGH else rng.sample(small, min(len(small), 500)))]
    if THOROUGH:
        items += [Tagged([e]) for e in rng.sample(all_exprs(3, leaves, reps), 20000)]
    n = 4000 if THOROUGH else 700
    while n:
        k = [0]
        es = [expr(rng, rng.randint(1, 5), b'ab1', caps=k) if rng.random() < .7 else caps_in(byte_expr(rng, rng.randint(1, 3)), rng, k)
              for _ in range(1 if rng.random() < .7 else 2)]
        es = [no_m(e) for e in es]
        if sum(size(e) for e in es) <= 36 and k[0] <= 9:
            items.append(Tagged(es, 'nfa' if all(text_safe(e) for e in es) and rng.random() < .5 else 'nfadump',
                                rng.choice((0, 0, 1, 2))))
            n -= 1
    res = ck.observe(items)
    cases = [it.case(r) for it, r in zip(items, res)]
    bad = [i for i, c in enumerate(cases) if c is None]
    good = [i for i, c in enumerate(cases) if c is not None]
    mut = [(i, spoil(cases[i], rng)) for i in rng.sample(good, min(150, len(good)))]
    mut = [(i, d) for i, d in mut if d]
    t = time.time()
    rej = ck.rejected('TagNfa', [cases[i] for i in good] + [d for _, d in mut], TAGS)
    bad += [good[i] for i in rej if i < len(good)]
    caught = len([i for i in rej if i >= len(good)])
    log('TagNfa: %d automata judged in %.1f s, %d rejected; %d of %d damaged ones rejected'
        % (len(good), time.time() - t, len(bad), caught, len(mut)))
    if caught * 3 < len(mut) * 2:
        raise Machinery('damaged automata are accepted')
    ck.parts['damaged_automata'] = len(mut)
    ck.parts['damaged_automata_rejected'] = caught
    ck.validated(len(items), len({it.key() for it in items}), [items[len(items) // 2].describe()])
    ck.parts['with_captures'] = sum(1 for it in items if any(captures(e) for e in it.exprs))
    n = 0
    for i in sorted(bad, key=lambda i: len(items[i].key()))[:6]:
        r = ck.observe([items[i]])[0]
        c = items[i].case(r)
        d = items[i].describe()
        if n < 3 and (c is None or ck.rejected('TagNfa', [c], TAGS)):
            d.update({'observed': c or r, 'tlc': ck.shortest('TagNfa', c, TAGS) if c else ''})
            ck.violation('the tagged NFA differs from the expression for %s' % items[i].key()[:300], d)
            n += 1
    if bad and not n:
        raise Machinery('rejected once but accepted when run again')
    return ck


def no_m(e):
    """A repetition from 0 that is built directly takes no alternative and marks nothing: left out here."""
    if e[0] in 'co':
        return (e[0], no_m(e[1]), no_m(e[2]))
    if e[0] in 'rm':
        return ('r', no_m(e[1]), e[2], e[3])
    if e[0] == 'k':
        return ('k', e[1], no_m(e[2]))
    return e


def caps_in(e, rng, k):
    """The expression with some parts captured."""
    if e[0] in 'co':
        e = (e[0], caps_in(e[1], rng, k), caps_in(e[2], rng, k))
    elif e[0] in 'rm':
        e = (e[0], caps_in(e[1], rng, k), e[2], e[3])
    if rng.random() < .3:
        k[0] += 1
        e = ('k', 'g%d' % k[0], e)
    return e


def text_safe(e):
    if e[0] in 'co':
        return text_safe(e[1]) and text_safe(e[2])
    if e[0] == 'r':
        return text_safe(e[1])
    if e[0] == 'k':
        return text_safe(e[2])
    if e[0] == 'l':
        return chr(e[1]).isalnum()
    if e[0] == 's':
        return not e[1] and all(chr(a).isalnum() and chr(b).isalnum() and b - a < 26 and b < 128 for a, b in e[2])
    return e[0] in 'de'
