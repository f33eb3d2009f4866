"""C20: a schema built in code holds the rules that were added, in order (SchemaBuild.tla)."""
from schemacheck import *
from gen import random_schema
import texts
from checks.c07 import big


class Building:
    """Operations on two Schema objects, the last one a release; how: what is made of what it takes out."""

    def __init__(self, ops, how):
        self.ops, self.how = ops, how

    def key(self):
        return repr((self.ops, self.how))

    def commands(self, i=0):
        c = []
        for j, o in enumerate(self.ops):
            if o[0] == 'new':
                c.append('sc.new %d' % o[1])
            elif o[0] == 'load':
                f = ('sc-%s-%d' % (i, j)).encode().hex()
                if o[2] is not None:
                    c.append('schemafile %s %s' % (f, o[2].hex() or '-'))
                c.append('sc.load %d %s' % (o[1], f))
            elif o[0] == 'add':
                c.append('sc.add %d %s %d' % (o[1], o[2].hex() or '-', o[3]))
            else:
                c.append('sc.release %d a%d' % (o[1], j))
        return c + ['%s a%d' % (self.how, len(self.ops) - 1)]

    def case(self, recs):
        d = [o for o in recs if o['ev'] == 'sc']
        ops = []
        for o, r in zip(self.ops, d):
            x = dict(zip(('op', 's', 'text', 'prio'), (o[0], o[1], [], -1)))
            x.update(missing=False, ok=bool(r.get('ok')), odd=bool(r.get('odd')), delims=[], vars=[])
            if o[0] in ('load', 'add'):
                x['text'], x['missing'] = list(o[2] or b''), o[2] is None
            if o[0] == 'add':
                x['prio'] = o[3]
            if o[0] == 'release':
                x['delims'] = r['delims']
                x['vars'] = [{'n': list(v['n'].encode('latin1')), 'l': v['l']} for v in r['vars']]
            if r['op'] != o[0]:
                x['odd'] = True
            ops.append(x)
        return {'ops': ops, 'end': recs[-1]['ev'] if len(ops) == len(self.ops) else 'nothing'}

    def describe(self):
        return {'operations': repr(self.ops), 'how': self.how, 'commands': self.commands()}


def spoil(c, rng):
    d = copy.deepcopy(c)
    rel = [o for o in d['ops'] if o['op'] == 'release' and o['vars']]
    k = rng.randrange(4)
    if k == 0 or not rel:
        o = rng.choice(d['ops'])
        o['ok'] = not o['ok']
        return d
    o = rng.choice(rel)
    if k == 1:
        o['vars'].append(o['vars'][0])
    elif k == 2:
        rng.choice(o['vars'])['l'] += 1
    elif o['vars'] != o['vars'][::-1]:
        o['vars'].reverse()
    else:
        o['vars'].pop()
    return d


def random_building(rng, number):
    """A history; which texts are well-formed is the specification's business, except that priorities stay in range."""
    size = [0, 0]
    made = [False, False]
    ops = []
    n = [number * 100]

    def rule():
        n[0] += 1
        return b'%s:%s' % (rng.choice((b'v%d' % n[0], b'v%d' % n[0], b'same', b'timestamp')), texts.pattern(rng, rng.choice((0, 0, 1, 1, 2))))

    def text():
        k = rng.random()
        if k < .7:
            return rule()
        if k < .78:
            return rng.choice((b'\n', b'\r\n')).join(rule() for _ in range(rng.randint(2, 3)))
        if k < .84:
            return b'//' + b'comment\n' * rng.randint(1, 2) + rule()
        if k < .88:
            return b'delimiters: :\n' + rule() + rng.choice((b'', b'\n', b'\r\n'))
        return rng.choice((b'', b'//nothing', b'delimiters:ab', b'\n', b'x', b'x:', b'v:(a', b'v:a\nw', b'v:a{2,1}', b'v:[z-a]', texts.broken(rng, rule())))
    while len(ops) < 12:
        s = rng.choice((0, 0, 0, 1))
        k = rng.random()
        if not made[s]:
            if rng.random() < .5:
                ops.append(('new', s))
                size[s] = 0
                made[s] = True
            else:
                # (a file that is not a schema leaves no object)
                t = rng.choice((b'delimiters: \\n:,\n', b'// c\ndelimiters: \\n\n', b'')) + b'\n'.join(rule() for _ in range(rng.randint(1, 3)))
                ops.append(('load', s, rng.choice((t, t, t, t, None, b'a:('))))
                ops.append(('?', s))
        elif k < .75:
            ops.append(('add', s, text(), None))
        elif k < .85:
            ops.append(('release', s))
        elif k < .9 and len(ops) > 4:
            break
        elif k < .93:
            made[s] = False
        else:
            ops.append(('add', 1 - s, text(), None) if made[1 - s] else ('add', s, text(), None))
        if ops and ops[-1][0] == '?':
            ops.pop()
            made[s] = True
    live = [s for s in (0, 1) if made[s]] or None
    if live is None:
        ops.append(('new', 0))
        live = [0]
    ops.append(('release', rng.choice(live)))
    return ops


def settle(ck, histories):
    """Histories with priorities in range, on objects that exist.  (Which texts are schemas is asked of the code, and judged.)"""
    rng = ck.rng
    all_texts = sorted({o[2] for h in histories for o in h if o[0] in ('load', 'add') and o[2] is not None})
    all_texts = [t for t in all_texts if not re.search(rb'\d{9}', t)]
    cases = ck.outcomes([Text(t) for t in all_texts], 'texts to be added')
    n = {t: len(c['vars']) if c['ok'] else -1 for t, c in zip(all_texts, cases)}
    out = []
    for h in histories:
        size, made, r = [0, 0], [False, False], []
        for o in h:
            s = o[1]
            if o[0] == 'new':
                size[s], made[s] = 0, True
            elif o[0] == 'load':
                if o[2] is not None and o[2] not in n:
                    continue
                if o[2] is not None and n[o[2]] >= 0:
                    size[s], made[s] = n[o[2]], True
            elif not made[s]:
                continue
            elif o[0] == 'add':
                if o[2] not in n:
                    continue
                o = (o[0], s, o[2], rng.choice((-1, -1, 0, rng.randint(0, size[s]), size[s])))
                size[s] += 1 if n[o[2]] > 0 else 0
            else:
                size[s] = 0
            r.append(o)
        while r and r[-1][0] != 'release':
            r.pop()
        if r:
            out.append(r)
    return out


@guard
def main():
    ck = SchemaCheck('C20', ('AST', 'DFA', 'SCHEMA', 'SC'))
    rng = ck.rng
    conf = {'lines': [list(x) for x in (b'a:b', b'b:(a|c)+', b'a:(?<x>b){2}')], 'others': [list(x) for x in (b'', b'//c', b'a', b'delimiters:x')],
            'first': [list(x) for x in (b'x:a', b'y:[^b]')]}
    ck.model('MCSchemaBuild', 'CONSTANT N = %d\nSPECIFICATION Spec\nINVARIANTS SameAsText EmptyAsNew\n' % (6 if THOROUGH else 4),
             'schemas built in code mean what the text with their lines means', {'CONF': ndjson('conf.ndjson', [conf])})
    hs = [random_building(rng, i) for i in range(6000 if THOROUGH else 700)]
    # every way to put three rules in order
    for a in (-1, 0):
        for b in (-1, 0, 1):
            for c in (-1, 0, 1, 2):
                hs.append([('new', 0), ('add', 0, b'one:a', a), ('add', 0, b'two:b', b), ('add', 0, b'three:c', c), ('release', 0)])
    fixed = hs[-24:]
    hs = settle(ck, hs[:-24]) + fixed
    items = []
    for h in hs:
        items.append(Building(h, rng.choice(('rdfas', 'dfa'))))
    # small enough, with delimiters that occur nowhere else
    for i in range(1500 if THOROUGH else 150):
        s = random_schema(rng, nullable=True)
        ls = s.text().encode('latin1').split(b'\n')
        rules = ls[1:]
        place, ops = [], [('load', 0, ls[0])]
        for r in rules:
            p = rng.choice((-1, 0, rng.randint(0, len(place))))
            place.append(r)
            ops.append(('add', 0, r, p))
        items.append(Building(ops + [('release', 0)], 'dfa'))
    t = time.time()
    res = run_harness(ck.exe, [(str(i), (), it.commands(i)) for i, it in enumerate(items)])
    cases = [it.case(res[str(i)]) for i, it in enumerate(items)]
    mut = [m for m in (spoil(cases[i], rng) for i in rng.sample(range(len(cases)), 100)) if m]
    rej = set(ck.traces('SchemaBuildTrace', cases + mut))
    if any(len(cases) + j not in rej for j in range(len(mut))):
        raise Machinery('SchemaBuildTrace accepts a corrupted history')
    ck.parts['corrupted_histories_rejected'] = len(mut)
    bad = sorted(i for i in rej if i < len(cases))
    log('SchemaBuildTrace: %d histories, %.1f s: %d differ' % (len(items), time.time() - t, len(bad)))
    ck.parts['operations'] = {x: sum(1 for c in cases for o in c['ops'] if o['op'] == x) for x in ('new', 'load', 'add', 'release')}
    ck.parts['operations']['failed'] = sum(1 for c in cases for o in c['ops'] if not o['ok'])
    ck.validated(len(items), len({it.key() for it in items}), [items[len(items) // 2].describe()])
    n = 0
    for i in sorted(bad, key=lambda i: len(items[i].key()))[:6]:
        c = items[i].case(run_harness(ck.exe, [('0', (), items[i].commands())])['0'])
        if n < 3 and ck.traces('SchemaBuildTrace', [c]):
            d = items[i].describe()
            d.update(observed=c, tlc=ck.explain('SchemaBuildTrace', c))
            ck.violation('the schema built by %s is not the one specified' % items[i].key()[:400], d)
            n += 1
    if bad and not n:
        raise Machinery('rejected once but accepted when run again')
    # what the rules mean, and the parsers built from them
    eq = []
    for i, it in enumerate(items):
        c = cases[i]
        if i in rej or any(big(x) > 40 for o in c['ops'] for x in bytes(o['text']).split(b'\n')):
            continue
        ops = [{x: o[x] for x in ('op', 's', 'text', 'prio', 'missing')} for o in c['ops']]
        names = [bytes(v['n']).decode('latin1') for v in c['ops'][-1]['vars']]
        if it.how == 'rdfas':
            d = [o for o in res[str(i)] if o['ev'] == 'rdfa']
            if len(d) != len(names):
                raise Machinery('not every rule was dumped')
            eq += [(i, {'kind': 'part', 'ops': ops, 'part': j + 1, 'dfa': [dict(s, ty=[str(x) for x in s['ty']]) for s in o['dfa']]}) for j, o in enumerate(d)]
        else:
            o = [o for o in res[str(i)] if o['ev'] == 'dfa'][0]
            if o.get('ok'):
                eq.append((i, {'kind': 'built', 'ops': ops, 'names': names, 'isd': o['isd'], 'isf': o['isf'], 'dfa': o['dfa']}))
    t = time.time()
    B = 3000
    diff = []
    for a in range(0, len(eq), B):
        diff += [a + j for j in ck.rejected('RegexEquiv', [c for _, c in eq[a:a + B]], EQUIV)]
    lex = sum(1 for _, c in eq if c['kind'] == 'built')
    log('RegexEquiv: %d rules and %d lexers of schemas built in code, %.1f s: %d differ' % (len(eq) - lex, lex, time.time() - t, len(diff)))
    ck.parts['rules_compared'], ck.parts['lexers_compared'] = len(eq) - lex, lex
    for j in diff[:3]:
        i, c = eq[j]
        d = items[i].describe()
        d['tlc'] = ck.shortest('RegexEquiv', c, EQUIV)
        ck.violation('the rules of the schema built by %s do not mean what their texts say' % items[i].key()[:400], d)
    return ck
