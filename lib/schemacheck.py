"""Checks over schema texts: what the real schema parser makes of them, judged by SchemaText.tla."""
import copy

import texts
from autcheck import *

PARSE = ''
NAMES = re.compile(rb'Schema:(\d+):(\d+): error')


class Text:
    """A text offered as a schema, as a string or in a file; sizes: of the parser's input buffer."""

    def __init__(self, text, how='string', size=0, lines=None, missing=None):
        self.text, self.how, self.size, self.lines, self.missing = text, how, size, lines, missing

    def key(self):
        return repr((self.text, self.how, self.size))

    def commands(self, i=0):
        c = ['sizes %d 0' % self.size] if self.size else []
        if self.how == 'string':
            return c + ['schema s %s' % (self.text.hex() or '-'), 'schema.parse s']
        f = ('text-%s' % i).encode().hex()
        if self.missing == 'dir':
            return c + ['mkdir ' + f, 'schema.parsefile ' + f]
        return c + ([] if self.missing else ['schemafile %s %s' % (f, self.text.hex() or '-')]) + ['schema.parsefile ' + f]

    def case(self, recs):
        d = [o for o in recs if o['ev'] == 'schema']
        r = {'text': list(self.text), 'end': recs[-1]['ev'], 'ok': False, 'odd': False, 'line': -1, 'col': -1,
             'delims': [], 'vars': [], 'missing': bool(self.missing)}
        if len(d) != 1:
            r['end'] = 'nothing' if r['end'] == 'end' else r['end']
            return r
        o = d[0]
        if o.get('ok'):
            r.update(ok=True, delims=o['delims'], vars=[{'n': list(v['n'].encode('latin1')), 'l': v['l']} for v in o['vars']])
        else:
            r['odd'] = bool(o.get('odd'))
            m = NAMES.match(bytes(o['what']))
            if m:
                r['line'], r['col'] = int(m.group(1)), int(m.group(2))
        return r


def spoil(c, rng):
    """Another outcome than the observed one."""
    d = copy.deepcopy(c)
    if d['ok']:
        k = rng.randrange(5)
        if k == 0:
            d['ok'] = False
        elif k == 1 and d['vars']:
            rng.choice(d['vars'])['l'] += 1
        elif k == 2 and d['vars']:
            d['vars'].pop()
        elif k == 3 and d['delims']:
            d['delims'][-1].append(32)
        elif k == 4 and d['vars'] and len(d['vars'][0]['n']) > 1:
            d['vars'][0]['n'].pop()
        else:
            return None
    elif d['line'] > 0:
        if rng.random() < .5:
            d['line'] += rng.choice((1, -1))
        else:
            d['col'] += rng.choice((1, -1))
    else:
        d['ok'] = True
    return d


class SchemaCheck(AutoCheck):
    def __init__(self, pid, parts=('AST', 'DFA', 'SCHEMA')):
        super().__init__(pid, parts)

    def texts_model(self, n):
        confs = [('', 'a:\n\r/ K'), ('a:', 'ab(|)*'), ('a:', 'a[]^-b'), ('a:', 'a{1,2}('), ('a:', '\\dsn[]-'),
                 ('a:', '(?<a>)|'), ('K:', 'a(\\)b\n'), ('a:', 'a[(b)]-')]

        def syms(s):
            return [-2 if c == 'K' else ord(c) for c in s]
        self.model('MCSchemaText', 'CONSTANT N = %d\nSPECIFICATION Spec\nINVARIANTS SameTexts Viable Dead SameMeaning SameDelims\n' % n,
                   'the text machine reads the schemas of the declarative grammar, with their meaning',
                   {'CONF': ndjson('conf.ndjson', [{'begin': syms(b), 'alphabet': syms(a)} for b, a in confs])})

    def outcomes(self, items, what, batch=20000):
        """Outcome of parsing each text."""
        t = time.time()
        res = run_harness(self.exe, [(str(i), (), it.commands(i)) for i, it in enumerate(items)])
        cases = [it.case(res[str(i)]) for i, it in enumerate(items)]
        t1 = time.time()
        bad = []
        for a in range(0, len(cases), batch):
            cs = cases[a:a + batch]
            mut = []
            for i in self.rng.sample(range(len(cs)), min(100, len(cs))):
                d = spoil(cs[i], self.rng)
                if d:
                    mut.append((i, d))
            rej = set(self.traces('SchemaTrace', cs + [d for _, d in mut]))
            for j, (i, d) in enumerate(mut):
                # a text without a meaning that also breaks off may be reported either way
                if len(cs) + j not in rej and i not in rej:
                    log(json.dumps(d)[:2000])
                    raise Machinery('SchemaTrace accepts a corrupted outcome')
            self.parts['corrupted_outcomes_rejected'] = self.parts.get('corrupted_outcomes_rejected', 0) + len(mut)
            bad += [a + i for i in rej if i < len(cs)]
        ok = sum(1 for c in cases if c['ok'])
        log('SchemaTrace: %s: %d texts (%d accepted, %d rejected with a position) run in %.1f s, judged in %.1f s, %d differ'
            % (what, len(items), ok, sum(1 for c in cases if c['line'] > 0), t1 - t, time.time() - t1, len(bad)))
        self.parts.setdefault('texts', []).append({'what': what, 'texts': len(items), 'accepted_by_the_code': ok,
                                                   'rejected_with_position': sum(1 for c in cases if c['line'] > 0)})
        self.validated(len(items), len({it.key() for it in items}), [{'text': repr(items[len(items) // 2].text)}])
        n = 0
        for i in sorted(bad, key=lambda i: len(items[i].text))[:6]:
            it = items[i]
            rec = run_harness(self.exe, [('0', (), it.commands())])['0']
            c = it.case(rec)
            if n < 3 and self.traces('SchemaTrace', [c]):
                for o in rec:
                    if 'what' in o:
                        o['what'] = bytes(o['what']).decode('latin1')
                self.violation('the schema text %r (%s) is not treated as specified' % (it.text[:200], it.how),
                               {'text': repr(it.text), 'commands': it.commands(), 'observed': rec, 'tlc': self.explain('SchemaTrace', c)})
                n += 1
        if bad and not n:
            raise Machinery('rejected once but accepted when run again')
        return cases
