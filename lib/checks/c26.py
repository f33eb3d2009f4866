"""C26: parsers do not affect each other (ManyTrace.tla)."""
import copy

from logcheck import *

CON = 'SchOf <- TSchOf\nInpOf <- TInpOf\nAspects = {"toks", "types", "str", "done", "ts", "lt", "ml", "vars", "same", "line"}'


class Actor:
    """A parser with a schema of its own: how it is built, and its runs (input, calls or None, read plan)."""

    def __init__(self, sc, kind, runs, sizes=DEF, pipe=None):
        self.sc, self.kind, self.runs, self.sizes, self.pipe = sc, kind, runs, sizes, pipe
        self.source = False  # read by another one
        self.adds = False  # built by adding variables to a schema object

    def build(self, n, sch):
        if self.adds:
            lines = sch.text().encode('latin1').split(b'\n')
            f = ('%s.schema' % self.tag).encode().hex()
            return (['schemafile %s %s' % (f, b'\n'.join(lines[:2]).hex()), 'so.new o%d %s' % (n, f)]
                    + ['so.add o%d %s -1' % (n, x.hex()) for x in lines[2:]]
                    + ['so.toast o%d y%d' % (n, n), '%s.new x%d y%d' % (self.kind, n, n)])
        return [sch.script('x%d' % n).strip(), '%s.new x%d x%d' % (self.kind, n, n)]

    def work(self, n, threads=False):
        c = []
        size = [] if threads else ['sizes %d %d' % self.sizes]
        for inp, calls, plan in self.runs:
            h = inp.hex() or '-'
            if self.pipe is not None:
                c.append(size + ['rp.pipe x%d x%d %d' % (n, self.pipe, self.pipe)])
            elif self.kind == 'rp':
                c.append(size + ['rp.set x%d %s %s' % (n, h, plan)])
            else:
                c.append(size + ['bp.reset x%d' % n, 'bp.buf x%d %s' % (n, h)])
            if self.source:
                continue
            for _ in range(calls if calls is not None else 2 * inp.count(b'\n') + 1):
                c.append(size + ['%s.upto x%d' % (self.kind, n)])
            if calls is None:
                c.append(size + ['%s.finish x%d' % (self.kind, n)])
        return c


class Many:
    """Some actors, in turns in a random order, or each in a thread."""

    def __init__(self, actors, threads, rng, built='first'):
        self.actors, self.threads, self.built = actors, threads, built
        self.order = rng.random()

    def commands(self, schs, only=None):
        who = [n for n in range(1, len(self.actors) + 1) if only is None or n in only]
        c = []
        for n in who:
            a = self.actors[n - 1]
            c.append('%s.slot x%d' % (a.kind, n))
        steps = []
        for n in who:
            a = self.actors[n - 1]
            # (what makes up a schema, too, can be done in between)
            s = [[x] for x in a.build(n, schs[a.sc])] if self.built != 'first' or self.threads else []
            if not s:
                c += a.build(n, schs[a.sc])
            steps.append((n, s + a.work(n, self.threads)))
        if self.threads:
            c.append('par')
            for n, s in steps:
                c += ['as %d %s' % (n, x) for st in s for x in st]
            c.append('endpar')
            return c
        r = random.Random(self.order)
        first = [n for n, s in steps for _ in s if self.actors[n - 1].source]
        queue = [n for n, s in steps for _ in s if not self.actors[n - 1].source]
        k = r.random()
        if k < .8:
            r.shuffle(queue)
        queue = first + queue
        left = dict(steps)
        for n in queue:
            c += ['as %d %s' % (n, x) for x in left[n].pop(0)]
        return c

    def describe(self, schs, only=None):
        return {'parsers': [{'schema': schs[a.sc].text(), 'kind': a.kind, 'sizes': a.sizes, 'reads_from': a.pipe,
                             'runs': [{'input': repr(i)[:300], 'calls': n, 'reads': p[:80]} for i, n, p in a.runs]} for a in self.actors],
                'threads': self.threads, 'commands': [x[:2000] for x in self.commands(schs, only)]}


KEEP = BASE


def observe(ck, ms, only=None):
    cases = [(str(i), (), m.commands(ck.schs, only)) for i, m in enumerate(ms)]
    res = run_harness(ck.exe, cases, {}, limit=20)
    return [to_case(ck.schs, m, res[str(i)], only) for i, m in enumerate(ms)]


def to_case(schs, m, recs, only=None):
    end = recs[-1]['ev']
    if any(o['ev'] in ('escaped', 'throw') for o in recs):
        end = 'exception'
    who = [n for n in range(1, len(m.actors) + 1) if only is None or n in only]
    log = []
    for o in recs:
        if o['ev'] not in ('set', 'breset', 'next', 'bnext') or 'a' not in o:
            continue
        n = int(o['a'])
        if o['ev'] in ('set', 'breset'):
            log.append({'a': who.index(n) + 1, 'set': True, 'done': o['done']})
        else:
            t = tidy([o], known_names(schs[m.actors[n - 1].sc]))
            if t is None:
                end = 'malformed'
                continue
            log.append(dict({f: o[f] for f in KEEP if f in o}, a=who.index(n) + 1, set=False))
    if m.threads:
        log.sort(key=lambda o: o['a'])
    return {'acts': [{'sc': m.actors[n - 1].sc + 1, 'inps': [list(i) for i, _, _ in m.actors[n - 1].runs]} for n in who],
            'log': log, 'end': end}


def spoil(c, rng):
    d = copy.deepcopy(c)
    log = d['log']
    f = rng.choice(('swap', 'who', 'drop', 'event'))
    evs = [i for i, o in enumerate(log) if not o['set'] and o['rc'] == 'Success']
    if not evs:
        return None
    i = rng.choice(evs)
    if f == 'swap':
        js = [j for j in evs if log[j]['a'] != log[i]['a'] and log[j]['str'] != log[i]['str']]
        if not js:
            return None
        j = rng.choice(js)
        log[i], log[j] = dict(log[j], a=log[i]['a']), dict(log[i], a=log[j]['a'])
    elif f == 'who':
        other = [a for a in range(1, len(d['acts']) + 1) if a != log[i]['a']] if log[i]['done'] else []
        if not other:
            return None
        log[i]['a'] = rng.choice(other)
    elif f == 'drop':
        after = [o for o in log[i + 1:] if o['a'] == log[i]['a']]
        if not after or after[0]['set'] or after[0]['str'] == log[i]['str']:
            return None
        log.pop(i)
    elif log[i]['toks'] and log[i]['str']:
        log[i]['str'][-1] ^= 1
    else:
        return None
    return d


def alone(m):
    """The same parsers, but none reads from another."""
    n = copy.deepcopy(m)
    for a in n.actors:
        a.pipe, a.source = None, False
    return n


def own(c, a):
    return [{x: y for x, y in o.items() if x != 'a'} for o in c['log'] if o['a'] == a]


@guard
def main():
    r = random.Random('C26-%d' % SEED)
    schs = standard_schemas(r, 40 if THOROUGH else 14)
    ck = LogCheck('C26', schs, ('AST', 'SCHEMA', 'SC', 'SO', 'RP', 'BP'))
    rng = ck.rng

    def text(sc, n):
        return nosof(log_text(schs[sc], rng, rng.randint(1, n)))

    def actor(threads=False, sc=None):
        sc = rng.randrange(len(schs)) if sc is None else sc
        kind = rng.choice(('rp', 'rp', 'bp'))
        runs = []
        for _ in range(rng.choice((0, 0, 1, 2)) if not threads else 2):
            runs.append((text(sc, 12), rng.choice((0, 1, 1, 2, 3)), rand_plan(rng)))
        runs.append((text(sc, 25 if threads else 16), None, rand_plan(rng)))
        return Actor(sc, kind, runs, DEF if kind == 'bp' or threads else rand_sizes(rng))

    ms = []
    for _ in range(1500 if THOROUGH else 220):
        k = rng.random()
        if k < .5:
            acts = [actor() for _ in range(rng.randint(2, 4))]
        elif k < .7:  # of one schema
            sc = rng.randrange(len(schs))
            acts = [actor(sc=sc) for _ in range(rng.randint(2, 3))]
        else:  # one reads what the other returns
            a = actor()
            a.kind = 'rp'
            a.runs = [(text(a.sc, 14), None, rand_plan(rng))]
            b = actor()
            b.kind = 'rp'
            b.sizes = a.sizes
            b.runs = [(a.runs[0][0], None, '-1')]
            b.pipe = 1
            a.source = True
            acts = [a, b] + ([actor()] if rng.random() < .4 else [])
        for a in acts:
            a.adds = rng.random() < .2
            a.tag = 'c26-%d-%d' % (len(ms), acts.index(a))
        ms.append(Many(acts, False, rng, rng.choice(('first', 'between', 'between'))))
    for _ in range(600 if THOROUGH else 80):
        ms.append(Many([actor(True) for _ in range(rng.choice((2, 4, 8)))], True, rng))
    cases = observe(ck, ms)
    mut, src = [], []
    order = list(range(len(cases)))
    rng.shuffle(order)
    for i in order:
        d = spoil(cases[i], rng) if len(cases[i]['log']) < 60 else None
        if d is not None and len(mut) < 40:
            mut.append(d)
            src.append(i)
    rej = set(ck.traces('ManyTrace', cases + mut, CON, ck.sj))
    for j in range(len(mut)):
        if len(cases) + j not in rej and src[j] not in rej:
            log(json.dumps(mut[j])[:1500])
            raise Machinery('ManyTrace accepts a corrupted trace')
    ck.parts['corrupted_traces_rejected'] = len(mut)
    bad = sorted(i for i in rej if i < len(cases))
    ck.parts['rejected'] = len(bad)
    log('ManyTrace: %d histories, %d observations, %d rejected' % (len(ms), sum(len(c['log']) for c in cases), len(bad)))
    ck.validated(len(ms), len({json.dumps(m.describe(schs)) for m in ms}), [ms[3].describe(schs)])
    n = 0
    for i in bad[:12]:
        m, c = ms[i], cases[i]
        for a in range(1, len(m.actors) + 1):
            one = observe(ck, [alone(m)], [a])[0]
            if own(one, 1) != own(c, a) or (one['end'] == 'end') != (c['end'] == 'end'):
                d = m.describe(schs)
                d.update({'parser': a, 'together': own(c, a), 'alone': own(one, 1), 'end': c['end']})
                ck.violation('a parser (%d of %d%s) does not do what it does alone: schema %r'
                             % (a, len(m.actors), ', in threads' if m.threads else '', schs[m.actors[a - 1].sc].text()[:200]), d)
                n += 1
                break
        if n >= 3:
            break
    return ck
