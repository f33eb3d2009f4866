"""Checks over automata: the real code's automata are dumped and TLC compares them with Regex.tla."""
import copy

from logcheck import *

EQUIV = 'SPECIFICATION Spec\nVIEW View\n'


class Auto:
    """Expressions (kind 'rules') or a schema (kind 'schema') whose automaton is compared."""

    def __init__(self, kind, exprs=None, schema=None, built='ast'):
        self.kind, self.exprs, self.schema, self.built = kind, exprs, schema, built

    def commands(self):
        if self.kind == 'rules':
            return ['ast.new s'] + ['ast.var s v%d %d %s' % (i, i, cmd(e)) for i, e in enumerate(self.exprs)] + ['rdfa s']
        s = self.schema.ast_script('s') if self.built == 'ast' else self.schema.script('s')
        return s.rstrip('\n').split('\n') + ['dfa s']

    def case(self, rec):
        if self.kind == 'rules':
            T = []
            roots = [table(e, T) for e in self.exprs]
            return {'kind': 'rules', 'T': T, 'roots': roots, 'ids': [str(100 + i) for i in range(len(roots))],
                    'dfa': [dict(s, ty=[str(x) for x in s['ty']]) for s in rec['dfa']]}
        j = self.schema.json()
        del j['nb']
        j['nb'] = []
        return {'kind': 'schema', 'sch': j, 'isd': rec['isd'], 'isf': rec['isf'], 'dfa': rec['dfa']}

    def describe(self):
        if self.kind == 'rules':
            return {'expressions': [repr(e) for e in self.exprs], 'commands': self.commands()}
        return {'schema': self.schema.text() if self.built != 'ast' else repr(self.schema.rules), 'commands': self.commands()}

    def key(self):
        return repr((self.kind, self.exprs, self.schema and (self.schema.delims, self.schema.rules), self.built))


def damaged(c, rng):
    """The same automaton with one transition or one reported name changed; None if nothing to change."""
    d = copy.deepcopy(c)
    s = rng.choice(d['dfa'])
    if rng.random() < .5 and len(d['dfa']) > 1:
        t = rng.choice(s['tr'])
        if t[2]:
            # a target that accepts nothing or something else
            t[2] = 0
            return d
        return None
    if s['ty']:
        s['ty'] = s['ty'][1:]
        s['acc'] = bool(s['ty'])
        return d
    return None


class AutoCheck(Check):
    def __init__(self, pid, parts=('AST', 'DFA')):
        super().__init__(pid)
        self.exe = build(parts)

    def observe(self, items, event=None):
        t = time.time()
        res = run_harness(self.exe, [(str(i), (), it.commands()) for i, it in enumerate(items)])
        log('ran %d cases on the real code in %.1f s' % (len(items), time.time() - t))
        return [res[str(i)] for i in range(len(items))]

    def dumps(self, items):
        """Records of the dumps, None where the code did not deliver one."""
        out = []
        for r in self.observe(items):
            d = [o for o in r if o['ev'] in ('rdfa', 'dfa')]
            out.append(d[0] if d and d[0].get('ok') and r[-1]['ev'] == 'end' else None)
        return out

    def equivalent(self, items, what, batch=6000):
        """Explore the product for every item; report the first few that differ."""
        recs = self.dumps(items)
        bad = [i for i, r in enumerate(recs) if r is None]
        good = [i for i, r in enumerate(recs) if r is not None]
        big = sum(len(recs[i]['dfa']) for i in good)
        t = time.time()
        for a in range(0, len(good), batch):
            idx = good[a:a + batch]
            cases = [items[i].case(recs[i]) for i in idx]
            mut = []
            for j in self.rng.sample(range(len(cases)), min(60, len(cases))):
                d = damaged(cases[j], self.rng)
                if d:
                    mut.append((j, d))
            rej = self.rejected('RegexEquiv', cases + [d for _, d in mut], EQUIV)
            bad += [idx[i] for i in rej if i < len(cases)]
            self.parts['damaged_automata'] = self.parts.get('damaged_automata', 0) + len(mut)
            caught = len([i for i in rej if i >= len(cases)])
            self.parts['damaged_automata_rejected'] = self.parts.get('damaged_automata_rejected', 0) + caught
            if mut and caught * 2 < len(mut):
                raise Machinery('damaged automata are accepted')
        log('%s: %d automata, %d states in all, %.1f s: %d differ' % (what, len(items), big, time.time() - t, len(bad)))
        self.parts.setdefault('automata', []).append({'what': what, 'automata': len(items), 'states': big})
        self.validated(len(items), len({it.key() for it in items}), [items[len(items) // 2].describe()])
        n = 0
        for i in sorted(bad, key=lambda i: len(items[i].key()))[:6]:
            r = self.dumps([items[i]])[0]
            d = items[i].describe()
            if r is None:
                d['observed'] = self.observe([items[i]])[0]
                self.violation('no automaton is delivered for %s' % items[i].key()[:300], d)
                n += 1
            else:
                c = items[i].case(r)
                if self.rejected('RegexEquiv', [c], EQUIV):
                    d.update({'observed': c, 'tlc': self.shortest('RegexEquiv', c, EQUIV)})
                    self.violation('the automaton differs from the expression for %s' % items[i].key()[:300], d)
                    n += 1
            if n >= 3:
                break
        if bad and not n:
            raise Machinery('rejected once but accepted when run again')


# ---------------------------------------------------------------- expressions
REPS = [(0, -1), (1, -1), (0, 1), (2, 2), (1, 2), (0, 2), (2, 3), (1, 3), (3, 3)]


def all_exprs(ops, leaves, reps=REPS, caps=True):
    """Every expression with exactly `ops` operators."""
    memo = {0: list(leaves)}
    for n in range(1, ops + 1):
        r = [('r', a, lo, hi) for a in memo[n - 1] for lo, hi in reps]
        if caps:
            r += [('k', 'g%d' % n, a) for a in memo[n - 1]]
        for i in range(n):
            for a in memo[i]:
                for b in memo[n - 1 - i]:
                    r += [('c', a, b), ('o', a, b)]
        memo[n] = r
    return memo[ops]


def byte_expr(rng, depth):
    """A random expression over all bytes, built from the classes rather than from text."""
    k = rng.random()
    if depth == 0 or k < .2:
        j = rng.random()
        if j < .35:
            return ('l', rng.choice((0, 10, 48, 97, 98, 127, 128, 200, 253, 254, 255)))
        if j < .85:
            r = []
            for _ in range(rng.randint(1, 4)):
                a, b = sorted((rng.randrange(256), rng.choice((0, 1, 96, 97, 98, 127, 128, 254, 255))))
                if rng.random() < .4:
                    b = a
                if rng.random() < .1:
                    b = rng.choice((256, 1000, 0x10ffff))
                r.append((a, b))
            return ('s', rng.random() < .5, tuple(r))
        if j < .95:
            return DOT
        return ('e',)
    if k < .5:
        return ('c', byte_expr(rng, depth - 1), byte_expr(rng, depth - 1))
    if k < .7:
        return ('o', byte_expr(rng, depth - 1), byte_expr(rng, depth - 1))
    lo, hi = rng.choice(REPS + [(2, 5), (0, 4), (4, 4), (2, -1), (3, -1)])
    return (rng.choice('rm') if hi != 0 else 'r', byte_expr(rng, depth - 1), lo, hi)


def size(e):
    if e[0] in 'co':
        return 1 + size(e[1]) + size(e[2])
    if e[0] in 'rm':
        return 1 + size(e[1]) * max(1, e[2], e[3])
    if e[0] == 'k':
        return size(e[2])
    return 1
