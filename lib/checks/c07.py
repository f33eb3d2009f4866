"""C07: a schema text means the rules that it spells out (SchemaText.tla)."""
from schemacheck import *
from gen import realistic, random_schema

DOC = rb'''// Delimiters
delimiters: \t\r\n:,!;%

// Keywords
timestamp:\d{4}\-\d{2}\-\d{2} \d{2}:\d{2}:\d{2}(\.\d{3}){0,1}
timestamp:\[\d{8}\-\d{2}:\d{2}:\d{2}\]
int:\-{0,1}[0-9]+
float:\-{0,1}[0-9]+\.[0-9]+

// Custom variables
hex:[a-fA-F]+
hasNumber:.*\d.*
equals:.*=.*[a-zA-Z0-9].*
'''


class Rules:
    """One-line rules; each one's automaton is compared with the meaning of its line."""

    def __init__(self, lines, eol=b'\n'):
        self.lines, self.eol = lines, eol

    def text(self):
        return self.eol.join(self.lines)

    def commands(self):
        return ['schema s ' + self.text().hex(), 'rdfas s']


def rule_languages(ck, groups, what):
    """Every rule of every group, by RegexEquiv."""
    t = time.time()
    res = run_harness(ck.exe, [(str(i), (), g.commands()) for i, g in enumerate(groups)])
    cases, origin = [], []
    bad = []
    for i, g in enumerate(groups):
        d = [o for o in res[str(i)] if o['ev'] == 'rdfa']
        if len(d) != len(g.lines) or res[str(i)][-1]['ev'] != 'end':
            bad.append((i, 0))
            continue
        for j, (line, o) in enumerate(zip(g.lines, d)):
            cases.append({'kind': 'text', 'text': list(line), 'ids': ['100'],
                          'dfa': [dict(s, ty=[str(x) for x in s['ty']]) for s in o['dfa']]})
            origin.append((i, j))
    mut = []
    for j in ck.rng.sample(range(len(cases)), min(80, len(cases))):
        d = damaged(cases[j], ck.rng)
        if d:
            mut.append(d)
    rej = ck.rejected('RegexEquiv', cases + mut, EQUIV)
    bad += [origin[i] for i in rej if i < len(cases)]
    caught = len([i for i in rej if i >= len(cases)])
    if mut and caught * 2 < len(mut):
        raise Machinery('damaged automata are accepted')
    ck.parts['damaged_automata'] = ck.parts.get('damaged_automata', 0) + len(mut)
    ck.parts['damaged_automata_rejected'] = ck.parts.get('damaged_automata_rejected', 0) + caught
    n = sum(len(g.lines) for g in groups)
    log('%s: the languages of %d rules in %d texts, %.1f s: %d differ' % (what, n, len(groups), time.time() - t, len(bad)))
    ck.parts.setdefault('automata', []).append({'what': what, 'automata': len(cases), 'states': sum(len(c['dfa']) for c in cases)})
    ck.validated(n, n, [{'rule': repr(groups[0].lines[0])}])
    shown = 0
    for i, j in sorted(bad, key=lambda b: len(groups[b[0]].lines[b[1]])):
        if shown == 3:
            break
        line = groups[i].lines[j]
        for g in (Rules([line]), groups[i]):
            r = run_harness(ck.exe, [('0', (), g.commands())])['0']
            d = [o for o in r if o['ev'] == 'rdfa']
            x = {'text': repr(g.text()), 'rule': repr(line), 'commands': g.commands()}
            if len(d) != len(g.lines):
                x['observed'] = r
                ck.violation('the rules %r are not accepted' % g.text()[:200], x)
                shown += 1
                break
            c = {'kind': 'text', 'text': list(line), 'ids': ['100'],
                 'dfa': [dict(s, ty=[str(y) for y in s['ty']]) for s in d[g.lines.index(line)]['dfa']]}
            if ck.rejected('RegexEquiv', [c], EQUIV):
                x['tlc'] = ck.shortest('RegexEquiv', c, EQUIV)
                ck.violation('the rule %r does not mean what it spells out' % line[:200], x)
                shown += 1
                break
    if bad and not shown:
        raise Machinery('rejected once but accepted when run again')


def well_formed(ck, lines):
    """Those of the candidate rules that the specification says have a meaning; the code must agree on all."""
    cases = ck.outcomes([Text(x) for x in lines], 'candidate rules')
    return [x for x, c in zip(lines, cases) if c['ok']]


@guard
def main():
    ck = SchemaCheck('C07')
    rng = ck.rng
    ck.texts_model(5 if THOROUGH else 4)
    # whole texts: names, lines, delimiters; from strings and files; with large and small input buffers
    items = [Text(DOC, h) for h in ('string', 'file')] + [Text(DOC.replace(b'\n', b'\r\n'), 'file')]
    items += [Text(s.text().encode('latin1'), h) for s in realistic() for h in ('string', 'file')]
    for _ in range(12000 if THOROUGH else 1200):
        t = texts.schema(rng)
        items.append(Text(t, rng.choice(('string', 'file')), rng.choice((0, 0, 0, 64, 100, 256))))
    for _ in range(200 if THOROUGH else 40):
        items.append(Text(texts.schema(rng, rng.randint(10, 60)), rng.choice(('string', 'file')), rng.choice((0, 64, 256, 1000))))
    for n in (23990, 24000, 47990, 48001, 60000):
        items.append(Text(b'//' + b'x' * n + b'\nabc:d\ndelimiters:xyz', 'file'))
    for n in (24000, 48000, 96000):
        items += [Text((b'abc:d\n//' + b'y' * 191 + b'\n') * (n // 200 - 1) + b'//' + b'x' * (198 + i), 'string') for i in (-1, 0, 1)]
    ck.outcomes(items, 'whole texts')
    # the language of each rule: every short pattern, and random ones
    core = b'ab(|)*[]-^1{,}.\\d+?<>' if THOROUGH else b'ab(|)*[]-^\\d'
    short = [b'v:' + p for p in gen_short(core, 3)]
    lines = [b'v%d:' % i + texts.pattern(rng, rng.choice((0, 1, 1, 2))) for i in range(9000 if THOROUGH else 1300)]
    lines = [x for x in lines if len(x) < 60 and big(x) <= 40]
    # large counts
    most = 600 if THOROUGH else 260
    for i in range(200 if THOROUGH else 16):
        a, b = sorted((texts.count(rng, most), texts.count(rng, most)), key=int)
        lines.append(b'n%d:' % i + rng.choice((b'', b'', b'x')) + rng.choice((b'a', b'[ab]', b'\\d', b'(ab)', b'(a|b)', b'.'))
                     + rng.choice((b'{' + a + b',' + b + b'}', b'{' + b + b'}')) + rng.choice((b'', b'', b'b', b'|c')))
    good = well_formed(ck, sorted(set(lines)))
    rng.shuffle(good)
    groups = [Rules(good[i:i + 20], rng.choice((b'\n', b'\n', b'\r\n'))) for i in range(0, len(good), 20)]
    for _ in range(300 if THOROUGH else 30):
        s = random_schema(rng, nullable=True)
        groups.append(Rules([x.encode('latin1') for x in s.text().split('\n')[1:]]))
    sgood = well_formed(ck, short)
    groups += [Rules(sgood[i:i + 40]) for i in range(0, len(sgood), 40)]
    rule_languages(ck, groups, 'rules')
    return ck


def gen_short(alphabet, n):
    """Patterns of up to n characters that might be well-formed (parentheses balance)."""
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            p = bytes(t)
            if p[0] in b')]*|{+}?>' or p[-1] in b'(|[^{<' and p[-2:-1] != b'\\':
                continue
            if k > 1 and sum(p.count(c) for c in b'()[]{}') % 2 and b'\\' not in p:
                continue
            yield p


def big(line):
    """A rough bound on the size of the automaton."""
    n = len(line)
    for m in re.finditer(rb'\{(\d+)(?:,(\d+))?\}', line):
        n += 8 * max(1, int(m.group(2) or m.group(1)))
    return n - 20 if n > 40 else n
