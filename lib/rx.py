"""Regular expressions and schemas as data: the generators' side of the checks.

An expression is a nested tuple:
  ('l', c)                       one byte
  ('s', neg, ((lo, hi), ...))    bracket expression
  ('d',)                         \\d          ('w',)  \\s
  ('.',)                         wildcard
  ('c', a, b)  ('o', a, b)       concatenation, alternation
  ('r', a, lo, hi)               repetition, hi = -1: unbounded
  ('m', a, lo, hi)               the same, built without the empty expression
  ('k', name, a)                 capture
  ('e',)                         the empty string
It can be written as schema text (`text`), as a command for the harness (`cmd`), and as the node
table that Regex.tla reads (`table`).
"""

SPECIAL = set(b'()*+-.[]\\^{}|<>?')
PLAIN = set(b' !"#$%&\',/:;=@_`~') | set(range(48, 58)) | set(range(65, 91)) | set(range(97, 123))
ESC = {9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r'}


def lit_text(c):
    if c in ESC:
        return '\\' + ESC[c]
    if c in SPECIAL:
        return '\\' + chr(c)
    if c in PLAIN:
        return chr(c)
    raise ValueError('byte %d cannot be written in a schema' % c)


def atom_text(e):
    """A CompleteGroup of the schema grammar."""
    t = e[0]
    if t == 'l':
        return lit_text(e[1])
    if t == 'd':
        return '\\d'
    if t == 'w':
        return '\\s'
    if t == '.':
        return '.'
    if t == 's':
        s = '[^' if e[1] else '['
        for lo, hi in e[2]:
            s += lit_text(lo) if lo == hi else lit_text(lo) + '-' + lit_text(hi)
        return s + ']'
    if t == 'k':
        return '(?<' + e[1] + '>' + text(e[2]) + ')'
    return '(' + text(e) + ')'


def literal_text(e):
    """A Literal of the schema grammar: what may follow a vertical bar."""
    if e[0] in ('l', 'k'):
        return atom_text(e)
    return '(' + text(e) + ')'


def or_text(e):
    t = e[0]
    if t == 'o':
        a = or_text(e[1]) if e[1][0] != 'c' else '(' + text(e[1]) + ')'
        return a + '|' + literal_text(e[2])
    if t == 'r':
        a, lo, hi = e[1], e[2], e[3]
        if (lo, hi) == (0, -1):
            op = '*'
        elif (lo, hi) == (1, -1):
            op = '+'
        elif hi == -1:
            raise ValueError('{n,} cannot be written')
        elif lo == hi:
            op = '{%d}' % lo
        else:
            op = '{%d,%d}' % (lo, hi)
        return atom_text(a) + op
    if t == 'e':
        return 'a{0}'
    return atom_text(e)


def text(e):
    """A Regex of the schema grammar."""
    if e[0] == 'c':
        return text(e[1]) + (or_text(e[2]) if e[2][0] != 'c' else '(' + text(e[2]) + ')')
    return or_text(e)


def cmd(e):
    """Prefix form for the harness."""
    t = e[0]
    if t == 'l':
        return 'l %d' % e[1]
    if t == 's':
        return 's %d %d ' % (1 if e[1] else 0, len(e[2])) + ' '.join('%d %d' % r for r in e[2])
    if t == 'd':
        return 's 0 1 48 57'
    if t == 'w':
        return 's 0 2 9 13 32 32'
    if t == '.':
        return 'd'
    if t in 'co':
        return '%s %s %s' % (t, cmd(e[1]), cmd(e[2]))
    if t == 'r':
        return 'r %d %d %s' % (e[2], e[3], cmd(e[1]))
    if t == 'm':
        return 'm %d %d %s' % (e[2], e[3], cmd(e[1]))
    if t == 'k':
        return 'k %s %s' % (e[1], cmd(e[2]))
    if t == 'e':
        return 'e'
    raise ValueError(t)


def table(e, T):
    """Append e's nodes to T (a list of dicts); return e's 1-based index."""
    t = e[0]
    if t == 'l':
        n = {'t': 'set', 'neg': False, 'r': [[e[1], e[1]]]}
    elif t == 's':
        n = {'t': 'set', 'neg': bool(e[1]), 'r': [list(r) for r in e[2]]}
    elif t == 'd':
        n = {'t': 'set', 'neg': False, 'r': [[48, 57]]}
    elif t == 'w':
        n = {'t': 'set', 'neg': False, 'r': [[9, 13], [32, 32]]}
    elif t == '.':
        n = {'t': 'dot'}
    elif t == 'c':
        n = {'t': 'cat', 'a': table(e[1], T), 'b': table(e[2], T)}
    elif t == 'o':
        n = {'t': 'or', 'a': table(e[1], T), 'b': table(e[2], T)}
    elif t in 'rm':
        n = {'t': 'rep', 'a': table(e[1], T), 'lo': e[2], 'hi': e[3]}
    elif t == 'k':
        n = {'t': 'cap', 'a': table(e[2], T), 'n': e[1]}
    elif t == 'e':
        n = {'t': 'eps'}
    else:
        raise ValueError(t)
    T.append(n)
    return len(T)


# ---------------------------------------------------------------- building blocks
def L(s):
    """The literal string s."""
    bs = s.encode('latin1') if isinstance(s, str) else s
    e = ('l', bs[0])
    for b in bs[1:]:
        e = ('c', e, ('l', b))
    return e


def cat(*es):
    e = es[0]
    for x in es[1:]:
        e = ('c', e, x)
    return e


def alt(*es):
    e = es[0]
    for x in es[1:]:
        e = ('o', e, x)
    return e


def rep(a, lo, hi=None):
    return ('r', a, lo, lo if hi is None else hi)


def plus(a):
    return ('r', a, 1, -1)


def star(a):
    return ('r', a, 0, -1)


def opt(a):
    return ('r', a, 0, 1)


def cls(s, neg=False):
    """Bracket expression from 'a-z0-9' notation."""
    r = []
    i = 0
    while i < len(s):
        if i + 2 < len(s) and s[i + 1] == '-':
            r.append((ord(s[i]), ord(s[i + 2])))
            i += 3
        else:
            r.append((ord(s[i]), ord(s[i])))
            i += 1
    return ('s', neg, tuple(r))


D = ('d',)
DOT = ('.',)

RESERVED = ['$end', '$UncaughtString', 'int', 'float', 'hex', 'firstTimestamp', 'newLineTimestamp', 'newLine']


class Schema:
    """A delimiter string and rules [(name, expression)]."""

    def __init__(self, delims, rules):
        self.delims = delims.encode('latin1') if isinstance(delims, str) else bytes(delims)
        self.rules = list(rules)

    def text(self):
        s = 'delimiters:' + ''.join(lit_text(c) for c in self.delims) + '\n'
        for n, e in self.rules:
            s += n + ':' + text(e) + '\n'
        return s[:-1]

    def script(self, slot):
        """Harness commands that define the schema in `slot`."""
        return 'schema %s %s\n' % (slot, self.text().encode('latin1').hex())

    def ast_script(self, slot):
        s = 'ast.new %s\nast.delim %s %s\n' % (slot, slot, self.delims.hex())
        for i, (n, e) in enumerate(self.rules):
            s += 'ast.var %s %s %d %s\n' % (slot, n, i + 1, cmd(e))
        return s

    def json(self):
        T = []
        vs = [{'n': n, 'root': table(e, T)} for n, e in self.rules]
        names = RESERVED + [n for n, _ in self.rules]
        return {
            'delims': list(self.delims),
            'T': T,
            'vars': vs,
            'nb': {n: list(n.encode()) for n in names},
        }
