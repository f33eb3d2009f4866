"""Generators of schemas and inputs."""
import itertools
import random

from rx import *

DELIMS = ' \t\r\n:,!;%'

# realistic rules
TS1 = cat(rep(D, 4), L('-'), rep(D, 2), L('-'), rep(D, 2), L(' '), rep(D, 2), L(':'), rep(D, 2), L(':'),
          rep(D, 2), opt(cat(L('.'), rep(D, 3))))
TS2 = cat(L('['), rep(D, 8), L('-'), rep(D, 2), L(':'), rep(D, 2), L(':'), rep(D, 2), L(']'))
INT = cat(opt(L('-')), plus(cls('0-9')))
FLOAT = cat(opt(L('-')), plus(cls('0-9')), L('.'), plus(cls('0-9')))
HEX = plus(cls('a-fA-F'))
HASNUM = cat(star(DOT), D, star(DOT))
EQUALS = cat(star(DOT), L('='), star(DOT), cls('a-zA-Z0-9'), star(DOT))
LEVEL = alt(cat(L('I'), L('N'), L('F'), L('O')), L('WARN'), L('ERROR'))
# the grammar takes a Literal after a bar: parenthesised words
USER = cat(L('user='), ('k', 'uid', plus(D)))


def realistic():
    return [
        Schema(DELIMS, [('timestamp', TS1), ('timestamp', TS2), ('int', INT), ('float', FLOAT), ('hex', HEX),
                        ('hasNumber', HASNUM), ('equals', EQUALS)]),
        Schema(' \t\r\n:,', [('timestamp', TS1), ('loglevel', LEVEL), ('int', INT), ('user', USER), ('float', FLOAT)]),
        Schema(' \n', [('int', INT), ('hex', plus(cls('a-f0-9'))), ('word', plus(cls('a-z')))]),
    ]


def small():
    """Schemas over a tiny alphabet {T, 1, 2, a, b, ' ', ':', newline}, for exhaustive inputs."""
    ts = cat(L('T'), plus(cls('12')))
    ts2 = cat(L('T'), L(':'), plus(cls('1')))
    num = plus(cls('12'))
    return [
        Schema(' \n:', [('timestamp', ts), ('num', num)]),
        Schema(' \n:', [('num', num)]),
        Schema(' \n:', [('timestamp', ts2), ('num', num), ('t', L('T'))]),
        Schema(' \n:', [('ab', cat(L('a'), opt(L('b')))), ('timestamp', cat(L('1'), opt(cat(L(' '), L('2'))))), ('num', num)]),
        Schema('\n ', [('x', alt(plus(L('a')), L('b'))), ('y', rep(cls('ab'), 1, 2)), ('x', rep(L('1'), 2))]),
        Schema('\n:', [('timestamp', plus(alt(L('1'), L(':')))), ('w', cat(L('1'), star(cat(L('a'), L('b')))))]),
    ]


def sample(e, rng, delims=b'', big=3):
    t = e[0]
    if t == 'l':
        return bytes([e[1]])
    if t == 'd':
        return bytes([rng.choice(b'0123456789')])
    if t == 'w':
        return bytes([rng.choice(b' \t')])
    if t == '.':
        return bytes([rng.choice([c for c in b'abcXYZ019=._-' if c not in delims])])
    if t == 's':
        if e[1]:
            pool = [c for c in range(33, 127) if not any(lo <= c <= hi for lo, hi in e[2]) and c not in delims]
            return bytes([rng.choice(pool)]) if pool else b''
        lo, hi = rng.choice(e[2])
        return bytes([min(rng.randint(lo, hi), 255)])
    if t == 'c':
        return sample(e[1], rng, delims, big) + sample(e[2], rng, delims, big)
    if t == 'o':
        return sample(rng.choice((e[1], e[2])), rng, delims, big)
    if t == 'r':
        lo, hi = e[2], e[3]
        n = rng.randint(lo, lo + big if hi == -1 else min(hi, lo + big))
        return b''.join(sample(e[1], rng, delims, big) for _ in range(n))
    if t == 'k':
        return sample(e[2], rng, delims, big)
    return b''


def mutate(w, rng, alphabet):
    w = bytearray(w)
    k = rng.randrange(4)
    if k == 0 and w:
        del w[rng.randrange(len(w))]
    elif k == 1:
        w.insert(rng.randint(0, len(w)), rng.choice(alphabet))
    elif k == 2 and w:
        w[rng.randrange(len(w))] = rng.choice(alphabet)
    elif w:
        w = w[:rng.randint(0, len(w))]
    return bytes(w)


def log_text(sch, rng, n, alphabet=b'aT12xF.- :\n'):
    """About n pieces of log text: words of the schema's rules, near misses, delimiters, lines."""
    dl = sch.delims
    blanks = [c for c in dl if c != 10] or [10]
    tss = [e for m, e in sch.rules if m == 'timestamp']
    vs = [e for m, e in sch.rules if m != 'timestamp']
    out = b''
    if tss and rng.random() < .5:
        out += sample(rng.choice(tss), rng, dl)
    for _ in range(n):
        k = rng.random()
        if k < .30 and vs:
            out += bytes([rng.choice(blanks)]) + sample(rng.choice(vs), rng, dl)
        elif k < .45 and vs:
            out += bytes([rng.choice(blanks)]) + mutate(sample(rng.choice(vs), rng, dl), rng, alphabet)
        elif k < .55:
            out += bytes([rng.choice(blanks)]) + bytes(rng.choice(alphabet) for _ in range(rng.randint(0, 4)))
        elif k < .65:
            out += b'\n'
        elif k < .75 and tss:
            out += b'\n' + sample(rng.choice(tss), rng, dl)
        elif k < .80 and tss:
            out += b'\n' + mutate(sample(rng.choice(tss), rng, dl), rng, alphabet)
        elif k < .85 and vs:
            out += b'\n' + sample(rng.choice(vs), rng, dl)
        elif k < .90:
            out += bytes([rng.choice(dl)]) * rng.randint(1, 3)
        elif k < .94:
            out += bytes([rng.choice(b'\x00\x7f\x80\xc3\xa9\xff')])
        else:
            out += bytes(rng.choice(alphabet) for _ in range(rng.randint(1, 3)))
    return out


def words(alphabet, n):
    """All byte strings over alphabet of length <= n."""
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield bytes(t)


def expr(rng, depth, alphabet, nodot=False, caps=None):
    """A random expression."""
    k = rng.random()
    if depth == 0 or k < .2:
        j = rng.random()
        if j < .55:
            return ('l', rng.choice(alphabet))
        if j < .8:
            r = []
            for _ in range(rng.randint(1, 2)):
                a, b = sorted((rng.choice(alphabet), rng.choice(alphabet)))
                if chr(a).isdigit() != chr(b).isdigit() or chr(a).isalpha() != chr(b).isalpha():
                    b = a  # a range across kinds of characters would likely contain a delimiter
                r.append((a, b))
            return ('s', False, tuple(r))
        if j < .9:
            return D
        return ('l', rng.choice(alphabet)) if nodot else DOT
    if k < .5:
        return ('c', expr(rng, depth - 1, alphabet, nodot, caps), expr(rng, depth - 1, alphabet, nodot, caps))
    if k < .7:
        return ('o', expr(rng, depth - 1, alphabet, nodot, caps), expr(rng, depth - 1, alphabet, nodot, caps))
    if k < .92 or caps is None:
        lo, hi = rng.choice([(0, -1), (1, -1), (0, 1), (2, 2), (1, 2), (0, 2), (1, 3), (3, 3), (2, 4), (1, 1)])
        return ('r', expr(rng, depth - 1, alphabet, nodot, caps), lo, hi)
    caps[0] += 1
    return ('k', 'g%d' % caps[0], expr(rng, depth - 1, alphabet, nodot, caps))


def captured(e, rng, n, p=.2):
    """The expression with some of its parts captured, under names numbered from n[0]."""
    t = e[0]
    if t in 'co':
        e = (t, captured(e[1], rng, n, p), captured(e[2], rng, n, p))
    elif t == 'r' and e[2:] != (0, 0):
        e = (t, captured(e[1], rng, n, p), e[2], e[3])
    if t in 'lsd.cor' and rng.random() < p:
        n[0] += 1
        e = ('k', 'g%d' % n[0], e)
    return e


def random_schema(rng, alphabet=b'ab12', delims=' \n:', ts=True, nullable=False):
    rules = []
    for i in range(rng.randint(1, 4)):
        while True:
            e = expr(rng, rng.randint(0, 3), alphabet)
            if nullable or not is_nullable(e):
                break
        rules.append((rng.choice('uvwxyz') + rng.choice(['', '', '1']), e))
    if ts and rng.random() < .7:
        for _ in range(rng.randint(1, 2)):
            while True:
                e = expr(rng, rng.randint(1, 3), alphabet + delims.replace('\n', '').encode(), nodot=True)
                if not is_nullable(e):
                    break
            rules.insert(rng.randint(0, len(rules)), ('timestamp', e))
    if rng.random() < .4:
        n = [0]
        rules = [(m, captured(e, rng, n)) if rng.random() < .6 else (m, e) for m, e in rules]
    return Schema(delims, rules)


def timestamps_only(rng):
    """A schema with timestamps as its only rules."""
    s = None
    while not s or not s.rules:
        s = random_schema(rng, delims=rng.choice((' \n:', '\n', '\n ,')))
        s = Schema(s.delims.decode('latin1') if isinstance(s.delims, bytes) else s.delims, [r for r in s.rules if r[0] == 'timestamp'])
    return s


def is_nullable(e):
    t = e[0]
    if t in 'lsdw.':
        return False
    if t == 'c':
        return is_nullable(e[1]) and is_nullable(e[2])
    if t == 'o':
        return is_nullable(e[1]) or is_nullable(e[2])
    if t == 'r':
        return e[2] == 0 or is_nullable(e[1])
    if t == 'k':
        return is_nullable(e[2])
    return True
