"""Schema texts, well-formed ones and others.  What they mean is SchemaText.tla's business."""
from rx import ESC, PLAIN, SPECIAL

PLAINS = sorted(PLAIN)
SPECIALS = sorted(SPECIAL)
ALNUM = [c for c in PLAINS if chr(c).isalnum()]


def char(rng, plain=.75):
    """A literal of one character."""
    k = rng.random()
    if k < plain:
        return bytes([rng.choice(PLAINS if rng.random() < .5 else b'abc12')])
    if k < .92:
        return b'\\' + bytes([rng.choice(SPECIALS)])
    return b'\\' + rng.choice(list(ESC.values())).encode()


def literal(rng, depth):
    k = rng.random()
    if depth <= 0 or k < .5:
        return char(rng)
    if k < .8:
        return b'(' + pattern(rng, depth - 1) + b')'
    return b'(?<' + name(rng) + b'>' + pattern(rng, depth - 1) + b')'


def element(rng):
    k = rng.random()
    if k < .45:
        return char(rng)
    if k < .55:
        return b'\\d'
    if k < .6:
        return b'\\s'
    if k < .65:
        return b'(' + char(rng) + b')'
    if k < .9:
        return rng.choice((b'a-z', b'A-Z', b'0-9', b'a-c', b'1-2', b'b-b', b'!-~', b'\\*-\\}'))
    return char(rng) + b'-' + char(rng)


def bracket(rng):
    n = rng.randint(1, 4)
    if rng.random() < .3:
        return b'[^' + b''.join(element(rng) for _ in range(n - 1)) + b']'
    return b'[' + b''.join(element(rng) for _ in range(n)) + b']'


def count(rng, most=99999):
    """A count as it may be written, likely next to one of the values at which a digit is gained."""
    n = rng.choice((0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 65535, 65536, 99999))
    n = max(0, n + rng.randint(-1, 1)) if rng.random() < .5 else rng.randint(0, 10 ** rng.randint(1, 5))
    return b'0' * rng.choice((0, 0, 0, 0, 1, 2)) + b'%d' % min(n, most)


def part(rng, depth):
    k = rng.random()
    if k < .45:
        a = literal(rng, depth)
    elif k < .75:
        a = bracket(rng)
    else:
        a = rng.choice((b'.', b'\\d', b'\\s'))
    k = rng.random()
    if k < .12:
        a += b'*'
    elif k < .24:
        a += b'+'
    elif k < .32:
        a += b'{%d}' % rng.choice((0, 1, 2, 3))
    elif k < .42:
        lo = rng.choice((0, 0, 1, 2, 2))
        a += b'{%d,%d}' % (lo, rng.choice((lo, lo + 1, lo + 1, 3, 0)))
    while rng.random() < .2:
        a += b'|' + literal(rng, depth)
    return a


def pattern(rng, depth=2):
    r = b''
    while True:
        r += part(rng, depth)
        if rng.random() < .5 or len(r) > 40:
            return r


def name(rng):
    return bytes(rng.choice(ALNUM) for _ in range(rng.randint(1, 6)))


def delimiters(rng):
    r = b''
    for _ in range(rng.randint(1, 8)):
        c = rng.choice((b' ', b'\\n', b'\\t', b'\\r', b':', b',', b'!', b';', char(rng)))
        r += b'(' + c + b')' if rng.random() < .05 else c
    return b'delimiters:' + r


def rule(rng, depth=2):
    return b' ' * rng.choice((0, 0, 0, 0, 1, 3)) + name(rng) + b':' + pattern(rng, depth)


def comment(rng):
    k = rng.random()
    if k < .3:
        return b'// a comment with delimiters: (* [ and so on'
    return b'//' + bytes(rng.choice((32, 47, 92, 58, 40, 97, 100, 9, 1, 127, 0xc3, 0xa9, 0xff, 0)) for _ in range(rng.randint(1, 12)))


def lines(rng, n):
    r = [rng.choice((rule, delimiters, comment))(rng)]
    while len(r) < n:
        k = rng.random()
        r.append(b'' if k < .1 else comment(rng) if k < .2 else delimiters(rng) if k < .3 else rule(rng))
    return r


def schema(rng, n=None):
    """A text that follows the grammar; reversed ranges and the like may occur."""
    r = lines(rng, n or rng.randint(1, 6))
    k = rng.random()
    t = r[0]
    for x in r[1:]:
        t += (b'\n' if k < .6 else b'\r\n' if k < .8 else rng.choice((b'\n', b'\r\n'))) + x
    return t + rng.choice((b'', b'\n', b'\r\n', b'\n\n'))


BYTES = list(range(256))
SYMBOLS = b'a1 :/\\()[]{}|*+-.^?<>,\n\rdsnz_~\xc3\x00'


def broken(rng, t):
    """t with a few bytes changed."""
    w = bytearray(t)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        c = rng.choice(SYMBOLS) if rng.random() < .85 else rng.choice(BYTES)
        i = rng.randint(0, len(w))
        k = rng.randrange(11) // 2
        if k == 0 and i < len(w):
            del w[i]
        elif k == 1:
            w.insert(i, c)
        elif k == 2 and i < len(w):
            w[i] = c
        elif k == 3:
            del w[i:]
        elif k == 5:
            w[i:i] = b'delimiters'[rng.choice((0, 0, 1)):]
        elif i < len(w):
            j = rng.randint(i, min(len(w), i + 12))
            w[i:i] = w[i:j]
    return bytes(w)
