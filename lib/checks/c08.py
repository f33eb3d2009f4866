"""C08: invalid schemas are rejected with an exception that says where (SchemaText.tla)."""
from schemacheck import *
from checks.c07 import DOC

PIECES = [b'a', b'd', b's', b'n', b'1', b'_', b' ', b':', b'/', b'//', b'\\', b'(', b')', b'[', b']', b'{', b'}', b'|', b'*', b'+', b'-', b'.',
          b'^', b'?', b'<', b'>', b',', b'\n', b'\r', b'\t', b'\xc3', b'\0', b'"', b'delimiters', b'delimiters:', b'~', b'\x7f']
CORE = [b'a', b'1', b'd', b'\\', b'(', b')', b'[', b']', b'{', b'}', b'|', b'*', b'-', b'.', b'^', b'?', b'<', b'>', b',', b'\n', b'\r', b'\xff']

FRAGMENTS = [b'(cd)', b'(c)', b'(c|d)', b'(c)*', b'[cd]', b'[^c]', b'[c-d]', b'c{2}', b'{0}', b'{1,2}', b'\\d', b'\\-', b'.', b'(?<x>c)', b'-', b'|', b'(', b')', b'[', b']']
TEMPLATES = [b'a', b'[a]', b'[ab]', b'[^a]', b'[a-b]', b'[\\d]', b'(a)', b'a|b', b'a{1}', b'(?<x>a)', b'(a|b)*', b'a\\.b']


@guard
def main():
    ck = SchemaCheck('C08')
    rng = ck.rng
    ck.texts_model(5 if THOROUGH else 4)
    # every short text, every short continuation of some beginnings
    seen = set()
    for n in range(4 if THOROUGH else 3):
        for t in itertools.product(PIECES, repeat=n):
            seen.add(b''.join(t))
    for b in (b'a:', b'a:b', b'a:[b', b'a:(?<x>b', b'delimiters:a', b'a:b\n'):
        for n in range(1, 4 if THOROUGH else 3):
            for t in itertools.product(CORE, repeat=n):
                seen.add(b + b''.join(t))
    # whole pieces of an expression at every place of some expressions
    for t in TEMPLATES:
        for i in range(len(t) + 1):
            for f in FRAGMENTS:
                seen.add(b'a:' + t[:i] + f + t[i:])
                if THOROUGH:
                    for j in range(i, len(t) + 1):
                        for g in FRAGMENTS[:8]:
                            seen.add(b'a:' + t[:i] + f + t[i:j] + g + t[j:])
    # counts of several digits, in either order
    for _ in range(3000 if THOROUGH else 250):
        a, b = texts.count(rng), texts.count(rng)
        if rng.random() < .4:
            b = b'%d' % max(0, int(a) + rng.randint(-2, 2))
        seen.add(b'a:' + rng.choice((b'b', b'[bc]', b'(bc)', b'd|b', b'\\d')) + b'{' + a + b',' + b + b'}' + rng.choice((b'', b'', b'c', b'}')))
    items = [Text(t) for t in sorted(seen)]
    # well-formed texts with a few bytes changed
    k = 15000 if THOROUGH else 1800
    while k:
        t = texts.broken(rng, DOC if rng.random() < .05 else texts.schema(rng))
        if re.search(rb'\d{9}', t):
            continue   # counts that large are beyond the specification
        items.append(Text(t, rng.choice(('string', 'string', 'file')), rng.choice((0, 0, 0, 64, 100, 256))))
        k -= 1
    # any bytes
    for _ in range(1000 if THOROUGH else 200):
        items.append(Text(bytes(rng.randrange(256) for _ in range(rng.randint(1, 12)))))
    # long ones, with the error at the end
    for t in (b'[' + b'x' * 30000, (b'abc:d\n//' + b'y' * 191 + b'\n') * 270 + b'/' + b'x' * 60000 + b'\nabc:d', b'abc:d\nv:' + b'b' * 25000 + b'**\n' + (b'abc:d\n//' + b'y' * 31 + b'\n') * 1200,
              b'a:' + b'(' * 2000, b'a:b\n' * 3000 + b'*', b'a:' + b'b' * 5000 + b'\n:', b'//' + b'x' * 60000 + b'\n*', b'a:' + b'b|' * 3000):
        items.append(Text(t, rng.choice(('string', 'file'))))
    # no file
    items += [Text(b'', 'file', missing='none'), Text(b'', 'file', missing='dir')]
    ck.outcomes(items, 'texts of all kinds')
    return ck
