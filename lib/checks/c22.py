"""C22: FileReader (FileReader.tla)."""
from history import *
from logcheck import guard


class Files:
    """Files of one history: bytes, or None (missing), or 'dir'."""

    def __init__(self, contents, tag):
        self.contents, self.tag = contents, tag

    def name(self, i):
        return 'c22-%s-%d' % (self.tag, i)

    def commands(self, ops):
        c = []
        for i, b in enumerate(self.contents):
            if b == 'dir':
                os.makedirs(os.path.join(work(), self.name(i)), exist_ok=True)
            elif b is not None:
                c.append('schemafile %s %s' % (self.name(i).encode().hex(), b.hex() or '-'))
        return c + ['fr.new'] + [self.op(o) for o in ops]

    def op(self, o):
        if o[0] == 'open':
            return 'fr.open %s %d' % (self.name(o[1]).encode().hex(), o[1] + 1)
        return 'fr.' + ' '.join(str(x) for x in o)

    def case(self, recs):
        ops = []
        for o in recs:
            if o['ev'] == 'fr':
                ops.append({'op': o['op'], 'n': o['n'], 'keep': o.get('keep', False), 'rc': o['rc'], 'd': o['d']})
        return {'files': [[-1] if b is None else [-2] if b == 'dir' else list(b) for b in self.contents],
                'ops': ops, 'end': recs[-1]['ev']}


def spoil(c, rng):
    for _ in range(40):
        o = rng.choice(c['ops'])
        k = rng.randrange(3)
        if k == 0 and o['d']:
            o['d'] = o['d'][:-1]
            return c
        if k == 1 and o['d']:
            o['d'][rng.randrange(len(o['d']))] ^= 1
            return c
        if k == 2 and o['op'] in ('open', 'read', 'line'):
            o['rc'] = 'EndOfFile' if o['rc'] == 'Success' else 'Success'
            # a directory may report anything but success; an empty read is a success
            return c
    return None


def script(rng, contents, n):
    """Operations; reading to a delimiter needs an open file."""
    ops = []
    isopen = False
    for _ in range(n):
        k = rng.random()
        if k < .15 or (not isopen and k < .7):
            i = rng.randrange(len(contents))
            ops.append(('open', i))
            isopen = contents[i] is not None
        elif k < .2:
            ops.append(('close',))
            isopen = False
        elif k < .22:
            ops.append(('new',))
            isopen = False
        elif k < .6 or not isopen:
            ops.append(('read', rng.choice((0, 1, 2, 3, 5, 16, 100, 4096, 5000, 60000))))
        else:
            ops.append(('line', rng.choice((10, 10, 97, 0, 120)), rng.randrange(2), rng.randrange(2)))
    return ops


@guard
def main():
    ck = HistoryCheck('C22', ('FR',))
    rng = ck.rng
    ck.model('MCFileReader', 'CONSTANT Max = %d\nSPECIFICATION Spec\nINVARIANTS InOrder AtEnd NeverMissing\n' % (4 if THOROUGH else 3),
             'what is delivered is the file from its beginning')
    items = []

    def add(contents, ops):
        f = Files(contents, str(len(items)))
        items.append(History(f.commands(ops), f.case))
    # every short mixture of reads over every short file
    small = [b''.join(bytes([x]) for x in t) for n in range(4) for t in itertools.product(b'a\n', repeat=n)]
    moves = [('read', 1), ('read', 2), ('read', 0), ('line', 10, 0, 0), ('line', 10, 1, 0), ('line', 97, 0, 1)]
    for b in small:
        for t in itertools.product(moves, repeat=3 if THOROUGH else 2):
            add([b], [('open', 0)] + list(t) + [('read', 2), ('line', 10, 0, 0), ('line', 10, 0, 0), ('read', 1)])
    pool = [b'', b'a', b'\n', b'a\n', b'\n\n', b'ab\ncd', b'a\nb\n', None, None, 'dir', b'x' * 5000 + b'\n' + b'a' * 300,
            bytes(range(256)) * 3, b'line of text\n' * 700, b'\0\0a\0']
    for _ in range(3000 if THOROUGH else 500):
        cs = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        if rng.random() < .5:
            cs[0] = bytes(rng.choice(b'aab\n\0x') for _ in range(rng.randint(0, 200)))
        add(cs, script(rng, cs, rng.randint(1, 25)))
    # a long file in blocks
    big = bytes(rng.randrange(256) for _ in range(20000))
    for n in (4095, 4096, 4097, 7000, 20000, 30000):
        add([big], [('open', 0)] + [('read', n)] * (20000 // n + 3))
        add([big], [('open', 0)] + [('read', n), ('line', 10, 1, 0)] * 4 + [('read', 30000), ('read', 1), ('open', 0), ('read', 3)])
    # files that end with a block, or a byte before or after
    whole = bytes(rng.randrange(256) for _ in range(66000))
    for size in (255, 256, 511, 512, 1024, 4095, 4096, 4097, 8192, 12288, 16384, 65535, 65536) + ((1 << 16) + 4096,) * THOROUGH:
        for n in sorted({100, 512, 4096, size - 1, size, size + 1, 2 * size, 100000})[:: 1 if size < 9000 or THOROUGH else 2]:
            if size / n < 50:
                add([(whole * 2)[:size]], [('open', 0)] + rng.choice(([], [], [('read', 1)], [('read', 3), ('line', 10, 1, 0)])) + [('read', n)] * (size // n + 2))
    ck.histories('FileTrace', items, 'file reader', spoil)
    return ck
