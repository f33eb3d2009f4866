"""The specifications checked on their own, exhaustively within small constants."""
from gen import *
from vlib import *

LOGSEM = {
    'tokens': 'LeftmostLongest NoDelimiterInside Contiguous',
    'types': 'LeftmostLongest',
    'events': 'EventsAsDeclared Contiguous',
    'views': 'Views Logtypes',
    'stream': 'Contiguous',
}


def logsem(ck, what, live=False):
    al = [b'T1 \n:', b'1a \n', b'T:1\n', b'ab12 \n', b'ab1 \n', b'1:a\n']
    n = 7 if THOROUGH else 5
    sj = []
    for s, a in zip(small(), al):
        j = s.json()
        j['alphabet'] = list(a)
        j['n'] = n if len(a) < 6 else n - 1
        sj.append(j)
    if THOROUGH:
        # random schemas over the same alphabets, shorter inputs
        r = random.Random(7)
        for _ in range(25):
            j = random_schema(r, b'a1', ' \n').json()
            j['alphabet'] = list(b'a1 \n')
            j['n'] = 5
            sj.append(j)
    env = {'SCHEMAS': ndjson('mc.ndjson', sj)}
    cfg = 'CONSTANTS\nSchOf <- MSchOf\nInpOf <- MInpOf\nSPECIFICATION MSpec\nINVARIANTS %s\n' % LOGSEM[what]
    if live:
        cfg += 'PROPERTIES RefinesStream Terminates\n'
    return ck.model('MCLogSem', cfg, '%s, %d schemas, all inputs of up to %d bytes' % (LOGSEM[what], len(sj), n), env)


def lines(ck):
    """The lexer's count of lines, taken back with its position."""
    al = [b'T1\n:', b'1a\n', b'T:1\n', b'ab1\n', b'ab1\n', b'1:a\n']
    n = 7 if THOROUGH else 5
    sj = []
    for s, a in zip(small(), al):
        j = s.json()
        j['alphabet'] = list(a)
        j['n'] = n
        sj.append(j)
    env = {'SCHEMAS': ndjson('mclines.ndjson', sj)}
    cfg = 'CONSTANTS\nSchOf <- MSchOf\nInpOf <- MInpOf\nRestore = %s\nSPECIFICATION MSpec\nINVARIANTS LinesCount\n'
    ck.model('MCLines', cfg % 'TRUE', 'line numbers, inputs of up to %d bytes' % n, env)
    rc, out, st = tlc('MCLines', cfg % 'FALSE', env)
    if rc == 0:
        raise Machinery('MCLines does not notice a count that is not taken back')


def lr(ck):
    """Grammars, their automata and what these decide."""
    cfg = 'CONSTANTS\nMaxBody = %d\nMaxWord = %d\nExtra = %d\nFree = %s\nSPECIFICATION Spec\nINVARIANTS %s\n'
    inv = 'Decided Exact Bounded Slr'
    a = (2, 4, 2) if THOROUGH else (2, 3, 1)
    ck.model('MCLr', cfg % (a + ('TRUE', inv)), 'grammars with bodies of up to %d symbols, words of up to %d' % a[:2], {})
    rc, out, st = tlc('MCLr', cfg % (1, 2, 1, 'FALSE', inv), {})
    if rc != 12:
        raise Machinery('MCLr does not notice a parser with conflicts')


ALPHABETS = [b'T1 \n:', b'1a \n', b'T:1\n', b'ab12 \n', b'ab1 \n', b'1:a\n']


def ring(ck, what, n, initial=2, chunks=(1, 9), failures=0, resets=0, live=False):
    """The double-buffered parser, in step with LogSem, for all inputs of up to n bytes."""
    sj = []
    for s, a in zip(small(), ALPHABETS):
        j = s.json()
        a = a if len(a) <= 4 else a[:4] if 10 in a[:4] else a[:3] + b'\n'
        j['alphabet'] = list(a)
        j['n'] = n
        j['again'] = [list(x) for x in ((a[:1] + b'\n', b'\n' + a[:2]) if resets else ())]
        sj.append(j)
    env = {'SCHEMAS': ndjson('mcring.ndjson', sj)}
    cfg = ('CONSTANTS\nSchOf <- MSchOf\nInpOf <- MInpOf\nInitial = %d\nChunks = {%s}\nFailures = %d\nResets = %d\n'
           'SPECIFICATION RSpec\nINVARIANTS SameEvent TypeOK ReadAhead Bounded NeedIsLocal\n%s'
           % (initial, ', '.join(map(str, chunks)), failures, resets, 'PROPERTIES Finishes\n' if live else ''))
    return ck.model('RingParser', cfg, '%s: inputs of up to %d bytes, buffer of %d, %d failures, %d resets'
                    % (what, n, initial, failures, resets), env)


def buf(ck):
    al = [b'T1 \n:', b'1a \n', b'T:1\n', b'ab12 \n', b'ab1 \n', b'1:a\n']
    n = 5 if THOROUGH else 4
    sj = []
    for s, a in zip(small(), al):
        j = s.json()
        j['alphabet'] = list(a if THOROUGH else a[:4] if 10 in a[:4] else a[:3] + b'\n')
        j['n'] = n
        sj.append(j)
    env = {'SCHEMAS': ndjson('mcbuf.ndjson', sj)}
    cfg = ('CONSTANTS\nSchOf <- MSchOf\nInpOf <- MInpOf\nSPECIFICATION MSpec\n'
           'INVARIANTS Agree OffsetIsNext EveryByteOnce\n')
    return ck.model('MCBuf', cfg, 'BufferParser over every way to show inputs of up to %d bytes' % n, env)


def regex(ck, exprs, n, alphabet=b'ab'):
    """Derivatives against the definition of matching, for all words up to length n."""
    js = []
    for e in exprs:
        T = []
        root = table(e, T)
        js.append({'T': T, 'root': root, 'alphabet': list(alphabet), 'n': n})
    ck.model('MCRegex', 'SPECIFICATION Spec\nINVARIANTS SameLanguage NullableAgrees\n',
             'derivatives against the definition of matching (%d expressions, words up to %d)' % (len(exprs), n),
             {'EXPRS': ndjson('exprs.ndjson', js)})


def alone(ck):
    """Lexers on their own: all texts over small alphabets."""
    a, b, one, sp, col = ('l', 97), ('l', 98), ('l', 49), ('l', 32), ('l', 58)
    plus = lambda e: ('r', e, 1, -1)
    nodelim = ('s', True, ((32, 32), (58, 58)))
    sets = [
        (b'', [a, ('c', a, ('c', b, a)), b], b'ab1'),
        (b'', [plus(('c', a, b)), ('o', a, ('c', a, a)), one], b'ab1'),
        (b'', [('c', a, ('r', DOT, 0, -1)), ('r', b, 1, 2)], b'ab1'),
        (b' :', [plus(a), ('c', a, plus(('o', a, b))), one], b'ab1 :'),
        (b' :', [('c', ('o', sp, col), plus(a)), ('c', col, ('c', a, b)), a, sp], b'ab :'),
        (b' ', [('r', ('s', True, ((32, 32),)), 1, -1), ('c', a, ('r', b, 0, -1))], b'ab '),
        (b' :', [('c', a, ('r', nodelim, 0, -1)), ('c', b, ('r', ('o', a, b), 0, 1)), one], b'ab1 '),
        (b' ', [('c', a, ('r', DOT, 0, 1)), ('c', b, ('r', DOT, 0, -1))], b'ab1 '),
        (b'', [('c', a, ('r', a, 0, -1)), ('c', a, ('r', ('s', True, ((97, 97),)), 0, -1))], b'ab1'),
        (b' \n', [('l', 10), plus(a), ('c', sp, b)], b'ab \n'),
        (b' \n', [('c', ('l', 10), ('r', a, 0, 1)), ('c', a, b), ('c', sp, b)], b'ab \n'),
    ]
    js = []
    for d, es, al in sets:
        T = []
        js.append({'delims': list(d), 'roots': [table(e, T) for e in es], 'T': T, 'ids': [str(120 - i) for i in range(len(es))],
                   'alphabet': list(al), 'n': 7 if THOROUGH else 5, 'more': 3})
    env = {'LEXERS': ndjson('mcalone.ndjson', js)}
    cfg = 'CONSTANTS\nLexerOf <- MLexerOf\nTextOf <- MTextOf\nForget = %s\nSPECIFICATION MSpec\n' \
          'INVARIANTS LongestFirst Contiguous Prefixes Words Wilds\n'
    ck.model('MCAlone', cfg % 'FALSE' + 'PROPERTIES Terminates\n', '%d lexers, texts of up to %d bytes' % (len(js), js[0]['n']), env)
    rc, out, st = tlc('MCAlone', cfg % 'TRUE', env)
    if rc != 12:
        raise Machinery('MCAlone does not notice a forgotten match')
