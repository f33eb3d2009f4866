"""C19: registers and the tree of positions behind them (Registers.tla)."""
from history import *
from logcheck import guard


def case(recs):
    ops = []
    for o in recs:
        if o['ev'] in ('rh', 'pt'):
            ops.append({'op': ('pt:' if o['ev'] == 'pt' else '') + o['op'], 'a': o['a'], 'b': o['b'], 'ok': o['ok'], 'r': o['r'],
                        'size': o.get('size', -1), 'seen': False, 'regs': []})
        elif o['ev'] == 'rhall':
            ops[-1].update({'seen': True, 'regs': o['regs']})
    return {'ops': ops, 'end': recs[-1]['ev']}


def registers(seq):
    c = ['rh.new']
    for x in seq:
        c += ['rh.' + x, 'rh.all']
    return History(c, case)


def tree(seq):
    return History(['pt.new'] + ['pt.' + x for x in seq], case)


def spoil(c, rng):
    for _ in range(30):
        o = rng.choice(c['ops']) if c['ops'] else None
        if o is None:
            return None
        k = rng.randrange(4)
        if k == 0:
            o['ok'] = not o['ok']
            return c
        if k == 1 and o['seen'] and any(o['regs']):
            r = rng.choice([r for r in o['regs'] if r])
            r[rng.randrange(len(r))] += 1000
            return c
        if k == 2 and o['r'] and o['ok']:
            o['r'] = o['r'][:-1] + [o['r'][-1] + 1]
            return c
        if k == 3 and o['seen'] and len(o['regs']) > 1 and o['regs'][0] != o['regs'][1]:
            o['regs'][0] = o['regs'][1]
            return c
    return None


def random_registers(rng, n):
    """A history; the shadow of the numbers of cells and registers keeps most operations valid."""
    cells = regs = 0
    out = []
    for i in range(n):
        k = rng.random()
        r = rng.randrange(regs) if regs and rng.random() < .95 else regs + rng.choice((0, 1, 50))
        pos = rng.choice((i + 1, i + 1, -i, -1, 2**31 - 1))
        if k < .2 or (regs == 0 and k < .8):
            c = rng.randint(0, cells) if rng.random() < .9 else cells + rng.choice((1, 2, 100))
            out.append('add %d %d' % (c, pos))
            if c <= cells:
                cells += 1
                regs += 1
        elif k < .4:
            out.append('set %d %d' % (r, pos))
        elif k < .6:
            s = rng.randrange(regs) if regs and rng.random() < .9 else regs + rng.choice((0, 3))
            out.append('copy %d %d' % (r, s) if rng.random() < .5 else 'copy %d %d' % (s, r))
        elif k < .9:
            out.append('app %d %d' % (r, pos))
            if r < regs:
                cells += 1
        else:
            out.append('get %d' % r)
    return out


def random_tree(rng, n):
    size = 1
    out = []
    for i in range(n):
        k = rng.random()
        a = rng.randrange(size) if rng.random() < .9 else size + rng.choice((0, 1, 1000))
        if k < .5:
            out.append('insert %d %d' % (a, rng.choice((i, -i, -1))))
            size += a < size
        elif k < .7:
            out.append('set %d %d' % (a, i + 1000))
        else:
            out.append('get %d' % a)
    return out


@guard
def main():
    ck = HistoryCheck('C19', ('REG',))
    rng = ck.rng
    n, m = (5, 3) if THOROUGH else (4, 3)
    ck.model('MCRegisters', 'CONSTANTS\nMaxCells = %d\nMaxRegs = %d\nPos = {1, 2}\nSPECIFICATION Spec\nINVARIANT Rooted\nPROPERTY Local\n'
             % (n, m), 'operations change nothing else (%d cells, %d registers)' % (n, m))
    # every short history that starts with two registers, one below the other or both at the root
    ops = ['add 0 %d', 'add 2 %d', 'set 0 %d', 'set 1 %d', 'app 0 %d', 'app 1 %d', 'set 2 %d', 'app 2 %d']
    ops = ops + ['copy 0 1', 'copy 1 0', 'copy 2 0', 'copy 0 2']
    items = []
    for start in (['add 0 1', 'add 0 2'], ['add 0 1', 'add 1 2']):
        for t in itertools.product(ops, repeat=4 if THOROUGH else 3):
            items.append(registers(start + [x % (10 + i) if '%' in x else x for i, x in enumerate(t)]))
    items += [registers(random_registers(rng, rng.randint(1, 60))) for _ in range(4000 if THOROUGH else 600)]
    ck.histories('RegTrace', items, 'registers', spoil)
    t = [tree(random_tree(rng, rng.randint(1, 50))) for _ in range(3000 if THOROUGH else 500)]
    tops = ['insert 0 %d', 'insert 1 %d', 'insert 2 %d', 'set 1 %d', 'set 2 %d', 'set 0 %d', 'get 0', 'get 1', 'get 2', 'get 3']
    for x in itertools.product(tops, repeat=4 if THOROUGH else 3):
        t.append(tree([y % (10 + i) if '%' in y else y for i, y in enumerate(x)]))
    ck.histories('RegTrace', t, 'tree of positions', spoil)
    return ck
