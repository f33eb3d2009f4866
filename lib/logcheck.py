"""Running the real parsers on generated logs and turning the records into cases for TLC."""
import random

from framework import *
from gen import *

BASE = ['rc', 'done', 'ts', 'toks', 'same', 'str', 'lt', 'ml', 'vars']
DEF = (0, 0)  # default buffer sizes


class Item:
    """One run: schema index, input, buffer sizes (chars, tokens), read plan, parser kind."""

    def __init__(self, sc, inp, sizes=DEF, plan='-1', kind='rp', cap=0, late=False, pre=None):
        self.pre = pre  # (input, calls) of an earlier run of the same parser
        self.sc, self.inp, self.sizes, self.plan, self.kind, self.cap, self.late = sc, inp, sizes, plan, kind, cap, late

    def key(self):
        return (self.kind, self.sc, self.sizes)

    def preset(self, schs):
        s = schs[self.sc]
        out = 'sizes %d %d\n' % self.sizes
        slot = self.slot()
        out += s.script('s' + slot)
        out += '%s.new %s s%s\n' % (self.kind, slot, slot)
        return out

    def slot(self):
        return '%s_%d_%d_%d' % ((self.kind, self.sc) + self.sizes)

    def commands(self):
        h = self.inp.hex() or '-'
        c = ['sizes %d %d' % self.sizes]
        if self.kind == 'rp':
            if self.pre:
                c += ['rp.set %s %s -1' % (self.slot(), self.pre[0].hex() or '-')]
                c += ['rp.some %s %d 400' % (self.slot(), self.pre[1])] if self.pre[1] else []
            return c + ['rp.set %s %s %s' % (self.slot(), h, self.plan), 'rp.all %s %d' % (self.slot(), len(self.inp) + 50)]
        if self.cap:
            return c + ['bp.refill %s %s %d %d %s' % (self.slot(), h, self.cap, self.late, self.plan)]
        return c + ['bp.buf %s %s' % (self.slot(), h), 'bp.all %s %d 0 1' % (self.slot(), len(self.inp))]

    def describe(self, schs):
        return {'schema': schs[self.sc].text(), 'input_hex': self.inp.hex(), 'input': repr(self.inp)[:400],
                'buffer_sizes': self.sizes, 'read_plan': self.plan, 'parser': self.kind, 'cap': self.cap, 'late': self.late,
                'earlier_run': None if not self.pre else [repr(self.pre[0]), self.pre[1]],
                'commands': self.commands()}


def run_items(exe, schs, items, limit=10):
    """Records of each item, in order."""
    presets = {}
    cases = []
    for n, it in enumerate(items):
        if it.key() not in presets:
            presets[it.key()] = it.preset(schs)
        cases.append((str(n), (it.key(),), it.commands()))
    res = run_harness(exe, cases, presets, limit=limit)
    return [res[str(n)] for n in range(len(items))]


def known_names(sch):
    return set(RESERVED) | {n for n, _ in sch.rules}


def tidy(evs, names):
    """Event records that TLC can evaluate; None if some are malformed."""
    out = []
    for o in evs:
        if o.get('rc') == 'Success':
            for t in o['toks']:
                if not t['ty'] or any(x not in names for x in t['ty']):
                    return None
            for v in o['vars']:
                if v['n'] not in names:
                    return None
        out.append(o)
    return out


def to_case(sch, it, recs, keep=None):
    """A case for LogTrace, StreamTrace and EventTrace."""
    at = max([i for i, o in enumerate(recs) if o['ev'] == 'set'] or [0])
    evs = [o for o in recs[at:] if o['ev'] in ('next', 'bnext')]
    end = recs[-1]['ev']
    if any(o['ev'] in ('escaped', 'throw') for o in recs):
        end = 'exception'
    t = tidy(evs, known_names(sch))
    if t is None:
        t, end = [], 'malformed'
    keep = keep or BASE
    t = [{f: o[f] for f in keep if f in o} for o in t]
    return {'sc': it.sc + 1, 'inp': list(it.inp), 'evs': t, 'end': end}


def lex_case(c):
    toks = []
    end = c['end']
    for o in c['evs']:
        if o['rc'] != 'Success':
            end = 'error'
            break
        toks += [t['s'] for t in o['toks']]
    return {'sc': c['sc'], 'inp': c['inp'], 'toks': toks, 'end': end}


def type_case(c):
    toks = []
    end = c['end']
    first = True
    last = None
    for o in c['evs']:
        if o['rc'] != 'Success':
            end = 'error'
            break
        for j, t in enumerate(o['toks']):
            at = 'sof' if first else 'nl' if j == 0 and last == 10 else ''
            first = False
            toks.append({'s': t['s'], 'ty': t['ty'], 'at': at})
        if o['str']:
            last = o['str'][-1]
    return {'sc': c['sc'], 'inp': c['inp'], 'toks': toks, 'end': end}


def corrupt(c, rng, fields):
    """A copy of an event case with one recorded field changed."""
    import copy
    evs = [i for i, o in enumerate(c['evs']) if o['rc'] == 'Success']
    if not evs:
        return None
    for _ in range(20):
        d = copy.deepcopy({k: c[k] for k in ('sc', 'inp', 'end')})
        d['evs'] = list(c['evs'])
        i = rng.choice(evs)
        o = d['evs'][i] = copy.deepcopy(c['evs'][i])
        f = rng.choice(fields)
        if f == 'str' and o['str']:
            o['str'][rng.randrange(len(o['str']))] ^= 1
        elif f == 'drop':
            del d['evs'][i]
        elif f == 'off' and 'off' in o:
            o['off'] += rng.choice((-1, 1))
        elif f == 'rc':
            o['rc'] = 'BufferOutOfBounds'
        elif f == 'done':
            o['done'] = not o['done']
        elif f == 'toks' and len(o['toks']) > 1:
            j = rng.randrange(len(o['toks']) - 1)
            a, b = o['toks'][j], o['toks'][j + 1]
            if not b['s']:
                continue
            a['s'] = a['s'] + b['s'][:1]
            b['s'] = b['s'][1:]
        elif f == 'tokbyte' and o['toks'] and o['toks'][-1]['s']:
            o['toks'][-1]['s'][-1] ^= 1
        elif f == 'types' and o['toks']:
            j = rng.randrange(len(o['toks']))
            t = o['toks'][j]
            if t['ty'][::-1] != t['ty']:
                t['ty'] = t['ty'][::-1]
            elif t['ty'][0] != '$UncaughtString':
                t['ty'] = ['$UncaughtString', t['ty'][0]]
            else:
                continue
        elif f == 'line' and o['toks']:
            rng.choice(o['toks'])['ln'] += rng.choice((7, 9))
        elif f == 'lt' and o['lt']:
            o['lt'] = o['lt'][1:]
        elif f == 'ml':
            o['ml'] = not o['ml']
        elif f == 'ts':
            o['ts'] = [] if o['ts'] else [[48]]
        elif f == 'vars' and o['vars']:
            v = rng.choice(o['vars'])
            v['o'] = v['o'] + [v['o'][-1]]
        else:
            continue
        return d
    return None


def standard_schemas(rng, n, **kw):
    return realistic() + small() + [random_schema(rng, **kw) for _ in range(n)]


def small_words(n):
    """(schema index offset within small(), inputs): every word of length <= n over a telling alphabet."""
    al = [b'T1 \n:', b'1a \n', b'T:1\n', b'ab12 \n', b'ab1 \n', b'1:a\n']
    out = []
    for i, a in enumerate(al):
        k = n
        while len(a) ** k > 5 ** n:
            k -= 1
        out.append((i, list(words(a, k))))
    return out


def nosof(b):
    return b.replace(b'\xfd', b'')


def long_text(sch, rng):
    """An event with a token of more than 256 bytes, or more than 256 tokens."""
    vs = [e for m, e in sch.rules if m != 'timestamp'] or [L('q')]
    blanks = [c for c in sch.delims if c != 10] or [10]
    a, b = (nosof(log_text(sch, rng, 4)) for _ in 'ab')
    k = rng.randrange(3)
    if k == 0:
        w = bytes([rng.choice(blanks), rng.choice(b'zxa1')]) * 1 + bytes([rng.choice(b'zxa1')]) * rng.randint(255, 500)
    elif k == 1:
        w = bytes([rng.choice(blanks)]) + sample(rng.choice(vs), rng, sch.delims, 400)
        w += w[-1:] * max(0, 260 - len(w))
    else:
        w = b''.join(bytes([rng.choice(blanks)]) + rng.choice([b'z', sample(rng.choice(vs), rng, sch.delims, 1)])
                     for _ in range(rng.randint(130, 280)))
    return nosof(a + w + b)


def rand_plan(rng):
    k = rng.randrange(4)
    if k == 0:
        return '-1'
    if k == 1:
        return ','.join(['1'] * 400)
    return ','.join(str(rng.choice((1, 1, 2, 3, 5, 7, 20))) for _ in range(60))


def rand_sizes(rng):
    return rng.choice([DEF, (2, 4), (4, 4), (6, 4), (8, 4), (10, 5), (16, 4), (16, 8), (32, 16), (64, 5)])


def distinct(items):
    return len({(it.sc, it.inp, it.sizes, it.plan, it.kind, it.cap, it.late, it.pre) for it in items})


class LogCheck(Check):
    """A check over runs of the real parsers that TLC judges."""

    PARTS = ('RP',)

    def __init__(self, pid, schs, parts=PARTS):
        super().__init__(pid)
        self.schs = schs
        self.sj = [s.json() for s in schs]
        self.partnames = parts
        self.exe = build(parts)

    def widen(self, items, n=150):
        """Some items follow an earlier run of the same parser; some have long tokens or many of them."""
        rng = self.rng
        for _ in range(n * (8 if THOROUGH else 1)):
            it = rng.choice(items)
            if it.kind == 'rp' and not it.pre:
                w = nosof(log_text(self.schs[it.sc], rng, rng.randint(1, 10)))
                items.append(Item(it.sc, it.inp, it.sizes, it.plan, pre=(w, rng.choice((0, 1, 1, 2, 3, len(w) + 20)))))
        for _ in range(80 if THOROUGH else 10):
            sc = rng.randrange(len(self.schs))
            items.append(Item(sc, long_text(self.schs[sc], rng), rng.choice((DEF, DEF, (64, 8))), '-1', rng.choice(('rp', 'rp', 'bp'))
                              if 'BP' in self.partnames else 'rp'))
            if items[-1].kind == 'bp':
                items[-1].sizes = DEF
        return items

    def observe(self, items, keep=None):
        t = time.time()
        recs = run_items(self.exe, self.schs, items)
        cases = [to_case(self.schs[it.sc], it, r, keep) for it, r in zip(items, recs)]
        log('ran %d cases on the real code in %.1f s' % (len(items), time.time() - t))
        return cases

    def judge(self, stages, items, cases, corrupt_fields=(), ncorrupt=60, convert=None, confirm=True, what=''):
        """stages: list of (module, consts, converter or None).  A case is violated if every... see verdict.

        Returns the indices rejected by the first stage; corrupted copies of accepted cases must be
        rejected as well, which shows that the traces bind the specification.
        """
        module, consts, conv = stages
        conv = conv or (lambda c: c)
        bad = [c for c in cases]
        cs = [conv(c) for c in cases]
        mut = []
        src = []
        if corrupt_fields:
            order = list(range(len(cases)))
            self.rng.shuffle(order)
            for i in order:
                if len(mut) >= ncorrupt:
                    break
                d = corrupt(cases[i], self.rng, corrupt_fields)
                if d is not None:
                    mut.append(conv(d))
                    src.append(i)
        t = time.time()
        rej = set(self.traces(module, cs + mut, consts, self.sj))
        log('%s: TLC judged %d traces (%d corrupted copies) in %.1f s: %d rejected'
            % (module, len(cs), len(mut), time.time() - t, len([i for i in rej if i < len(cs)])))
        missed = [j for j in range(len(mut)) if len(cs) + j not in rej and src[j] not in rej]
        if missed:
            log(json.dumps(mut[missed[0]])[:1500])
            raise Machinery('%s accepts a corrupted trace' % module)
        self.parts['corrupted_traces_rejected'] = self.parts.get('corrupted_traces_rejected', 0) + len(mut)
        return sorted(i for i in rej if i < len(cs))

    def confirm(self, stage, items, idx, keep=None):
        """Run rejected items again, alone, and let TLC judge them again."""
        module, consts, conv = stage
        conv = conv or (lambda c: c)
        out = []
        for i in idx:
            it = items[i]
            c = to_case(self.schs[it.sc], it, run_items(self.exe, self.schs, [it], limit=20)[0], keep)
            if c['end'] == 'skipped':
                continue
            one = dict(conv(c))
            one['sc'] = 1
            if self.traces(module, [one], consts, [self.sj[it.sc]]):
                out.append((i, c, self.explain(module, one, consts, [self.sj[it.sc]])))
        return out

    def report(self, stage, items, idx, what, keep=None, most=3):
        # small and early cases first; hangs last
        order = sorted(idx, key=lambda i: len(items[i].inp))
        n = 0
        for i in order[:12]:
            if n >= most:
                break
            for i, c, why in self.confirm(stage, items, [i], keep):
                d = items[i].describe(self.schs)
                d.update({'observed': c, 'rejected_by': stage[0], 'constants': stage[1], 'tlc': why})
                end = '' if c['end'] == 'end' else ' (the run ended with: %s)' % c['end']
                self.violation('%s: input %r, schema %r, buffers %s, reads %s%s'
                               % (what, items[i].inp[:200], self.schs[items[i].sc].text()[:200],
                                  items[i].sizes, items[i].plan[:40], end), d)
                n += 1
        if idx and not n:
            raise Machinery('%d cases were rejected once but accepted when run again' % len(idx))

    def count(self, items, cases, nontrivial=lambda c: len(c['evs']) > 1):
        keys = set()
        for it, c in zip(items, cases):
            if nontrivial(c):
                keys.add((it.sc, it.inp, it.sizes, it.plan, it.kind, it.cap, it.late, it.pre))
        i = max(range(len(items)), key=lambda j: len(cases[j]['evs']) if len(items[j].inp) < 120 else 0)
        self.validated(len(items), len(keys), [
            {'schema': self.schs[items[i].sc].text(), 'input': repr(items[i].inp),
             'events': [repr(bytes(o['str'])) for o in cases[i]['evs'] if 'str' in o][:8]}])


def guard(f):
    """The verdict of a check's main function; a library that does not build is an error."""
    def main():
        ck = f()
        return ck.finish()
    return main
