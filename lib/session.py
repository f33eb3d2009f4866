"""Sessions: one parser through several runs, with resets and failing readers (SessionTrace.tla)."""
import copy

from logcheck import *

CON = 'SchOf <- TSchOf\nInpOf <- TInpOf\nAspects = {"toks", "types", "str", "done", "ts", "lt", "ml", "vars", "same", "line"}'
KEEP = BASE + ['er', 'ec']


class Run:
    """inp: the input; calls: how many parse calls (None: until done); plan: what the reads return."""

    def __init__(self, inp, calls=None, plan='-1', fin=True, capsize=None):
        self.inp, self.calls, self.plan, self.fin = inp, calls, plan, fin


class Session:
    """kind rp or bp; new: on a parser of its own, constructed for this session."""

    def __init__(self, sc, runs, sizes=DEF, kind='rp', new=True):
        self.sc, self.runs, self.sizes, self.kind = sc, runs, sizes, kind
        self.slot = '%s_%d_%d_%d' % ((kind, sc) + sizes)

    def preset(self, schs):
        return 'sizes %d %d\n%s%s.new %s s%s\n' % (self.sizes + (schs[self.sc].script('s' + self.slot),
                                                                self.kind, self.slot, self.slot))

    def commands(self):
        c = ['sizes %d %d' % self.sizes]
        for i, r in enumerate(self.runs):
            h = r.inp.hex() or '-'
            n = r.calls if r.calls is not None else len(r.inp) + 60
            if self.kind == 'rp':
                c.append('rp.set %s %s %s' % (self.slot, h, r.plan))
                if n:
                    c.append('rp.%s %s %d %d' % ('all' if r.calls is None else 'some', self.slot, n, 400))
            else:
                c.append('bp.reset %s' % self.slot)
                c.append('bp.buf %s %s' % (self.slot, h))
                if n:
                    c.append('bp.next %s %d 0 %d %d' % (self.slot, len(r.inp), r.fin, n))
        return c

    def key(self):
        return (self.kind, self.sc, self.sizes)

    def describe(self, schs):
        return {'schema': schs[self.sc].text(), 'parser': self.kind, 'buffer_sizes': self.sizes,
                'runs': [{'input': repr(r.inp)[:300], 'input_hex': r.inp.hex()[:4000], 'calls': r.calls,
                          'reads': r.plan[:300], 'finished': r.fin} for r in self.runs],
                'commands': [x[:2000] for x in self.commands()]}


def observe(ck, sessions, fresh=False):
    """Cases of SessionTrace; fresh: each in a process of its own preset (a new parser per session)."""
    presets, cases = {}, []
    for n, s in enumerate(sessions):
        if fresh:
            # a parser that was never used
            cases.append((str(n), (), s.preset(ck.schs).strip().split('\n') + s.commands()))
        else:
            presets.setdefault(s.key(), s.preset(ck.schs))
            cases.append((str(n), (s.key(),), s.commands()))
    res = run_harness(ck.exe, cases, presets)
    out = []
    for n, s in enumerate(sessions):
        out.append(to_session(ck.schs[s.sc], s, res[str(n)]))
    return out


def to_session(sch, s, recs):
    names = known_names(sch)
    runs = []
    end = recs[-1]['ev']
    if any(o['ev'] in ('escaped', 'throw') for o in recs):
        end = 'exception'
    at = -1
    for o in recs:
        if o['ev'] in ('set', 'breset'):
            at += 1
            runs.append({'inp': list(s.runs[at].inp), 'done': o['done'], 'evs': []})
        elif o['ev'] in ('next', 'bnext') and runs:
            runs[-1]['evs'].append(o)
    for i, r in enumerate(runs):
        evs = r['evs']
        last = i == len(runs) - 1
        if not last or s.runs[i].calls is not None:
            # calls after the parser is done, or for lack of bytes, say nothing about the stream
            for j, o in enumerate(evs):
                if o['rc'] == 'Success' and o['done']:
                    evs = evs[:j + 1]
                    break
            evs = [o for o in evs if o['rc'] != 'BufferOutOfBounds']
        t = tidy(evs, names)
        if t is None:
            t, end = [], 'malformed'
        r['evs'] = [dict({f: o[f] for f in KEEP if f in o}, er=o.get('er', 0), ec=o.get('ec', '')) for o in t]
    full = len(runs) == len(s.runs) and s.runs[-1].calls is None and s.runs[-1].fin
    if len(runs) < len(s.runs) and end == 'end':
        end = 'incomplete'
    return {'sc': s.sc + 1, 'runs': runs or [{'inp': [], 'done': False, 'evs': []}], 'full': full, 'end': end}


def corrupt_session(c, rng):
    d = copy.deepcopy(c)
    f = rng.choice(('run', 'run', 'run', 'er', 'rc', 'dropfail'))
    r = d['runs'][-1]
    fails = [o for o in r['evs'] if o['rc'] != 'Success']
    if f == 'run':
        one = corrupt({'sc': c['sc'], 'inp': r['inp'], 'end': c['end'], 'evs': r['evs']}, rng,
                      ('str', 'toks', 'types', 'lt', 'ml', 'vars', 'done', 'line'))
        if one is None:
            return None
        r['evs'] = one['evs']
    elif f == 'er' and r['evs']:
        rng.choice(r['evs'])['er'] += 1
    elif f == 'rc' and fails:
        rng.choice(fails)['rc'] = 'EndOfFile'
    elif f == 'dropfail' and fails:
        r['evs'].remove(rng.choice(fails))
    else:
        return None
    return d


def judge(ck, sessions, cases, ncorrupt=60):
    mut, src = [], []
    order = [i for i in range(len(cases)) if sum(len(r['evs']) for r in cases[i]['runs']) < 60]
    ck.rng.shuffle(order)
    for i in order:
        if len(mut) >= ncorrupt:
            break
        d = corrupt_session(cases[i], ck.rng)
        if d is not None:
            mut.append(d)
            src.append(i)
    t = time.time()
    rej = set(ck.traces('SessionTrace', cases + mut, CON, ck.sj))
    log('SessionTrace: TLC judged %d sessions (%d corrupted copies) in %.1f s: %d rejected'
        % (len(cases), len(mut), time.time() - t, len([i for i in rej if i < len(cases)])))
    for j in range(len(mut)):
        if len(cases) + j not in rej and src[j] not in rej:
            log(json.dumps(mut[j])[:1500])
            raise Machinery('SessionTrace accepts a corrupted trace')
    ck.parts['corrupted_traces_rejected'] = ck.parts.get('corrupted_traces_rejected', 0) + len(mut)
    return sorted(i for i in rej if i < len(cases))


def report(ck, sessions, idx, what, blame, most=3):
    """blame(session, case): is this rejection a matter of the property?  Runs each again first."""
    n = 0
    seen = 0
    for i in sorted(idx, key=lambda i: sum(len(r.inp) for r in sessions[i].runs)):
        if n >= most or seen >= 14:
            break
        s = sessions[i]
        c = observe(ck, [s], fresh=True)[0]
        one = dict(c, sc=1)
        if not ck.traces('SessionTrace', [one], CON, [ck.sj[s.sc]]):
            continue
        seen += 1
        if not blame(s, c):
            continue
        d = s.describe(ck.schs)
        d.update({'observed': c, 'tlc': ck.explain('SessionTrace', one, CON, [ck.sj[s.sc]])})
        ck.violation('%s: schema %r, buffers %s, runs %s%s'
                     % (what, ck.schs[s.sc].text()[:200], s.sizes,
                        [(r.inp[:80], r.calls, r.plan[:30]) for r in s.runs],
                        '' if c['end'] == 'end' else ' (ended with: %s)' % c['end']), d)
        n += 1
    return seen
