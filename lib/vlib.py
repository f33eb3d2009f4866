"""Building the harness from /repo, running it, and running TLC."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
NCPU = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'

_work = None


def work():
    """Scratch directory of this run, removed by cleanup()."""
    global _work
    if _work is None:
        base = os.environ.get('VERIF_WORK')
        if base:
            os.makedirs(base, exist_ok=True)
            _work = base
        else:
            _work = tempfile.mkdtemp(prefix='lsv-')
    return _work


def cleanup():
    if _work and not os.environ.get('VERIF_WORK'):
        shutil.rmtree(_work, ignore_errors=True)


def log(*a):
    print(*a, flush=True)


def sources():
    src = os.path.join(REPO, 'src', 'log_surgeon')
    r = []
    for d, _, fs in os.walk(src):
        r += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(r)


def build(parts):
    """Compile the library's sources and the parts of the harness that are needed; path of lsh."""
    t0 = time.time()
    out = os.path.join(work(), 'obj')
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, 'lsh')
    flags = ['-std=c++20', '-O1', '-include', 'cstdint', '-DLOG_SURGEON_VERIF_HOOKS',
             '-I' + os.path.join(REPO, 'src')] + ['-DLSH_' + p for p in parts]
    jobs = [(f, os.path.join(out, hashlib.md5(f.encode()).hexdigest()[:8] + '.o')) for f in sources()]
    jobs.append((os.path.join(VERIF, 'harness', 'lsh.cpp'), os.path.join(out, 'lsh.o')))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        p = subprocess.run(['g++'] + flags + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
        return p.returncode, j[0], p.stderr

    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    for rc, f, err in res:
        if rc:
            log(err[-3000:])
            raise BuildError('cannot compile ' + f)
    p = subprocess.run(['g++'] + [j[1] for j in jobs] + ['-lfmt', '-o', exe], capture_output=True, text=True)
    if p.returncode:
        log(p.stderr[-3000:])
        raise BuildError('cannot link')
    log('built harness in %.1f s' % (time.time() - t0))
    return exe


class BuildError(Exception):
    pass


def run_harness(exe, cases, presets=None, common='', limit=10, chunk=None, env=None):
    """Run the cases on the real code.

    cases: list of (id, preset keys, [commands]); presets: key -> commands run once per process before
    the cases that need them.  Returns {id: [records]}; the last record of a case is `end`, `crash` (it
    died or hung) or `skipped` (too many hangs before it).
    """
    presets = presets or {}
    # what is freed or not yet written is not what it was
    env = dict(env or os.environ, MALLOC_PERTURB_='213')
    order = sorted(cases, key=lambda c: tuple(str(x) for x in c[1]))
    n = chunk or max(1, min(400, (len(order) + 4 * NCPU - 1) // (4 * NCPU)))
    shards = [order[i:i + n] for i in range(0, len(order), n)]

    def one(sh):
        keys = []
        for _, ks, _ in sh:
            for k in ks:
                if k not in keys:
                    keys.append(k)
        script = common + ''.join(presets[k] for k in keys)
        script += ''.join('case %s\n%s\nendcase\n' % (i, '\n'.join(cs)) for i, _, cs in sh)
        try:
            p = subprocess.run([exe, str(limit)], input=script.encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, cwd=work(), timeout=limit * 8 + 60, env=env)
            return p.stdout
        except subprocess.TimeoutExpired as x:
            return x.stdout or b''

    res = {i: [] for i, _, _ in cases}
    with ThreadPoolExecutor(NCPU) as ex:
        for out in ex.map(one, shards):
            for line in out.split(b'\n'):
                if not line:
                    continue
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o['c'] in res:
                    res[o['c']].append(o)
    # a case without its terminating record: the driver itself died
    for i, r in res.items():
        if not r or r[-1]['ev'] not in ('end', 'crash', 'skipped'):
            r.append({'c': i, 'ev': 'crash', 'sig': -1})
    return res


def tlc(module, cfg, env=None, workers=NCPU, timeout=780, heap='6g', xss='256m', args=(), again=True, deadlock=False):
    """Run TLC in a scratch copy of specs/; returns (exit code, output, stats)."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=work())
    for f in os.listdir(SPECS):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write(cfg)
    cp = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
    cl = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + xss, '-cp', cp, 'tlc2.TLC',
          '-config', 'M.cfg', '-workers', str(workers), '-metadir', os.path.join(d, 'st'), '-noGenerateSpecTE']
    if not deadlock:
        cl.append('-deadlock')
    cl += list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cl, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = -9, (x.stdout or b'').decode(errors='replace') + '\nTLC TIMEOUT\n'
    st = {'wall': time.time() - t0, 'states': 0, 'transitions': 0}
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        st['transitions'] = int(m[-1][0])
        st['states'] = int(m[-1][1])
    m = re.findall(r'Finished computing initial states: (\d+) distinct', out)
    if m:
        st['init'] = int(m[-1])
    shutil.rmtree(d, ignore_errors=True)
    if again and rc not in (-9, 0, 10, 11, 12, 13):
        # Not a verdict but an error of TLC (its stack, its workers): once more with all the room there is
        print(error_lines(out))
        return tlc(module, cfg, env, workers, timeout, heap, '1g', args, deadlock, False)
    return rc, out, st


def error_lines(out):
    return '\n'.join(x for i, x in enumerate(out.split('\n')) if 'rror' in x)[:1500]


def ndjson(name, objs):
    p = os.path.join(work(), name)
    with open(p, 'w') as f:
        for o in objs:
            f.write(json.dumps(o, separators=(',', ':')) + '\n')
    return p


def accepted(out):
    return {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
