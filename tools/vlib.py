"""Building the conformance drivers from /repo, generating scripts with TLC, running them, checking traces with TLC."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
CACHE = os.path.join(VERIF, '.cache')
NCPU = os.cpu_count() or 4
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()


class HarnessError(Exception):
    """The check itself could not give an answer (exit 2)."""


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def pmap(f, items, workers=None):
    with cf.ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(f, items))


# ---------------------------------------------------------------- building
CXXFLAGS = ['-std=c++20', '-O0', '-w', '-DEIGEN_STACK_ALLOCATION_LIMIT=0', '-DSHOW_STACKTRACE=0',
            '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(f for f in glob.glob(p + '/**', recursive=True) if os.path.isfile(f))
        for f in files:
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
    return h.hexdigest()


def build(name, units, link=(), extra=(), dirs=('include',)):
    """units: list of (source, [defines]); returns the executable, rebuilt from the repository's working tree (dirs: what it is made of)"""
    flags = CXXFLAGS + list(extra) + ['-I' + HARNESS, '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3']
    key = hashlib.sha256((tree_hash([os.path.join(REPO, d) for d in dirs] + [HARNESS]) + repr((name, units, link, flags))).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, name + '-' + key)
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(CACHE, exist_ok=True)
    for old in sorted(glob.glob(CACHE + '/' + name + '-*'), key=os.path.getmtime)[:-6]:
        os.unlink(old)
    tmp = tempfile.mkdtemp(prefix='vb-')
    try:
        objs = [os.path.join(tmp, '%d.o' % k) for k in range(len(units))]

        def one(k):
            src, defs = units[k]
            return subprocess.run(['g++'] + flags + ['-D' + d for d in defs] + ['-c', os.path.join(HARNESS, src), '-o', objs[k]],
                                  capture_output=True, text=True)
        for r in pmap(one, range(len(units))):
            if r.returncode:
                raise HarnessError('the driver %s does not compile against the tree:\n%s' % (name, r.stderr[-3000:]))
        exe = os.path.join(tmp, 'exe')
        r = subprocess.run(['g++'] + objs + list(link) + ['-o', exe], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('linking %s failed:\n%s' % (name, r.stderr[-3000:]))
        shutil.move(exe, out + '.tmp%d' % os.getpid())
        os.rename(out + '.tmp%d' % os.getpid(), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, args=(), timeout=600, heap='1500m', workers=1, work=None):
    e = dict(os.environ)
    e['UNITS'] = '0'
    e.update({k: str(v) for k, v in (env or {}).items()})
    md = tempfile.mkdtemp(prefix='tlc-', dir=work)
    gc = ['-XX:+UseSerialGC'] if workers == 1 else ['-XX:+UseParallelGC']
    cmd = ['java', '-Xmx' + heap, '-Xss64m'] + gc + ['-Djava.io.tmpdir=' + md, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', md,
           '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return -1, ((x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')) + '\nTIMEOUT'
    finally:
        shutil.rmtree(md, ignore_errors=True)


def prove(module, work, timeout=300):
    """the theorems of a module, checked by the TLA+ proof system; number of proof obligations"""
    try:
        r = subprocess.run(['tlapm', '--cache-dir', tempfile.mkdtemp(prefix='tlaps-', dir=work), module], cwd=SPEC, capture_output=True, text=True, timeout=timeout)
        out = r.stdout + r.stderr
    except (OSError, subprocess.TimeoutExpired) as x:
        out = str(x)
    m = re.search(r'All (\d+) obligations proved', out)
    if not m:
        raise HarnessError('the proofs of %s fail:\n%s' % (module, out[-2000:]))
    return int(m.group(1))


def tlc_counts(out):
    m = re.findall(r'([\d,]+) states generated[^,]*, ([\d,]+) distinct', out)
    if not m:
        m = re.findall(r'number of states generated: ([\d,]+)', out)
        return (int(m[-1].replace(',', '')), 0) if m else (0, 0)
    return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))


def model_check(name, module, constants, invariants, timeout=700, properties=(), work=None, heap='10g', spec='Spec'):
    """Exhaustive TLC run of the specification; returns dict of counts.  A violated invariant here means the
    specification itself is inconsistent: a harness error, not a violation of the code."""
    work = work or tempfile.gettempdir()
    cfg = os.path.join(work, name + '.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec)
        if constants:
            f.write('CONSTANTS\n' + ''.join(' %s = %s\n' % kv for kv in constants.items()))
        if invariants:
            f.write('INVARIANTS ' + ' '.join(invariants) + '\n')
        if properties:
            f.write('PROPERTIES ' + ' '.join(properties) + '\n')
    rc, out = tlc(module, cfg, timeout=timeout, heap=heap, workers=NCPU, work=work)
    if rc != 0:
        raise HarnessError('model checking %s failed (rc %s):\n%s' % (name, rc, out[-4000:]))
    gen, dist = tlc_counts(out)
    return {'config': name, 'constants': {k: str(v) for k, v in constants.items()}, 'invariants': list(invariants), 'states': dist, 'transitions': max(gen - 1, 0)}


def generate(module, env, seed, nops, path, work, timeout=900):
    """One random walk of a generator module, written as a script"""
    env = dict(env, MAXOPS=nops)
    rc, out = tlc(module, module.replace('.tla', '.cfg'), env, ['-simulate', 'num=1', '-depth', str(nops + 1), '-seed', str(seed)], timeout, work=work)
    ops = [json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"OP ')]
    if rc != 0 or not ops:
        raise HarnessError('generator %s failed (rc %s):\n%s' % (module, rc, out[-3000:]))
    with open(path, 'w') as f:
        for o in ops:
            f.write(' '.join(map(str, o)) + '\n')
    return len(ops)


def enumerate_ops(module, cfg, env, path, work, timeout=900):
    """Exhaustive generator: breadth-first, one worker, one printed line per script line"""
    rc, out = tlc(module, cfg, env, [], timeout, work=work)
    ops = [json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"OP ')]
    if rc != 0 or not ops:
        raise HarnessError('generator %s failed (rc %s):\n%s' % (module, rc, out[-3000:]))
    with open(path, 'w') as f:
        for o in ops:
            f.write(' '.join(map(str, o)) + '\n')
    return len(ops)


# ---------------------------------------------------------------- driver
class Died(Exception):
    pass


def run_driver(exe, script, trace, args=(), timeout=120):
    """Runs the driver; returns None, or a text saying how it died (twice, the same way)"""
    res = []
    for attempt in range(2):
        try:
            r = subprocess.run([exe, script, trace] + list(args), capture_output=True, text=True, timeout=timeout, errors='replace',
                               env=dict(os.environ, MALLOC_PERTURB_='165'))
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        if rc == 0:
            return None
        if rc in (77, 78):
            raise HarnessError('driver harness error %s: %s' % (rc, err[-1000:]))
        res.append((rc, err))
    if res[0][0] != res[1][0]:
        # a death that does not repeat: say so once more, still a death
        log('the driver died twice, differently:', res[0][0], res[1][0])
    return 'the driver died (%s) %s' % (res[1][0], res[1][1].strip()[-600:])


class Mismatch:
    def __init__(self, script, trace, line, labels, detail=''):
        self.script, self.trace, self.line, self.labels, self.detail = script, trace, line, labels, detail

    def __str__(self):
        return 'line %s of %s: %s %s' % (self.line, os.path.basename(self.trace), self.labels, self.detail)


def check_trace(module, trace, script, focus, work, env=None, timeout=1500):
    """TLC steps the trace through the specification; returns (mismatches, events, states)"""
    e = dict(env or {}, TRACE=trace, FOCUS=focus)
    rc, out = tlc(module, module.replace('.tla', '.cfg'), e, [], timeout, work=work)
    bad = []
    flat = re.sub(r'\s*\n\s+', ' ', out)
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(.*?)\}\s*>>', flat):
        bad.append(Mismatch(script, trace, int(m.group(1)), re.findall(r'"(C\d\d)", "([^"]*)"', m.group(2))))
    n = sum(1 for _ in open(trace))
    gen, dist = tlc_counts(out)
    if rc != 0 and not bad:
        if rc == -1 or 'OutOfMemory' in out or 'StackOverflow' in out or 'java.io' in out or 'Parse Error' in out or 'Could not parse' in out:
            raise HarnessError('TLC failed on %s (rc %s):\n%s' % (trace, rc, out[-3000:]))
        if 'Error' in out:
            m = re.findall(r'l = (\d+)', out)
            bad.append(Mismatch(script, trace, int(m[-1]) if m else 0, [(focus, 'the recorded event cannot be explained')], out[-1500:]))
        else:
            raise HarnessError('TLC failed on %s (rc %s):\n%s' % (trace, rc, out[-3000:]))
    return bad, n, dist


def ddmin(lines, fails, keep=lambda l: False, budget=60):
    """Shrinks a script while fails(lines) stays true"""
    t = time.time()
    n = 2
    while len(lines) >= 2 and time.time() - t < budget:
        size = max(1, len(lines) // n)
        for i in range(0, len(lines), size):
            cand = [l for k, l in enumerate(lines) if not (i <= k < i + size) or keep(l)]
            if len(cand) < len(lines) and fails(cand):
                lines = cand
                n = max(n - 1, 2)
                break
            if time.time() - t > budget:
                return lines
        else:
            if size == 1:
                break
            n = min(n * 2, len(lines))
    return lines
