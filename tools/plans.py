"""Which machinery decides which property, and how deep per tier."""
import os
import re
import shutil
from vlib import *      # noqa

LEVEL = {}
PLAN = {}


def known(prop):
    """open findings (lines 'finding: property=<id> ...'); fixed ones are not printed"""
    p = os.path.join(VERIF, 'known_findings.txt')
    return [m.group(1) for m in re.finditer(r'^finding: property=%s (.*)$' % prop, open(p).read(), re.M)] if os.path.exists(p) else []


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.quick = tier != 'thorough'
        self.bad = []
        self.mc = []
        self.traces = self.events = self.tstates = 0
        self.ops = {}
        self.samples = []
        self.rerun = {}
        self.extra = {}

    # ---- exhaustive runs of the specification
    def model(self, name, module, constants, invariants, **kw):
        r = model_check(name, module, constants, invariants, work=self.work, **kw)
        log('model', name, r['states'], 'distinct states')
        self.mc.append(r)

    # ---- scripts -> driver -> trace -> TLC
    def scripts(self, module, jobs):
        """jobs: list of (profile env, number of calls); returns script paths"""
        def one(k):
            env, n = jobs[k]
            path = os.path.join(self.work, 's%d-%d.txt' % (len(self.rerun) + 1000 * self.traces, k))
            generate(module, env, self.seed * 100003 + 7919 * k + 17, n, path, self.work)
            return path
        r = pmap(one, range(len(jobs)))
        log(len(r), 'scripts from', module)
        return r

    def conform(self, exe, module, scripts, focus=None, args=(), env=None):
        focus = focus or self.prop

        def one(s):
            t = s[:-4] + '.nd'
            died = run_driver(exe, s, t, args)
            if died:
                return [Mismatch(s, t, sum(1 for _ in open(t)) if os.path.exists(t) else 0, [(focus, died)])], 0, 0
            return check_trace(module, t, s, focus, self.work, env)
        for s, (bad, n, st) in zip(scripts, pmap(one, scripts)):
            self.traces += 1
            self.events += n
            self.tstates += st
            for m in bad:
                self.rerun[m.script] = (exe, module, focus, args, env)
            self.bad += bad
            for l in open(s):
                o = l.split(' ', 1)[0].strip()
                self.ops[o] = self.ops.get(o, 0) + 1
        if scripts and len(self.samples) < 3:
            self.samples.append({'script': os.path.basename(scripts[0]), 'calls': [l.strip()[:160] for l in open(scripts[0])][:12]})
        log(len(scripts), 'traces checked against', module, '-', len(self.bad), 'mismatches')

    def coverage(self):
        c = {'states': sum(m['states'] for m in self.mc) + self.tstates,
             'transitions': sum(m['transitions'] for m in self.mc) + self.events,
             'traces_validated_against_impl': self.traces,
             'events_compared': self.events, 'calls_by_kind': self.ops, 'model_runs': self.mc, 'samples': self.samples or ['none']}
        c.update(self.extra)
        return c

    def save_replay(self):
        """the (shrunk) script, the trace and what differs, kept for reading and re-running"""
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        m = self.bad[0]
        path = os.path.join(d, self.prop + '.txt')
        lines = open(m.script).read().splitlines() if os.path.exists(m.script) else []
        if m.script in self.rerun:
            exe, module, focus, args, env = self.rerun[m.script]
            s2, t2 = os.path.join(self.work, 'shrink.txt'), os.path.join(self.work, 'shrink.nd')

            def fails(ls):
                open(s2, 'w').write('\n'.join(ls) + '\n')
                try:
                    died = run_driver(exe, s2, t2, args, timeout=20)
                    return bool(died) or bool(check_trace(module, t2, s2, focus, self.work, env, timeout=60)[0])
                except HarnessError:
                    return False
            cut = lines[:m.line] if 0 < m.line < len(lines) else lines
            try:
                if fails(cut):
                    lines = cut
                lines = ddmin(lines, fails, budget=25)
            except Exception as x:      # shrinking is a convenience
                log('shrinking stopped:', x)
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        with open(path[:-4] + '.why', 'w') as f:
            for b in self.bad[:50]:
                f.write(str(b) + '\n')
            if m.script in self.rerun:
                exe, module, focus, args, env = self.rerun[m.script]
                f.write('\nre-run: driver %s on the script (%s), then FOCUS=%s TRACE=<trace> tlc %s (spec/)\n' % (os.path.basename(exe), args, focus, module))
        return path


# ---------------------------------------------------------------- nonlinear controller
SHAPES = {1: '2,1,1,3,2,2,1', 2: '1,2,2,4,4,1,2', 3: '2,2,1,2,1,0,0', 4: '1,1,1,1,1,1,1', 5: '3,2,2,5,3,2,2'}


def nl_driver(static=True):
    units = [('nl_main.cpp', []), ('nl_dyn.cpp', []), ('fakeclock.cpp', []), ('memcount.cpp', [])]
    if static:
        units += [('nl_shapes.cpp', [])] + [('nl_s.cpp', ['SH=%d' % k, 'SHAPE=' + v]) for k, v in SHAPES.items()]
    else:
        units += [('nl_shapes.cpp', ['NOSTATIC'])]
    return build('nl' if static else 'nldyn', units, ['-Wl,--wrap=nlopt_optimize', '-lnlopt_cxx'])


NL_INV = ['BoundsLastWrite', 'SliceValidated', 'Latest', 'GuessInside', 'ColdGuess', 'Results', 'PlanStored', 'Flags']


def nl_model(ctx, group):
    depth = {'bounds': (2, 3), 'par': (4, 5), 'life': (3, 4)}[group][0 if ctx.quick else 1]
    ctx.model('nl-' + group, 'MCNl.tla', {'Depth': depth, 'PH': 3 if group == 'bounds' else 2, 'CH': 1 if group == 'life' else 2, 'Group': '"%s"' % group}, NL_INV)


def large(ctx, profiles):
    """scripts for controllers of larger dimensions: up to 18 steps, 8 states, 5 inputs"""
    jobs = [({'PROFILE': p, 'NCTL': 2, 'SHAPES': 'large'}, 100 if p == 'fns' else 150) for p in profiles]
    return (jobs * 4)[:4] * (1 if ctx.quick else 8)


def nl_plan(groups, profiles):
    """profiles: {profile: number of scripts in the quick tier}"""
    def plan(ctx):
        exe = nl_driver()
        for g in groups:
            nl_model(ctx, g)
        jobs = []
        for p, n in profiles.items():
            for k in range(n * (1 if ctx.quick else 8)):
                jobs.append(({'PROFILE': p, 'NCTL': 2, 'SHAPES': 'static' if k % 3 == 2 else 'any'}, 250 if ctx.quick else 500))
        jobs += large(ctx, profiles)
        scripts = ctx.scripts('GenNl.tla', jobs)
        # C18: solves that take microseconds, or hours; else
        # half of the scripts with every quantity in another unit of measure (a moderate one where difference quotients
        # are compared, as their step does not follow the unit)
        units = {'C18': ('d1000', 'd1000000000'), 'C06': ('u2',), 'C04': ('u2', 'u-4'), 'C05': ('u2', 'u-4'), 'C03': ('u26', 'u-4')}.get(ctx.prop, ('u26', 'u-20'))
        other = [s for k, s in enumerate(scripts) if k % 4 in (1, 3)] if units else []
        ctx.conform(exe, 'TraceNl.tla', [s for s in scripts if s not in other])
        for j, u in enumerate(units):
            ctx.conform(exe, 'TraceNl.tla', other[j::len(units)], args=(u,))
    return plan


PLAN['C01'] = nl_plan(['bounds'], {'bounds': 12, 'mix': 4})
PLAN['C03'] = nl_plan(['life'], {'fns': 8, 'mix': 8, 'life': 4})
PLAN['C04'] = nl_plan(['par'], {'fns': 16, 'mix': 4})
PLAN['C05'] = nl_plan(['par'], {'fns': 16, 'mix': 4})
PLAN['C06'] = nl_plan(['par'], {'fns': 16, 'mix': 4})
PLAN['C07'] = nl_plan(['life'], {'life': 12, 'mix': 8})
PLAN['C08'] = nl_plan(['life'], {'life': 10, 'mix': 6, 'bounds': 6})
PLAN['C09'] = nl_plan(['par'], {'life': 10, 'mix': 8})
PLAN['C18'] = nl_plan(['life'], {'time': 10, 'life': 6})

# ---------------------------------------------------------------- linear controller
LSHAPES = {1: '2,1,1,1,3,2', 2: '1,2,2,2,4,4', 3: '2,2,1,1,2,1', 4: '1,1,0,1,1,1', 5: '3,2,2,2,5,3'}


def lm_driver():
    units = [('lm_main.cpp', []), ('lm_dyn.cpp', []), ('fakeclock.cpp', []), ('memcount.cpp', []), ('lm_shapes.cpp', [])] + \
            [('lm_s.cpp', ['SH=%d' % k, 'SHAPE=' + v]) for k, v in LSHAPES.items()]
    return build('lm', units, [], ['-I' + os.path.join(HARNESS, 'fakes')])


LM_INV = {'slices': ['SliceValidated', 'LastWrite', 'InputTail'], 'life': ['Life'], 'qp': ['QpTrajectories', 'QpLimits', 'QpUseful', 'QpCost']}


def lm_model(ctx, group):
    for ph, ch, depth in {'slices': [(3, 2, 2)] if ctx.quick else [(3, 2, 2), (4, 2, 2), (2, 1, 3)],
                          'life': [(2, 1, 3)] if ctx.quick else [(2, 1, 4), (1, 1, 4)],
                          'qp': [(2, 1, 0)] if ctx.quick else [(2, 1, 0), (2, 2, 0), (1, 1, 0)]}[group]:
        ctx.model('lm-%s-%d-%d' % (group, ph, ch), 'MCLm.tla', {'Depth': depth, 'PH': ph, 'CH': ch, 'Group': '"%s"' % group}, LM_INV[group])


def lm_plan(profiles, models=()):
    def plan(ctx):
        exe = lm_driver()
        for m in models:
            lm_model(ctx, m)
        jobs = []
        for p, n in profiles.items():
            for k in range(n * (1 if ctx.quick else 8)):
                jobs.append(({'PROFILE': p, 'NCTL': 2, 'SHAPES': 'static' if k % 3 == 2 else 'any'}, 250 if ctx.quick else 500))
        jobs += large(ctx, profiles)
        scripts = ctx.scripts('GenLm.tla', jobs)
        if ctx.prop == 'C14':
            scripts.append(os.path.join(ctx.work, 'churn.txt'))
            open(scripts[-1], 'w').write(''.join('churn 1 %d %d %s\n' % (k, dyn, v.replace(',', ' ')) for k, v in LSHAPES.items() for dyn in (0, 1)))
        plain = [s for k, s in enumerate(scripts) if k % 4 in (0, 2) or s.endswith('churn.txt')]
        ctx.conform(exe, 'TraceLm.tla', plain)
        rest = [s for s in scripts if s not in plain]
        for j, u in enumerate(('u1', 'u3', 'u7')):      # the same calls with every quantity in a unit of its own
            ctx.conform(exe, 'TraceLm.tla', rest[j::3], args=(u,), env={'UNITS': u})
    return plan


PLAN['C10'] = lm_plan({'rows': 10, 'mix': 6}, ['qp'])
PLAN['C11'] = lm_plan({'rows': 12, 'mix': 6}, ['qp', 'slices'])
PLAN['C12'] = lm_plan({'cost': 12, 'mix': 6}, ['qp'])
PLAN['C13'] = lm_plan({'life': 12, 'mix': 8}, ['life'])
PLAN['C14'] = lm_plan({'life': 12, 'mix': 8}, ['life'])


# ---------------------------------------------------------------- horizon slices: every slice, every horizon, both controllers
def slices(ctx):
    both = pmap(lambda f: f(), [nl_driver, lm_driver])
    nl_model(ctx, 'bounds')
    lm_model(ctx, 'slices')
    for kind, exe in zip(('nl', 'lm'), both):
        jobs = [{'KIND': kind, 'PH': ph, 'DYN': -1} for ph in range(1, 6 if ctx.quick else 9)] + [{'KIND': kind, 'PH': 0, 'DYN': s} for s in range(1, 6)]

        def one(k):
            path = os.path.join(ctx.work, 'sl-%s-%d.txt' % (kind, k))
            enumerate_ops('GenSl.tla', 'GenSl.cfg', jobs[k], path, ctx.work)
            return path
        full = pmap(one, range(len(jobs)))
        parts = []
        for f in full:      # one script per controller, cut again for parallel checking
            lines = [l for l in open(f).read().splitlines() if not l.startswith('#')]
            starts = [i for i, l in enumerate(lines) if l.startswith('new ')] + [len(lines)]
            for a, b in zip(starts, starts[1:]):
                first = next(i for i in range(a + 1, b) if lines[i].split()[0] not in ('obj', 'model', 'dist', 'w') or (lines[i].startswith('w ') and lines[i - 1].split()[0] != 'dist'))
                head, body = lines[a:first], lines[first:b]
                for c in range(0, len(body), 600):
                    parts.append(f[:-4] + '-%d-%d.txt' % (a, c))
                    open(parts[-1], 'w').write('\n'.join(head + body[c:c + 600]) + '\n')
        ctx.conform(exe, 'TraceNl.tla' if kind == 'nl' else 'TraceLm.tla', parts)
        ctx.extra['exhaustive_%s' % kind] = 'every slice from two below to two above the horizon, every setter, horizons 1..%d, static shapes' % (5 if ctx.quick else 8)
    mix = [({'PROFILE': 'mix', 'NCTL': 2, 'SHAPES': 'any'}, 200)] * (4 if ctx.quick else 24)
    ctx.conform(both[0], 'TraceNl.tla', ctx.scripts('GenNl.tla', mix))
    ctx.conform(both[1], 'TraceLm.tla', ctx.scripts('GenLm.tla', mix))


PLAN['C02'] = slices


# ---------------------------------------------------------------- two runs in lock-step
def rewrite(path, out, f):
    with open(out, 'w') as o:
        for l in open(path):
            r = f(l.split())
            if r:
                o.write(' '.join(r) + '\n')
    return out


def lockstep(ctx, exe, scripts, kind, args=('raw',)):
    """kind 'solo': against each controller alone, interleaved call by call, and in threads that hand over inside the calls too; 'dyn': against the run-time sized variant; else: the executable of the reference run"""
    def one(s):
        if kind == 'solo':
            refs = [rewrite(s, s[:-4] + '-r%d.txt' % k, lambda w, k=k: w if w[1] == str(k) else None)
                    for k in sorted({int(l.split()[1]) for l in open(s)})]
        elif kind != 'dyn':
            refs = [shutil.copy(s, s[:-4] + '-r1.txt')]
        else:
            refs = [rewrite(s, s[:-4] + '-r1.txt', lambda w: w[:3] + ['1'] + w[4:] if w[0] == 'new' else w)]
        for k, r in enumerate(refs):
            rt = '%s-r%d.nd' % (s[:-4], k + 1)
            died = run_driver(exe if kind in ('solo', 'dyn') else kind, r, rt, list(args))
            if died:
                return [Mismatch(r, rt, sum(1 for _ in open(rt)) if os.path.exists(rt) else 0, [(ctx.prop, died)])], 0, 0
        bad, n, st = [], 0, 0
        for j, how in enumerate([args, ('thr',)] if kind == 'solo' else [args]):
            t = '%s-t%d.nd' % (s[:-4], j)
            died = run_driver(exe, s, t, list(how))
            if died:
                return bad + [Mismatch(s, t, sum(1 for _ in open(t)) if os.path.exists(t) else 0, [(ctx.prop, died)])], n, st
            r = check_trace('TraceEq.tla', t, s, ctx.prop, ctx.work, {'REF': s[:-4] + '-r', 'REFN': len(refs)})
            bad, n, st = bad + r[0], n + r[1], st + r[2]
        return bad, n, st
    for s, (bad, n, st) in zip(scripts, pmap(one, scripts)):
        ctx.traces += 1
        ctx.events += n
        ctx.tstates += st
        ctx.bad += bad
        for l in open(s):
            o = l.split(' ', 1)[0].strip()
            ctx.ops[o] = ctx.ops.get(o, 0) + 1
    log(len(scripts), 'pairs of runs compared,', len(ctx.bad), 'mismatches')


def independence(ctx):
    both = pmap(lambda f: f(), [nl_driver, lm_driver])
    for gen, exe, profs in (('GenNl.tla', both[0], ['life', 'mix', 'bounds', 'fns', 'time']), ('GenLm.tla', both[1], ['life', 'mix', 'rows', 'cost', 'time'])):
        n = 2 if ctx.quick else 16
        jobs = [({'PROFILE': p, 'NCTL': 3, 'SHAPES': 'static' if k % 2 else 'any'}, 250 if ctx.quick else 500) for p in profs for k in range(n)]
        lockstep(ctx, exe, ctx.scripts(gen, jobs), 'solo')


def allocation(ctx):
    both = pmap(lambda f: f(), [nl_driver, lm_driver])
    for gen, exe, profs in (('GenNl.tla', both[0], ['life', 'mix', 'bounds', 'fns', 'time']), ('GenLm.tla', both[1], ['life', 'mix', 'rows', 'cost'])):
        n = 2 if ctx.quick else 16
        jobs = [({'PROFILE': p, 'NCTL': 2, 'SHAPES': 'static'}, 250 if ctx.quick else 500) for p in profs for k in range(n)]
        lockstep(ctx, exe, ctx.scripts(gen, jobs), 'dyn')


PLAN['C15'] = independence
PLAN['C16'] = allocation


# ---------------------------------------------------------------- the Python bindings
def py_drivers():
    """the bindings compiled against a stand-in for pybind11, and the same driver on the controllers themselves"""
    stub = ['-I' + os.path.join(HARNESS, 'pystub')]
    bind = os.path.join(REPO, 'python', 'pybind_export.cpp')
    nl = [('nl_main.cpp', []), ('fakeclock.cpp', []), ('memcount.cpp', []), ('nl_shapes.cpp', ['NOSTATIC'])]
    lm = [('lm_main.cpp', []), ('fakeclock.cpp', []), ('memcount.cpp', []), ('lm_shapes.cpp', ['NOSTATIC'])]
    nlink, fakes = ['-Wl,--wrap=nlopt_optimize', '-lnlopt_cxx'], ['-I' + os.path.join(HARNESS, 'fakes')]
    jobs = [lambda: build('nlpy', nl + [('nl_py.cpp', []), ('log_osqp.cpp', []), (bind, [])], nlink, stub + fakes, ('include', 'python')),
            lambda: build('lmpy', lm + [('lm_py.cpp', []), (bind, [])], ['-lnlopt_cxx', '-lnlopt'], stub + fakes, ('include', 'python')),
            lambda: build('nldyn', nl + [('nl_dyn.cpp', [])], nlink, fakes),
            lambda: build('lmdyn', lm + [('lm_dyn.cpp', [])], [], fakes),
            lambda: build('bind', [('bind_main.cpp', []), ('log_osqp.cpp', []), (bind, [])], ['-lnlopt_cxx', '-lnlopt'], stub + fakes, ('include', 'python'))]
    return pmap(lambda f: f(), jobs)


def bindings(ctx):
    nlpy, lmpy, nl, lm, offer = py_drivers()
    ctx.model('bind', 'MCBind.tla', {}, ['Unambiguous', 'Needed'])
    script = os.path.join(ctx.work, 'offer.txt')
    open(script, 'w').write('# what the module offers\n')
    ctx.conform(offer, 'TraceBind.tla', [script])
    for gen, exe, ref, profs in (('GenNl.tla', nlpy, nl, ['life', 'mix', 'bounds', 'fns', 'time']), ('GenLm.tla', lmpy, lm, ['life', 'mix', 'rows', 'cost', 'time'])):
        n = 2 if ctx.quick else 16
        jobs = [({'PROFILE': p, 'NCTL': 2, 'SHAPES': 'any'}, 250 if ctx.quick else 500) for p in profs for k in range(n)]
        scripts = []
        for k, s in enumerate(ctx.scripts(gen, jobs)):
            out = s[:-4] + '-p.txt'
            with open(out, 'w') as o:
                for j, l in enumerate(open(s)):
                    w = l.split()
                    if w[:1] == ['new']:
                        w[3] = '1'
                    o.write(' '.join(w) + '\n')
                    if j % 17 == 16 and len(w) > 1 and w[0] not in ('free', '#'):
                        o.write('%s %s %d\n' % ('llev' if j % 2 else 'lpre', w[1], (j * 7 + k) % 11))
            scripts.append(out)
        lockstep(ctx, exe, scripts, ref, args=('py',))


PLAN['C23'] = bindings


# ---------------------------------------------------------------- what controllers hold
def resources(ctx):
    both = pmap(lambda f: f(), [nl_driver, lm_driver])
    ctx.model('res', 'MCRes.tla', {'Ctl': '{1, 2}', 'Cfg': '{0, 1, 2}', 'Depth': 4 if ctx.quick else 5}, ['Exact', 'GivenBack', 'Bounded'])
    for gen, exe, profs in (('GenNl.tla', both[0], ['life', 'mix', 'bounds', 'fns', 'time']), ('GenLm.tla', both[1], ['life', 'mix', 'rows', 'cost', 'time'])):
        jobs = [({'PROFILE': p, 'NCTL': 2, 'SHAPES': 'static' if k % 2 else 'any'}, 250 if ctx.quick else 500) for p in profs for k in range(2 if ctx.quick else 16)]
        ctx.conform(exe, 'TraceRes.tla', ctx.scripts(gen, jobs), args=('mem',))


PLAN['C24'] = resources


# ---------------------------------------------------------------- logger
def log_driver():
    return build('log', [('log_main.cpp', []), ('log_two.cpp', []), ('log_osqp.cpp', [])], ['-lnlopt_cxx', '-lnlopt'], ['-I' + os.path.join(HARNESS, 'fakes')])


def logger(ctx):
    exe = log_driver()
    ctx.model('logger', 'MCLog.tla', {'Depth': 5 if ctx.quick else 7}, ['Written'], properties=['Silent', 'ResetMeans'])
    n = 3 if ctx.quick else 4

    def every(k):
        p = os.path.join(ctx.work, 'all%d.txt' % k)
        enumerate_ops('GenLog.tla', 'GenLog.cfg', {'MODE': 'all', 'MAXOPS': n, 'FIRST': k}, p, ctx.work)
        return p
    ctx.conform(exe, 'TraceLog.tla', pmap(every, range(1, 15)))
    ctx.extra['exhaustive'] = 'every sequence of %d calls over an alphabet of 14 calls, each continuing from the state the previous ones left' % n
    walks = [({'MODE': 'walk', 'FIRST': 1}, 600 if ctx.quick else 3000)] * (16 if ctx.quick else 64)
    ctx.conform(exe, 'TraceLog.tla', ctx.scripts('GenLog.tla', walks))


PLAN['C17'] = logger


# ---------------------------------------------------------------- integrator, discretisation, dimensions
def integrator(ctx):
    exe = build('rk4', [('rk4_main.cpp', [])])
    ctx.model('rk4', 'MCRk4.tla', {'Big': 'FALSE' if ctx.quick else 'TRUE'}, ['Composes', 'CubicExact', 'ChainExact'])
    ctx.conform(exe, 'TraceRk4.tla', ctx.scripts('GenRk4.tla', [({}, 400 if ctx.quick else 2000)] * (16 if ctx.quick else 64)))


PLAN['C19'] = integrator


def discretise(ctx):
    exe = build('disc', [('disc_main.cpp', [])])
    ctx.model('disc', 'MCDisc.tla', {'Big': 'FALSE' if ctx.quick else 'TRUE'}, ['Semigroup', 'Integral', 'Nilpotent'])
    scripts = ctx.scripts('GenDisc.tla', [({}, 150 if ctx.quick else 600)] * (16 if ctx.quick else 64))
    ctx.conform(exe, 'TraceDisc.tla', scripts[::2])
    for j, u in enumerate(('u26', 'u-20')):     # the same systems with times and inputs in other units
        ctx.conform(exe, 'TraceDisc.tla', scripts[1 + 2 * j::4], args=(u,))


PLAN['C20'] = discretise


def dimensions(ctx):
    exe = build('dim', [('dim_main.cpp', [])])
    top = 9 if ctx.quick else 60
    ctx.model('dim', 'MCDim.tla', {'Max': 8 if ctx.quick else 20}, ['Laws', 'Unknown'])
    try:
        ctx.extra['proof_obligations'] = prove('DimProofs.tla', ctx.work)
        log(ctx.extra['proof_obligations'], 'proof obligations of DimProofs.tla discharged')
    except HarnessError as x:
        if not ctx.quick:
            raise
        log('no proof (the bounded check decides):', x)
    p = os.path.join(ctx.work, 'dim.txt')
    enumerate_ops('GenDim.tla', 'GenDim.cfg', {'MAX': top}, p, ctx.work)
    ctx.conform(exe, 'TraceDim.tla', [p])
    ctx.extra['exhaustive'] = 'every operator, operand kind and pair of operands from -1 to %d at run time, and from -1 to 7 in constant expressions' % top


PLAN['C22'] = dimensions


# ---------------------------------------------------------------- closed loop with the real solver
def real_driver():
    units = [('real_main.cpp', []), ('real_dyn.cpp', [])] + [('real_s.cpp', ['SH=%d' % k, 'SHAPE=' + v]) for k, v in SHAPES.items()]
    return build('real', units, ['-lnlopt_cxx', '-lnlopt'], ['-O1'])


def closed_loop(ctx):
    exe = real_driver()
    for k in (0, 1):
        ctx.model('real-%d' % k, 'MCReal.tla', {'Knd': k, 'Wide': 'FALSE' if ctx.quick else 'TRUE'}, ['Built', 'Best'], timeout=900 if ctx.quick else 9000)
    ctx.conform(exe, 'TraceReal.tla', ctx.scripts('GenReal.tla', [({'NCTL': 2}, 500)] * (16 if ctx.quick else 96)))


PLAN['C21'] = closed_loop
