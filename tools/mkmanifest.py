"""Writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE_NL = ('TLC explores the controller specification (spec/Nl.tla) over every short history of calls; long random histories generated by TLC from the same '
           'specification are replayed into the real library, with the call into the solver intercepted, and every recorded event (solver vectors, bounds, '
           'parameters, registered constraints, callback values, gradients, results) is compared by TLC with the specification. Trusted: the small user '
           'functions shared by specification and driver, the interception of nlopt_optimize, Eigen. Bounded by the histories generated.')
CLAIM = {}
for p in ['C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C18']:
    CLAIM[p] = ('TLA+ specification checked with TLC; spec-generated histories replayed into the real code, recorded traces validated by TLC', 'model_checking', NOTE_NL)
NOTE_LM = ('TLC explores the linear-controller specification (spec/Lm.tla) over every short history and checks, over a grid of points, that the program it '
           'specifies means the promised trajectories, limits and cost; long random histories generated from the specification are replayed into the real '
           'library with a recording stand-in for the OSQP 0.6 C interface, and TLC compares every recorded program, setting, warm start and result with the '
           'specification. Trusted: the stand-in (OSQP is not installed), Eigen. Bounded by the histories generated; data are integers.')
for p in ['C02', 'C10', 'C11', 'C12', 'C13', 'C14']:
    CLAIM[p] = ('TLA+ specification checked with TLC; spec-generated histories replayed into the real code, recorded traces validated by TLC', 'model_checking', NOTE_LM)
NOTE_EQ = ('The specification (spec/TraceEq.tla) is the product of two runs: histories generated by TLC from the controller specifications are run on the real '
           'library twice, and TLC steps through both recorded traces and demands equal events. Bounded by the histories generated; gradients are compared '
           'up to rounding.')
for p in ['C15', 'C16']:
    CLAIM[p] = ('TLA+ product specification; spec-generated histories replayed into the real code twice, both traces stepped through by TLC', 'model_checking', NOTE_EQ)
CLAIM['C17'] = ('TLA+ specification checked with TLC; exhaustive and random call sequences generated from it replayed into the real logger, recorded text validated by TLC',
               'model_checking', 'Every short sequence of calls over an alphabet of 14, each from the state the previous ones left, and long random walks; also through the '
               "controllers' setters and from a second translation unit. Bounded by length and by the texts and prefixes used.")
for p, what in [('C19', 'integrator: fields with integer values on an integer grid, so that every stage is exact'), ('C20', 'discretisation: evaluated by the specification in fixed point'),
                ('C22', 'dimension arithmetic: every operator, operand kind and pair of a range')]:
    CLAIM[p] = ('TLA+ specification checked with TLC; inputs generated from it run through the real code, results validated by TLC', 'model_checking',
                'TLC checks the laws on the specification over a grid, and validates every result of the real code (' + what + '). Bounded by the inputs generated.')
CLAIM['C21'] = ('TLA+ specification checked with TLC; problems generated from it together with optimality certificates, solved by the real code with the real solver, plans validated by TLC',
               'model_checking', 'TLC checks that certificates mean optimality (no cheaper plan on a grid), generates problems whose optimum is certified, checks the certificate again with every '
               'recorded plan, and decides by exact elimination which problems are regular. Trusted: NLopt. Bounded by the problems generated; optimality is demanded of nine problems in ten.')
CLAIM['C23'] = ('TLA+ specification of the promised interface and of overload resolution checked with TLC, the real module\'s registrations validated by TLC; spec-generated histories run through the bindings and directly, both traces stepped through by TLC',
               'model_checking', 'TLC checks that the promised interface is unambiguous in every order of registration, that the overloads the real binding source registers offer all of it, and (TraceEq) '
               'that histories run through the bindings show the same events as on the C++ controllers. Trusted: the stand-in for pybind11 (not installed), which follows its conversion and dispatch rules. '
               'Bounded by the histories generated.')
CLAIM['C24'] = ('TLA+ specification checked with TLC; spec-generated histories run round after round on the real library with every memory block counted, the counts validated by TLC',
               'model_checking', 'TLC checks the accounting specification (Res) over every short history; the real library runs generated histories five rounds each way under an exact count of live blocks, '
               'and TLC demands that destroyed controllers hold nothing and reused ones nothing more. Bounded by the histories generated.')
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
                 'technique': CLAIM[p][0], 'level': CLAIM[p][1], 'level_note': CLAIM[p][2]} for p in props if p in CLAIM],
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'not claimed yet: its specification is being built')} for p in props if p not in CLAIM],
     'notes': 'No hooks in /repo: the drivers intercept nlopt_optimize at link time and use a recording stand-in for the OSQP C interface.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
