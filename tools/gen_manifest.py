"""Writes /verif/MANIFEST.json from the property modules."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python check.py'

TECH = {
 'C01': 'seeded schedules of steps, periods, outputs and lengths; push invariants and free-flight oracle',
 'C02': 'seeded schedules of field periods against steps, outputs and earlier trackings; update-clock invariant',
 'C03': 'seeded schedules; refinement against a sequential discrete-event reference model',
 'C04': 'seeded schedules of outputs against pushes and updates; reference model',
 'C05': 'loss of the live bunch at element boundaries and overwriting of dead data; comparison with an uninterrupted run',
 'C06': 'seeded element sequences, nestings and cuts; composition oracle',
 'C07': 'seeded histories of earlier (also failed) trackings; comparison with a fresh process',
 'C08': 'seeded runs with written output; files against recorded history',
 'C09': 'process crash at file operations and program points; durability of acknowledged outputs, restart',
 'C10': 'storage-error injection at file operations; history check of acknowledged outputs',
 'C11': 'simulated threads with seeded preemption and partition of parallel loops; sequential oracle',
 'C12': 'exceptions injected at every seam and executed line; recovery check against a fresh process',
 'C13': 'seeded stage sequences with failed and rejected operations; replay on a second pulse, cut stages',
 'C14': 'seeded injection positions, ways of tracking and failed trackings; push-by-push oracle',
 'C15': 'storage-error injection while saving; round-trip and bystander-file check',
 'C16': 'seeded element sequences with kicked particles; conservation and permutation oracle',
 'C17': 'seeded clock, random state, threads, observation options and hash seeds; bitwise comparison',
 'C18': 'seeded lists of bunches, orders, steps and lost neighbours; comparison with each bunch alone',
 'C19': 'simulated random generator, histories with failures and interrupts; exact and moment oracle, repetition',
 'C20': 'seeded wakefield runs repeated with the same charge in another form; metamorphic comparison',
 'C21': 'seeded histories of operations on bunches with interrupted and failed analyses; executable model of the particles',
}
NA = {
 'C30': 'A pure function of a matrix of numbers: no scheduling, time, I/O, faults or history for a simulator to control; it would be decided by sampling inputs against the equations of motion, which is not this technique. (How maps are applied along elements and beamlines is in C01, C04, C06.)',
 'C31': 'A pure serial kernel; nothing to schedule or fault. (That it stays free of races is in C11.)',
 'C32': 'A numerical convergence statement about a pure solver; no nondeterminism or fault it could depend on.',
 'C33': 'A numerical convergence statement about a pure solver. (When and how often the envelope is advanced across stages is C13.)',
}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


checks = []
for f in sorted(os.listdir(os.path.join(V, 'sim', 'props'))):
    if not f.startswith('c'):
        continue
    p = f[:-3].upper()
    c = consts(os.path.join(V, 'sim', 'props', f))
    checks.append(dict(
        property=p,
        quick_cmd='%s %s --tier quick' % (PY, p),
        thorough_cmd='%s %s --tier thorough' % (PY, p),
        evidence_file='evidence/%s.json' % p,
        technique='deterministic simulation with fault injection: ' + TECH[p],
        level=c['LEVEL'],
        level_note='Seeded search: no violation in the runs of the evidence '
        'file; not exhaustive. ' + ('Directed runs cover every file operation '
                                    'of a small run. '
                                    if p in ('C09', 'C10', 'C15') else '') +
        'Assumes: ' + '; '.join(c['ASSUMPTIONS']) + '. Kernels run as Python '
        'source, not as compiled by numba.'))
m = dict(version=1, setup_cmd=PY + ' setup', checks=checks,
         not_applicable=[dict(property=k, reason=v)
                         for k, v in sorted(NA.items())],
         notes='No hooks in /repo: all seams are outside it (numba module, '
         'preloaded storage shim, clock, public base classes). VERIF_SEED '
         'chooses the seeds. "check.py replay FILE" replays a violation.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
