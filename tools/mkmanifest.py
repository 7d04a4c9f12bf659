"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'seeded search over call histories of one pipe against a fresh '
           'object in a fresh simulated process',
    'C02': 'seeded search over call histories of one network and its pipes '
           'against fresh objects in a fresh simulated process',
    'C03': 'seeded search over interleavings of unrelated scripts against '
           'each script alone in a fresh simulated process',
    'C04': 'seeded search over context switches of real threads run one at a '
           'time by the simulator, against each thread alone',
    'C05': 'seeded search over instants of injected interrupts and failing '
           'routines, later answers against fresh objects',
    'C06': 'seeded search over histories in which the caller overwrites its '
           'buffers and the returned arrays',
    'C07': 'seeded search over operating histories with energy balances '
           'checked as invariants after every step',
    'C08': 'seeded search over control histories; forward and inverse '
           'problems must be inverse of each other at every step',
    'C09': 'seeded search over load histories against an executable '
           'reference model, energy ledger after every step',
    'C10': 'seeded search over load histories against an executable '
           'reference model, energy ledger after every step',
    'C11': 'seeded search over load histories against an executable '
           'reference model, energy ledger after every step',
    'C12': 'seeded search over what-if iterations, rejected loads and '
           'interrupts against the history of accepted loads only',
    'C13': 'seeded search over evaluation histories against fresh objects in '
           'a fresh simulated process',
    'C14': 'seeded search over interrupts, clock faults, console failures '
           'against the undisturbed evaluation',
    'C15': 'simulated file layer injecting short writes, full disk, I/O and '
           'close errors at every position; reload against what was saved',
    'C16': 'kill, restart from checkpoint and fork at arbitrary points, '
           'against the uninterrupted execution',
    'C17': 'seeded search over histories of edits, compositions and stopped '
           'calls on boreholes and bore fields, against a model of their '
           'values and new objects in a fresh simulated process',
    'C18': 'seeded search over coupled simulations of whole systems with '
           'faults, crashes, forks and inspections, against the trajectory '
           'computed with new objects at every step',
}
NA = {
    'C20': 'Pure function of its arguments: no history, schedule, clock, I/O '
           'or fault takes part; simulation adds nothing to numerical '
           'input testing.',
    'C21': 'Agreement and monotonicity of solvers are properties of pure '
           'numerical results over inputs; nothing for a scheduler or fault '
           'injector to decide. (History and fault aspects of g-functions '
           'are C13, C14, C16.)',
    'C22': 'Geometry constructors are pure functions of their arguments.',
    'C23': 'Pure functions of their arguments.',
    'C24': 'Pure correlations of their arguments (the third-party fluid '
           'library included).',
    'C25': 'Accuracy of a pure numerical calculation; its shared memo, the '
           'only stateful part, is covered by C03, C04, C05 and C06.',
}
checks = []
for pid in sorted(NOTE):
    if not os.path.exists(os.path.join(VERIF, 'sim', 'props',
                                       pid.lower() + '.py')):
        NA[pid] = 'check under construction'
        continue
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 check.py {pid} --tier quick',
        'thorough_cmd': f'python3 check.py {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'deterministic simulation with fault injection: '
                     + NOTE[pid],
        'level': 'exploration',
        'level_note': 'Samples seeded executions; a clean batch is evidence, '
                      'not proof. Assumes the third-party libraries (numpy, '
                      'scipy, CoolProp) behave as themselves.'})
m = {'version': 1,
     'setup_cmd': 'python3 -c "import json; json.load(open(\'MANIFEST.json\'))"',
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v}
                        for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: the simulator re-executes the package '
              'sources from /repo/pygfunction in private instances and owns '
              'the clock, console, file opening, threads and faults from '
              'outside.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
