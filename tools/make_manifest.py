"""Writes MANIFEST.json from the checks that exist (python3 tools/make_manifest.py)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
DEFAULT = ('explicit-state exploration of the real code: every state of a bounded mesh/input transition system is '
           'built and executed, judged against an independent reference definition')
TECH = {
    'C03': 'explicit-state exploration: all triangulations of small point sets x maps x orders run on the real code, exact domain geometry as oracle',
    'C13': 'bounded exhaustive exploration of operation sequences on the real code against a stateless reference model',
    'C10': 'bounded exhaustive exploration of call sequences on the real code against an accumulator model',
    'C14': 'stateless model checking: line-level controlled scheduler over real threads, all schedules up to a preemption bound',
    'C17': 'bounded exhaustive exploration of all derivations of an expression grammar on the real code, exact rational evaluation as oracle',
    'C20': 'bounded exhaustive exploration of call/modify histories over all functions and input forms, snapshots as oracle',
    'C25': 'explicit-state exploration: the code printed by the derivation scripts is executed on every mesh state and compared with the package and the definition',
    'C26': 'explicit-state exploration: every transition and diamond of the mesh-building system is checked between real executions of the states it joins',
    'C24': 'bounded exhaustive exploration of fault subsets (missing properties, over-shared edges) with repair histories on the real code',
}
NOTE = ('Exhaustive within the bounds in the evidence file, executed on /repo\'s current source. Beyond the bounds nothing '
        'is proved. Trusted: the reference definitions in mc/ (independent of the code under test), numpy, and rounding '
        'tolerances tied to the magnitude of the sums behind each entry (2e-10 relative).')
NOTES = {
    'C14': 'All schedules of two threads up to the preemption bound with switch points at every source line of meshless; '
           'switches inside one line, inside numpy/sympy and more threads or preemptions are not explored.',
    'C09': NOTE + ' The defect KF-B of the edge-based method is recorded in known_findings.jsonl and matched exactly.',
    'C25': NOTE + ' KF-B3 (consequence of KF-B) is recorded in known_findings.jsonl and matched exactly.',
    'C16': NOTE + ' The defect KF-A of the z basis is recorded in known_findings.jsonl and matched exactly.',
    'C22': NOTE + ' KF-C (exchange of G13 and G23 for read_stack laminates) is recorded in known_findings.jsonl.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'mc', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, DEFAULT),
                           level='model_checking', level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./check.sh setup', checks=checks, not_applicable=na,
         notes='No hooks: the checks import /repo/meshless from source and need no instrumentation in it.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
