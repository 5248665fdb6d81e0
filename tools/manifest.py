"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
LEVEL = {'C06': 'fault_enumeration'}
TECH = {
 'C06': 'property-based testing: generated saves, with a crash or write fault injected at every point, against the old-or-new oracle',
 'C16': 'property-based differential testing against an independent AES written from FIPS-197',
 'C18': 'property-based testing and exhaustive small-curve generation against an independent ECDSA reference',
 'C20': 'property-based testing and exhaustive small curves against an independent group-law reference',
 'C21': 'property-based testing and exhaustive small arguments against mathematical definitions',
 'C22': 'property-based round-trip, corruption and differential testing against OpenSSL',
 'C28': 'property-based and coverage-guided fuzzing of payloads with a reference parser as oracle',
}
for p, t in [('C35', ''), ('C36', ''), ('C37', ''), ('C38', ''), ('C39', ''), ('C40', ''), ('C41', ''), ('C42', ''), ('C43', ''), ('C46', '')]:
    TECH[p] = 'model-based (stateful) property testing: generated histories on the real node over simulated sockets and clock, against a reference model'
for p in ('C35',):
    TECH[p] += ', random stream cuts and interleavings'
NOTE = 'Every generated case is compared with an independent oracle in /verif/vf; assurance is that of a seeded search (counts and samples in the evidence file), not a proof. Trusts CPython, Hypothesis and the reference code in vf/refs.'
DEFAULT = 'property-based testing (Hypothesis) of generated inputs against a reference model, with shrinking and replay files'
FUZZ = '; the thorough tier adds coverage-guided fuzzing (atheris drives the same generators, guided by coverage of nbc)'
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(root, 'vf/checks/%s.py' % pid.lower())):
        checks.append({'property': pid, 'quick_cmd': './run.sh %s --tier quick' % pid, 'thorough_cmd': './run.sh %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH.get(pid, DEFAULT) + ('' if pid == 'C06' else FUZZ),
                       'level': LEVEL.get(pid, 'exploration'), 'level_note': NOTE})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: checks import the code from /repo as it is. ./run.sh CNN --replay FILE re-runs one saved case.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
