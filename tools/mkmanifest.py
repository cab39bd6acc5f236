"""writes MANIFEST.json; the properties claimed are those with contracts"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import contracts, verify
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
NOT = json.load(open(os.path.join(HERE, 'tools', 'not_claimed.json')))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
cs = contracts.load(os.path.join(HERE, 'contracts', 'fn'))
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', 'Guarded access to protocol parts'], capture_output=True, text=True).stdout.split()
checks = []
for p in props:
    i = p['id']
    if i in NOT: continue
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                   'technique': 'contracts on the extracted functions of the crate, discharged by Verus for all inputs; differential search for a failing input',
                   'level': 'proof', 'level_note': NOTES.get(i, '') + ' Trusted: the extraction, the shim contracts of std and the other dependencies, Verus and Z3. Functions an edit takes out of the verifier\'s reach are only searched (bounded), which the evidence says.'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'mysql_cdc_verif', 'enable': 'RUSTFLAGS="--cfg mysql_cdc_verif" (set by check.py when it builds /verif/search)', 'source_commits': hook},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT.items())]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
