#!/usr/bin/env python3
"""writes MANIFEST.json from vt/props.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, V + '/vt')
from props import PROPS
NA = {
 'C20': 'termination and freedom from deadlock of a message-passing protocol over all process counts and delivery orders is a whole-history liveness property of several MPI processes; function contracts cannot express it and the functions are message loops over MPI calls without sequential postcondition',
 'C21': 'the OpenCL sources do not compile in this environment (no OpenCL headers), so no verifier front end can take the real code, and the kernels are OpenCL C run by a device driver',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 vt/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        tech = 'contract-based deductive verification of the extracted real code (Verus/Z3), failed obligations replayed by executing the contracts on the real code' if c.get('vc') else 'bounded execution of the contracts on the real code (stand-in, no proof)'
        m['checks'].append({'property': i, 'quick_cmd': 'python3 vt/run.py %s --tier quick' % i, 'thorough_cmd': 'python3 vt/run.py %s --tier thorough' % i,
          'technique': tech, 'level': c['level'], 'level_note': c.get('note') or ('the contracts executed on the real code for bounded inputs and schedules; nothing is proved' if not c.get('vc') else 'every obligation of %s is discharged for all inputs; assumed: %s. %s' % (', '.join(c.get('vc', [])), '; '.join(c.get('assumptions', [])) or 'nothing beyond the trusted base', c.get('bounded', '')))})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m['hooks'] = {'guard': 'none', 'enable': 'no hooks are needed: the checks read and compile the sources as they are', 'source_commits': []}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
