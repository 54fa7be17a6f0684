#!/usr/bin/env python3
""" Writes /verif/MANIFEST.json from the check modules that exist (a property without one is listed under not_applicable) """
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {
 'codec': ('exploration', 'runtime monitor: real codec executed on generated inputs, every result judged by an independent 3GPP reference codec',
           'Held on the inputs generated in the run (counts and distinct signatures are in the evidence); nothing is claimed for inputs that were not generated. Trusts lib/spec_pdu.py as the reading of 3GPP 23.038/23.040.'),
 'model': ('exploration', 'runtime monitor: real data structure driven through generated histories, compared with a reference model after every operation',
           'Held on the histories generated in the run; trusts the reference model (a dictionary for C25, a plain line editor and a screen emulator for C26).'),
 'sched': ('exploration', 'runtime monitor over recorded event traces: real multi-threaded code on a simulated serial device under a controlled scheduler with virtual time, random preemption and fault injection',
           'Held on the executions explored in the run (schedules, interleavings and events counted in the evidence). Trusts the device simulator as a model of AT modems and the scheduler\'s substitutes for locks, sleep and time.'),
 'values': ('exploration', 'runtime monitor: the real classes and functions executed on generated inputs, every result and every copy judged against a direct specification',
            'Held on the inputs generated in the run (counted in the evidence).'),
 'pty': ('exploration', 'runtime monitor: real programs in real processes on a pseudo-terminal with a simulated modem; serial trace, output and exit status are judged',
         'Held on the executions of the run, in real time with generous limits; trusts the device simulator.'),
}
KIND = {}
for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'): KIND[c] = 'codec'
for c in ('C25', 'C26'): KIND[c] = 'model'
KIND['C27'] = 'pty'; KIND['C33'] = 'values'
checks, na = [], []
for c in ids:
    if os.path.exists(os.path.join(V, 'checks', c.lower() + '.py')):
        level, tech, note = NOTE[KIND.get(c, 'sched')]
        checks.append({'property': c, 'quick_cmd': './check ' + c, 'thorough_cmd': './check %s --tier thorough' % c, 'evidence_file': 'evidence/%s.json' % c,
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': c, 'reason': 'the check for this property is not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed at the serial port, the callbacks and the public API. All checks import the code from /repo\'s working tree at run time.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
