"""MANIFEST.json from the registry; properties.jsonl decides what is left."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim.registry import PROPS      # noqa

NOTE = {
    'C16': 'pure function of its input: exporting and reading have no '
           'schedule, time, I/O or shared state a simulator could decide',
    'C17': 'pure function of graph and query; only the part that meets '
           'executions (an endpoint runs nothing invalid) is simulated, '
           'under C12',
    'C18': 'pure function of expression, types and data; the evaluation of '
           'expressions under schedules is simulated under C09',
    'C19': 'pure function of the graph; introspection through concurrent '
           'endpoints is simulated under C12',
    'C20': 'pure function of document and variables; requests with variables, '
           'fragments and directives are part of the workload of C12',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks = []
    missing = []
    for p in props:
        pid = p['id']
        if pid not in PROPS:
            missing.append({'property': pid, 'reason': NOTE.get(
                pid, 'its check is not built yet')})
            continue
        cmd = '/opt/venv/bin/python check.py {}'.format(pid)
        prop = PROPS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': cmd + ' --tier quick',
            'thorough_cmd': cmd + ' --tier thorough',
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': 'deterministic simulation with fault injection: '
                         'seeded search over schedules and faults',
            'level': 'exploration',
            'level_note': prop.note,
        })
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': '/opt/venv/bin/python check.py --setup',
                   'checks': checks, 'not_applicable': missing,
                   'notes': 'No hooks in /repo: locks, clocks, event loop, '
                            'thread pool, loading functions and database '
                            'drivers are replaced at the seams the code '
                            'already has.'}, f, indent=1)
        f.write('\n')


main()
