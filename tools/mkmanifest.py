"""Writes MANIFEST.json: every property whose props/cXX.py exists is claimed."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
 'C01': 'deterministic simulation of queued download services (simulated clock, network, job scheduler), seeded fault search',
 'C02': 'deterministic simulation of remote services with seeded transport/server fault injection at every exchange step',
 'C03': 'deterministic simulation: seeded requests against simulated services generated from a ground-truth weather model',
 'C04': 'deterministic simulation of station archives (HTTP/FTP/disk) with missing-file, transport and disk fault injection',
 'C05': 'deterministic simulation of files, buffers and connections with read faults and interrupts; handle tracking',
 'C06': 'deterministic simulation of crash-truncated files (seeded cut points), history check against the intact read',
 'C07': 'seeded call histories with failure and interrupt injection; snapshots of arguments and process state',
 'C08': 'deterministic thread scheduler (seeded preemption at library statements); comparison with isolated calls',
 'C09': 'deterministic thread scheduler over SPA workers, seeded orders, faults and thread counts; reference comparison',
 'C10': 'seeded run histories on one model chain with failing runs; refinement against a fresh chain',
 'C11': 'seeded interrupt injection at arbitrary statements plus save/restore, then repeat; refinement against an uninterrupted run',
 'C12': 'simulated stop/resume at seeded crash points; comparison with the uninterrupted run',
 'C13': 'simulated growing record (seeded evaluation times and continuations); prefix comparison',
 'C14': 'simulated telemetry delivery (seeded loss, duplication, reordering, batching, corrupt records); per-record refinement',
 'C15': 'simulated clocks (zones, DST jumps, resolutions, machine zone) with seeded faults; comparison at equal instants',
 'C16': 'simulated multi-array plant with seeded sensor faults per array; refinement against single-array plants',
 'C17': 'seeded call histories incl. failing calls and overwritten results; comparison with a fresh process',
}
NOTE = {}
GENERIC = ('Seeded search, not exhaustive: assurance is that no violation was '
           'found in the simulated runs counted in the evidence file. Trusts '
           'the simulator, its service/file models and the oracle code in '
           '/verif/dst and /verif/props.')
NA = 'The property is a relation between the inputs and outputs of a pure numerical function: no schedule, clock, I/O, fault, crash or history enters it, so a simulator would have nothing to schedule and a seeded search over inputs would be property-based testing, not deterministic simulation.'

def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd=f'./check {i} --tier quick',
                               thorough_cmd=f'./check {i} --tier thorough',
                               evidence_file=f'evidence/{i}.json',
                               technique=TECH[i], level='exploration',
                               level_note=NOTE.get(i, '') + GENERIC))
        elif i.startswith('N'):
            na.append(dict(property=i, reason=NA))
        else:
            na.append(dict(property=i, reason='Applicable; its check is not built yet.'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
             not_applicable=na,
             notes='No hooks in /repo: every seam is installed from the '
                   'simulator process before pvlib is imported.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(checks), 'checks', len(na), 'not applicable')

main()
