#!/usr/bin/env python3
"""Write MANIFEST.json from the property modules and properties.jsonl."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

NA = {
    'P60': 'Pure functions of their arguments: no scheduling, time, I/O, fault or other party that a simulator '
           'could vary; deterministic simulation has nothing to decide here.',
    'P61': 'A pure function from source text to bytecode, without concurrency, time or I/O to simulate (how input '
           'reaches the compiler is P49, redefinition while running is P27).',
}
NOTE = ('Seeded exploration: no violation in the runs of the evidence file, not a proof. Trusted: the simulator '
        '(clock, timers, signals, files, sockets of the host), the oracle in drv/props/%s.py, and that a process '
        'switch happens between bytecodes only, as in the VM. ')


def main():
    have = props.all_props()
    ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        p = have.get(i)
        if p:
            c = 'python3 check.py %s' % i
            checks.append(dict(property=i, quick_cmd=c + ' --tier quick', thorough_cmd=c + ' --tier thorough',
                               evidence_file='evidence/%s.json' % i,
                               technique='deterministic simulation with fault injection: ' + p.technique,
                               level='exploration',
                               level_note=NOTE % p.__module__.split('.')[-1] + p.level_note))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'No check yet: the simulated workload and oracle for it are not written.')))
    for i in have:
        if i not in ids:
            raise SystemExit('%s is not in properties.jsonl' % i)
    commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE).stdout.decode().split('\n')
    hooks = [l.split(' ')[0] for l in commits if 'GST_SIM' in l or 'Simulation hooks' in l]
    m = dict(version=1, setup_cmd='python3 drv/build.py',
             hooks=dict(guard='GST_SIM', enable='drv/build.py compiles /repo\'s libgst with -DGST_SIM and links it with sim/',
                        source_commits=hooks),
             checks=checks, not_applicable=na,
             notes='Replays: python3 check.py --replay replays/FILE.json. Known findings: known_findings.txt.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print('%d checks, %d not applicable' % (len(checks), len(na)))


main()
