#!/usr/bin/env python3
"""dbg.py REPLAY DIR: lay out the first phase of a replay in DIR, to be run under gdb."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, props
j = json.load(open(sys.argv[1]))
d = sys.argv[2]
os.makedirs(d, exist_ok=True)
b, _ = build.build()
c = core.Ctx(b, d, j['seed'], j['decisions'])
v = props.load(j['property']).run(j['spec'], c)
print(v)
print('cd %s; gdb --args env -i SIM_REEXEC=1 TZ=UTC LANG=C %s/simgst -I %s/img/sim.im -k %s/kernel -p plan -o hist w%d.st' % (d, b, b, b, len(c.runs) - 1))
