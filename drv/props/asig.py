"""P46: C-level signals bound to semaphores.

Handler processes register a semaphore for a signal and wait; signals come at seeded times and bytecodes, while other
processes compute, wait for delays and disable interrupts or preemption.  The simulator records every signal delivered to the
handler of the VM: each one must wake its handler process exactly once, promptly."""
from core import Prop
from props.util import swarm, started

SIGS = [28, 17, 18, 10]       # WINCH, CHLD and CONT do nothing when nobody waits for them, USR1 kills


def op_code(o, p):
    k = o[0]
    if k == 'yield':
        return 'Processor yield.'
    if k == 'spin':
        return "x := 0. 1 to: %d do: [:k | x := x + k. k printString]. x = %d ifFalse: [Sim log: 'badsum p%d ', x printString]." % (
            o[1], o[1] * (o[1] + 1) // 2, p)
    if k == 'delay':
        return 'x := Sim now. (Delay forMilliseconds: %d) wait. Sim log: \'slept p%d %d \', (Sim now - x) printString.' % (o[1], p, o[1])
    if k == 'lock':
        b = "[Sim mark: 'lin p%d'. 1 to: %d do: [:k | k printString]. Sim mark: 'lout p%d']" % (p, o[2], p)
        return ('Processor activeProcess valueWithoutInterrupts: %s.' if o[1] == 'wi' else '%s valueWithoutPreemption.') % b
    if k == 'busy':
        # Compute until the handler process has been run.
        return ("x := N at: %d. Sim signal: %d at: %d. 1 to: 1500 do: [:k | x := x + 1 - 1]. x := 0. "
                "[(G at: %d) or: [x > 3000]] whileFalse: [x := x + 1]. Sim log: 'busy p%d h%d ', (G at: %d) printString." % (
                    o[1] + 1, o[2], o[3], o[1] + 1, p, o[1], o[1] + 1))
    if k == 'raise':
        return 'Sim signal: %d at: %d.' % (o[1], o[2])
    raise KeyError(k)


class P46(Prop):
    id = 'P46'
    technique = 'seeded arrival of signals at any bytecode and during timer handling; every delivery recorded by the simulator must reach its semaphore once'
    lists = ('procs', 'ops', 'hs')

    def gen(self, rng, tier):
        nh = rng.choice([1, 2, 3, 4])
        # the last handler may wait for two signals on one semaphore
        hs = [dict(pri=rng.choice([3, 4, 5, 6, 7, 8]), sigs=[SIGS[h]], n=rng.randint(1, 5)) for h in range(nh)]
        if nh == 3 and rng.random() < 0.4:
            hs = [hs[0], dict(pri=rng.choice([4, 6]), sigs=[SIGS[1], SIGS[2]], n=rng.randint(1, 3))]
        for h in hs:
            # self: the handler has the signal sent as soon as it is armed
            h['self'] = h['sigs'] == [10] or rng.random() < 0.5
            h['at'] = [rng.choice([0, 1, 5, 50, 1000, 20000]) for _ in range(h['n'])]
        np = rng.choice([0, 1, 2, 3])
        procs = []
        top = min(h['pri'] for h in hs)
        for p in range(np):
            ops = []
            pri = rng.choice([3, 4, 4, 5, 6])
            for _ in range(rng.randint(1, 7)):
                x = rng.random()
                i = rng.randrange(len(hs))
                if x < 0.15:
                    ops.append(['yield'])
                elif x < 0.35:
                    ops.append(['spin', rng.randint(1, 30)])
                elif x < 0.5:
                    ops.append(['delay', rng.randint(1, 4)])
                elif x < 0.7:
                    ops.append(['lock', rng.choice(['wi', 'wp']), rng.randint(1, 15)])
                elif x < 0.8 and hs[i]['sigs'][0] != 10 and hs[i]['pri'] > pri:
                    ops.append(['busy', i, hs[i]['sigs'][0], rng.choice([0, 10, 100])])
                else:
                    ops.append(['raise', rng.choice(SIGS[:3]), rng.choice([0, 3, 100, 3000])])
            procs.append(dict(pri=pri, ops=ops))
        knobs = swarm(rng, gc_p=0.2, max_sp=6000000)
        if rng.random() < 0.6:
            knobs['sig_gap'] = rng.choice([5, 50, 500, 5000])
            for i, s in enumerate(SIGS[:3]):
                knobs['sig%d' % i] = s
        return dict(hs=hs, procs=procs, knobs=knobs)

    def render(self, spec):
        l = ['Smalltalk at: #P put: nil; at: #G put: nil; at: #N put: nil.', 'Eval [',
             'P := OrderedCollection new. G := Array new: 8 withAll: false. N := Array new: 8 withAll: 0.']
        for i, h in enumerate(spec['hs']):
            reg = ' '.join('Processor signal: s onInterrupt: %d.' % x for x in h['sigs'])
            body = ['s := Semaphore new.']
            for k in range(h['n']):
                body.append("G at: %d put: false. Sim mark: 'reg h%d'. %s Sim log: 'armed h%d'." % (i + 1, i, reg, i))
                if h['self']:
                    body += ['Sim signal: %d at: %d.' % (x, h['at'][k % len(h['at'])]) for x in h['sigs']]
                body += ["x := s wait. G at: %d put: true. Sim log: 'got h%d ', (x == s) printString." % (i + 1, i)] * len(h['sigs'])
            l.append("P addLast: (Sim process: 'h%d' at: %d do: [| x s | %s])." % (i, h['pri'], '\n'.join(body)))
        for i, p in enumerate(spec['procs']):
            l.append("P addLast: (Sim process: 'p%d' at: %d do: [| x | %s])." % (i, p['pri'], '\n'.join(op_code(o, i) for o in p['ops'])))
        n = len(spec['hs']) + len(spec['procs'])
        l.append('Sim begin. P do: [:p | p resume].')
        l.append("Sim drain: 150 until: [P allSatisfy: [:p | p isTerminated]]. Sim arm: 0. Sim drain: 5 until: [false]. Sim log: 'quiet'.")
        l.append("P do: [:p | p isTerminated ifFalse: [Sim log: 'left ', p name]]. Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        return self.vmcheck(r) or self.outcheck(r) or self.judge(spec, r)

    def judge(self, spec, r):
        owner = {str(s): 'h%d' % i for i, h in enumerate(spec['hs']) for s in h['sigs']}
        due = {h: 0 for h in owner.values()}
        ends = set()
        self.n = 0
        for e in r.events:
            w = e.w
            if w[0] == 'quiet':
                break
            if w[0] == 'err':
                return [('proc-error', e.text)]
            if w[0] == 'badsum':
                return [('disturbed', 'a computation was disturbed: %s' % e.text)]
            if w[0] == '!sig' and w[2] == 'handled' and w[1] in owner:
                due[owner[w[1]]] += 1
                self.n += 1
            elif w[0] == 'got':
                due[w[1]] -= 1
                if due[w[1]] < 0:
                    return [('spurious', '%s was woken, but its signal was not raised: %s' % (w[1], e))]
                if w[2] != 'true':
                    return [('wait-result', 'the wait of %s answered something else' % w[1])]
            elif w[0] == 'slept' and int(w[3]) < int(w[2]) * 1000:
                return [('delay-early', e.text)]
            elif w[0] == 'busy' and w[3] != 'true' and due[w[2]] > 0:
                return [('late', '%s did not run while %s, of lower priority, was computing, although its signal was raised' % (w[2], w[1]))]
            elif w[0] == 'end':
                ends.add(w[1])
        for h, n in due.items():
            if n:
                return [('lost', '%s was not woken by a signal' % h)]
        for i in range(len(spec['procs'])):
            if 'p%d' % i not in ends:
                return [('stuck', 'p%d did not end' % i)]
        for i, h in enumerate(spec['hs']):
            if h['self'] and 'h%d' % i not in ends:
                return [('stuck', 'h%d did not end' % i)]
        return []

    def nontrivial(self, spec, ctx):
        return getattr(self, "n", 0) > 0

    def probes(self, spec, ctx):
        t = ctx.runs[0].texts()
        return [x for x in ('ignored', 'default', 'handled') if any(y.startswith('!sig') and y.endswith(x) for y in t)] + \
            (['busy'] if any(y.startswith('busy') for y in t) else [])
