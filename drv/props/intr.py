"""P10 interrupts of a process by others; P12 process-local and dynamic variables."""
from core import Prop
from props.util import swarm, started


def simple(rng, wait=True):
    x = rng.random()
    if x < 0.2:
        return ['yield']
    if x < 0.45:
        return ['spin', rng.randint(1, 25)]
    if x < 0.6:
        return ['sig', rng.randrange(2)]
    if x < 0.72:
        return ['delay', rng.randint(1, 3)]
    if x < 0.9 and wait:
        return ['wait', rng.randrange(2)]
    return ['log']


def simple_code(o, p):
    k = o[0]
    if k == 'yield':
        return "Processor yield. Sim log: 'at p%d'." % p
    if k == 'spin':
        return "x := 0. 1 to: %d do: [:k | x := x + k. k printString]. x = %d ifFalse: [Sim log: 'badsum p%d ', x printString]." % (
            o[1], o[1] * (o[1] + 1) // 2, p)
    if k == 'sig':
        return '(S at: %d) signal.' % (o[1] + 1)
    if k == 'delay':
        return "(Delay forMilliseconds: %d) wait. Sim log: 'at p%d'." % (o[1], p)
    if k == 'wait':
        return "Sim mark: 'wait p%d s%d'. x := (S at: %d) wait. Sim log: 'waited p%d s%d ', (x == (S at: %d)) printString." % (
            p, o[1], o[1] + 1, p, o[1], o[1] + 1)
    if k == 'log':
        return "Sim log: 'at p%d'." % p
    raise KeyError(k)


class P10(Prop):
    id = 'P10'
    technique = 'seeded arrival of interrupts at any bytecode of their target; each must run once, there, before anything else the target does'
    lists = ('procs', 'ops', 'ib')

    def gen(self, rng, tier):
        np = rng.choice([2, 2, 3, 4, 5])
        ident = [0]
        sigint = rng.random() < 0.35
        kills = not sigint and rng.random() < 0.3
        sgt = set()
        procs = []
        for p in range(np):
            ops = []
            for _ in range(rng.randint(1, 7)):
                x = rng.random()
                if x < 0.3:
                    ident[0] += 1
                    t = rng.randrange(np)
                    if sigint and rng.random() < 0.5 and t not in sgt:
                        # another one could cut short the unwinding due to the first
                        sgt.add(t)
                        ops.append(['sgi', ident[0], t])
                    else:
                        ops.append(['qi', ident[0], t, [simple(rng, rng.random() < 0.3) for _ in range(rng.choice([0, 0, 1, 2]))]])
                elif x < 0.36:
                    ops.append(['susp'])
                elif x < 0.44:
                    ops.append(['lock', rng.choice(['wi', 'wp']), rng.randint(1, 12)])
                elif x < 0.54 and sigint:
                    ops.append(['guard', 'return', [simple(rng) for _ in range(rng.randint(1, 3))]])
                elif x < 0.58 and kills:
                    ops.append(['kill', rng.randrange(np)])
                else:
                    ops.append(simple(rng))
            procs.append(dict(pri=rng.choice([3, 4, 4, 4, 5, 6, 7]), ops=ops))
        return dict(procs=procs, knobs=swarm(rng, gc_p=0.2))

    def code(self, p, o):
        k = o[0]
        if k == 'qi':
            t = o[2]
            return ("Sim log: 'q %d p%d p%d'. [(P at: %d) queueInterrupt: [| x | Sim log: 'int %d ', Processor activeProcess name. %s "
                    "Sim log: 'intd %d p%d']. Sim mark: 'qd %d p%d p%d'] on: SystemExceptions.ProcessTerminated do: [:e | Sim log: 'dead %d p%d'. e return]." % (
                        o[1], p, t, t + 1, o[1], ' '.join(simple_code(x, t) for x in o[3]), o[1], t, o[1], p, t, o[1], t))
        if k == 'sgi':
            t = o[2]
            return ("Sim log: 'q %d p%d p%d'. (P at: %d) signalInterrupt: (SimInt new messageText: '%d'; yourself). Sim mark: 'qd %d p%d p%d'." % (
                        o[1], p, t, t + 1, o[1], o[1], p, t))
        if k == 'susp':
            return "Sim mark: 'susp p%d'. Processor activeProcess suspend. Sim log: 'unsusp p%d'." % (p, p)
        if k == 'lock':
            b = "[Sim mark: 'lin p%d'. 1 to: %d do: [:k | k printString]. Sim mark: 'lout p%d']" % (p, o[2], p)
            return ('Processor activeProcess valueWithoutInterrupts: %s.' if o[1] == 'wi' else '%s valueWithoutPreemption.') % b
        if k == 'guard':
            return "[%s] on: SimInt do: [:e | Sim log: 'int ', e messageText, ' ', Processor activeProcess name. e %s: 1]." % (
                ' '.join(simple_code(x, p) for x in o[2]), o[1])
        if k == 'kill':
            return "Sim log: 'kill p%d'. (P at: %d) terminate. Sim log: 'killed p%d'." % (o[1], o[1] + 1, o[1])
        return simple_code(o, p)

    def render(self, spec):
        n = len(spec['procs'])
        l = ["Smalltalk at: #P put: nil; at: #S put: nil; at: #T put: nil.",
             "Notification subclass: SimInt [ defaultAction [ Sim log: 'int ', self messageText, ' ', Processor activeProcess name. ^nil ] ]",
             "Eval [", "P := Array new: 8. S := (1 to: 2) collect: [:i | Semaphore new]."]
        for i, p in enumerate(spec['procs']):
            body = ' '.join(self.code(i, o) for o in p['ops'])
            if any(o[0] == 'sgi' and o[2] == i for q in spec['procs'] for o in q['ops']):
                body = "[%s] on: SimInt do: [:e | Sim log: 'int ', e messageText, ' ', Processor activeProcess name. e return: 1]." % body
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [| x | %s Sim mark: 'fin p%d'])." % (
                i + 1, i, p['pri'], body, i))
        for i in range(n, 8):
            l.append("P at: %d put: (Sim process: 'p%d' at: 4 do: [])." % (i + 1, i))
        l.append('Sim begin.')
        # Nobody interrupts a process that never ran: they are all resumed before any of them can run.
        l.append('Processor activeProcess priority: 9.')
        for i in range(n):
            l.append("Sim log: 'start p%d'. %s" % (i, started(i)))
        l.append('Processor activeProcess priority: 4.')
        l.append("Sim drain: 80 until: [(P first: %d) allSatisfy: [:p | p isTerminated]]. Sim log: 'quiet'." % n)
        # suspended processes go on, then waits are satisfied
        l.append("1 to: 10 do: [:r | (P first: %d) do: [:p | [(p isSuspended and: [p isTerminated not]) ifTrue: "
                 "[Sim log: 'resume ', p name. p resume]] valueWithoutPreemption. Sim drain: 8 until: [p isTerminated]."
                 " S do: [:s | [s isEmpty] whileFalse: [s signal]. Sim drain: 8 until: [p isTerminated]]]]." % n)
        l.append("Sim drain: 80 until: [(P first: %d) allSatisfy: [:p | p isTerminated]]." % n)
        l.append("(P first: %d) do: [:p | Sim log: 'state ', p name, ' ', p isTerminated printString]." % n)
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r) or self.outcheck(r)
        return v or self.judge(spec, r)

    def judge(self, spec, r):
        sigi = {}                    # id -> (kind, target)
        for p in spec['procs']:
            for o in p['ops']:
                if o[0] in ('qi', 'sgi'):
                    sigi[o[1]] = (o[0], 'p%d' % o[2])
        woken = {t for k, t in sigi.values() if k == 'sgi'}
        excused, asked = set(), {}
        started_, ran, done, pending, killed, susp, locked, fin, state, dead = set(), {}, {}, {}, set(), {}, set(), set(), {}, set()
        for e in r.events:
            w = e.w
            k = w[0]
            if k == 'err':
                return [('proc-error', e.text)]
            if k == 'badsum':
                return [('disturbed', 'a computation was disturbed: %s' % e)]
            if k == 'kill':
                killed.add(w[1])
            elif k == 'start':
                started_.add(w[1])
            elif k == 'q':
                asked[int(w[1])] = w[3]
            elif k == 'qd':
                i = int(w[1])
                # An exception signalled in a process can cut short its wait for the interrupt lock of another.
                asked.pop(i)
                if w[2] in woken:
                    excused.add(i)
                elif i not in ran and w[2] != w[3] and i not in excused:
                    pending[i] = w[3]
                elif i not in ran and i not in excused:
                    return [('lost', 'interrupt %d of the active process %s did not run at once' % (i, w[3]))]
            elif k == 'dead':
                dead.add(int(w[1]))
            elif k == 'int':
                i = int(w[1])
                if i in ran:
                    return [('twice', 'interrupt %d ran twice' % i)]
                if w[2] != sigi[i][1]:
                    return [('wrong-process', 'interrupt %d of %s ran in %s' % (i, sigi[i][1], w[2]))]
                if w[2] in locked:
                    return [('in-lock', 'interrupt %d ran while %s had interrupts disabled' % (i, w[2]))]
                ran[i] = e.seq
                pending.pop(i, None)
                if sigi[i][0] == 'sgi':
                    # ... and unwind the interrupts below it
                    locked.discard(w[2])
                    excused.update(j for j, t in list(asked.items()) + list(pending.items()) if t == w[2])
                    pending = {j: t for j, t in pending.items() if t != w[2]}
            elif k == 'intd':
                done[int(w[1])] = e.seq
            elif k == 'state':
                state[w[1]] = w[2]
            elif k in ('at', 'waited', 'unsusp', 'lin', 'fin', 'wait', 'susp', 'lout') and len(w) > 1:
                p = w[1]
                late = [i for i, t in pending.items() if t == p]
                inside = [i for i in ran if sigi[i][1] == p and sigi[i][0] == 'qi' and i not in done]
                if late and not inside and p not in killed:
                    return [('late', '%s went on before running interrupt %s: %s' % (p, late, e))]
                if k == 'lin':
                    locked.add(p)
                elif k == 'lout':
                    locked.discard(p)
                elif k == 'susp':
                    susp[p] = True
                elif k == 'unsusp':
                    if susp.get(p) and p not in woken and p not in killed:
                        return [('woken', '%s was suspended and went on although nobody resumed it' % p)]
                elif k == 'fin':
                    fin.add(p)
                elif k == 'waited' and w[3] != 'true' and p not in woken and p not in killed:
                    return [('wait-result', 'wait answered something else after an interrupt: %s' % e)]
            elif k == 'resume':
                susp[w[1]] = False
        for p in range(len(spec['procs'])):
            p = 'p%d' % p
            if state.get(p) != 'true' and not (killed & set(state)):
                return [('stuck', '%s never ended' % p)]
            if p not in fin and p not in killed:
                return [('cut', '%s did not reach its end' % p)]
        for i, (k, t) in sigi.items():
            if t in killed or i in dead or i in excused:
                continue
            if any(e.w[0] == 'qd' and e.w[1] == str(i) for e in r.events):
                if i not in ran and not (k == 'sgi' and self.after_end(r, i, t)):
                    return [('lost', 'interrupt %d of %s never ran' % (i, t))]
            if k == 'qi' and i in ran and i not in done and t not in woken:
                return [('cut', 'interrupt %d of %s did not finish' % (i, t))]
        return []

    def after_end(self, r, i, t):
        """signalInterrupt: does nothing if the target has ended already."""
        end = False
        for e in r.events:
            if e.w[0] == 'fin' and e.w[1] == t:
                end = True
            if e.w[0] == 'qd' and e.w[1] == str(i):
                return end
        return True

    def nontrivial(self, spec, ctx):
        return any(e.w[0] == 'int' for e in ctx.runs[0].events)

    def probes(self, spec, ctx):
        ev = ctx.runs[0].events
        k = {e.w[0] for e in ev}
        return [x for x in ('dead', 'lin', 'kill', 'unsusp', 'int') if x in k]
