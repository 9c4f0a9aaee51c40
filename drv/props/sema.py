"""P01, P02: counting semaphores against a sequential model of count and FIFO queue.

Each operation is logged by `Sim mark:` immediately before it, with no preemption in between, so the log order of
the marks is the order of the operations.  The model follows the log; termination of a process is not atomic, so
the model is a set of states while one is going on."""
from core import Prop
from props.util import swarm

NAME = lambda p: 'p%d' % p


class SemaBase(Prop):
    lists = ('procs', 'ops')
    ordered = True

    def gen(self, rng, tier):
        ns = rng.choice([1, 1, 2, 3])
        np = rng.choice([2, 3, 3, 4, 5, 6, 8])
        mode = rng.choice(['plain', 'plain', 'notify', 'kill', 'all'])
        samepri = rng.random() < 0.5
        procs = []
        for p in range(np):
            ops = []
            bias = rng.choice([0.3, 0.5, 0.5, 0.7])
            for _ in range(rng.randint(1, 8)):
                s = rng.randrange(ns)
                x = rng.random()
                if x < 0.12:
                    ops.append(['yield'])
                elif x < 0.16:
                    ops.append(['spin', rng.randint(1, 40)])
                elif x < 0.20 and mode in ('kill', 'all'):
                    ops.append(['kill', rng.randrange(np)])
                elif x < 0.30 and mode in ('notify', 'all'):
                    ops.append([rng.choice(['ntf', 'all']), s])
                elif x < 0.36 and mode in ('notify', 'all') and ns > 1:
                    ops.append(['was', s, (s + 1) % ns])
                elif x < 0.38 and mode in ('notify', 'all'):
                    ops.append(['lock', s])
                elif x < 0.41:
                    ops.append(['delay', rng.randint(1, 3)])
                elif rng.random() < bias:
                    ops.append(['wait', s])
                else:
                    ops.append(['sig', s])
            procs.append(dict(pri=4 if samepri else rng.choice([3, 4, 4, 5]), ops=ops))
        init = [rng.choice([0, 0, 0, 1, 2]) for _ in range(ns)]
        return dict(init=init, procs=procs, knobs=swarm(rng))

    def op(self, i, o):
        k = o[0]
        if k == 'yield':
            return 'Processor yield.'
        if k == 'spin':
            return '1 to: %d do: [:k | k printString].' % o[1]
        if k == 'delay':
            return '(Delay forMilliseconds: %d) wait.' % o[1]
        if k == 'kill':
            t = 'p%d' % o[1]
            return ("(P at: %d) isNil ifFalse: [Sim log: 'kill %s'. (P at: %d) terminate. Sim log: 'killed %s']."
                    % (o[1] + 1, t, o[1] + 1, t))
        s = o[1]
        if k == 'was':
            return "s := S at: %d. t := S at: %d. Sim mark: 'was p%d s%d s%d'. r := s waitAfterSignalling: t. Sim log: (r isNil ifTrue: ['nil p%d s%d'] ifFalse: ['ret p%d s%d'])." % (
                s + 1, o[2] + 1, i, s, o[2], i, s, i, s)
        if k == 'wait':
            return "s := S at: %d. Sim mark: 'wait p%d s%d'. r := s wait. Sim log: (r isNil ifTrue: ['nil p%d s%d'] ifFalse: ['ret p%d s%d'])." % (
                s + 1, i, s, i, s, i, s)
        m = {'sig': 'signal', 'ntf': 'notify', 'all': 'notifyAll', 'lock': 'lock'}[k]
        return "s := S at: %d. Sim mark: '%s p%d s%d'. s %s." % (s + 1, k, i, s, m)

    def render(self, spec):
        n = len(spec['procs'])
        l = ["Smalltalk at: #S put: nil; at: #P put: nil.", "Eval [",
             "S := (1 to: %d) collect: [:i | Semaphore new]. P := Array new: %d." % (len(spec['init']), max(n, 8))]
        for s, k in enumerate(spec['init']):
            l += ['(S at: %d) signal.' % (s + 1)] * k
        for i, p in enumerate(spec['procs']):
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [| r s t | %s])." % (
                i + 1, i, p['pri'], ' '.join(self.op(i, o) for o in p['ops'])))
        l.append('Sim begin.')
        for i in range(n):
            l.append('[(P at: %d) resume] on: SystemExceptions.ProcessTerminated do: [:e | e return].' % (i + 1))
        l.append("Sim drain: 120 until: [P allSatisfy: [:p | p isNil or: [p isTerminated]]].")
        l.append("Sim log: 'quiet'.")
        l.append("S keysAndValuesDo: [:i :s | | k | Sim log: 'waiting s', (i - 1) printString, (Sim names: ([s waitingProcesses] valueWithoutPreemption)).")
        l.append(" k := 0. [s wouldBlock] whileFalse: [s wait. k := k + 1]. Sim log: 'left s', (i - 1) printString, ' ', k printString].")
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r)
        if v:
            return v
        v = self.outcheck(r)
        for e in r.events:
            if e.w[0] == 'err':
                v.append(('proc-error', e.text))
        return v or self.model(spec, r)

    def model(self, spec, r):
        ns = len(spec['init'])
        # state: per semaphore (count, queue), plus the set of granted processes
        states = {(tuple((c, ()) for c in spec['init']), frozenset())}
        dying = set()
        final = {}
        for e in r.events:
            w = e.w
            k = w[0]
            if k == 'quiet':
                # a killer that was killed itself logs nothing after its terminate
                for p in dying:
                    states |= {(tuple((c, tuple(x for x in q if x != p)) for c, q in sems), g - {p}) for sems, g in states}
                break
            new = set()
            if k == 'kill':
                dying.add(w[1])
                continue
            if k == 'killed':
                p = w[1]
                for sems, g in states:
                    new.add((tuple((c, tuple(x for x in q if x != p)) for c, q in sems), g - {p}))
                # the process may still run its unwinding, but waits for nothing
            elif k in ('wait', 'was'):
                p, s = w[1], int(w[2][1:])
                for sems, g in states:
                    for sems2, g2 in (self.signal(sems, g, int(w[3][1:]), dying) if k == 'was' else [(sems, g)]):
                        c, q = sems2[s]
                        if c > 0:
                            new.add((put(sems2, s, (c - 1, q)), g2 | {p}))
                        else:
                            new.add((put(sems2, s, (c, q + (p,))), g2))
            elif k == 'sig':
                for sems, g in states:
                    new.update(self.signal(sems, g, int(w[2][1:]), dying))
            elif k == 'ntf':
                for sems, g in states:
                    new.update(self.signal(sems, g, int(w[2][1:]), dying, False))
            elif k == 'lock':
                s = int(w[2][1:])
                for sems, g in states:
                    new.add((put(sems, s, (0, sems[s][1])), g))
            elif k == 'all':
                s = int(w[2][1:])
                for sems, g in states:
                    new.add((put(sems, s, (sems[s][0], ())), g | set(sems[s][1])))
            elif k == 'ret':
                p = w[1]
                for sems, g in states:
                    if p in g:
                        new.add((sems, g - {p}))
            elif k == 'nil':
                p, s = w[1], int(w[2][1:])
                if p not in dying:
                    return [('wait-nil', 'wait answered nil without an interrupt: %s' % e)]
                new = states
            else:
                continue
            if not new:
                return [('model-' + k, 'no behaviour of the semaphore model explains %r; before it: %s' % (
                    e, '; '.join(sorted(map(show, states))[:3])))]
            states = new
            if len(states) > 3000:
                return []
        wait, left = {}, {}
        for e in r.events:
            if e.w[0] == 'waiting':
                wait[e.w[1]] = tuple(e.w[2:])
            elif e.w[0] == 'left':
                left[e.w[1]] = int(e.w[2])
        end = tuple((left['s%d' % s], wait['s%d' % s]) for s in range(ns))
        for sems, g in states:
            if self.same(sems, end) and not g - dying:
                return []
        return [('final', 'final state %s is not explained; the model allows %s' % (
            show((end, ())), '; '.join(sorted(map(show, states))[:3])))]

    def same(self, a, b):
        return a == b if self.ordered else [(c, sorted(q)) for c, q in a] == [(c, sorted(q)) for c, q in b]

    def signal(self, sems, g, s, dying, keep=True):
        """States after one signal: the head of the queue goes; a dying process may already be out."""
        c, q = sems[s]
        res = set()

        def pick(q, i):
            return put(sems, s, (c, q[:i] + q[i + 1:])), g | {q[i]}
        if self.ordered:
            i = 0
            while i < len(q):
                res.add(pick(q, i))
                if q[i] not in dying:
                    return res
                i += 1
        else:
            for i in range(len(q)):
                res.add(pick(q, i))
            if any(p not in dying for p in q):
                return res
        if keep:
            res.add((put(sems, s, (c + 1, q)), g))
        else:
            res.add((sems, g))
        return res

    def nontrivial(self, spec, ctx):
        return any(e.w[0] == 'ret' for e in ctx.runs[0].events)

    def probes(self, spec, ctx):
        k = {e.w[0] for e in ctx.runs[0].events}
        p = []
        if 'killed' in k:
            p.append('terminate')
        if 'was' in k:
            p.append('waitAfterSignalling')
        if any(e.w[0] == 'waiting' and len(e.w) > 2 for e in ctx.runs[0].events):
            p.append('blocked at the end')
        return p


def put(t, i, x):
    return t[:i] + (x,) + t[i + 1:]


def show(st):
    return ' '.join('s%d=%d[%s]' % (i, c, ','.join(q)) for i, (c, q) in enumerate(st[0])) + ' granted ' + ','.join(sorted(st[1]))


class P01(SemaBase):
    id = 'P01'
    ordered = False


class P02(SemaBase):
    id = 'P02'
    ordered = True
