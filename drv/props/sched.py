"""P06: priority scheduling, against the state (ready, suspended, waiting, dead) and priority of every process.

Operations that are a single primitive are marked (no preemption between the log entry and the primitive); the others
are logged before and after, and what they change is unknown in between."""
import json
from core import Prop
from props.util import swarm, started


class P06(Prop):
    id = 'P06'
    lists = ('procs', 'ops')
    technique = 'seeded preemption around every scheduling primitive; state model of ready queues and priorities'

    def gen(self, rng, tier):
        np = rng.choice([2, 3, 4, 5, 6])
        mode = rng.choice(['plain', 'plain', 'prio', 'kill', 'all', 'rr'])
        pris = rng.choice([[4], [3, 4], [3, 4, 5, 6], [4, 4, 5], [3, 4, 5, 6, 7, 8]])
        procs = []

        def ops(n, depth):
            res = []
            for _ in range(n):
                x = rng.random()
                q = rng.randrange(np)
                if x < 0.15:
                    res.append(['step'])
                elif x < (0.6 if mode == 'rr' else 0.30):
                    res.append(['yield'])
                elif x < 0.42 and mode != 'rr':
                    res.append(['resume', q])
                elif x < 0.52 and mode != 'rr':
                    res.append(['suspend', q])
                elif x < 0.64:
                    res.append(['wait'])
                elif x < 0.76:
                    res.append(['sig', q])
                elif x < 0.86 and mode in ('prio', 'all'):
                    res.append(['prio', q, rng.choice(pris if rng.random() < 0.7 else [3, 4, 5, 6, 7, 8])])
                elif x < 0.90 and mode in ('kill', 'all'):
                    res.append(['kill', q])
                elif x < 0.94 and depth == 0:
                    res.append(['fork', rng.choice(pris), ops(rng.randint(1, 3), 1)])
                elif x < 0.96:
                    res.append(['sleep', rng.randint(1, 3)])
                elif x < 0.98:
                    res.append(['nopre', ops(1, 1)])
                else:
                    res.append(['spin', rng.randint(1, 15)])
            return res
        for p in range(np):
            procs.append(dict(pri=rng.choice(pris), ops=ops(rng.randint(1, 7), 0)))
        knobs = swarm(rng)
        if mode == 'rr' or rng.random() < 0.2:
            knobs.pop('yield_gap', 0)
            knobs.pop('gc_gap', 0)
        return dict(procs=procs, knobs=knobs)

    def op(self, i, o, forks):
        # Suspending a process in one of these can leave a lock of the system taken for ever.
        if o[0] in ('fork', 'kill', 'prio', 'sleep') and 'f' not in str(i):
            return 'B at: %d put: true. %s B at: %d put: false.' % (i + 1, self.op1(i, o, forks), i + 1)
        return self.op1(i, o, forks)

    def op1(self, i, o, forks):
        k = o[0]
        me = 'p%s' % i
        if k == 'step':
            return "Sim mark: 'step %s'." % me
        if k == 'yield':
            return "Sim mark: 'yield %s'. Processor yield. Sim mark: 'yielded %s'." % (me, me)
        if k == 'spin':
            return '1 to: %d do: [:k | k printString].' % o[1]
        if k == 'sleep':
            return "Sim mark: 'sleep %s'. (Delay forMilliseconds: %d) wait. Sim mark: 'awake %s'." % (me, o[1], me)
        if k == 'wait':
            j = int(str(i).split('f')[0])
            return "s := S at: %d. Sim mark: 'wait %s s%d'. s wait. Sim mark: 'waited %s'." % (j + 1, me, j, me)
        if k == 'nopre':
            inner = [x for x in o[1] if x[0] in ('step', 'spin', 'sig', 'resume')]
            return "[%s] valueWithoutPreemption." % ' '.join(
                self.op(i, x, forks).replace("mark: 'step %s'" % me, "log: 'inner %s'" % me).replace(
                    "mark: 'done %s'" % me, "log: 'inner %s'" % me) for x in inner)
        if k == 'fork':
            n = forks[0] = forks[0] + 1
            q = '%sf%d' % (i, n)
            return "Sim log: 'fork %s p%s %d'. Sim fork: 'p%s' at: %d do: [| s q | %s]. Sim mark: 'forked %s p%s'." % (
                me, q, o[1], q, o[1], ' '.join(self.op(q, x, forks) for x in o[2]), me, q)
        q = o[1]
        if k == 'sig':
            return "s := S at: %d. Sim mark: 'sig %s s%d'. s signal. Sim mark: 'done %s'." % (q + 1, me, q, me)
        if k == 'resume':
            return ("q := P at: %d. [Sim mark: 'resume %s p%d'. q resume] on: SystemExceptions.ProcessTerminated "
                    "do: [:e | e return]. Sim mark: 'done %s'." % (q + 1, me, q, me))
        if k == 'suspend':
            return ("Sim hold: 40. (B at: %d) ifFalse: [q := P at: %d. Sim mark: 'suspend %s p%d'. q suspend. "
                    "Sim mark: 'done %s']." % (q + 1, q + 1, me, q, me))
        if k == 'prio':
            return "Sim log: 'prio %s p%d %d'. [(P at: %d) priority: %d] on: SystemExceptions.ProcessTerminated do: [:e | e return]. Sim log: 'priod %s p%d'." % (
                me, q, o[2], q + 1, o[2], me, q)
        if k == 'kill':
            return "Sim log: 'kill %s p%d'. (P at: %d) terminate. Sim log: 'killed %s p%d'." % (me, q, q + 1, me, q)
        raise ValueError(k)

    def render(self, spec):
        n = len(spec['procs'])
        l = ["Smalltalk at: #S put: nil; at: #P put: nil; at: #B put: nil.", "Eval [",
             "B := (Array new: 8) atAllPut: false; yourself. S := (1 to: 8) collect: [:i | Semaphore new]. P := Array new: 8."]
        for i in range(8):
            p = spec['procs'][i] if i < n else dict(pri=4, ops=[])
            f = [0]
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [| s q | %s B at: %d put: true])." % (
                i + 1, i, p['pri'], ' '.join(self.op(i, o, f) for o in p['ops']), i + 1))
        l.append('Sim begin.')
        for i in range(n):
            l.append("[Sim mark: 'resume m p%d'. (P at: %d) resume] on: SystemExceptions.ProcessTerminated do: [:e | e return]." % (i, i + 1))
        l.append("Sim drain: 60 until: [(P allSatisfy: [:p | p isTerminated])].")
        l.append("Sim log: 'quiet m'.")
        for i in range(n):
            l.append("(P at: %d) isTerminated ifTrue: [Sim log: 'dead p%d'] ifFalse: [Sim log: 'alive p%d']." % (i + 1, i, i))
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r) or self.outcheck(r)
        return v or self.judge(spec, r)

    def judge(self, spec, r):
        st, pri, unsure, count = {}, {}, {}, [0] * 8
        dead, dying = set(), set()
        for i in range(8):
            p = spec['procs'][i] if i < len(spec['procs']) else dict(pri=4)
            st['p%d' % i], pri['p%d' % i], unsure['p%d' % i] = 'S', p['pri'], 0
        st['m'], pri['m'], unsure['m'] = 'R', 4, 1
        waiting = {}               # semaphore -> queue of waiters, None if unknown
        queue = {i: [] for i in range(8)}
        fuzzy = set()              # semaphores whose state is not known any more
        rr = {}                    # yielding process -> set of processes that have to run first
        check_rr = not any(x in json.dumps(spec) for x in ('yield_gap', 'gc_gap', 'sleep', 'fork', 'kill', 'prio'))
        forking, busy, stopped, aimed = {}, set(), set(), set()

        def wake(q):
            if st[q] in ('S', 'W'):
                st[q] = 'R'

        for e in r.events:
            w = e.w
            k = w[0]
            if k == 'err':
                return [('proc-error', e.text)]
            if k in ('alive', 'dead'):
                if k == 'alive' and w[1] in dead and not stopped:
                    return [('not-dead', '%s ended but is not terminated' % w[1])]
                if k == 'dead' and w[1] not in dead and w[1] not in aimed:
                    return [('died', '%s is terminated although nobody terminated it' % w[1])]
                if k == 'alive' and w[1] in dying and not stopped:
                    return [('immortal', '%s was terminated but lives' % w[1])]
                continue
            if k.startswith('!'):
                continue
            if k == 'quiet':
                pri['m'] = 2
            p = w[1]
            if k == 'inner':
                busy.add(p)
                continue
            # inside an operation that can pass the turn on without logging
            (busy.add if k in ('fork', 'prio', 'kill') else busy.discard)(p)
            if k in ('fork', 'prio', 'kill'):
                for x in rr.values():
                    x.discard(p)
            if k == 'end' and p in forking:
                pass
            # --- the process that logs is running ---
            if p in forking:
                st[p], pri[p], unsure[p] = 'R', forking.pop(p), 0
            if p in dead:
                return [('zombie', '%s ran after its end: %s' % (p, e))]
            if p in dying and k not in ('end',):
                return [('zombie', '%s ran after it was terminated: %s' % (p, e))]
            if st[p] in ('S', 'W'):
                return [('ran-blocked', '%s ran while %s: %s' % (
                    p, {'S': 'suspended', 'W': 'waiting'}[st[p]], e))]
            st[p] = 'R'
            if not unsure[p] and p != 'm' or k == 'quiet':
                for q in st:
                    if q != p and st[q] == 'R' and not unsure[q] and pri[q] > pri[p] and q not in dying and q not in busy:
                        return [('priority', '%s (priority %d) runs although %s (priority %d) is ready: %s' % (
                            p, pri[p], q, pri[q], e))]
            for q, s in list(rr.items()):
                s.discard(p)
                if q == p:
                    if s:
                        return [('round-robin', '%s runs again before %s, which was ready when it yielded: %s' % (
                            p, sorted(s), e))]
                    del rr[q]
            # --- effect ---
            t = w[2] if len(w) > 2 else None
            if t in st:
                for s in rr.values():
                    s.discard(t)
                rr.pop(t, 0)
            if k == 'end':
                dead.add(p)
                st[p] = 'T'
            elif k == 'yield':
                st[p] = 'Y'
                if check_rr and not unsure[p]:
                    rr[p] = {q for q in st if q != p and q != 'm' and st[q] == 'R' and not unsure[q]
                             and pri[q] == pri[p] and q not in dying and q not in busy}
            elif k == 'sleep':
                st[p] = 'Y'
            elif k == 'resume':
                for q in queue.values():
                    if t in q:
                        q.remove(t)
                wake(t)
            elif k == 'suspend':
                stopped.add(t)
                for q in queue.values():
                    if t in q:
                        q.remove(t)
                if t in dying or t in dead or st[t] == '?':
                    pass
                elif st[t] == 'Y':
                    # sleeping or ready, suspended in both cases; a pending delay can wake it
                    st[t] = '?'
                else:
                    st[t] = 'S'
            elif k == 'wait':
                s = int(t[1:])
                if s in fuzzy:
                    st[p] = '?'
                elif count[s]:
                    count[s] -= 1
                else:
                    st[p] = 'W'
                    queue[s].append(p)
            elif k == 'sig':
                s = int(t[1:])
                if queue[s]:
                    wake(queue[s].pop(0))
                else:
                    count[s] += 1
            elif k == 'prio':
                unsure[t] = unsure[t] + 1
                pri[t] = int(w[3])
            elif k == 'priod':
                # two changes at a time: never known again
                if unsure[t] == 1:
                    unsure[t] = 0
                else:
                    unsure[t] += 100
            elif k == 'kill':
                aimed.add(t)
                st[t] = '?' if t not in dead else 'T'
                for s, q in queue.items():
                    if t in q or True:
                        fuzzy.add(s)
                unsure[t] += 1000
                if t == p:
                    dying.add(t)
            elif k == 'killed':
                dying.add(t)
                for s, q in queue.items():
                    if t in q:
                        q.remove(t)
            elif k == 'fork':
                forking[t] = int(w[3])
            elif k == 'forked':
                if t in forking:
                    st[t], pri[t], unsure[t] = 'R', forking.pop(t), 0
            if fuzzy:
                # termination may have consumed or passed on signals: waiters are not known
                for q in st:
                    if st[q] == 'W':
                        st[q] = '?'
                for q in queue.values():
                    del q[:]
        return []

    def nontrivial(self, spec, ctx):
        return len(ctx.runs[0].events) > 6

    def probes(self, spec, ctx):
        ks = {e.w[0] for e in ctx.runs[0].events}
        return sorted(ks & {'yield', 'prio', 'kill', 'suspend', 'fork', 'wait', 'alive'})
