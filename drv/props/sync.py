"""P03 Semaphore>>critical:, P04 RecursionLock, P05 SharedQueue."""
from core import Prop
from props.util import swarm, started


class LockBase(Prop):
    lists = ('procs', 'ops')
    recursive = False
    technique = 'seeded preemption, collection and termination inside critical sections; interval and conservation oracle'

    def gen(self, rng, tier):
        nl = rng.choice([1, 1, 2, 3])
        np = rng.choice([2, 3, 3, 4, 5, 6])
        kills = rng.random() < 0.5
        samepri = rng.random() < 0.5

        def section(depth, held):
            l = rng.randrange(nl)
            if not self.recursive:
                # locks are taken in increasing order: no deadlock of the workload's own making
                free = [x for x in range(nl) if not held or x > max(held)]
                if not free:
                    return None
                l = rng.choice(free)
            elif held and l not in held and l < max(held):
                l = rng.choice(held)
            body = []
            for _ in range(rng.randint(0, 3)):
                x = rng.random()
                if x < 0.25:
                    body.append(['yield'])
                elif x < 0.4:
                    body.append(['spin', rng.randint(1, 15)])
                elif x < 0.5:
                    body.append(['delay', rng.randint(1, 3)])
                elif depth < 3:
                    s = section(depth + 1, held + [l])
                    if s:
                        body.append(s)
            end = rng.choice(['', '', '', '', 'err', 'nlr'] + (['self'] if kills else []))
            return ['crit', l, body, end]

        procs = []
        for p in range(np):
            ops = []
            for _ in range(rng.randint(1, 4)):
                x = rng.random()
                if x < 0.1:
                    ops.append(['yield'])
                elif x < 0.2:
                    ops.append(['delay', rng.randint(1, 3)])
                elif x < 0.45 and kills:
                    ops.append(['kill', rng.randrange(np)])
                else:
                    ops.append(section(0, []))
            procs.append(dict(pri=4 if samepri else rng.choice([3, 4, 4, 5, 6]), ops=ops))
        return dict(nl=nl, procs=procs, knobs=swarm(rng))

    def op(self, p, o, ids, top=True):
        k = o[0]
        if k == 'yield':
            return 'Processor yield.'
        if k == 'spin':
            return '1 to: %d do: [:k | k printString].' % o[1]
        if k == 'delay':
            return '(Delay forMilliseconds: %d) wait.' % o[1]
        if k == 'kill':
            return "Sim log: 'kill p%d'. (P at: %d) terminate. Sim log: 'killed p%d'." % (o[1], o[1] + 1, o[1])
        l, body, end = o[1:]
        ids.append(0)
        i = 'p%d l%d c%d' % (p, l, len(ids))
        inner = ' '.join(self.op(p, b, ids, False) for b in body)
        end = {'': '', 'err': "SystemExceptions.InvalidValue new signal: 'x'.", 'nlr': '^nil',
               'self': 'Processor activeProcess terminate.'}[end]
        e = "[[Sim log: 'in %s'. %s %s] ensure: [Sim log: 'out %s']]" % (i, inner, end if end != '^nil' else '', i)
        if end == '^nil':
            # a non-local return through critical: and ensure:
            return "(NLR new in: (L at: %d) do: %s). Sim log: 'past %s'." % (l + 1, e, i)
        return "[(L at: %d) critical: %s] on: SystemExceptions.InvalidValue do: [:e | e return: nil]. Sim log: 'past %s'." % (l + 1, e, i)

    def render(self, spec):
        n = len(spec['procs'])
        mk = 'RecursionLock new' if self.recursive else 'Semaphore forMutualExclusion'
        l = ["Object subclass: NLR [ in: l do: b [ l critical: [b value. ^1]. ^2 ] ]",
             "Smalltalk at: #L put: nil; at: #P put: nil.", "Eval [",
             "L := (1 to: %d) collect: [:i | %s]. P := Array new: 8." % (spec['nl'], mk)]
        for i, p in enumerate(spec['procs']):
            ids = []
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [%s])." % (
                i + 1, i, p['pri'], ' '.join(self.op(i, o, ids) for o in p['ops'])))
        for i in range(n, 8):
            l.append("P at: %d put: (Sim process: 'p%d' at: 4 do: [])." % (i + 1, i))
        l.append('Sim begin.')
        for i in range(n):
            l.append(started(i))
        l.append("Sim drain: 150 until: [P allSatisfy: [:p | p isTerminated]].")
        l.append("Sim log: 'quiet'.")
        for i in range(n):
            l.append("(P at: %d) isTerminated ifFalse: [Sim log: 'alive p%d']." % (i + 1, i))
        # every lock can be taken, by a process that never had it
        for i in range(spec['nl']):
            l.append("Sim fork: 'probe' at: 5 do: [(L at: %d) critical: [Sim log: 'probe l%d']]." % (i + 1, i))
            l.append("Sim drain: 5 until: [false].")
            l.append("(L at: %d) wouldBlock ifTrue: [Sim log: 'held l%d']." % (i + 1, i))
            if not self.recursive:
                l.append("(L at: %d) wait. (L at: %d) wouldBlock ifFalse: [Sim log: 'twice l%d']." % (i + 1, i + 1, i))
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r) or self.outcheck(r)
        return v or self.judge(spec, r)

    def judge(self, spec, r):
        inside = {}        # lock -> {process: depth}
        sections = {}
        killed = {}
        probes = set()
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('proc-error', e.text)]
            if w[0] == 'kill':
                killed.setdefault(w[1], e.seq)
                # An `out' may never be logged by a process that is terminated in its ensure block.
                for l in inside.values():
                    if w[1] in l:
                        l[w[1]] = [l[w[1]][0], True]
            elif w[0] == 'in':
                p, l, c = w[1:4]
                own = inside.setdefault(l, {})
                other = [q for q, (d, unk) in own.items() if q != p and d > 0 and not unk]
                if other:
                    return [('exclusion', '%s enters %s while %s is inside: %s' % (p, l, other[0], e))]
                own[p] = [own.get(p, [0, False])[0] + 1, p in killed]
                if c in sections.setdefault(p, {}):
                    return [('twice', 'critical block evaluated twice: %s' % e)]
                sections[p][c] = 'in'
            elif w[0] == 'out':
                p, l, c = w[1:4]
                own = inside.setdefault(l, {})
                if sections.get(p, {}).get(c) == 'out':
                    return [('unwind-twice', 'left twice: %s' % e)]
                if sections.get(p, {}).get(c) == 'in':
                    own[p][0] -= 1
                sections.setdefault(p, {})[c] = 'out'
            elif w[0] == 'past':
                p, l, c = w[1:4]
                if sections.get(p, {}).get(c) != 'out':
                    return [('not-run', 'critical: returned but its block did not run to the end: %s' % e)]
            elif w[0] == 'end':
                killed.setdefault(w[1] + ' end', 1)
            elif w[0] == 'alive':
                return [('stuck', 'process %s never got through its critical sections' % w[1])]
            elif w[0] == 'held':
                return [('held', 'lock %s is still held after every process is gone' % w[1])]
            elif w[0] == 'twice':
                return [('released-twice', 'lock %s was released more than once' % w[1])]
            elif w[0] == 'probe':
                probes.add(w[1])
        miss = ['l%d' % i for i in range(spec['nl']) if 'l%d' % i not in probes]
        if miss:
            return [('never-released', 'lock %s cannot be taken after every process is gone' % miss[0])]
        return []

    def nontrivial(self, spec, ctx):
        return sum(e.w[0] == 'in' for e in ctx.runs[0].events) > 1

    def probes(self, spec, ctx):
        ev = ctx.runs[0].events
        res = []
        if any(e.w[0] == 'kill' for e in ev):
            res.append('terminate')
        ins = {}
        for e in ev:
            if e.w[0] == 'in':
                ins[e.w[1]] = 1
            elif e.w[0] == 'out':
                ins.pop(e.w[1], 0)
            elif e.w[0] == 'kill' and e.w[1] in ins:
                res.append('terminate inside')
                break
        return res


class P03(LockBase):
    id = 'P03'


class P04(LockBase):
    id = 'P04'
    recursive = True


class P05(Prop):
    id = 'P05'
    lists = ('procs', 'ops')
    technique = 'seeded preemption of producers and consumers; queue-linearizability oracle over unique elements'

    def gen(self, rng, tier):
        np = rng.choice([2, 3, 4, 5, 6])
        samepri = rng.random() < 0.5
        procs, nput = [], 0
        for p in range(np):
            ops = []
            kind = rng.choice(['prod', 'cons', 'both'])
            for _ in range(rng.randint(1, 8)):
                x = rng.random()
                if x < 0.12:
                    ops.append(['yield'])
                elif x < 0.18:
                    ops.append(['delay', rng.randint(1, 3)])
                elif x < 0.24:
                    ops.append(['peek'])
                elif kind == 'prod' or kind == 'both' and rng.random() < 0.5:
                    nput += 1
                    ops.append(['put', nput])
                else:
                    ops.append(['next'])
            procs.append(dict(pri=4 if samepri else rng.choice([3, 4, 4, 5, 6]), ops=ops))
        vals = list(range(1, nput + 1))
        rng.shuffle(vals)
        for p in procs:
            for o in p['ops']:
                if o[0] == 'put':
                    o[1] = vals[o[1] - 1]
        return dict(sorted=rng.random() < 0.35, procs=procs, knobs=swarm(rng))

    def render(self, spec):
        n = len(spec['procs'])
        l = ["Smalltalk at: #Q put: nil; at: #P put: nil.", "Eval [",
             "Q := %s. P := Array new: %d." % (
                 'SharedQueue sortBlock: [:a :b | a <= b]' if spec['sorted'] else 'SharedQueue new', n)]
        for i, p in enumerate(spec['procs']):
            t = []
            for o in p['ops']:
                if o[0] == 'yield':
                    t.append('Processor yield.')
                elif o[0] == 'delay':
                    t.append('(Delay forMilliseconds: %d) wait.' % o[1])
                elif o[0] == 'put':
                    t.append("Sim log: 'put p%d %d'. Q nextPut: %d. Sim log: 'putd p%d %d'." % (i, o[1], o[1], i, o[1]))
                elif o[0] == 'next':
                    t.append("Sim log: 'get p%d'. x := Q next. Sim log: 'got p%d ', x printString." % (i, i))
                else:
                    t.append("Sim log: 'peek p%d'. x := Q peek. Sim log: 'peeked p%d ', x printString." % (i, i))
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [| x | %s])." % (i + 1, i, p['pri'], ' '.join(t)))
        l.append('Sim begin.')
        for i in range(n):
            l.append('(P at: %d) resume.' % (i + 1))
        l.append("Sim drain: 150 until: [P allSatisfy: [:p | p isTerminated]]. Sim log: 'quiet'.")
        l.append("[Q isEmpty] whileFalse: [Sim log: 'rest ', Q next printString]. Sim log: 'empty'.")
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r) or self.outcheck(r)
        return v or self.judge(spec, r)

    def judge(self, spec, r):
        INF = 10**9
        puts, gets, start, rest, waiting = {}, {}, {}, [], {}
        peeks = []
        quiet = INF
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('proc-error', e.text)]
            if w[0] == 'put':
                puts[int(w[2])] = [e.seq, INF]
            elif w[0] == 'putd':
                puts[int(w[2])][1] = e.seq
            elif w[0] in ('get', 'peek'):
                start[w[1]] = e.seq
                waiting[w[1]] = w[0]
            elif w[0] in ('got', 'peeked'):
                waiting.pop(w[1])
                x = w[2]
                if not x.isdigit() or int(x) not in puts:
                    return [('invented', 'answered an element that was not put before: %s' % e)]
                if w[0] == 'peeked':
                    peeks.append((int(x), start[w[1]], e.seq))
                    continue
                if int(x) in gets:
                    return [('duplicate', 'element received twice: %s' % e)]
                gets[int(x)] = (start[w[1]], e.seq)
            elif w[0] == 'quiet':
                quiet = e.seq
            elif w[0] == 'rest':
                if int(w[1]) in gets or int(w[1]) in rest:
                    return [('duplicate', 'element received twice: %s' % e)]
                rest.append(int(w[1]))
        if any(p[1] == INF for p in puts.values()):
            return [('put-blocked', 'nextPut: did not end')]
        lost = set(puts) - set(gets) - set(rest)
        if lost:
            return [('lost', 'elements %s were put but never received' % sorted(lost))]
        if waiting and rest:
            return [('next-blocked', '%s blocked although the queue held %s' % (sorted(waiting), rest))]
        if rest and rest != sorted(rest, key=(lambda x: x) if spec['sorted'] else (lambda x: puts[x][0])):
            bad = [(a, b) for i, a in enumerate(rest) for b in rest[i + 1:]
                   if (b < a if spec['sorted'] else puts[b][1] < puts[a][0])]
            if bad:
                return [('order', 'elements left in the queue out of order: %s' % rest)]
        after = {x: gets.get(x, (quiet, INF)) for x in puts}
        for b, (s, e) in gets.items():
            for a, (ps, pe) in puts.items():
                if a == b or after[a][0] < e:
                    continue        # a was received before, or at the same time
                if spec['sorted']:
                    if a < b and pe < s:
                        return [('order', '%d received although %d was in the queue' % (b, a))]
                elif pe < puts[b][0]:
                    return [('order', '%d received before %d, which was put earlier' % (b, a))]
        for b, s, e in peeks:
            if after[b][1] < s:
                return [('peek', 'peek answered %d, which had been received before' % b)]
            for a, (ps, pe) in puts.items():
                if a == b or after[a][0] < e:
                    continue
                if a < b and pe < s if spec['sorted'] else pe < puts[b][0]:
                    return [('peek', 'peek answered %d although %d was in front of it' % (b, a))]
        return []

    def nontrivial(self, spec, ctx):
        return sum(e.w[0] == 'got' for e in ctx.runs[0].events) > 0
