"""P09: unwind blocks under termination at any instant.

Processes run random nests of ensure:, ifCurtailed:, handlers and non-local returns, while others terminate them.
Entries and completions are logged by `Sim mark:` (atomic with the next few bytecodes), so the log tells exactly
which protected blocks had been entered and which had completed."""
from core import Prop
from props.util import swarm, started


class P09(Prop):
    id = 'P09'
    technique = 'seeded terminations at any bytecode of random nests of unwind blocks; every entered block must be unwound exactly once, innermost first'
    lists = ('procs', 'ops', 'body', 'ub')

    def gen(self, rng, tier):
        np = rng.choice([1, 2, 2, 3, 4, 5])
        multi = rng.random() < 0.3
        self_kill = rng.random() < 0.4
        die = rng.random() < 0.15
        ident = [0]

        def nid():
            ident[0] += 1
            return ident[0]

        def simple(inub):
            x = rng.random()
            if x < 0.25:
                return ['yield']
            if x < 0.45:
                return ['spin', rng.randint(1, 25)]
            if x < 0.6:
                return ['sig', rng.randrange(2)]
            if x < 0.72:
                return ['delay', rng.randint(1, 3)]
            if x < 0.85 and not inub:
                return ['wait', rng.randrange(2)]
            if x < 0.92 and not inub:
                return ['susp']
            return ['log']

        def block(depth, esc, catch, inub, n=None):
            return [node(depth, esc, catch, inub) for _ in range(n or rng.choice([1, 1, 2, 2, 3]))]

        def node(depth, esc, catch, inub):
            x = rng.random()
            if depth <= 0 or x < 0.25:
                y = rng.random()
                if y < 0.12 and esc and not inub:
                    return ['leave', rng.choice(esc)]
                if y < 0.24 and catch and not inub:
                    return ['raise', rng.choice(catch)]
                if y < 0.32 and np > 1 and not inub:
                    return ['kill', rng.randrange(np)]
                if y < 0.36 and self_kill and not inub:
                    return ['kill', -1]
                if y < 0.39 and die and not inub:
                    return ['die']
                return simple(inub)
            i = nid()
            if x < 0.6:
                return ['ens', i, block(depth - 1, esc, catch, inub), block(depth - 2, [], [], True, rng.choice([1, 1, 2]))]
            if x < 0.8:
                return ['cur', i, block(depth - 1, esc, catch, inub), block(depth - 2, [], [], True, 1)]
            if x < 0.9:
                return ['esc', i, block(depth - 1, esc + [i], catch, inub)]
            return ['try', i, block(depth - 1, esc, catch + [i], inub), rng.choice(['return', 'fall', 'resume']),
                    [simple(True)]]
        procs = []
        for p in range(np):
            procs.append(dict(pri=rng.choice([3, 4, 4, 4, 5, 6]), body=block(rng.choice([2, 3, 4, 5]), [], [], False)))
        kills = [[rng.choice(['spin', 'ms', 'spin']), rng.choice([1, 2, 5, 20, 60]), rng.randrange(np)]
                 for _ in range(rng.randint(0, np if not multi else 2 * np))]
        if not multi:
            seen = set()
            kills = [k for k in kills if not (k[2] in seen or seen.add(k[2]))]
        return dict(procs=procs, ops=kills, kpri=rng.choice([3, 4, 5, 7]), multi=multi, knobs=swarm(rng, gc_p=0.2))

    # -- rendering
    def code(self, p, body):
        return ' '.join(self.one(p, n) for n in body)

    def one(self, p, n):
        k = n[0]
        if k == 'yield':
            return 'Processor yield.'
        if k == 'spin':
            return '1 to: %d do: [:k | k printString].' % n[1]
        if k == 'sig':
            return '(S at: %d) signal.' % (n[1] + 1)
        if k == 'wait':
            return '(S at: %d) wait.' % (n[1] + 1)
        if k == 'delay':
            return '(Delay forMilliseconds: %d) wait.' % n[1]
        if k == 'susp':
            return 'Processor activeProcess suspend.'
        if k == 'log':
            return "Sim log: 'at p%d'." % p
        if k == 'die':
            return "Sim log: 'kill p%d'. SimDeath new signal." % p
        if k == 'kill':
            j = p if n[1] < 0 else n[1]
            return "Sim log: 'kill p%d'. (P at: %d) terminate. Sim log: 'killed p%d'." % (j, j + 1, j)
        i = n[1]
        t = 'p%d %d' % (p, i)
        if k == 'leave':
            return "Sim log: 'leave %s'. x%d value: nil." % (t, i)
        if k == 'raise':
            return "Sim log: 'raise %s'. SimExc new messageText: '%d'; signal." % (t, i)
        if k == 'ens':
            return "[Sim mark: 'ent %s'. %s Sim mark: 'done %s'] ensure: [Sim log: 'ens %s'. %s Sim log: 'ensd %s']." % (
                t, self.code(p, n[2]), t, t, self.code(p, n[3]), t)
        if k == 'cur':
            return "[Sim mark: 'ent %s'. %s Sim mark: 'done %s'] ifCurtailed: [Sim log: 'cur %s'. %s Sim log: 'curd %s']." % (
                t, self.code(p, n[2]), t, t, self.code(p, n[3]), t)
        if k == 'esc':
            return "SimEsc run: [:x%d | %s]." % (i, self.code(p, n[2]))
        if k == 'try':
            end = {'return': 'e return: 1', 'fall': '2', 'resume': 'e resume: 3'}[n[3]]
            return ("[%s] on: SimExc do: [:e | e messageText = '%d' ifFalse: [e pass] ifTrue: [Sim log: 'hand %s'. %s %s]]."
                    % (self.code(p, n[2]), i, t, self.code(p, n[4]), end))
        raise KeyError(k)

    def render(self, spec):
        n = len(spec['procs'])
        l = ["Smalltalk at: #P put: nil; at: #S put: nil; at: #K put: nil.",
             "Notification subclass: SimExc [ ]",
             "Exception subclass: SimDeath [ description [ ^'death' ] ]",
             "Object subclass: SimEsc [ SimEsc class >> run: aBlock [ ^aBlock value: [:x | ^x] ] ]",
             "Eval [", "P := Array new: 8. S := (1 to: 2) collect: [:i | Semaphore new]."]
        for i, p in enumerate(spec['procs']):
            l.append("P at: %d put: ([%s Sim mark: 'end p%d'] newProcess name: 'p%d'; priority: %d; yourself)." % (
                i + 1, self.code(i, p['body']), i, i, p['pri']))
        for i in range(n, 8):
            l.append("P at: %d put: ([] newProcess)." % (i + 1))
        l.append('Sim begin.')
        for i in range(n):
            l.append(started(i))
        t = []
        for k in spec['ops']:
            t.append({'spin': '1 to: %d do: [:k | k printString].', 'ms': '(Delay forMilliseconds: %d) wait.'}[k[0]] % k[1])
            t.append("Sim log: 'kill p%d'. (P at: %d) terminate. Sim log: 'killed p%d'." % (k[2], k[2] + 1, k[2]))
        l.append("K := Sim fork: 'killer' at: %d do: [%s]." % (spec['kpri'], ' '.join(t)))
        l.append("Sim drain: 100 until: [K isTerminated and: [(P first: %d) allSatisfy: [:p | p isTerminated]]]." % n)
        l.append("Sim log: 'quiet'.")
        # whatever still waits is terminated where it is
        l.append("(P first: %d) do: [:p | p isTerminated ifFalse: [Sim log: 'kill ', p name. p terminate. Sim log: 'killed ', p name]]." % n)
        l.append("Sim drain: 100 until: [(P first: %d) allSatisfy: [:p | p isTerminated]]." % n)
        l.append("Sim log: 'over'.")
        l.append("(P first: %d) do: [:p | Sim log: 'state ', p name, ' ', p isTerminated printString]." % n)
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        src = self.render(spec)
        r = ctx.phase(src, spec['knobs'])
        v = self.vmcheck(r)
        if v:
            return v
        if not any(self.has(p['body'], 'die') for p in spec['procs']):
            v = self.outcheck(r)
        return v or self.judge(spec, r)

    def has(self, x, k):
        if isinstance(x, list):
            return (len(x) > 0 and x[0] == k) or any(self.has(y, k) for y in x)
        return False

    def tree(self, spec):
        """kind and ancestors (through protected blocks) of each id"""
        info = {}

        def walk(body, anc):
            for n in body:
                if n[0] in ('ens', 'cur', 'esc', 'try'):
                    info[n[1]] = (n[0], anc)
                    a = anc + [n[1]] if n[0] in ('ens', 'cur') else anc
                    walk(n[2], a)
                    if n[0] in ('ens', 'cur'):
                        walk(n[3], anc + [('u', n[1])])
        for p in spec['procs']:
            walk(p['body'], [])
        return info

    def judge(self, spec, r):
        info = self.tree(spec)
        kills = {}
        ent, done, ub, ubd = {}, {}, {}, {}
        end, state, left = {}, {}, {}
        for pos, e in enumerate(r.events):
            w = e.w
            k = w[0]
            if k == 'kill':
                kills[w[1]] = kills.get(w[1], 0) + 1
            elif k == 'ent':
                if int(w[2]) in ent:
                    return [('twice', 'protected block entered twice: %s' % e)]
                ent[int(w[2])] = (pos, w[1])
            elif k == 'done':
                done[int(w[2])] = pos
            elif k in ('ens', 'cur'):
                i = int(w[2])
                if i in ub:
                    return [('ran-twice', 'unwind block ran twice: %s' % e)]
                # (termination may come between the start of the receiver and its mark)
                if i not in ent and not kills.get(w[1]):
                    return [('not-entered', 'unwind block ran but its receiver was not entered: %s' % e)]
                ub[i] = pos
            elif k in ('ensd', 'curd'):
                ubd[int(w[2])] = pos
            elif k in ('leave', 'hand'):
                left.setdefault(w[1], []).append(pos)
            elif k == 'end':
                end[w[1]] = pos
            elif k == 'state':
                state[w[1]] = w[2]
            elif k == 'err':
                return [('killer-error', str(e))]
        v = []
        for p, s in state.items():
            if s != 'true':
                return [('not-terminated', '%s was terminated but is not' % p)]
        for p in range(len(spec['procs'])):
            if 'p%d' % p not in state:
                return [('not-terminated', 'no state of p%d' % p)]
        gone = {}
        for i, (pos, p) in sorted(ent.items()):
            kind = info[i][0]
            n = kills.get(p, 0)
            if kind == 'cur' and i in done:
                if i in ub:
                    return [('cur-done', 'ifCurtailed: block %d of %s ran although its receiver had completed' % (i, p))]
            elif i not in ub:
                # A termination can cut short an unwind block that has just started (the first one only
                # a block which runs because its receiver ended by itself).
                gone.setdefault(p, []).append(i)
                if n < (1 if i in done or max(left.get(p, [-1])) > pos else 2):
                    return [('not-run', '%s block %d of %s never ran (terminated %d times)' % (
                        {'ens': 'ensure:', 'cur': 'ifCurtailed:'}[kind], i, p, n))]
            elif i not in ubd:
                gone.setdefault(p, []).append(i)
                if not self.interrupted(r, p, ub[i]):
                    return [('cut', 'unwind block %d of %s did not finish' % (i, p))]
            if len([x for x in gone.get(p, ()) if not any(('u', y) in info[x][1] for y in gone[p])]) > n:
                return [('not-run', '%s was terminated %d times, but the unwind blocks %s did not run or finish' % (
                    p, n, gone[p]))]
            # innermost first
            for a in info[i][1]:
                if isinstance(a, int) and a in ub and i in ub and ub[i] > ub[a]:
                    return [('order', 'unwind block %d of %s ran before %d, which is inside' % (a, p, i))]
        for p in range(len(spec['procs'])):
            p = 'p%d' % p
            if not kills.get(p) and p not in end:
                return [('lost', '%s ended without a reason' % p)]
        # nothing after the end of the process
        return v

    def interrupted(self, r, p, pos):
        """Was P terminated after POS (while in an unwind block)?"""
        open_ = 0
        for j, e in enumerate(r.events):
            if len(e.w) > 1 and e.w[1] == p and e.w[0] in ('kill', 'killed'):
                open_ += 1 if e.w[0] == 'kill' else -1
                if j > pos:
                    return True
        return open_ > 0

    def nontrivial(self, spec, ctx):
        return any(e.w[0] == 'ent' for e in ctx.runs[0].events)

    def probes(self, spec, ctx):
        ev = ctx.runs[0].events
        k = [e.w[0] for e in ev]
        p = []
        if 'kill' in k:
            p.append('terminate')
        if 'cur' in k:
            p.append('curtailed')
        if 'leave' in k:
            p.append('non-local return')
        if 'hand' in k:
            p.append('exception')
        done = {int(e.w[2]) for e in ev if e.w[0] == 'done'}
        if any(e.w[0] == 'ens' and int(e.w[2]) not in done for e in ev):
            p.append('ensure block run by unwinding')
        return p
