"""P07 Delays, P08 timed waits: simulated monotonic clock against the requested intervals."""
from core import Prop
from props.util import swarm, started

MS = 10**6


class DelayBase(Prop):
    lists = ('procs', 'ops', 'body')

    def smooth(self, spec):
        """Nothing but the CPU time of the workload delays the system."""
        k = spec['knobs']
        # (with a collection every few bytecodes, the finalization processes are what runs)
        return not ({'stall_gap', 'late_ppm'} & set(k)) and k.get('gc_gap', 999) > 16

    def slack(self, spec):
        return 60 * MS * max(1, spec['knobs']['sp_ns'] // 1000)

    def header(self, spec, extra=''):
        return ["Smalltalk at: #P put: nil; at: #S put: nil.",
                "Sim class extend [ tmo: i c: c d: d body: b [ <category: 'x'> | r |"
                " self log: 'v ', i, ' ', c, ' ', d printString."
                " r := (Delay forMilliseconds: d) value: [[self log: 'vb ', i, ' ', c. b value. self log: 've ', i, ' ', c. 1]"
                " ensure: [self log: 'vu ', i, ' ', c]] onTimeoutDo: [self log: 'vt ', i, ' ', c. 2]."
                " self log: 'vr ', i, ' ', c, ' ', r printString ] ]",
                "Eval [", "P := Array new: 8. S := (1 to: 4) collect: [:i | Semaphore new]."]

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r) or self.outcheck(r)
        return v or self.judge(spec, r)

    def nontrivial(self, spec, ctx):
        return len(ctx.runs[0].events) > 4


class P07(DelayBase):
    id = 'P07'
    technique = 'simulated clock, seeded lateness and preemption of timers; every interval checked against the clock'

    def gen(self, rng, tier):
        np = rng.choice([1, 2, 3, 4, 6, 8])
        kills = rng.random() < 0.3
        scale = rng.choice([1, 3, 30, 100])
        procs = []
        for p in range(np):
            ops = []
            for _ in range(rng.randint(1, 5)):
                x = rng.random()
                if x < 0.08:
                    ops.append(['yield'])
                elif x < 0.14:
                    ops.append(['spin', rng.randint(1, 60)])
                elif x < 0.24 and kills:
                    ops.append(['kill', rng.randrange(np)])
                elif x < 0.30:
                    ops.append(['ns', rng.choice([0, 1, 999, 1000, 50000, 999999, 1000001, 2500000])])
                elif x < 0.36:
                    ops.append(['until', rng.choice([-5, 0, 1, rng.randint(1, 3 * scale)])])
                elif x < 0.40:
                    ops.append(['neg', rng.randint(0, 3)])
                elif x < 0.5:
                    ops.append(['reuse'])
                else:
                    ops.append(['ms', rng.randint(1, 3 * scale)])
            procs.append(dict(pri=rng.choice([4, 4, 4, 3, 5, 6, 8, 9]), reuse=rng.randint(1, 2 * scale), ops=ops))
        return dict(procs=procs, gap=rng.choice([0, 0, 1, scale]), knobs=swarm(rng, stall_p=0.4, late_p=0.3, wall_p=0.3, yield_p=0.7))

    def render(self, spec):
        n = len(spec['procs'])
        l = self.header(spec)
        for i, p in enumerate(spec['procs']):
            t = []
            for c, o in enumerate(p['ops']):
                k = o[0]
                if k == 'yield':
                    t.append('Processor yield.')
                    continue
                if k == 'spin':
                    t.append('1 to: %d do: [:k | k printString].' % o[1])
                    continue
                if k == 'kill':
                    t.append("Sim log: 'kill p%d'. (P at: %d) terminate. Sim log: 'killed p%d'." % (o[1], o[1] + 1, o[1]))
                    continue
                if k == 'ns':
                    d, e = o[1], 'Delay forNanoseconds: %d' % o[1]
                elif k == 'ms':
                    d, e = o[1] * MS, 'Delay forMilliseconds: %d' % o[1]
                elif k == 'neg':
                    d, e = -o[1] * MS, 'Delay forMilliseconds: %d' % -o[1]
                elif k == 'reuse':
                    d, e = p['reuse'] * MS, 'own'
                else:
                    d, e = o[1] * MS, 'Delay untilMilliseconds: Time millisecondClockValue + %d' % o[1]
                    d = max(0, d - MS)      # the millisecond clock is truncated
                t.append("d := %s. Sim log: 'start p%d c%d %d'. d wait. Sim log: 'done p%d c%d'." % (e, i, c, d, i, c)
                         if k != 'until' else
                         "Sim log: 'start p%d c%d %d'. d := %s. d wait. Sim log: 'done p%d c%d'." % (i, c, d, e, i, c))
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [| d own | own := Delay forMilliseconds: %d. %s])." % (
                i + 1, i, p['pri'], p['reuse'], ' '.join(t)))
        for i in range(n, 8):
            l.append("P at: %d put: (Sim process: 'p%d' at: 4 do: [])." % (i + 1, i))
        l.append('Sim begin.')
        for i in range(n):
            l.append(started(i))
            if spec['gap']:
                l.append('(Delay forMilliseconds: %d) wait.' % spec['gap'])
        l.append("Sim drain: 200 until: [P allSatisfy: [:p | p isTerminated]]. Sim log: 'quiet'.")
        # the timer still works
        l.append("P at: 1 put: (Sim fork: 'probe' at: 5 do: [(Delay forMilliseconds: 5) wait. Sim log: 'probe']).")
        l.append("Sim drain: 150 until: [(P at: 1) isTerminated].")
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def judge(self, spec, r):
        n = len(spec['procs'])
        start, ended, dying, lat, probe = {}, set(), set(), [], False
        quiet = None
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('proc-error', e.text)]
            if w[0] == 'start':
                start[w[1]] = (w[2], e.t, int(w[3]), e)
            elif w[0] == 'done':
                c, t, d, s = start.pop(w[1])
                if w[1] in dying:
                    return [('zombie', '%s ran after its termination: %s' % (w[1], e))]
                if c != w[2]:
                    return [('mixed', 'ended another delay: %s' % e)]
                if e.t < t + d:
                    return [('early', 'a delay of %d ns ended after %d ns: %s' % (d, e.t - t, e))]
                lat.append((t + max(d, 0), e.t, w[1], e))
            elif w[0] == 'end':
                ended.add(w[1])
            elif w[0] == 'killed':
                dying.add(w[1])
            elif w[0] == 'kill':
                pass
            elif w[0] == 'probe':
                probe = True
            elif w[0] == 'quiet':
                quiet = e
        aimed = {e.w[1] for e in r.events if e.w[0] == 'kill'}
        for p in range(n):
            p = 'p%d' % p
            if p not in ended and p not in aimed:
                return [('lost', '%s never came back from a delay (%s)' % (p, start.get(p)))]
        if not probe:
            return [('dead', 'no delay ends any more')]
        if self.smooth(spec):
            sl = self.slack(spec)
            for dl, t, p, e in lat:
                if t > dl + sl:
                    return [('late', 'a delay ended %.1f ms late: %s' % ((t - dl) / 1e6, e))]
            pri = {'p%d' % i: p['pri'] for i, p in enumerate(spec['procs'])}
            for a in lat:
                for b in lat:
                    if a[0] + sl < b[0] and a[1] > b[1] and pri[a[2]] >= pri[b[2]]:
                        return [('order', 'the delay %s should have ended before %s' % (a[3], b[3]))]
        return []

    def probes(self, spec, ctx):
        ks = {o[0] for p in spec['procs'] for o in p['ops']}
        return sorted(ks & {'kill', 'until', 'reuse', 'neg'}) + (['smooth'] if self.smooth(spec) else [])


class P08(DelayBase):
    id = 'P08'
    technique = 'simulated clock, seeded races between completion and timeout; exactly-one and conservation oracle'

    def gen(self, rng, tier):
        np = rng.choice([1, 2, 2, 3, 4])
        ns = rng.choice([1, 2])
        scale = rng.choice([1, 3, 20])
        close = rng.random() < 0.4     # completions and timeouts within a fraction of a millisecond

        def dur():
            return rng.choice([1, scale, rng.randint(1, 2 * scale)])

        def body(depth):
            b = []
            for _ in range(rng.randint(0, 2)):
                x = rng.random()
                if x < 0.25:
                    b.append(['yield'])
                elif x < 0.45:
                    b.append(['spin', rng.randint(1, 40)])
                elif x < 0.8 or depth > 1:
                    b.append(['ms', dur()])
                else:
                    b.append(['v', dur(), body(depth + 1)])
            return b
        procs = []
        for p in range(np):
            ops = []
            for _ in range(rng.randint(1, 5)):
                x = rng.random()
                if x < 0.35:
                    ops.append(['tw', rng.randrange(ns), rng.choice([0, dur(), dur()])])
                elif x < 0.60:
                    ops.append(['v', dur(), body(0)])
                elif x < 0.85:
                    ops.append(['sig', rng.randrange(ns)])
                elif x < 0.93:
                    ops.append(['ms', dur()])
                else:
                    ops.append(['spin', rng.randint(1, 40)])
            procs.append(dict(pri=rng.choice([4, 4, 4, 3, 5, 8, 9]), ops=ops))
        return dict(ns=ns, procs=procs, knobs=swarm(rng, stall_p=0.3, late_p=0.3, yield_p=0.8))

    def op(self, i, o, ids):
        k = o[0]
        if k == 'yield':
            return 'Processor yield.'
        if k == 'spin':
            return '1 to: %d do: [:k | k printString].' % o[1]
        if k == 'sig':
            return "Sim log: 'sig p%d s%d'. (S at: %d) signal." % (i, o[1], o[1] + 1)
        ids.append(0)
        c = 'c%d' % len(ids)
        if k == 'ms':
            return "Sim log: 'start p%d %s %d'. (Delay forMilliseconds: %d) wait. Sim log: 'done p%d %s'." % (
                i, c, o[1] * MS, o[1], i, c)
        if k == 'tw':
            return ("Sim log: 'tw p%d %s s%d %d'. r := (Delay forMilliseconds: %d) timedWaitOn: (S at: %d)."
                    " Sim log: 'twr p%d %s ', r printString." % (i, c, o[1], o[2] * MS, o[2], o[1] + 1, i, c))
        return "Sim tmo: 'p%d' c: '%s' d: %d body: [%s]." % (i, c, o[1], ' '.join(self.op(i, b, ids) for b in o[2]))

    def render(self, spec):
        n = len(spec['procs'])
        l = self.header(spec)
        for i, p in enumerate(spec['procs']):
            ids = []
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [| r | %s. Sim log: 'start p%d last 30000000'. (Delay forMilliseconds: 30) wait. Sim log: 'done p%d last'])." % (
                i + 1, i, p['pri'], ' '.join(self.op(i, o, ids) for o in p['ops']).rstrip('.'), i, i))
        for i in range(n, 8):
            l.append("P at: %d put: (Sim process: 'p%d' at: 4 do: [])." % (i + 1, i))
        l.append('Sim begin.')
        for i in range(n):
            l.append(started(i))
        l.append("Sim drain: 150 until: [(1 to: %d) allSatisfy: [:i | (P at: i) isTerminated]]. Sim log: 'quiet'." % n)
        l.append("1 to: %d do: [:i | | k s | k := 0. s := S at: i. [s wouldBlock] whileFalse: [s wait. k := k + 1]."
                 " Sim log: 'left ', (i - 1) printString, ' ', k printString]." % spec['ns'])
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def judge(self, spec, r):
        n = len(spec['procs'])
        sl = self.slack(spec)
        smooth = self.smooth(spec)
        got, sig, left = {}, {}, {}
        cur, start, v, ended = {}, {}, {}, set()
        waits = {}            # semaphore -> list of (process, start, deadline, end, result)
        for e in r.events:
            w = e.w
            k = w[0]
            if k == 'err':
                return [('proc-error', e.text)]
            if k == 'sig':
                sig.setdefault(int(w[2][1:]), []).append(e.t)
            elif k == 'tw':
                cur[w[1]] = (w[2], int(w[3][1:]), e.t, int(w[4]))
            elif k == 'twr':
                c, s, t, d = cur.pop(w[1])
                if w[3] not in ('true', 'false'):
                    return [('answer', 'timedWaitOn: answered %s' % e)]
                to = w[3] == 'true'
                if to and e.t < t + d:
                    return [('early', 'timedWaitOn: timed out %d ns early: %s' % (t + d - e.t, e))]
                if smooth and e.t > t + d + sl:
                    return [('late', 'timedWaitOn: took %d ns, limit %d: %s' % (e.t - t, d, e))]
                waits.setdefault(s, []).append((w[1], t, t + d, e.t, to))
                if not to:
                    got[s] = got.get(s, 0) + 1
            elif k == 'start':
                start[w[1], w[2]] = (e.t, int(w[3]))
            elif k == 'done':
                t, d = start.pop((w[1], w[2]))
                if e.t < t + d:
                    return [('early', 'a delay of %d ns ended after %d ns: %s' % (d, e.t - t, e))]
                if smooth and e.t > t + d + sl:
                    return [('late', 'a delay of %d ns ended after %d ns: %s' % (d, e.t - t, e))]
            elif k == 'v':
                v[w[1], w[2]] = dict(t=e.t, d=int(w[3]) * MS)
            elif k in ('vb', 've', 'vu', 'vt'):
                x = v[w[1], w[2]]
                if k in x or 'vr' in x:
                    return [('twice', 'not exactly once: %s' % e)]
                x[k] = e.t
                if k == 'vt' and e.t < x['t'] + x['d']:
                    return [('early', 'timeout after %d ns of %d: %s' % (e.t - x['t'], x['d'], e))]
                # (an unwind block that is being entered can itself be interrupted)
                if k == 'vt' and 'vb' in x and 'vu' not in x and 've' not in x:
                    return [('unwind', 'the timeout block runs before the unwind blocks: %s' % e)]
            elif k == 'vr':
                x = v[w[1], w[2]]
                x['vr'] = w[3]
                if 'vb' in x and 'vu' not in x and 've' not in x:
                    return [('unwind', 'the unwind block did not run: %s' % e)]
                if w[3] == '1' and ('ve' not in x or 'vt' in x):
                    return [('neither', 'answered the value of a block that did not end: %s' % e)]
                if w[3] == '2' and 'vt' not in x:
                    return [('neither', 'answered a timeout without evaluating the timeout block: %s' % e)]
                if w[3] not in '12':
                    return [('answer', 'value:onTimeoutDo: answered %s' % e)]
                if smooth:
                    if w[3] == '1' and x['ve'] > x['t'] + x['d'] + sl:
                        return [('missed', 'no timeout although the block took %d ns, limit %d: %s' % (
                            x['ve'] - x['t'], x['d'], e))]
            elif k == 'end':
                ended.add(w[1])
            elif k == 'left':
                left[int(w[1])] = int(w[2])
        for p in range(n):
            if 'p%d' % p not in ended:
                return [('stuck', 'process p%d did not end' % p)]
        for s in range(spec['ns']):
            if len(sig.get(s, [])) != got.get(s, 0) + left[s]:
                return [('conserve', 'semaphore s%d: %d signals, %d received, %d left' % (
                    s, len(sig.get(s, [])), got.get(s, 0), left[s]))]
        # A timeout although a signal was available well before, or all along.
        if smooth:
            for s, ws in waits.items():
                if len({x[0] for x in ws}) > 1:
                    continue
                avail = 0
                sg = sorted(sig.get(s, []))
                for p, t, dl, te, to in sorted(ws, key=lambda x: x[1]):
                    sure = sum(1 for x in sg if x < dl - sl) - sum(1 for y in ws if not y[4] and y[3] <= t)
                    if to and sure > 0:
                        return [('ignored', '%s timed out although s%d had been signalled' % (p, s))]
        return []

    def probes(self, spec, ctx):
        res = set()
        for e in ctx.runs[0].events:
            if e.w[0] == 'vt':
                res.add('timeout')
            elif e.w[0] == 've':
                res.add('in time')
            elif e.w[0] == 'twr':
                res.add('timedWaitOn: ' + e.w[3])
        return sorted(res)
