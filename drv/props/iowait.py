"""P45: waiting for input on pipes.

Fifos are fed by a simulated peer at seeded times (the readiness signal SIGIO comes at once or later, and several may
become one); one process reads each of them, others wait on the same descriptors, are interrupted or terminated while they do,
close descriptors under the readers, or compute and sleep.  A read call that would stop the whole VM is recorded by the
simulator."""
from core import Prop
from props.util import swarm


def byte(i, q):
    return chr(35 + (q * 31 + q // 83 + i * 17) % 88)


READ = {
    # one round of reading: log what came; S is the buffer, D becomes true at the end
    'na': "n := f nextAvailable: %(k)d into: s startingAt: 1. Sim log: 'got %(i)d ', (s copyFrom: 1 to: n). n = 0 ifTrue: [d := true].",
    'next': "(n := f next) isNil ifTrue: [d := true] ifFalse: [Sim log: 'got %(i)d ', (String with: n)].",
    'end': "f atEnd ifTrue: [d := true] ifFalse: [n := f next. n isNil ifFalse: [Sim log: 'got %(i)d ', (String with: n)]].",
    'ens': "f ensureReadable. Sim log: 'rdy %(i)d'. n := f nextAvailable: %(k)d into: s startingAt: 1. Sim log: 'got %(i)d ', (s copyFrom: 1 to: n). n = 0 ifTrue: [d := true].",
    'can': "Sim mark: 'can0 %(i)d'. n := f canRead. Sim log: 'can %(i)d ', n printString.",
    'peek': "n := f peek. n isNil ifTrue: [d := true] ifFalse: [Sim log: 'peek %(i)d ', (String with: n)].",
}


class P45(Prop):
    id = 'P45'
    technique = 'seeded arrival of data, of the readiness signal and of other events at any bytecode relative to poll and wait; the streams read are compared with what the peer wrote, and any system call that blocks is recorded'
    lists = ('fs', 'procs', 'ops', 'feeds', 'style')

    def gen(self, rng, tier):
        nf = rng.choice([1, 1, 2, 3, 4])
        fs = []
        for i in range(nf):
            t = rng.choice([0, 10, 100, 1000])
            feeds = []
            for _ in range(rng.randint(0, 8)):
                feeds.append([rng.choice([1, 1, 2, 5, 17, 60, 300]), t])
                t += rng.choice([0, 1, 3, 20, 50, 200, 1000, 10000])
            kind = rng.choice(['FileDescriptor', 'FileStream'])
            style = [[rng.choice(['na', 'na', 'next', 'end'] + (['can', 'can', 'ens'] if kind == 'FileDescriptor' else ['peek'])), rng.choice([1, 3, 20, 200])]
                     for _ in range(rng.randint(1, 4))]
            if kind == 'FileDescriptor' and any(x[0] in ('end', 'peek') for x in style):
                style = [x for x in style if x[0] != 'can']
            if not any(x[0] in ('na', 'next', 'end', 'ens') for x in style):
                style.append(['na', 20])
            fs.append(dict(kind=kind, pri=rng.choice([3, 4, 5, 6]), feeds=feeds, style=style, hup=rng.choice([0, 5, 2000])))
        procs = []
        for p in range(rng.choice([0, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 6)):
                x = rng.random()
                i = rng.randrange(nf)
                if x < 0.15:
                    ops.append(['yield'])
                elif x < 0.35:
                    ops.append(['spin', rng.randint(1, 30)])
                elif x < 0.55:
                    ops.append(['delay', rng.randint(1, 4)])
                elif x < 0.75:
                    ops.append(['intr', i])
                elif x < 0.8:
                    ops.append(['close', i])
                elif x < 0.9:
                    ops.append(['ens', i])
                else:
                    ops.append(['waiter', i, rng.choice([4, 5, 6]), rng.choice([0, 1, 30])])
            procs.append(dict(pri=rng.choice([3, 4, 4, 5, 6]), ops=ops))
        knobs = swarm(rng, gc_p=0.2, max_sp=6000000)
        if rng.random() < 0.2:
            knobs['rshort_ppm'] = 300000
        if rng.random() < 0.2:
            knobs['eintr_ppm'] = 100000
        return dict(fs=fs, procs=procs, knobs=knobs)

    def op(self, o, p, nf):
        if len(o) > 1 and o[0] not in ('spin', 'delay') and o[1] >= nf:
            return ''
        if o[0] == 'yield':
            return 'Processor yield.'
        if o[0] == 'spin':
            return '1 to: %d do: [:k | k printString].' % o[1]
        if o[0] == 'delay':
            return "x := Sim now. (Delay forMilliseconds: %d) wait. Sim log: 'slept p%d %d ', (Sim now - x) printString." % (o[1], p, o[1])
        if o[0] == 'intr':
            return "(R at: %d) isTerminated ifFalse: [[(R at: %d) queueInterrupt: [Sim log: 'intr']] on: SystemExceptions.ProcessTerminated do: [:e | e return]]." % (o[1] + 1, o[1] + 1)
        if o[0] == 'close':
            return "Sim log: 'close %d'. (F at: %d) close." % (o[1], o[1] + 1)
        if o[0] == 'ens':
            return "(F at: %d) ensureReadable. Sim log: 'rdy %d'." % (o[1] + 1, o[1])
        if o[0] == 'waiter':
            return ("x := Sim fork: 'w' at: %d do: [(F at: %d) ensureReadable. Sim log: 'rdy %d']. 1 to: %d do: [:k | k printString]. x terminate."
                    % (o[2], o[1] + 1, o[1], o[3]))
        raise KeyError(o)

    def render(self, spec):
        nf = len(spec['fs'])
        l = ['Smalltalk at: #P put: nil; at: #R put: nil; at: #F put: nil.', 'Eval [',
             'P := OrderedCollection new. R := Array new: 8. F := Array new: 8.']
        for i, f in enumerate(spec['fs']):
            l.append("Sim fifo: 'data/f%d'. F at: %d put: (%s open: 'data/f%d' mode: FileStream read)." % (i, i + 1, f['kind'], i))
            body = '\n'.join('d ifFalse: [%s].' % (READ[k] % dict(i=i, k=n)) for k, n in f['style'])
            l.append("R at: %d put: (P addLast: (Sim process: 'r%d' at: %d do: [| f s n d | f := F at: %d. s := String new: 200. d := false. [d] whileFalse: [%s]. Sim log: 'eof %d']))."
                     % (i + 1, i, f['pri'], i + 1, body, i))
        for i, p in enumerate(spec['procs']):
            l.append("P addLast: (Sim process: 'p%d' at: %d do: [| x | %s])." % (i, p['pri'], '\n'.join(self.op(o, i, nf) for o in p['ops'])))
        l.append('Sim begin.')
        end = 0
        for i, f in enumerate(spec['fs']):
            for n, t in f['feeds']:
                l.append('Sim feed: %d bytes: %d at: %d.' % (i, n, t))
                end = max(end, t)
        l.append('P do: [:p | p resume].')
        l.append("Processor activeProcess priority: 2. (Delay forMilliseconds: 400) wait. Sim log: 'mid'.")
        for i, f in enumerate(spec['fs']):
            l.append('Sim hangup: %d at: %d.' % (i, f['hup']))
        l.append("Sim drain: 60 until: [P allSatisfy: [:p | p isTerminated]].")
        l.append("P do: [:p | p isTerminated ifFalse: [Sim log: 'left ', p name]]. Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        return self.vmcheck(r) or self.outcheck(r) or self.judge(spec, r)

    def judge(self, spec, r):
        nf = len(spec['fs'])
        fed = [0] * nf
        got = [0] * nf
        can0 = [0] * nf
        hung = [False] * nf
        closed = [False] * nf
        ends = set()
        self.n = self.waits = 0
        total = [sum(n for n, t in f['feeds']) for f in spec['fs']]
        # (a read of the descriptor itself that is interrupted when it has read would lose the data: interrupts do not unwind here)
        for e in r.events:
            w = e.w
            k = w[0]
            if k == '!feed':
                fed[int(w[1])] = int(w[2])
                self.n += 1
            elif k == '!hangup':
                hung[int(w[1])] = True
            elif k == '!blocked':
                return [('blocked', 'the whole VM was stopped by a read of fifo %s, which had no data' % w[1])]
            elif k == 'close':
                closed[int(w[1])] = True
            elif k in ('got', 'peek'):
                i = int(w[1])
                s = e.text.split(' ', 2)[2] if len(e.text.split(' ', 2)) > 2 else ''
                want = ''.join(byte(i, q) for q in range(got[i], got[i] + len(s)))
                if closed[i]:           # a stream is not to be used by two processes at a time
                    continue
                if s != want:
                    return [('data', 'fifo %d: read %r after %d bytes, where the peer wrote %r' % (i, s, got[i], want))]
                if k == 'got':
                    got[i] += len(s)
                if got[i] > fed[i]:
                    return [('data', 'fifo %d: more bytes than were written' % i)]
                if k == 'got' and s == '' and not (hung[i] or closed[i]):
                    return [('early-eof', 'fifo %d: a read answered no data, but the fifo is open' % i)]
            elif k == 'can0':
                can0[int(w[1])] = fed[int(w[1])]
            elif k == 'can':
                i = int(w[1])
                if w[2] == 'true' and fed[i] <= got[i] and not hung[i]:
                    return [('can-read', 'fifo %d: canRead is true, but there is no data' % i)]
                if w[2] == 'false' and can0[i] > got[i] and not closed[i]:
                    return [('can-read', 'fifo %d: canRead is false, but there is data' % i)]
            elif k == 'rdy':
                self.waits += 1
                i = int(w[1])
                if fed[i] == 0 and not hung[i] and not closed[i]:
                    return [('not-ready', 'fifo %d: a wait ended before any data came' % i)]
            elif k == 'eof':
                i = int(w[1])
                if not (hung[i] or closed[i]):
                    return [('early-eof', 'fifo %d: end of file, but the fifo is open' % i)]
                if got[i] < total[i] and not closed[i]:
                    return [('data', 'fifo %d: end of file after %d bytes of %d' % (i, got[i], total[i]))]
            elif k == 'slept' and int(w[3]) < int(w[2]) * 1000:
                return [('delay-early', e.text)]
            elif k == 'mid':
                for i in range(nf):
                    if got[i] < total[i] and not closed[i]:
                        return [('missed', 'fifo %d: %d of %d bytes were read when everything is quiet' % (i, got[i], total[i]))]
            elif k == 'err':
                if not (w[1][0] == 'r' and closed[int(w[1][1:])]) and not any(closed):
                    return [('proc-error', e.text)]
            elif k == 'end':
                ends.add(w[1])
        for i in range(nf):
            if 'r%d' % i not in ends:
                return [('stuck', 'the reader of fifo %d did not end' % i)]
        for i in range(len(spec['procs'])):
            if 'p%d' % i not in ends:
                return [('stuck', 'p%d did not end' % i)]
        return []

    def nontrivial(self, spec, ctx):
        return getattr(self, 'n', 0) > 0

    def probes(self, spec, ctx):
        t = ctx.runs[0].texts()
        return [x for x in ('rdy', 'intr', 'close', 'can', '!hangup', 'peek') if any(y.startswith(x) for y in t)]
