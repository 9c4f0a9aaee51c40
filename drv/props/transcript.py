"""P42: the Transcript."""
from core import Prop
from props.util import swarm, st

FILL = 'abcdefghijklmnopqrstuvwxyz'


class P42(Prop):
    id = 'P42'
    technique = 'seeded preemption of processes that write to the Transcript in every way, with short and interrupted writes of the standard output and abrupt ends of the VM; the output is parsed as an interleaving of the messages'
    components = {'real': ['kernel/Transcript.st, FileStream.st, Stream.st, RecursionLock', 'libgst (file primitives, interpreter)', 'a file as standard output'],
                  'stub': ['short and interrupted writes (injected)', 'clock and timers']}
    lists = ('procs',)
    OPS = ['show', 'showCr', 'showCr', 'nl', 'putAll', 'print', 'display', 'array', 'store', 'printNl', 'displayNl', 'crit', 'fill', 'frac', 'stream', 'sub', 'tab']

    def gen(self, rng, tier):
        k = swarm(rng, gc_p=0.2, yield_p=0.95, max_sp=20000000)
        if rng.random() < 0.6:
            k['stdout'] = 1
            k['wshort_ppm'] = rng.choice([0, 50000, 500000])
            k['eintr_ppm'] = rng.choice([0, 50000, 300000])
        procs = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            n = rng.choice([3, 10, 30])
            procs.append([rng.choice([3, 4, 4, 4, 5]),
                          [[rng.choice(self.OPS), rng.choice([0, 1, 5, 30, 200, 1500] if rng.random() < 0.3 else [0, 1, 5, 30])] for _ in range(n)]])
        return {'knobs': k, 'procs': procs, 'end': rng.choice(['done', 'done', 'crash', 'quit']), 'kill': rng.random() < 0.3}

    @staticmethod
    def op(k, i, name, n):
        """Answer (Smalltalk code, text)."""
        x = '<%d.%d:' % (k, i)
        f = (FILL * (n // 26 + 1))[:n]
        s = x + f + '>'
        return {'show': ('Transcript show: %s' % st(s), s),
                'showCr': ('Transcript showCr: %s' % st(s), s + '\n'),
                'nl': ('Transcript showOnNewLine: %s' % st(s), '\n' + s),
                'putAll': ('Transcript nextPutAll: %s' % st(s), s),
                'print': ('Transcript print: %s' % st(s), "'%s'" % s),
                'display': ('Transcript display: %s' % st(s), s),
                'array': ("Transcript display: #('%s' 1 (2 $a))" % s, "('%s' 1 (2 $a ) )" % s),
                'frac': ("Transcript << (Array with: #'%s' with: 3/4)" % s, "(#'%s' 3/4 )" % s),
                'store': ('Transcript store: %s' % st(s), "'%s'" % s),
                'printNl': ('%s printNl' % st(s), "'%s'\n" % s),
                'displayNl': ('%s displayNl' % st(s), s + '\n'),
                'crit': ("Transcript critical: [Transcript show: '%s'; nextPut: $%s; show: '%s>'; nl; tab; show: '!']" % (x, 'y', f), x + 'y' + f + '>\n\t!'),
                'fill': ("Transcript critical: [Transcript show: '%s'; next: %d put: $z; show: '>'; space: 2]" % (x, n), x + 'z' * n + '>  '),
                'stream': ("Transcript next: %d putAll: 'QQ%sQQ' startingAt: 3" % (len(s), s), s),
                'sub': ("Transcript critical: [%s displayNl. %s printNl]" % (st(s), st(s)), s + "\n'" + s + "'\n"),
                'tab': ("Transcript critical: [Transcript show: '%s'; tab: %d; show: '>'; cr]" % (x, n), x + '\t' * n + '>\n')}[name]

    def source(self, spec):
        o = ['Smalltalk at: #P put: OrderedCollection new.', 'Eval [']
        for k, (pri, ops) in enumerate(spec['procs']):
            b = '\n'.join("%s. Sim log: 'w %d %d'." % (self.op(k, i, *x)[0], k, i) for i, x in enumerate(ops))
            o.append("P addLast: (Sim process: 'p%d' at: %d do: [%s])." % (k, pri, b))
        stop = {'done': "Sim done: 'ok'", 'crash': "Sim crash", 'quit': "ObjectMemory quit: 0"}[spec['end']]
        o.append('Sim begin. P do: [:p | p resume]. Sim drain: 20000 until: [P allSatisfy: [:p | p isTerminated]]. %s ]\n' % stop)
        src = '\n'.join(o)
        if spec['kill']:
            # One of the processes ends the VM as soon as it has written (but not while another one is writing: #quit:
            # flushes stdout, and a FileStream can be used by one process at a time only).
            if spec['end'] == 'quit':
                stop = 'Transcript critical: [%s]' % stop
            k = len(spec['procs']) - 1
            i = len(spec['procs'][k][1]) - 1
            src = src.replace("Sim log: 'w %d %d'." % (k, i), "Sim log: 'w %d %d'. %s." % (k, i, stop))
        return src

    def run(self, spec, ctx):
        if not spec['procs'] or not spec['procs'][-1][1]:
            return []
        r = ctx.phase(self.source(spec), spec['knobs'])
        out, r.out = r.out, ''
        v = self.vmcheck(r, ('DONE', 'CRASHED', 'EXIT'))
        if v:
            return v
        n = [0] * len(spec['procs'])
        for e in r.events:
            if e.w[0] == 'w':
                n[int(e.w[1])] += 1
            elif e.w[0] == 'err':
                return [('error', e.text)]
        full = not spec['kill']
        if full and n != [len(p[1]) for p in spec['procs']]:
            return [('stuck', 'not every process ended: %s' % n)]
        at = [0] * len(n)
        pos = 0
        while pos < len(out):
            for k in range(len(n)):
                if at[k] < len(spec['procs'][k][1]):
                    t = self.op(k, at[k], *spec['procs'][k][1][at[k]])[1]
                    if out.startswith(t, pos):
                        at[k] += 1
                        pos += len(t)
                        break
                    if not full and at[k] >= n[k] and len(out) - pos < len(t) and t.startswith(out[pos:]):
                        pos = len(out)          # cut by the end of the VM
                        break
            else:
                return [('output', 'at %d the output has %r, after messages %s' % (pos, out[pos:pos + 120], at))]
        for k in range(len(n)):
            if at[k] < n[k]:
                return [('missing', 'process %d wrote %d messages, the output has %d' % (k, n[k], at[k]))]
        return []

    def nontrivial(self, spec, ctx):
        return len(spec['procs']) > 1

    def probes(self, spec, ctx):
        return [spec['end']] + (['killed in the middle'] if spec['kill'] else []) + (['faults on the output'] if 'stdout' in spec['knobs'] else [])
