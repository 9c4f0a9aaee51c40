"""P12: process variables and dynamic variables.

What a process stores is known when the program is generated, whatever the others do; every read is logged with a
number and compared with the value the program must see there.  Values carry the number of their process."""
from core import Prop
from props.util import swarm, started

NV, ND = 3, 3          # process variables, dynamic variables


class P12(Prop):
    id = 'P12'
    technique = 'seeded interleaving, exceptions and terminations of programs with nested scopes; every read is compared with a per-process reference environment'
    lists = ('procs', 'ops', 'body')

    def gen(self, rng, tier):
        np = rng.choice([1, 2, 3, 4, 5])
        kills = rng.random() < 0.4
        ints = rng.random() < 0.3
        val = [0]
        aimed = set()

        def fresh():
            val[0] += 1
            return val[0]

        def ops(n, depth, catch):
            res = []
            for _ in range(n):
                x = rng.random()
                v, d = rng.randrange(NV), rng.randrange(ND)
                if x < 0.12:
                    res.append(['get', v, rng.choice(['value', 'absent', 'env', 'has'])])
                elif x < 0.28:
                    res.append(['dget', d])
                elif x < 0.36:
                    res.append(['set', v, fresh(), rng.choice(['pv', 'env', 'put'])])
                elif x < 0.40:
                    res.append(['rm', v])
                elif x < 0.58 and depth:
                    res.append(['duse', d, fresh(), ops(rng.randint(1, 3), depth - 1, catch)])
                elif x < 0.66 and depth:
                    res.append(['use', v, fresh(), ops(rng.randint(1, 3), depth - 1, catch)])
                elif x < 0.72 and depth:
                    res.append(['catch', ops(rng.randint(1, 3), depth - 1, True)])
                elif x < 0.77 and depth:
                    res.append(['ens', d, ops(rng.randint(1, 3), depth - 1, catch)])
                elif x < 0.80 and catch:
                    res.append(['raise'])
                elif x < 0.83 and depth == 3:
                    res.append(['fork', rng.choice([3, 4, 4, 5]), ops(rng.randint(1, 3), depth - 1, False)])
                elif x < 0.86 and kills:
                    t = rng.randrange(np)
                    if t not in aimed:
                        # a second termination could cut short the restoration due to the first
                        aimed.add(t)
                        res.append(['kill', t])
                elif x < 0.90 and ints:
                    res.append(['int', rng.randrange(np), d])
                elif x < 0.92:
                    res.append(['delay', 1])
                elif x < 0.97:
                    res.append(['yield'])
                else:
                    res.append(['spin', rng.randint(1, 10)])
            return res
        return dict(procs=[dict(pri=rng.choice([3, 4, 4, 4, 5]), ops=ops(rng.randint(2, 7), 3, False)) for _ in range(np)],
                    knobs=swarm(rng))

    # ---- code and reference in one walk: `env` is None in code that is never reached
    def walk(self, who, ops, pv, dv, live):
        """Code for OPS; pv and dv are the environment, updated in place.  Answer (code, still live)."""
        out = []
        for o in ops:
            n = 0
            k = o[0]
            if k in ('get', 'dget', 'ens', 'int'):
                self.n += 1
                n = self.n
            if k == 'get':
                how = o[2]
                self.exp[n] = (who, str(pv.get(o[1], -1)) if how in ('absent', 'env') else
                               str(o[1] in pv).lower() if how == 'has' else str(pv.get(o[1], 'nil')), live)
                e = {'value': '(V at: %d) value', 'absent': '((V at: %d) valueIfAbsent: [-1])',
                     'env': '(ProcessEnvironment uniqueInstance at: (V at: %d) key ifAbsent: [-1])',
                     'has': '(ProcessEnvironment uniqueInstance includesKey: (V at: %d) key)'}[how] % (o[1] + 1)
                out.append("Sim log: 'g %d' with: %s." % (n, e))
            elif k == 'dget':
                self.exp[n] = (who, str(dv.get(o[1], -7 if o[1] == 0 else 'nil')), live)
                out.append("Sim log: 'g %d' with: DV%d value." % (n, o[1]))
            elif k == 'set':
                x = self.val(who, o[2])
                pv[o[1]] = x
                out.append({'pv': '(V at: %d) value: %s.', 'env': 'ProcessEnvironment uniqueInstance at: (V at: %d) key put: %s.',
                            'put': 'ProcessEnvironment uniqueInstance add: (V at: %d) key -> %s.'}[o[3]] % (o[1] + 1, x))
            elif k == 'rm':
                pv.pop(o[1], 0)
                out.append('ProcessEnvironment uniqueInstance removeKey: (V at: %d) key ifAbsent: [].' % (o[1] + 1))
            elif k in ('duse', 'use'):
                x = self.val(who, o[2])
                e = dv if k == 'duse' else pv
                old = e.get(o[1])
                e[o[1]] = x
                c, live2 = self.walk(who, o[3], pv, dv, live)
                if old is None:
                    e.pop(o[1], 0)
                else:
                    e[o[1]] = old
                out.append('%s use: %s during: [%s].' % ('DV%d' % o[1] if k == 'duse' else '(V at: %d)' % (o[1] + 1), x, c))
                if not live2:
                    return ' '.join(out), False
            elif k == 'catch':
                c, live2 = self.walk(who, o[1], pv, dv, live)
                out.append('[%s] on: SimErr do: [:e | e return].' % c)
            elif k == 'ens':
                self.exp[n] = (who, str(dv.get(o[1], -7 if o[1] == 0 else 'nil')), live)
                c, live2 = self.walk(who, o[2], pv, dv, live)
                self.inner[n] = self.within(who, o[2], o[1])
                out.append("[%s] ensure: [Sim log: 'g %d' with: DV%d value]." % (c, n, o[1]))
                if not live2:
                    return ' '.join(out), False
            elif k == 'raise':
                out.append('SimErr new signal.')
                # what follows, up to the handler, is not reached: leave it out
                return ' '.join(out), False
            elif k == 'fork':
                self.forks += 1
                q = '%sf%d' % (who, self.forks)
                c, _ = self.walk(q, o[2], {}, {}, 'fork')
                out.append("Sim fork: '%s' at: %d do: [%s]." % (q, o[1], c))
            elif k == 'kill':
                out.append("Sim log: 'kill p%d'. (P at: %d) terminate." % (o[1], o[1] + 1))
            elif k == 'int':
                self.ints[n] = o[1]
                out.append("[(P at: %d) queueInterrupt: [Sim log: 'i %d' with: DV%d value]] on: SystemExceptions.ProcessTerminated do: [:e | e return]." % (
                    o[1] + 1, n, o[2]))
            elif k == 'delay':
                out.append('(Delay forMilliseconds: %d) wait.' % o[1])
            elif k == 'yield':
                out.append('Processor yield.')
            elif k == 'spin':
                out.append('1 to: %d do: [:k | k printString].' % o[1])
            else:
                raise ValueError(k)
        return ' '.join(out), live

    def within(self, who, ops, d):
        res = set()
        for o in ops:
            if o[0] == 'duse' and o[1] == d:
                res.add(self.val(who, o[2]))
            if isinstance(o[-1], list) and o[0] != 'fork':
                res |= self.within(who, o[-1], d)
        return res

    def val(self, who, x):
        if 'f' in who:
            return '%d%s%03d' % (int(who[1]) + 1, '9', x)
        return '%d0%03d' % (int(who[1]) + 1, x)

    def render(self, spec):
        n = len(spec['procs'])
        self.n, self.exp, self.forks, self.ints, self.inner = 0, {}, 0, {}, {}
        l = ["Smalltalk at: #P put: nil; at: #V put: nil.",
             "Error subclass: SimErr [].",
             "DynamicVariable subclass: DV0 [ DV0 class >> value [ ^self valueIfAbsent: [-7] ] ]",
             "DynamicVariable subclass: DV1 []", "DynamicVariable subclass: DV2 []", "Eval [",
             "V := {ProcessVariable new. ProcessVariable key: #simvar. ProcessVariable key: 'a string' copy}. P := Array new: 8."]
        for i in range(8):
            p = spec['procs'][i] if i < n else dict(pri=4, ops=[])
            c, _ = self.walk('p%d' % i, p['ops'], {}, {}, True)
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [%s])." % (i + 1, i, p['pri'], c))
        l.append('Sim begin. Processor activeProcess priority: 9.')
        for i in range(n):
            l.append(started(i))
        l.append('Processor activeProcess priority: 4.')
        l.append("Sim drain: 90 until: [((P first: %d) allSatisfy: [:p | p isTerminated])]." % n)
        l.append("(P first: %d) do: [:p | p isTerminated ifFalse: [Sim log: 'alive ', p name]]." % n)
        l.append("Sim drain: 75 until: [false].")
        l.append("Sim log: 'main' with: ((V collect: [:v | v value]) allSatisfy: [:x | x isNil]) with: ({DV0. DV1. DV2} collect: [:v | v value]).")
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        src = self.render(spec)
        r = ctx.phase(src, spec['knobs'])
        v = self.vmcheck(r) or self.outcheck(r)
        return v or self.judge(spec, r)

    def judge(self, spec, r):
        killed, seen, alive = set(), set(), False
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('proc-error', e.text)]
            if w[0] == 'kill':
                killed.add(w[1])
            elif w[0] == 'g':
                n = int(w[1])
                who, x, live = self.exp[n]
                if n in seen:
                    return [('twice', 'scope %d ended twice: %s' % (n, e))]
                seen.add(n)
                # a termination can cut short the restoration at the end of an inner scope
                if w[2] != x and not (who[:2] in killed and w[2] in self.inner.get(n, ())):
                    return [('value', '%s read %s where it must see %s: %s' % (who, w[2], x, e))]
            elif w[0] == 'i':
                if w[2] not in ('nil', '-7') and w[2][:2] != '%d0' % (self.ints[int(w[1])] + 1):
                    return [('foreign', 'p%d sees the value %s of another process' % (self.ints[int(w[1])], w[2]))]
            elif w[0] == 'alive':
                alive = True
                return [('alive', '%s did not end' % w[1])]
            elif w[0] == 'main' and w[1:] != ['true', '(-7', 'nil', 'nil', ')'] and w[1:] != ['true', '(-7', 'nil', 'nil', ')', '']:
                return [('main', 'the main process sees values of others: %s' % e)]
        for n, (who, x, live) in self.exp.items():
            if live and who[:2] not in killed and n not in seen:
                return [('missing', '%s never made read %d' % (who, n))]
        return []

    def nontrivial(self, spec, ctx):
        return any(e.w[0] == 'g' for e in ctx.runs[0].events)

    def probes(self, spec, ctx):
        k = {e.w[0] for e in ctx.runs[0].events}
        return [x for x in ('kill', 'i', 'g') if x in k]
