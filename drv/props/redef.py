"""P27: methods and classes are redefined while other processes send.

One process changes a small class hierarchy; others keep sending to instances of it.  Each change and each send is
an interval of the history; a send must answer what the definitions say at some point of its interval, and a reader
that has seen a change never sees the state before it.  Another process uses short-lived classes, whose addresses the
collector gives to later ones."""
from core import Prop
from props.util import swarm

HEAD = {'m0': 'm0', 'm1:': 'm1: a', 'm2': 'm2', 'at:': 'at: a', 'size': 'size', 'value': 'value', '+': '+ a'}
CALL = {'m0': 'm0', 'm1:': 'm1: 1', 'm2': 'm2', 'at:': 'at: 1', 'size': 'size', 'value': 'value', '+': '+ 1'}
SELS = list(HEAD)

SUPPORT = r"""
Object subclass: SimRoot [
    doesNotUnderstand: m [ ^'dnu' ]
]
"""


def sends():
    l = ['Object subclass: SimR [', '| tag |', 'tag: t [ tag := t ]',
         'run: ops [ ops do: [:op | self perform: op first withArguments: op allButFirst] ]',
         "note: id x: i do: aBlock [ | v | Sim log: 'b' with: id. v := (aBlock value: ((Smalltalk at: #I) at: i)) displayString. Sim log: 'e' with: id with: v ]"]
    for k, s in enumerate(SELS):
        # two call sites each, one of them through perform:
        l.append("s%d: id x: i [ self note: id x: i do: [:x | x %s] ]" % (k, CALL[s]))
        args = ' with: 1' if ':' in s or s == '+' else ''
        l.append("p%d: id x: i [ self note: id x: i do: [:x | x perform: #%s%s] ]" % (k, s, args))
        l.append("r%d: id x: i [ self note: id x: i do: [:x | x respondsTo: #%s] ]" % (k, s))
        l.append("w%d: id x: i n: n [ | x v w | x := (Smalltalk at: #I) at: i. Sim log: 'b' with: id. v := x %s. "
                 "n timesRepeat: [w := x %s. w = v ifFalse: [Sim log: 'c' with: id with: v. v := w]]. Sim log: 'e' with: id with: v displayString ]" % (k, CALL[s], CALL[s]))
    l.append("get: id x: i var: v [ self note: id x: i do: [:x | v = 0 ifTrue: [x x] ifFalse: [x y]] ]")
    l.append("""anon: id super: k shape: sh sels: ss defs: d gc: g [
        | b x |
        LOCK critical: [
            b := Behavior new. sh == #pointer ifTrue: [b superclass: ((Smalltalk at: #K) at: k)] ifFalse: [b superclass: SimRoot. b shape: sh].
            d do: [:src | b compile: src]].
        x := b basicNew: 2.
        Sim log: 'b' with: id.
        x := ss inject: '' into: [:acc :s | acc, '/', (self send: s to: x) displayString].
        Sim log: 'e' with: id with: x.
        b := x := nil.
        Sim gc: g ]
    """)
    l.append('send: s to: x [')
    for s in SELS:
        l.append("s == #%s ifTrue: [^x %s]." % (s, CALL[s]))
    l.append(']')
    l.append(']')
    return '\n'.join(l)


class P27(Prop):
    id = 'P27'
    technique = 'seeded histories of definitions and sends in several processes with collections; each send linearised against a model of the hierarchy'

    def gen(self, rng, tier):
        big = 2 if tier == 'thorough' else 1
        nk = rng.randrange(1, 6)
        par = [-1] + [rng.randrange(-1, i) if rng.random() < 0.2 else rng.randrange(0, i) for i in range(1, nk)]
        ninst = rng.randrange(nk, nk + 4)
        inst = list(range(nk)) + [rng.randrange(nk) for _ in range(ninst - nk)]
        use = rng.sample(SELS, rng.randrange(1, 5))
        iv = rng.random() < 0.4
        defs, ver = [], 0

        def change():
            nonlocal ver
            ver += 1
            k, s = rng.randrange(nk), rng.choice(use)
            x = rng.random()
            if x < 0.55:
                return ['compile', k, s, rng.choice(['const', 'const', 'block', 'slow', 'super', 'ivar', 'sym']), ver]
            if x < 0.8:
                return ['remove', k, s]
            if x < 0.9:
                return ['alias', k, s, rng.randrange(nk)]
            if x < 0.94 and not iv:
                return ['parent', k, rng.randrange(-1, nk)]
            if iv:
                return ['ivars', rng.randrange(nk), rng.choice(['add', 'drop', 'perm']), ver]
            return ['gc', rng.randrange(1, 5)]
        setup = [change() for _ in range(rng.randrange(0, 6))]
        defs = [change() for _ in range(rng.randrange(2, 14 * big))]
        readers = []
        for r in range(rng.randrange(1, 4)):
            ops = []
            for i in range(rng.randrange(3, 30 * big)):
                x = rng.random()
                w, k = rng.randrange(len(inst)), SELS.index(rng.choice(use))
                if x < 0.55:
                    ops.append(['s%d' % k, w])
                elif x < 0.7:
                    ops.append(['p%d' % k, w])
                elif x < 0.78:
                    ops.append(['r%d' % k, w])
                elif x < 0.9 or not iv:
                    ops.append(['w%d' % k, w, rng.choice([3, 20, 100])])
                else:
                    ops.append(['get', w, rng.randrange(2)])
            readers.append({'pri': rng.choice([4, 4, 4, 3, 5]), 'ops': ops})
        anon = []
        if rng.random() < 0.5:
            for i in range(rng.randrange(2, 10 * big)):
                ss = [rng.choice(use) for _ in range(rng.randrange(1, 4))]
                d = [[s, rng.randrange(1000)] for s in rng.sample(SELS, rng.choice([0, 0, 1, 2]))]
                anon.append([rng.randrange(nk), rng.choice(['pointer', 'pointer', 'byte', 'int', 'ushort', 'word']), ss, d, rng.choice([0, 1, 2, 2, 3, 4])])
        knobs = swarm(rng, gc_p=0.4, yield_p=0.95)
        return {'knobs': knobs, 'par': par, 'inst': inst, 'iv': iv, 'setup': setup, 'defs': defs, 'readers': readers, 'anon': anon,
                'dpri': rng.choice([4, 4, 4, 3, 5])}

    # The state: parents, methods as {(class, selector): (kind, version)}
    def changes(self, spec):
        """Source of each change of setup + defs, and the states before, between and after them."""
        nk = len(spec['par'])
        par, meth, ivs = list(spec['par']), {}, [[] for _ in range(nk)]
        if spec['iv']:
            ivs[0] = ['x', 'y']
        states, src, kinds = [(tuple(par), dict(meth))], [], []

        def anc(k):
            out = []
            while k >= 0:
                out.append(k)
                k = par[k]
            return out
        for op in spec['setup'] + spec['defs']:
            t = None
            kind = op[0]
            if op[0] == 'compile':
                _, k, s, how, v = op
                h = HEAD[s]
                body = {'const': "^'v%d'" % v, 'block': "| b | b := ['v%d']. ^b value" % v,
                        'slow': "| r n | r := 'v%d'. n := 0. [n < 30] whileTrue: [n := n + 1. r := r yourself]. ^r" % v,
                        'super': "^'v%d,', (super %s) displayString" % (v, CALL[s][:-1] + 'a' if h.endswith(' a') else CALL[s]),
                        'ivar': "^'v%d' copy" % v, 'sym': "^#v%d asString" % v}[how]
                t = "(K at: %d) compile: '%s [ %s ]'" % (k + 1, h, body.replace("'", "''"))
                meth[k, s] = (how == 'super' and s, v)
            elif op[0] == 'remove':
                if (op[1], op[2]) in meth:
                    t = "(K at: %d) removeSelector: #%s" % (op[1] + 1, op[2])
                    del meth[op[1], op[2]]
            elif op[0] == 'alias':
                _, k, s, k2 = op
                if (k2, s) in meth and k2 != k and not meth[k2, s][0]:
                    t = "(K at: %d) addSelector: #%s withMethod: ((K at: %d) >> #%s) copy" % (k + 1, s, k2 + 1, s)
                    meth[k, s] = meth[k2, s]
            elif op[0] == 'parent':
                _, k, p = op
                if k and k not in anc(p) and par[k] != p:
                    t = "%s variableSubclass: #SimK%d instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: nil" % ('SimK%d' % p if p >= 0 else 'SimRoot', k)
                    par[k] = p
            elif op[0] == 'ivars':
                _, k, how, v = op
                cur = ivs[k]
                free = [x for x in cur if x not in 'xy']
                if how == 'add' and not set(anc(k)) & {0} == set():
                    cur.append('a%d' % v)
                    t = "(K at: %d) addInstVarName: 'a%d'" % (k + 1, v)
                elif how == 'drop' and free:
                    cur.remove(free[0])
                    t = "(K at: %d) removeInstVarName: '%s'" % (k + 1, free[0])
                elif how == 'perm' and len(cur) > 1:
                    cur.append(cur.pop(0))
                    t = "(K at: %d) instanceVariableNames: '%s'" % (k + 1, ' '.join(cur))
            else:
                t = 'Sim gc: %d' % op[1]
            if t:
                src.append(t)
                kinds.append((kind, op[1]))
                states.append((tuple(par), dict(meth)))
        return src, states, kinds

    def counts(self, spec):
        n = dict(spec, defs=[])
        return len(self.changes(n)[0])

    def render(self, spec):
        src, states, kinds = self.changes(spec)
        n0 = self.counts(spec)
        nk = len(spec['par'])
        l = [SUPPORT, 'Smalltalk at: #LOCK put: RecursionLock new. Smalltalk at: #K put: Array new. Smalltalk at: #I put: nil. Smalltalk at: #P put: nil.', sends()]
        for k, p in enumerate(spec['par']):
            iv = '| x y | x [ ^x ] y [ ^y ] x: a y: b [ x := a. y := b ]' if spec['iv'] and k == 0 else ''
            l.append('%s subclass: SimK%d [ <shape: #pointer> %s ]' % ('SimK%d' % p if p >= 0 else 'SimRoot', k, iv))
        l.append('Eval [ | r | K := { %s }.' % '. '.join('SimK%d' % k for k in range(nk)))
        l.append('I := { %s }.' % '. '.join('SimK%d new: 2' % k for k in spec['inst']))
        l.append("1 to: I size do: [:i | (I at: i) basicAt: 1 put: 'e', i printString.")
        l.append("((I at: i) respondsTo: #x:y:) ifTrue: [(I at: i) x: 'x', i printString y: 'y', i printString]].")
        for t in src[:n0]:
            l.append('LOCK critical: [%s].' % t)
        l.append("P := OrderedCollection new.")
        l.append("P addLast: (Sim process: 'd' at: %d do: [" % spec['dpri'])
        for i, t in enumerate(src[n0:], n0):
            l.append("LOCK critical: [Sim log: 'B %d'. %s. Sim log: 'E %d']." % (i, t, i))
        l.append(']).')
        for q, rd in enumerate(spec['readers']):
            l.append("P addLast: (Sim process: 'q%d' at: %d do: [| r | r := SimR new. r tag: 'q%d'." % (q, rd['pri'], q))
            for i, op in enumerate(rd['ops']):
                extra = ' var: %d' % op[2] if op[0] == 'get' else ' n: %d' % op[2] if op[0][0] == 'w' else ''
                l.append("r %s: 'q%d.%d' x: %d%s." % (op[0], q, i, op[1] + 1, extra))
            l.append(']).')
        if spec['anon']:
            l.append("P addLast: (Sim process: 'z' at: 4 do: [| r | r := SimR new.")
            for i, (k, sh, ss, d, g) in enumerate(spec['anon']):
                ds = ' '.join("'%s [ ^''z%d'' ]'" % (HEAD[s], v) for s, v in d)
                l.append("r anon: 'z.%d' super: %d shape: #%s sels: #(%s) defs: #(%s) gc: %d." % (
                    i, k + 1, sh, ' '.join('#' + s for s in ss), ds, g))
            l.append(']).')
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 800 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        self.n = 0
        if 'Invalid send to super' in r.out:
            kinds = self.changes(spec)[2]
            last = [e for e in r.events if e.w[0] in 'BE'][-1:]
            if last and last[0].w[0] == 'B' and kinds[int(last[0].w[1])][0] == 'parent':
                return [('super-while-reparented', 'a method with a send to super was called while its class was being moved: ' + r.out[:200])]
        return self.vmcheck(r) or self.outcheck(r) or self.judge(spec, r)

    @staticmethod
    def lookup(state, k, s):
        par, meth = state
        while k >= 0:
            if (k, s) in meth:
                return k, meth[k, s]
            k = par[k]
        return None

    def match(self, states, lo, hi, k, s, default, text, first=True):
        """The earliest state at which the send may have begun, or None.  Nested super sends look up later."""
        for j in range(lo, hi + 1):
            f = self.lookup(states[j], k, s)
            if f is None:
                if text == default:
                    return j
                continue
            c, (sup, v) = f
            if not sup:
                if text == 'v%d' % v:
                    return j
                continue
            pre = 'v%d,' % v
            if text.startswith(pre):
                # The class of a method compiled for c (or copied to it) is c: super starts at its parent then.
                for j2 in range(j, hi + 1):
                    p = states[j2][0][c]
                    if self.match(states, j2, hi, p, sup, default if sup == s else self.default(sup, default), text[len(pre):], False) is not None:
                        return j
        return None

    def default(self, s, at):
        return {'at:': at, 'size': '2'}.get(s, 'dnu')

    def judge(self, spec, r):
        src, states, kinds = self.changes(spec)
        n0 = self.counts(spec)
        begun = done = n0
        open_ = {}
        seen = {}
        inflight = {}
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('error', e.text)]
            if w[0] == 'B':
                begun = int(w[1]) + 1
            elif w[0] == 'E':
                done = int(w[1]) + 1
            elif w[0] == 'b':
                open_[w[1]] = done
            elif w[0] in ('c', 'e'):
                self.n += 1
                tag, i = w[1].split('.')
                text = e.text.split(' ', 2)[2] if len(w) > 2 else ''
                lo, hi = open_[w[1]], begun
                if tag == 'z':
                    k, sh, ss, d, g = spec['anon'][int(i)]
                    d = dict(d)
                    parts = text.split('/')[1:]
                    if len(parts) != len(ss):
                        return [('anon', '%s: %s' % (w[1], text))]
                    for s, t in zip(ss, parts):
                        if s in d:
                            ok = t == 'z%d' % d[s]
                        else:
                            dflt = {'at:': 'nil' if sh == 'pointer' else '0', 'size': '2'}.get(s, 'dnu')
                            ok = self.match(states, lo, hi, k if sh == 'pointer' else -1, s, dflt, t) is not None
                        if not ok:
                            return [('anon', '%s of a new class under SimK%d answered %s; the definitions say otherwise' % (s, k, t))]
                    continue
                op = spec['readers'][int(tag[1:])]['ops'][int(i)]
                k = spec['inst'][op[1]]
                if op[0] == 'get':
                    if lo == hi and spec['iv']:
                        under = self.under(states[lo], k, 0)
                        want = '%s%d' % ('xy'[op[2]], op[1] + 1) if under else 'dnu'
                        if text != want:
                            return [('ivar', 'instance %d answered %s for %s, not %s' % (op[1], text, 'xy'[op[2]], want))]
                    continue
                s = SELS[int(op[0][1:])]
                lo = max(lo, seen.get(tag, 0))
                if op[0][0] == 'r':
                    # Reflective queries are not atomic with respect to changes under way.
                    if open_[w[1]] == begun and not any((self.lookup(states[j], k, s) is not None or s in ('at:', 'size')) == (text == 'true') for j in range(lo, hi + 1)):
                        return [('responds', 'respondsTo: #%s answered %s for SimK%d' % (s, text, k))]
                    continue
                j = self.match(states, lo, hi, k, s, self.default(s, 'e%d' % (op[1] + 1)), text)
                if j is None:
                    want = {str((self.lookup(states[j], k, s) or (0, 'the default'))[1]) for j in range(lo, hi + 1)}
                    return [('stale', '%s sent to an instance of SimK%d answered %s while the definition was %s' % (s, k, text, ' or '.join(want)))]
                seen[tag] = j
        return []

    @staticmethod
    def under(state, k, root):
        while k >= 0:
            if k == root:
                return True
            k = state[0][k]
        return False

    def nontrivial(self, spec, ctx):
        return self.n > 0
