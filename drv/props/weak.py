"""P21 and P22: weak collections and finalization.

Processes build and drop objects held by strong references, weak collections and the finalization registry.  Between
rounds, when everything stands still, the main process collects garbage until the finalizers have nothing more to do
and every collection is listed.  A model of strong reachability tells which objects must, may and must not be there,
and which had to be finalized."""
from core import Prop
from props.util import swarm, started

SUPPORT = r"""
Object subclass: SimW [
    | id next back |
    id [ ^id ] id: n [ id := n ] next [ ^next ] next: o [ next := o ]
    finalize [
        Sim log: 'fin', (id \\ 10) printString with: id printString , ' ' , (next isNil ifTrue: ['-'] ifFalse: [next id printString]).
        id // 10 \\ 4 = 3 ifTrue: [((Smalltalk at: #Saved) at: id \\ 10 + 1) addLast: self].
        id // 10 \\ 16 = 5 ifTrue: [SystemExceptions.NotYetImplemented signal]
    ]
]
SimW subclass: SimWE [
    | grp |
    grp [ ^grp ] id: n [ id := n. grp := n // 10 \\ 2 ]
    = o [ ^o class == SimWE and: [o grp = grp] ]
    hash [ ^grp ]
]
Object subclass: SimRun [
    | tag s c n |
    init: t [ tag := t. s := Array new: 40. c := LookupTable new ]
    run: ops [ ops do: [:op | Sim log: 'o ' , tag with: op first. self perform: (op at: 2) withArguments: (op copyFrom: 3)] ]
    at: k do: aBlock [
        "The finalization process changes sets and dictionaries with weak keys whenever it runs: keep it out."
        | x | x := c at: k.
        ^((x isKindOf: WeakSet) or: [x isKindOf: WeakKeyDictionary])
            ifTrue: [[aBlock value: x] GUARD]
            ifFalse: [aBlock value: x]
    ]
    cont: k kind: kind [
        c at: k put: (
            kind = #WS ifTrue: [WeakSet new] ifFalse: [
            kind = #WI ifTrue: [WeakIdentitySet new] ifFalse: [
            kind = #KD ifTrue: [WeakKeyDictionary new] ifFalse: [
            kind = #KI ifTrue: [WeakKeyIdentityDictionary new] ifFalse: [
            kind = #VL ifTrue: [WeakValueLookupTable new] ifFalse: [
            kind = #VI ifTrue: [WeakValueIdentityDictionary new] ifFalse: [
            kind = #WA ifTrue: [WeakArray new: 6] ifFalse: [(Array new: 6) makeWeak; yourself]]]]]]])
    ]
    obj: i id: k fin: f eq: e [ | o | o := (e ifTrue: [SimWE] ifFalse: [SimW]) new. o id: k. s at: i put: o. f ifTrue: [o addToBeFinalized] ]
    unfin: i [ (s at: i) removeToBeFinalized ]
    link: i to: j [ (s at: i) next: (s at: j) ]
    unlink: i [ (s at: i) next: nil ]
    get: i to: j [ s at: j put: (s at: i) next ]
    mov: i to: j [ s at: j put: (s at: i) ]
    drop: i [ s at: i put: nil ]
    dropAll [ s atAllPut: nil ]
    wadd: k obj: i [ self at: k do: [:x | x add: (s at: i)] ]
    wrem: k obj: i [ self at: k do: [:x | x remove: (s at: i) ifAbsent: []] ]
    wkey: k obj: i val: j [ self at: k do: [:x | x at: (s at: i) put: (j = 0 ifTrue: [(s at: i) id printString] ifFalse: [s at: j])] ]
    wkrem: k obj: i [ self at: k do: [:x | x removeKey: (s at: i) ifAbsent: []] ]
    wval: k key: n obj: i [ (c at: k) at: n put: (s at: i) ]
    wvrem: k key: n [ (c at: k) removeKey: n ifAbsent: [] ]
    wput: k at: n obj: i [ (c at: k) at: n put: (s at: i) ]
    wint: k at: n [ (c at: k) at: n put: n ]
    wclr: k at: n [ (c at: k) at: n put: nil ]
    has: k obj: i [ Sim log: 'h ', tag with: k with: (self at: k do: [:x | x includes: (s at: i)]) ]
    hask: k obj: i [ | v | v := self at: k do: [:x | x at: (s at: i) ifAbsent: [nil]]. Sim log: 'h ', tag with: k with: (self str: v) ]
    hasv: k key: n [ | v | v := (c at: k) at: n ifAbsent: [nil]. Sim log: 'h ', tag with: k with: (self str: v) ]
    hasa: k at: n [ Sim log: 'h ', tag with: k with: (self str: ((c at: k) at: n)) ]
    str: v [ ^(v isNil or: [v isInteger]) ifTrue: ['-'] ifFalse: [v isString ifTrue: [v] ifFalse: ['#' , v id printString]] ]
    enum: k [ self at: k do: [:x | self enum: k on: x] ]
    enum: k on: x [ | w | w := WriteStream on: String new.
        (x isKindOf: WeakSet) ifTrue: [x do: [:o | w space; nextPutAll: o id printString]].
        (x isKindOf: WeakKeyDictionary) ifTrue: [x keysAndValuesDo: [:o :v | w space; nextPutAll: o id printString; nextPut: $=; nextPutAll: (self str: v)]].
        (x isKindOf: WeakValueLookupTable) ifTrue: [x keysAndValuesDo: [:o :v | v isNil ifFalse: [w space; nextPutAll: v id printString; nextPut: $=; nextPutAll: o printString]]].
        (x isKindOf: Array) ifTrue: [1 to: 6 do: [:i | | v | ((v := x at: i) isNil or: [v isInteger]) ifFalse: [w space; nextPutAll: v id printString; nextPut: $=; nextPutAll: i printString]]].
        Sim log: 'e ' , tag , ' ' , k printString , w contents ]
    enumAll [ | l | l := c keys asSortedCollection. l do: [:k | self enum: k] ]
    bec: k [ | x | x := Array new: 6. (c at: k) become: x. c at: k put: x ]
    bec: k with: m [ (c at: k) become: (c at: m) ]
    rehash: k [ self at: k do: [:x | x rehash] ]
    ccopy: k to: m [ c at: m put: (self at: k do: [:x | x copy]) ]
    gc: k [ Sim gc: k ]
    junk: n [ n timesRepeat: [Array new: 10] ]
    yield [ Processor yield ]
    sleep [ (Delay forMilliseconds: 1) wait ]
]
"""
KINDS = ['WS', 'WI', 'KD', 'KI', 'VL', 'VI', 'WA', 'MW']


class Obj:
    def __init__(self, id, fin, eq):
        self.id, self.fin, self.eq, self.next = id, fin, eq, None
        self.finalized = 0
        self.was_dead = False       # unreachable at some time
        self.saved = False


class Model:
    """State of one process as of the operations started; reach() are the objects strongly reachable."""

    def __init__(self):
        self.s, self.c, self.saved, self.objs = [None] * 40, {}, [], {}

    def reach(self, may=False):
        """The objects which must, or may, be strongly reachable (they differ if a weak key has been resurrected, as its entry
        may or may not have been removed in the meanwhile)."""
        seen, todo = set(), [o for o in self.s + self.saved if o]
        while True:
            while todo:
                o = todo.pop()
                if o.id not in seen:
                    seen.add(o.id)
                    if o.next:
                        todo.append(o.next)
            for kind, d in self.c.values():
                if kind in ('KD', 'KI'):
                    todo += [v for k, v in d.items() if k in seen and (may or not self.objs[k].was_dead) and isinstance(v, Obj) and v.id not in seen]
            if not todo:
                return seen

    def apply(self, o):
        k = o[0]
        s = self.s
        g = lambda i: s[i - 1]
        if k == 'cont':
            self.c[o[1]] = (o[2], {})
        elif k == 'obj':
            s[o[1] - 1] = self.objs[o[2]] = Obj(o[2], o[3], o[4])
        elif k == 'unfin':
            g(o[1]).fin = False
        elif k == 'link':
            g(o[1]).next = g(o[2])
        elif k == 'unlink':
            g(o[1]).next = None
        elif k == 'get':
            s[o[2] - 1] = g(o[1]).next
        elif k == 'mov':
            s[o[2] - 1] = g(o[1])
        elif k == 'drop':
            s[o[1] - 1] = None
        elif k == 'dropAll':
            s[:] = [None] * 40
        elif k in ('wadd', 'wrem', 'wkey', 'wkrem'):
            d = self.c[o[1]][1]
            x = g(o[2])
            if k in ('wrem', 'wkrem'):
                d.pop(x.id, 0)
            elif k == 'wadd':
                d[x.id] = True
            else:
                d[x.id] = str(x.id) if o[3] == 0 else g(o[3])
        elif k in ('wval', 'wput'):
            self.c[o[1]][1][o[2]] = g(o[3]).id
        elif k == 'ccopy':
            self.c[o[2]] = (self.c[o[1]][0], dict(self.c[o[1]][1]))
        elif k == 'becw':
            self.c[o[1]], self.c[o[2]] = self.c[o[2]], self.c[o[1]]
        elif k in ('wvrem', 'wclr', 'wint'):
            self.c[o[1]][1].pop(o[2], 0)

    def valid(self, o):
        """Does the operation make sense (for the real program, whose fields may only be nil where the model's are)?"""
        k = o[0]
        g = lambda i: self.s[i - 1]
        if k in ('unfin', 'link', 'unlink', 'get', 'mov'):
            if not g(o[1]) or k == 'link' and not g(o[2]):
                return False
            return not (k == 'unfin' and (not g(o[1]).fin or g(o[1]).was_dead or g(o[1]).eq))
        if k in ('wadd', 'wrem', 'wkey', 'wkrem', 'has', 'hask'):
            want = ('WS', 'WI') if k in ('wadd', 'wrem', 'has') else ('KD', 'KI')
            if o[1] not in self.c or self.c[o[1]][0] not in want or not g(o[2]):
                return False
            if g(o[2]).eq and self.c[o[1]][0] in ('WS', 'KD'):
                return False            # their equality would make the outcome depend on who died first
            return not (k == 'wkey' and o[3] and not g(o[3]))
        if k in ('wval', 'wvrem', 'hasv'):
            return o[1] in self.c and self.c[o[1]][0] in ('VL', 'VI') and (k != 'wval' or bool(g(o[3])))
        if k in ('wput', 'wint', 'wclr', 'hasa'):
            return o[1] in self.c and self.c[o[1]][0] in ('WA', 'MW') and (k != 'wput' or bool(g(o[3])))
        if k == 'rehash':
            return o[1] in self.c and self.c[o[1]][0] not in ('WA', 'MW')
        if k in ('bec', 'becw'):
            return all(x in self.c and self.c[x][0] in (('MW',) if k == 'bec' else ('MW', 'WA')) for x in o[1:]) and (k == 'bec' or o[1] != o[2])
        if k == 'ccopy':
            return o[1] in self.c and self.c[o[1]][0] != 'MW'
        if k == 'enum':
            return o[1] in self.c
        return True


SEL = {'cont': 'cont:kind:', 'obj': 'obj:id:fin:eq:', 'unfin': 'unfin:', 'link': 'link:to:', 'unlink': 'unlink:', 'get': 'get:to:',
       'mov': 'mov:to:', 'drop': 'drop:', 'dropAll': 'dropAll', 'wadd': 'wadd:obj:', 'wrem': 'wrem:obj:', 'wkey': 'wkey:obj:val:',
       'wkrem': 'wkrem:obj:', 'wval': 'wval:key:obj:', 'wvrem': 'wvrem:key:', 'wput': 'wput:at:obj:', 'wint': 'wint:at:', 'wclr': 'wclr:at:',
       'has': 'has:obj:', 'hask': 'hask:obj:', 'hasv': 'hasv:key:', 'hasa': 'hasa:at:', 'enum': 'enum:', 'rehash': 'rehash:', 'ccopy': 'ccopy:to:', 'bec': 'bec:', 'becw': 'bec:with:', 'gc': 'gc:',
       'junk': 'junk:', 'yield': 'yield', 'sleep': 'sleep'}


def arg(x):
    return 'true' if x is True else 'false' if x is False else '#' + x if isinstance(x, str) else str(x)


class WeakBase(Prop):
    lists = ('rounds', 'ops')
    weights = {}

    def gen(self, rng, tier):
        np = rng.choice([1, 1, 2, 3])
        kinds = rng.sample(KINDS, rng.randint(1, 4))
        nid = [0]
        w = {'obj': 12, 'unfin': 0.5, 'link': 5, 'unlink': 1, 'get': 2, 'mov': 2, 'drop': 8, 'dropAll': 0.4, 'wadd': 6, 'wrem': 1,
             'wkey': 6, 'wkrem': 1, 'wval': 6, 'wvrem': 1, 'wput': 5, 'wclr': 1, 'wint': 1, 'has': 2, 'hask': 2, 'hasv': 2, 'hasa': 2,
             'enum': 2, 'gc': 6, 'junk': 2, 'yield': 1, 'sleep': 0.5, 'cont': 0.3, 'rehash': 0.7, 'ccopy': 0.7, 'bec': 0.7, 'becw': 0.7}
        w.update(self.weights)
        finp = rng.choice(self.finp)
        eqp = rng.choice([0, 0, 0.3])
        names, ws = list(w), list(w.values())
        wide = rng.choice([8, 8, 40])
        sl = lambda: rng.randint(1, wide)
        ck = lambda: rng.randint(1, 4)

        def one(p):
            k = rng.choices(names, ws)[0]
            if k == 'cont':
                return [k, ck(), rng.choice(kinds)]
            if k == 'obj':
                nid[0] += 1
                return [k, sl(), nid[0] * 10 + p, rng.random() < finp, rng.random() < eqp]
            if k in ('unfin', 'unlink', 'drop'):
                return [k, sl()]
            if k in ('link', 'get', 'mov'):
                return [k, sl(), sl()]
            if k in ('wadd', 'wrem', 'wkrem', 'has', 'hask'):
                return [k, ck(), sl()]
            if k == 'wkey':
                return [k, ck(), sl(), rng.choice([0, 0, sl()])]
            if k == 'wval':
                return [k, ck(), rng.randint(1, wide * 2), sl()]
            if k in ('wvrem', 'hasv'):
                return [k, ck(), rng.randint(1, wide * 2)]
            if k == 'wput':
                return [k, ck(), rng.randint(1, 6), sl()]
            if k in ('wclr', 'wint', 'hasa'):
                return [k, ck(), rng.randint(1, 6)]
            if k in ('enum', 'rehash', 'bec'):
                return [k, ck()]
            if k in ('ccopy', 'becw'):
                return [k, ck(), ck()]
            if k == 'gc':
                return [k, rng.choice([1, 2, 2, 3, 4])]
            if k == 'junk':
                return [k, rng.choice([1, 20, 300])]
            return [k]
        rounds = []
        for r in range(rng.choice([1, 2, 2, 3])):
            rounds.append([dict(ops=([['cont', i, rng.choice(kinds)] for i in range(1, 5)] if r == 0 else []) +
                                [one(p) for _ in range(rng.choice([5, 20, 50] if wide == 8 else [50, 120]))]) for p in range(np)])
        raw = self.id == 'P21' and rng.random() < 0.04
        return dict(np=np, raw=raw, pri=[rng.choice([3, 4, 4, 5]) for _ in range(np)], rounds=rounds,
                    knobs=swarm(rng, gc_p=0.5, max_sp=30000000))

    def render(self, spec):
        np = spec['np']
        models = [Model() for _ in range(np)]
        self.prog = []
        l = [SUPPORT.replace('GUARD', 'value' if spec.get('raw') else 'valueWithoutPreemption'), 'Smalltalk at: #P put: nil; at: #R put: nil; at: #Saved put: nil.', 'Eval [',
             'Saved := (1 to: 10) collect: [:i | OrderedCollection new].',
             'R := (1 to: %d) collect: [:i | SimRun new init: (i - 1) printString; yourself]. P := OrderedCollection new.' % np]
        no = 0
        for r, rnd in enumerate(spec['rounds']):
            progs = []
            for p in range(np):
                ops = []
                for o in (rnd[p]['ops'] if p < len(rnd) else []):
                    if models[p].valid(o):
                        models[p].apply(o)
                        ops.append([no, o])
                        no += 1
                progs.append(ops)
            self.prog.append(progs)
            l.append('P addLast: {%s}.' % '. '.join("Sim process: 'r%dp%d' at: %d do: [(R at: %d) run: #(%s)]" % (
                r, p, spec['pri'][p], p + 1,
                ' '.join('(%d #%s %s)' % (n, SEL[o[0]], ' '.join(arg(x) for x in o[1:])) for n, o in progs[p])) for p in range(np)))
        l.append('Sim begin.')
        for r in range(len(spec['rounds'])):
            l.append("(P at: %d) do: [:p | p resume]." % (r + 1))
            l.append("Sim drain: 300 until: [(P at: %d) allSatisfy: [:p | p isTerminated]]." % (r + 1))
            l.append("Sim log: 'q %d'." % r)
            l.append("7 timesRepeat: [Sim gc: 3. Array new: 1. Sim gc: 2. Array new: 1. Sim drain: 25 until: [false]].")
            l.append("Sim log: 'full %d'. R do: [:x | x enumAll]. Sim log: 'listed %d'." % (r, r))
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r)
        if not v and r.out.strip():
            # one finalizer in 16 raises an error, whose trace may be printed between those of others
            v = [] if 'not yet implemented' in r.out else self.outcheck(r)
        v = v or self.judge(spec, r)
        return [('raw-' + k, m) for k, m in v] if spec.get('raw') else v

    def judge(self, spec, r):
        np = spec['np']
        ms = [Model() for _ in range(np)]
        before = [set() for _ in range(np)]        # reachable before the operation in progress
        now = [set() for _ in range(np)]
        may = [set() for _ in range(np)]
        ops = {n: o for progs in self.prog for pr in progs for n, o in pr}
        pend = [0] * np
        self.fins = self.gone = 0
        ended = set()
        full = False

        def settle(p):
            now[p] = ms[p].reach()
            may[p] = ms[p].reach(True)
            for o in ms[p].objs.values():
                if o.id not in now[p]:
                    o.was_dead = True
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('proc-error', e.text)]
            if w[0] == 'end':
                ended.add(w[1])
            elif w[0] == 'q':
                for p in range(np):
                    before[p] = now[p]
                    if 'r%sp%d' % (w[1], p) not in ended:
                        return [('not-finished', 'process %d did not finish round %s' % (p, w[1]))]
            elif w[0] == 'o':
                p = int(w[1])
                before[p] = now[p]
                pend[p] = ops[int(w[2])]
                ms[p].apply(pend[p])
                settle(p)
                full = False
            elif w[0].startswith('fin'):
                p = int(w[0][3:])
                o = ms[p].objs.get(int(w[1]))
                if o is None:
                    return [('finalize-unknown', e.text)]
                o.finalized += 1
                self.fins += 1
                if not o.fin and not (pend[p][0] == 'unfin'):
                    return [('finalize-unregistered', 'object %d was finalized, although it is not registered' % o.id)]
                if o.finalized > 1:
                    return [('finalize-twice', 'object %d was finalized twice' % o.id)]
                if o.id in now[p] and o.id in before[p] and not o.was_dead:
                    return [('finalize-reachable', 'object %d was finalized while it was reachable' % o.id)]
                want = str(o.next.id) if o.next else '-'
                if w[2] != want:
                    return [('finalize-damaged', 'object %d refers to %s, not %s, when finalized' % (o.id, w[2], want))]
                if o.id // 10 % 4 == 3:
                    ms[p].saved.append(o)
                    settle(p)
            elif w[0] == 'full':
                full = True
                for p in range(np):
                    for o in ms[p].objs.values():
                        if o.fin and o.id not in may[p] and not o.finalized:
                            return [('finalize-missing', 'object %d is unreachable, but was not finalized after full collections' % o.id)]
            elif w[0] == 'e':
                v = self.listing(e, ms[int(w[1])], now[int(w[1])], may[int(w[1])], full)
                if v:
                    return v
            elif w[0] == 'h':
                v = self.lookup(e, ms[int(w[1])], pend[int(w[1])])
                if v:
                    return v
        return []

    def listing(self, e, m, now, may, full):
        kind, d = m.c[int(e.w[2])]
        got = e.w[3:]
        if len(set(got)) != len(got):
            return [('weak-duplicate', '%s lists an element twice: %s' % (kind, e.text))]
        items = {}
        for g in got:
            a, _, b = g.partition('=')
            items[g] = (int(a), b)
        if kind in ('WS', 'WI', 'KD', 'KI'):
            have = {a: b for a, b in items.values()}
            want = {k: ('' if v is True else '#%d' % v.id if isinstance(v, Obj) else v) for k, v in d.items()}
        else:
            have = {int(b): a for a, b in items.values()}
            want = dict(d)
        key = kind in ('WS', 'WI', 'KD', 'KI')
        for k, v in want.items():
            i = k if key else v
            if i in now and not m.objs[i].was_dead and k not in have:
                return [('weak-lost', '%s lost object %d, which is reachable: %s' % (kind, i, e.text))]
        for k, v in have.items():
            if k not in want:
                return [('weak-ghost', '%s holds %s, which was not put there: %s' % (kind, k, e.text))]
            if want[k] != v:
                return [('weak-wrong', '%s holds %s instead of %s at %s: %s' % (kind, v, want[k], k, e.text))]
            i = k if key else v
            if full and i not in may:
                return [('weak-kept', '%s still holds object %d, which is garbage: %s' % (kind, i, e.text))]
        if full:
            self.gone += len(want) - len(have)
        return []

    def lookup(self, e, m, o):
        k, res = o[0], e.w[3]
        kind, d = m.c[o[1]]
        if k == 'has':
            x = m.s[o[2] - 1]
            want = ['true' if x.id in d else 'false']
            if x.was_dead and x.id in d:
                want = ['true', 'false']
        elif k == 'hask':
            x = m.s[o[2] - 1]
            v = d.get(x.id)
            want = ['-' if v is None else '#%d' % v.id if isinstance(v, Obj) else v]
            if x.was_dead:
                want.append('-')
        else:
            i = d.get(o[2])
            want = ['-' if i is None else '#%d' % i]
            if i is not None and m.objs[i].was_dead:
                want.append('-')
        if res not in want:
            return [('weak-lookup', '%s: %s answered %s instead of %s' % (kind, o, res, want[0]))]
        return []

    def probes(self, spec, ctx):
        p = set()
        if getattr(self, 'fins', 0):
            p.add('finalized')
        if getattr(self, 'gone', 0):
            p.add('cleared')
        return p


class P21(WeakBase):
    id = 'P21'
    technique = 'seeded collections and process switches during seeded use of every kind of weak collection; contents compared with a reachability model, and exactly so after full collections'
    finp = [0, 0, 0.2]


class P22(WeakBase):
    id = 'P22'
    technique = 'seeded collections and process switches around registration, death, resurrection and finalization of objects; every finalization is checked against a reachability model'
    finp = [0.3, 0.7, 1]
    weights = {'wval': 2, 'wput': 2, 'wadd': 2, 'wkey': 3, 'obj': 16, 'drop': 12, 'link': 8, 'gc': 10}
