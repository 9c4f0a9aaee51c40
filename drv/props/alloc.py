"""P26: allocations answer fresh objects of the right size, and garbage does not pile up."""
from core import Prop
from props.util import swarm, started

SUPPORT = r"""
Object subclass: SimVec [ | x y z | <shape: #pointer> y [ ^y ] y: o [ y := o ] SimVec class >> make: n [ ^self new: n ] ]
Object subclass: SimPair [ | x y | y [ ^y ] y: o [ y := o ] ]
Object subclass: SimBytes [ | x y | <shape: #byte> y [ ^y ] y: o [ y := o ] ]
Object subclass: SimInts [ <shape: #int> ]
Object subclass: SimFloats [ <shape: #float> ]
Object subclass: SimRing [
    | tag ring want n bytes |
    SimRing class >> tag: t size: k [ ^self new tag: t size: k ]
    tag: t size: k [ tag := t. ring := Array new: k. want := Array new: k. n := 0. bytes := 0 ]
    bytes [ ^bytes ]
    bad: s with: o [ Sim log: 'bad ', tag printString, ' ', n printString, ' ', s, ' ', o class printString, ' ', o basicSize printString ]

    "A fresh object"
    fresh: o class: c size: k [
        | f |
        n := n + 1.
        o class == c ifFalse: [self bad: 'class' with: o].
        o basicSize = k ifFalse: [self bad: 'size' with: o. ^self].
        1 to: c instSize do: [:i | (o instVarAt: i) isNil ifFalse: [self bad: 'dirty ivar' with: o]].
        f := c isPointers ifTrue: [nil] ifFalse: [c isBits & (c == String) ifTrue: [Character value: 0] ifFalse: [0]].
        k > 0 ifTrue: [
            (k > 3000 ifTrue: [{1. 2. k // 2. k // 3. k - 7. k - 2. k - 1. k} collect: [:i | o basicAt: i]] ifFalse: [nil])
                ifNil: [1 to: k do: [:i | (o basicAt: i) = f ifFalse: [self bad: 'dirty ' , i printString with: o. ^self]]]
                ifNotNil: [:s | (s allSatisfy: [:e | e = f]) ifFalse: [self bad: 'dirty' with: o]]].
        o isReadOnly ifTrue: [self bad: 'readonly' with: o].
        self fill: o with: n \\ 100 + 1.
        self keep: o mark: n \\ 100 + 1
    ]
    val: o mark: m [ ^o class isPointers ifTrue: [m] ifFalse: [o class == String ifTrue: [Character value: m] ifFalse: [o class == SimFloats ifTrue: [m asFloatE] ifFalse: [m]]] ]
    fill: o with: m [
        | v k |
        v := self val: o mark: m. k := o basicSize.
        bytes := bytes + 16 + (o class isPointers ifTrue: [8 * (k + o class instSize)] ifFalse: [k]).
        o class isPointers ifTrue: [1 to: o class instSize do: [:i | o instVarAt: i put: ring]].
        k > 2000
            ifTrue: [1 to: k by: k // 500 do: [:i | o basicAt: i put: v]. o basicAt: k put: v. o basicAt: k - 1 put: v]
            ifFalse: [1 to: k do: [:i | o basicAt: i put: v]]
    ]
    keep: o mark: m [
        | i |
        i := n \\ ring size + 1.
        self check: (ring at: i) mark: (want at: i).
        ring at: i put: o. want at: i put: {m. o basicSize}
    ]
    check: o mark: w [
        | v k |
        w isNil ifTrue: [^self].
        v := self val: o mark: w first. k := w last.
        o basicSize = k ifFalse: [self bad: 'resized' with: o. ^self].
        o class isPointers ifTrue: [1 to: o class instSize do: [:i | (o instVarAt: i) == ring ifFalse: [self bad: 'ivar' with: o]]].
        k > 2000
            ifTrue: [1 to: k by: k // 500 do: [:i | (o basicAt: i) = v ifFalse: [self bad: 'changed' with: o. ^self]]. (o basicAt: k) = v ifFalse: [self bad: 'changed' with: o]]
            ifFalse: [1 to: k do: [:i | (o basicAt: i) = v ifFalse: [self bad: 'changed' with: o. ^self]]]
    ]
    make: kind size: k [
        kind = 0 ifTrue: [^self fresh: (Array new: k) class: Array size: k].
        kind = 1 ifTrue: [^self fresh: (ByteArray new: k) class: ByteArray size: k].
        kind = 2 ifTrue: [^self fresh: (String new: k) class: String size: k].
        kind = 3 ifTrue: [^self fresh: (SimVec new: k) class: SimVec size: k].
        kind = 4 ifTrue: [^self fresh: SimPair new class: SimPair size: 0].
        kind = 5 ifTrue: [^self fresh: (SimInts new: k) class: SimInts size: k].
        kind = 6 ifTrue: [^self fresh: (SimFloats new: k) class: SimFloats size: k].
        kind = 7 ifTrue: [^self fresh: (SimVec basicNew: k) class: SimVec size: k].
        kind = 8 ifTrue: [^self fresh: (SimVec make: k) class: SimVec size: k].
        kind = 9 ifTrue: [^self fresh: (SimVec new: k) copy class: SimVec size: k].
        kind = 10 ifTrue: [^self grow: k].
        kind = 11 ifTrue: [^self copies: k].
        kind = 12 ifTrue: [^self numbers: k].
        kind = 13 ifTrue: [^self fresh: (SimVec newInFixedSpace: k) class: SimVec size: k].
        kind = 14 ifTrue: [^self fixed: k].
        self error: 'kind'
    ]
    "Collections whose contents are moved to larger and larger objects"
    grow: k [
        | oc st d |
        n := n + 1.
        oc := OrderedCollection new. 1 to: k do: [:i | oc addLast: i].
        (oc size = k and: [(1 to: k by: k // 50 + 1) allSatisfy: [:i | (oc at: i) = i]]) ifFalse: [self bad: 'grown' with: oc].
        st := WriteStream on: String new. 1 to: k do: [:i | st nextPut: (Character value: i \\ 128)].
        st := st contents. (st size = k and: [(1 to: k by: k // 50 + 1) allSatisfy: [:i | (st at: i) value = (i \\ 128)]]) ifFalse: [self bad: 'written' with: st].
        d := LookupTable new. 1 to: k // 4 do: [:i | d at: i put: i].
        (d size = (k // 4) and: [(1 to: k // 4) allSatisfy: [:i | (d at: i) = i]]) ifFalse: [self bad: 'table' with: d].
        bytes := bytes + (40 * k)
    ]
    copies: k [
        | a b |
        n := n + 1.
        a := (1 to: k) asArray. b := a copy. a at: 1 put: 0.
        (b size = k and: [(b at: 1) = 1 and: [(b at: k) = k]]) ifFalse: [self bad: 'copy' with: b].
        b := a , b. (b size = (2 * k) and: [(b at: k + 1) = 1 and: [(b at: 1) = 0 and: [(b at: 2 * k) = k]]]) ifFalse: [self bad: 'concat' with: b].
        a := b shallowCopy. a become: (Array new: 3). a size = 3 ifFalse: [self bad: 'become' with: a].
        bytes := bytes + (40 * k)
    ]
    numbers: k [
        | x y |
        n := n + 1.
        x := 1 bitShift: k. y := x - 1. bytes := bytes + (k // 2).
        (x > y and: [x - y = 1 and: [(x bitAnd: y) = 0 and: [x // x = 1 and: [(x bitShift: 0 - k) = 1]]]]) ifFalse: [self bad: 'large int' with: x]
    ]
    fixed: k [
        | a |
        n := n + 1.
        a := Array new: k. a at: k put: n. a makeFixed. bytes := bytes + (8 * k).
        (a size = k and: [(a at: k) = n and: [k = 1 or: [(a at: 1) isNil]]]) ifFalse: [self bad: 'fixed' with: a].
        self fill: a with: n \\ 100 + 1. self keep: a mark: n \\ 100 + 1
    ]
]
Sim class extend [
    usage: s [
        <category: 'sim'>
        | m |
        m := ObjectMemory current.
        Sim log: 'mem ', s, ' ', m oldSpaceUsedBytes printString, ' ', m fixedSpaceUsedBytes printString, ' ', (m numOTEs - m numFreeOTEs) printString, ' ', m oldSpaceSize printString, ' ', m numOTEs printString
    ]
]
"""


class P26(Prop):
    id = 'P26'
    technique = 'seeded allocation workloads (all shapes, sizes around the thresholds, several processes) with collections of every kind forced at random allocations; each new object is judged as it appears and when it is dropped, and the memory in use after many times the live data were allocated is compared with the start'
    components = {'real': ['libgst (oop.c, alloc.c, heap.c, interpreter, primitives)', 'kernel/*.st image'],
                  'stub': ['clock and timers of the host (simulated)', 'the moments and kinds of garbage collections (chosen by the seed)']}
    lists = ('procs',)

    def gen(self, rng, tier):
        k = swarm(rng, gc_p=0.5, yield_p=0.5, max_sp=200000000)
        if k.get('gc_gap'):
            k['gc_gap'] = rng.choice([512, 4096, 4096, 20000])
        procs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randrange(1, 5)):
                f = rng.random()
                if f < 0.45:
                    size, times = rng.randrange(0, 40), rng.choice([20, 200, 1000])
                elif f < 0.7:
                    size, times = rng.choice([100, 500, 1000, 2000, 2045, 2046, 2047, 2048, 2049, 4090, 4096]) + rng.randrange(-3, 4), rng.choice([10, 50, 200])
                elif f < 0.9:
                    size, times = rng.choice([5000, 8190, 8192, 16380, 16384, 20000, 40000]) + rng.randrange(-3, 4), rng.choice([10, 50])
                else:
                    size, times = rng.choice([70000, 130000, 300000, 1000000]), rng.choice([3, 10, 20])
                kind = rng.randrange(0, 15)
                if kind in (10, 11, 12, 14):
                    size = max(1, size)
                if kind == 10:
                    size = min(size, 3000)
                    times = min(times, 20)
                if kind == 12:
                    times = min(times, 20) if size > 5000 else times
                cost = {10: size * 150, 11: size * 80, 12: 60000 if size > 5000 else 2000}.get(kind, 60 * min(size, 600) + 300)
                ops.append([kind, size, max(2, min(times, 700000 // cost))])
            procs.append([ops, rng.choice([4, 4, 5, 3]), rng.choice([1, 3, 10])])
        return {'knobs': k, 'procs': procs, 'rounds': rng.choice([2, 3, 4])}

    def source(self, spec):
        o = [SUPPORT, 'Smalltalk at: #P put: nil.', 'Eval [ P := OrderedCollection new.']
        for i, (ops, pri, ring) in enumerate(spec['procs']):
            b = '\n'.join('%d timesRepeat: [r make: %d size: %d].' % (t, kind, size) for kind, size, t in ops)
            o.append("P add: [:m | Sim process: 'p%d' at: %d do: [| r | r := SimRing tag: %d size: %d. %s Sim log: 'n %d ', r bytes printString]]."
                     % (i, pri, i, ring, b, i))
        o.append(''']
Eval [ | ps |
ObjectMemory globalGarbageCollect. ObjectMemory compact. Sim usage: 'zero'. Sim begin.
1 to: %d do: [:m |
    ps := P collect: [:b | b value: m]. ps do: [:p | p resume].
    Sim drain: 20000 until: [ps allSatisfy: [:p | p isTerminated]].
    (ps allSatisfy: [:p | p isTerminated]) ifFalse: [Sim log: 'stuck'].
    Sim usage: 'round'.
    ps := nil.
    Sim arm: 0. ObjectMemory globalGarbageCollect. Sim arm: 1.
    Sim usage: 'gc'].
Sim arm: 0. ObjectMemory compact. Sim usage: 'end'.
Sim done: 'ok' ]
''' % spec['rounds'])
        return '\n'.join(o)

    def run(self, spec, ctx):
        r = ctx.phase(self.source(spec), spec['knobs'])
        v = self.vmcheck(r, ('DONE',)) or self.outcheck(r)
        if v:
            return v
        mem = []
        for e in r.events:
            if e.w[0] in ('bad', 'err', 'stuck'):
                return [(' '.join([e.w[0]] + e.w[3:4]), e.text)]
            if e.w[0] == 'mem':
                mem.append((e.w[1], [int(x) for x in e.w[2:]]))
        # everything the program made is garbage now
        zero, end = mem[0][1], mem[-1][1]
        if end[2] > zero[2] + 300:
            return [('leak', '%d objects more in use at the end: %s' % (end[2] - zero[2], mem))]
        if end[0] > zero[0] + 300000 or end[1] > zero[1] + 300000:
            return [('leak', '%d bytes more in use at the end: %s' % (max(end[0] - zero[0], end[1] - zero[1]), mem))]
        gcs = [m for w, m in mem if w == 'gc']
        if len(gcs) > 2 and gcs[-1][2] > gcs[1][2] + 9000:
            return [('leak', 'more and more objects survive: %s' % mem)]
        # it takes less memory than it would without a collector
        total = sum(int(e.w[2]) for e in r.events if e.w[0] == 'n')
        peak = max(m[0] for w, m in mem)
        if total > 60000000 and peak > total * 0.9:
            return [('peak', '%d bytes in use, %d allocated: %s' % (peak, total, mem))]
        self.mem = mem
        return []

    def probes(self, spec, ctx):
        mem = [e.w[2:] for e in ctx.runs[0].events if e.w[0] == 'mem']
        t = sum(int(e.w[2]) for e in ctx.runs[0].events if e.w[0] == 'n')
        return ['allocated more than %d MB' % n for n in (1, 10, 100) if t > n << 20] + (['old space grew'] if mem and mem[-1][3] != mem[0][3] else [])
