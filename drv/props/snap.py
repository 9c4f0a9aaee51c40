"""P30, P31, P32: snapshots of the running system."""
import os
import random
from core import Prop
from props.util import swarm, st


class SnapBase(Prop):
    components = {'real': ['libgst (save.c, interpreter, collector, primitives)', 'kernel/*.st image', 'a scratch file system'],
                  'stub': ['clock, timers and signals of the host (simulated)', 'system calls on the image file fail, stop half way or crash as the plan says']}


class P31(SnapBase):
    id = 'P31'
    technique = 'seeded I/O errors, short writes, crashes and power losses while an image is saved over another one; the file is then booted and compared with what the saves reported'
    lists = ('procs',)

    def gen(self, rng, tier):
        k = swarm(rng, gc_p=0.1, yield_p=0.5, max_sp=20000000)
        f = rng.random()
        # a save makes some 250 system calls
        if f < 0.45:
            k['ioerr_ppm'] = rng.choice([1000, 4000, 20000, 200000])
        elif f < 0.9:
            k['crash_ppm'] = rng.choice([800, 3000, 10000, 200000])
            k['powerloss'] = rng.randrange(2)
        if rng.random() < 0.4:
            k['wshort_ppm'] = rng.choice([5000, 100000])
        if rng.random() < 0.4:
            k['eintr_ppm'] = rng.choice([5000, 100000])
        return {'knobs': k, 'n': rng.choice([1, 1, 2, 3]), 'procs': [rng.choice([3, 4, 4]) for _ in range(rng.choice([0, 0, 1, 2]))],
                'big': rng.choice([10, 1000, 40000])}

    def run(self, spec, ctx):
        os.makedirs(ctx.path('data'), exist_ok=True)
        src = '''
Smalltalk at: #Marker put: 0. Smalltalk at: #Data put: OrderedCollection new. Smalltalk at: #Stop put: false. Smalltalk at: #P put: OrderedCollection new.
Eval [
%s
P addLast: (Sim process: 'saver' at: 4 do: [ | r |
    0 to: %d do: [:i |
        (Smalltalk at: #Stop) ifFalse: [
            Smalltalk at: #Marker put: i.
            Data addLast: {i. Array new: %d withAll: i. ('sym', i printString) asSymbol. 1000 factorial + i. i / 7}.
            i = 0 ifTrue: [Sim arm: 0].
            Sim log: 'b ', i printString.
            r := [(ObjectMemory snapshot: 'data/x.im') ifTrue: ['resumed'] ifFalse: ['saved']] on: Error do: [:e | e return: 'failed ', e messageText].
            r = 'resumed' ifTrue: [Smalltalk at: #Stop put: true] ifFalse: [Sim arm: 1].
            Sim log: 'r ', i printString, ' ', r]].
    Smalltalk at: #Stop put: true]).
Sim begin. P do: [:p | p resume]. Sim drain: 30000 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]
''' % ('\n'.join("P addLast: (Sim process: 'w%d' at: %d do: [ | n | n := 0. [Smalltalk at: #Stop] whileFalse: [n := n + 1. Array new: 20. n \\\\ 20 = 0 ifTrue: [(Delay forMilliseconds: 20) wait]]])." % (i, p)
               for i, p in enumerate(spec['procs'])), spec['n'], spec['big'])
        r = ctx.phase(src, spec['knobs'])
        v = self.vmcheck(r, ('DONE', 'CRASHED')) or self.outcheck(r)
        if v:
            return v
        last, open_, err = None, None, False
        for e in r.events:
            if e.w[0] == '!ioerr':
                err = True
            elif e.w[0] == 'b':
                open_, err = int(e.w[1]), False
            elif e.w[0] == 'r':
                i = int(e.w[1])
                open_ = None
                if e.w[2] == 'saved':
                    last = i
                elif e.w[2] != 'failed':
                    return [('result', 'snapshot answered %r to the process that made it' % e.text)]
                elif not err:
                    return [('failed', 'the snapshot failed, but no system call had: %s' % e.text)]
            elif e.w[0] == 'err':
                return [('error', e.text)]
        if r.status == 'DONE' and open_ is not None:
            return [('lost', 'snapshot %d never answered' % open_)]
        self.last = r.status
        if last is None:
            return []
        ok = [last] if open_ is None else [last, open_]
        src = '''
Eval [ | bad | Sim begin.
Smalltalk at: #Stop put: true.
Sim log: 'marker ', Marker printString.
bad := 0. ObjectMemory compact.
Data doWithIndex: [:x :i |
    ((x at: 1) = (i - 1) and: [(x at: 2) size = %d and: [((x at: 2) allSatisfy: [:y | y = (i - 1)]) and: [(x at: 3) == ('sym', (i - 1) printString) asSymbol
        and: [(x at: 4) = (1000 factorial + i - 1) and: [(x at: 5) = ((i - 1) / 7)]]]]]) ifFalse: [bad := bad + 1]].
Sim log: 'data ', Data size printString, ' ', bad printString.
Sim done: 'ok' ]
''' % spec['big']
        b = ctx.phase(src, {'max_sp': 20000000}, image='data/x.im')
        if b.status != 'DONE' or b.out.strip():
            return [('image', 'the image under the name cannot be used after %s (saved: %s): %s %s' % (r.status, ok, b.status, b.out[-300:]))]
        w = {e.w[0]: e.w[1:] for e in b.events if e.w[0] in ('marker', 'data')}
        m = int(w['marker'][0])
        if m not in ok:
            return [('stale', 'the image is number %d, not %s' % (m, ' or '.join(map(str, ok))))]
        if w['data'] != [str(m + 1), '0']:
            return [('content', 'image %d holds %s items, %s of them wrong' % (m, w['data'][0], w['data'][1]))]
        return []

    def probes(self, spec, ctx):
        r = []
        if len(ctx.runs) > 1:
            r.append('rebooted after ' + ctx.runs[0].status)
        if any(e.w[0] == 'r' and e.w[2] == 'failed' for e in ctx.runs[0].events):
            r.append('a save failed')
        return r


GRAPH = r"""
Object subclass: SimG [
    | a b c | <shape: #pointer>
    SimG class [ | ci | ci [ <category: 'sim'> ^ci ] ci: x [ <category: 'sim'> ci := x ] ]
    Cv := nil.
    SimG class >> cv [ ^Cv ] SimG class >> cv: x [ Cv := x ]
    a [ ^a ] a: x [ a := x ] b [ ^b ] b: x [ b := x ] c [ ^c ] c: x [ c := x ]
    thrice: x [ ^x * 3 + (a isInteger ifTrue: [a] ifFalse: [0]) ]
]
Sim class extend [
    "A description of the graph below O which does not depend on addresses."
    graph: o [
        <category: 'sim'>
        | seen todo out |
        seen := IdentityDictionary new. todo := OrderedCollection with: o. out := WriteStream on: String new. seen at: o put: 1.
        [todo isEmpty] whileFalse: [ | x k |
            x := todo removeFirst.
            out nextPutAll: x class printString; nextPut: $(.
            k := [:y | | i |
                (y isNil or: [y == true or: [y == false or: [y isSmallInteger]]]) ifTrue: [out nextPutAll: y printString] ifFalse: [
                y isSymbol ifTrue: [out nextPut: $#; nextPutAll: y asString. y == y asString asSymbol ifFalse: [out nextPutAll: '!symbol']] ifFalse: [
                (y isCharacter or: [y isClass or: [y isMetaclass or: [y isNumber]]]) ifTrue: [out nextPutAll: y class printString, y storeString] ifFalse: [
                i := seen at: y ifAbsent: [todo addLast: y. seen at: y put: seen size + 1].
                out nextPut: $@; nextPutAll: i printString]]].
                out space].
            out nextPutAll: (x isReadOnly printString first: 1).
            x isString ifTrue: [out nextPutAll: x asString] ifFalse: [
            x class isBits ifTrue: [1 to: x basicSize do: [:i | out nextPutAll: (x basicAt: i) printString; space]] ifFalse: [
            (x isKindOf: BlockClosure) ifTrue: [out nextPutAll: [(x numArgs = 0 ifTrue: [x value] ifFalse: [x value: 5]) printString] value] ifFalse: [
            (x isKindOf: HashedCollection) ifTrue: [
                "the order depends on addresses: look up"
                ((x isKindOf: LookupTable) or: [x isKindOf: Dictionary])
                    ifTrue: [x keys size printOn: out. (x associations asSortedCollection: [:p :q | p value <= q value]) do: [:p | k value: p key. k value: (x at: p key ifAbsent: ['lost']). k value: p value]]
                    ifFalse: [x size printOn: out. (x asArray select: [:p | p isInteger]) asSortedCollection do: [:p | k value: p. (x includes: p) ifFalse: [out nextPutAll: 'lost']]. x do: [:p | (x includes: p) ifFalse: [out nextPutAll: 'lost ']]]] ifFalse: [
            1 to: x class instSize do: [:i | k value: (x instVarAt: i)].
            x class isVariable ifTrue: [1 to: x basicSize do: [:i | k value: (x basicAt: i)]]]]]].
            out nextPut: $)].
        ^(out contents inject: 7 into: [:h :c | h * 31 + c value \\ 1000003]) printString, ' ', seen size printString, ' ', (out contents size > 150 ifTrue: [(out contents first: 60), '..', (out contents last: 80)] ifFalse: [out contents])
    ]
]
"""

ITEMS = {
    'float': '{1/3. 1.5e0. 2.25d0. 3.125q0. 1e100 truncated. 25 factorial negated. (1 bitShift: 62). (1 bitShift: 62) - 1. (1 bitShift: 62) negated}',
    'str': "{'abc' copy. #sym:bol. 'x' asSymbol. String new: %(n)d withAll: $z. (String new: 5) asByteArray. UnicodeCharacter value: 300. $a}",
    'cyc': '[ | x y | x := Array new: 3. y := OrderedCollection with: x with: x. x at: 1 put: x; at: 2 put: y. x ] value',
    'iddict': '[ | d | d := IdentityDictionary new. 1 to: %(n)d do: [:i | d at: (Array with: i) put: i]. d ] value',
    'idset': '[ | d | d := IdentitySet new. 1 to: %(n)d do: [:i | d add: (Array with: i)]. d ] value',
    'dict': "[ | d | d := Dictionary new. 1 to: %(n)d do: [:i | d at: i printString put: i]. d ] value",
    'lookup': "[ | d | d := LookupTable new. 1 to: %(n)d do: [:i | d at: i printString asSymbol put: i]. d ] value",
    'bag': '(Bag new add: #a; add: #a; add: 3; yourself)',
    'ro': "('constant' copy makeReadOnly: true; yourself)",
    'blk': '[ | t | t := 40. {[t := t + 0. t]. [:x | x + t]} ] value',
    'obj': '((SimG new: 3) a: 4; b: (SimG new: 1); c: #foo; basicAt: 1 put: 7; yourself)',
    'cls': '[ SimG ci: 17. SimG cv: {3. #q}. {SimG. SimG class. SimG ci. SimG cv. (SimG new a: 2; yourself) thrice: 5} ] value',
    'weak': "[ | w | w := WeakArray new: 3. w at: 1 put: Object; at: 2 put: #foo. {w at: 1. w at: 2. w at: 3} ] value",
    'big': '(Array new: %(n)d * 50 withAll: 3)',
    'assoc': '{3 -> 4. Object -> nil. (1 to: 5). Date newDay: 3 month: #apr year: 2005. 3 @ 4}',
    'nested': '((1 to: %(n)d) inject: nil into: [:x :i | {i. x}])',
}

WORK = {
    # kind: body of process k which logs 'p k 1', 'p k 2', ... up to n; m is a small number
    'delay': '1 to: %(n)d do: [:i | (Delay forMilliseconds: %(m)d) wait. Sim log: \'p %(k)d \', i printString]',
    'busy': '1 to: %(n)d do: [:i | | t | t := 0. 1 to: %(m)d * 20 do: [:j | t := t + j. Array new: 5]. Sim log: \'p %(k)d \', i printString]',
    'deep': '| b | b := nil. b := [:x | x = 0 ifTrue: [0] ifFalse: [1 + (b value: x - 1)]]. 1 to: %(n)d do: [:i | (b value: %(m)d * 10) = (%(m)d * 10) ifTrue: [Sim log: \'p %(k)d \', i printString] ifFalse: [Sim log: \'p %(k)d wrong\']]',
    'ens': '1 to: %(n)d do: [:i | | t | t := i. [(Delay forMilliseconds: %(m)d) wait] ensure: [Sim log: \'p %(k)d \', t printString]]',
    'exc': '1 to: %(n)d do: [:i | | t | t := [(Delay forMilliseconds: %(m)d) wait. SystemExceptions.NotYetImplemented signal. 0] on: Error do: [:e | Processor yield. e return: i]. Sim log: \'p %(k)d \', t printString]',
    'sema': '| s | s := Semaphore new. (Sim process: \'h%(k)d\' at: 4 do: [1 to: %(n)d do: [:i | (Delay forMilliseconds: %(m)d) wait. s signal]]) resume. 1 to: %(n)d do: [:i | s wait. Sim log: \'p %(k)d \', i printString]',
    'queue': '| q | q := SharedQueue new. (Sim process: \'h%(k)d\' at: 5 do: [1 to: %(n)d do: [:i | q nextPut: i. i \\\\ 3 = 0 ifTrue: [(Delay forMilliseconds: %(m)d) wait]]]) resume. 1 to: %(n)d do: [:i | | x | x := q next. Processor yield. Sim log: \'p %(k)d \', x printString]',
    'gen': '| g | g := Generator on: [:gg | | i | i := 1. [gg yield: i. i := i + 1] repeat]. 1 to: %(n)d do: [:i | (Delay forMilliseconds: %(m)d) wait. Sim log: \'p %(k)d \', g next printString]',
    'lock': '| l c | l := RecursionLock new. c := 0. (Sim process: \'h%(k)d\' at: 5 do: [1 to: %(n)d do: [:i | l critical: [(Delay forMilliseconds: %(m)d) wait]]]) resume. 1 to: %(n)d do: [:i | l critical: [c := c + 1. (Delay forMilliseconds: 1) wait. Sim log: \'p %(k)d \', c printString]]',
    'susp': '1 to: %(n)d do: [:i | Processor activeProcess suspend. Sim log: \'p %(k)d \', i printString]',
}

SAVER = '''(Delay forMilliseconds: %(at)d) wait. Sim log: 'b %(i)d'. r := ObjectMemory snapshot: 'data/x%(i)d.im'. Sim log: 'r %(i)d ', r printString.'''


class P30(SnapBase):
    id = 'P30'
    technique = 'seeded object graphs and processes in every state; snapshots taken at random instants, possibly of a restarted image, are booted: graphs are compared and every process must go on from its last step'
    lists = ('procs', 'items', 'saves')

    def gen(self, rng, tier):
        k = swarm(rng, gc_p=0.2, yield_p=0.8, max_sp=20000000)
        k['openlog'] = 1
        ks = sorted(WORK)
        return {'knobs': k, 'items': [[rng.choice(sorted(ITEMS)), rng.choice([3, 20, 100])] for _ in range(rng.randrange(0, 7))],
                'procs': [[rng.choice(ks), rng.randrange(3, 30), rng.randrange(1, 15), rng.choice([3, 4, 4, 5, 6])] for _ in range(rng.randrange(1, 7))],
                'saves': [rng.choice([1, 5, 20, 60]) for _ in range(rng.choice([1, 1, 2, 3]))], 'saver': rng.choice([4, 4, 3, 6, 5]),
                'deps': rng.randrange(0, 3), 'main': rng.random() < 0.25, 'boots': rng.randrange(1, 4)}

    def source(self, spec):
        o = [GRAPH, 'Smalltalk at: #P put: OrderedCollection new. Smalltalk at: #G put: nil. Smalltalk at: #S put: OrderedCollection new.',
             "Object subclass: SimDep [ | k | k: x [ k := x ] update: s [ Sim log: 'u ', k printString, ' ', s ] ]",
             'Eval [ G := OrderedCollection new ]']
        for kind, n in spec['items']:
            o.append('Eval [ G addLast: %s ]' % (ITEMS[kind] % {'n': n}))
        o.append('Eval [')
        for d in range(spec['deps']):
            o.append('S addLast: (SimDep new k: %d; yourself). ObjectMemory addDependent: S last.' % d)
        for i, (kind, n, m, pri) in enumerate(spec['procs']):
            b = WORK[kind] % {'n': n, 'm': m, 'k': i}
            o.append("P addLast: (Sim process: 'p%d' at: %d do: [%s])." % (i, pri, b))
        sav = '| r | %s' % '\n'.join(SAVER % {'at': at, 'i': i} for i, at in enumerate(spec['saves']))
        if not spec['main']:
            o.append("P addLast: (Sim process: 'saver' at: %d do: [%s])." % (spec['saver'], sav))
        # the process which keeps the suspended ones going
        o.append("P addLast: (Sim process: 'waker' at: 3 do: [ | again | again := true. [again] whileTrue: [(Delay forMilliseconds: 25) wait. again := false. "
                 "P do: [:p | (p name first = $p and: [p isTerminated not]) ifTrue: [again := true. p isSuspended ifTrue: [[p resume] on: SystemExceptions.ProcessTerminated do: [:e | e return]]]]]]).")
        o.append("Sim log: 'g ', (Sim graph: G).")
        o.append('Sim begin. Processor activeProcess priority: 9. P do: [:p | p resume]. Processor activeProcess priority: 4.')
        if spec['main']:
            o.append(']\nEval [ %s' % sav)
        o.append("]\nEval [ Sim drain: 30000 until: [P allSatisfy: [:p | p isTerminated]]. Sim log: 'g ', (Sim graph: G). Sim log: 'all ', (P allSatisfy: [:p | p isTerminated]) printString ]")
        return '\n'.join(o) + '\n'

    def run(self, spec, ctx):
        os.makedirs(ctx.path('data'), exist_ok=True)
        r = ctx.phase(self.source(spec), spec['knobs'])
        v = self.judge(spec, r, None, {})
        if v:
            return v
        graph = next(e.text for e in r.events if e.w[0] == 'g')
        at = self.positions(r, {})
        for i in range(min(len(spec['saves']), spec['boots'])):
            src = ("Eval [ Sim begin. Sim log: 'boot'. Sim log: 'g ', (Sim graph: G). Sim drain: 30000 until: [P allSatisfy: [:p | p isTerminated]]. "
                   "Sim log: 'g ', (Sim graph: G). Sim log: 'all ', (P allSatisfy: [:p | p isTerminated]) printString ]\n")
            b = ctx.phase(src, spec['knobs'], image='data/x%d.im' % i)
            v = self.judge(spec, b, i, at.get(i, {}))
            if v:
                return [(k, 'image %d: %s' % (i, m)) for k, m in v]
            for e in b.events:
                if e.w[0] == 'g' and e.text != graph:
                    return [('graph', 'image %d: the graph was %s and is %s' % (i, graph, e.text))]
            if not spec['main']:
                # the restarted saver has made the later images again
                at.update(self.positions(b, at.get(i, {})))
        return []

    @staticmethod
    def positions(r, start):
        """Image number -> how far each process had come when it was made."""
        pos, cur, out = dict(start), None, {}
        for e in r.events:
            if e.w[0] == 'p':
                pos[e.w[1]] = int(e.w[2])
            elif e.w[0] == 'b':
                cur = int(e.w[1])
            elif e.w[0] == '!open' and cur is not None:
                out[cur], cur = dict(pos), None
        return out

    def judge(self, spec, r, image, pos):
        v = self.vmcheck(r, ('QUIT',)) or self.outcheck(r)
        if v:
            return v
        pos = dict(pos)
        res, graphs, all_ = [], set(), None
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('error', e.text)]
            if w[0] == 'p':
                if w[2] != str(pos.get(w[1], 0) + 1):
                    return [('step', 'process %s logged step %s after step %d' % (w[1], w[2], pos.get(w[1], 0)))]
                pos[w[1]] = int(w[2])
            elif w[0] == 'r':
                res.append((int(w[1]), w[2]))
            elif w[0] == 'g':
                graphs.add(e.text)
            elif w[0] == 'all':
                all_ = w[1]
        if len(graphs) > 1:
            return [('graph', 'the graph changed: %s' % sorted(graphs))]
        if all_ != 'true':
            return [('stuck', 'a process did not come to its end: %s' % pos)]
        for i, (kind, n, m, pri) in enumerate(spec['procs']):
            if pos.get(str(i), 0) != n:
                return [('stuck', 'process %d (%s) ended after step %d of %d' % (i, kind, pos.get(str(i), 0), n))]
        first = 0 if image is None else image
        want = [(i, 'true' if i == image else 'false') for i in range(first, len(spec['saves']))]
        if image is not None and spec['main']:
            want = None                 # the statement that made the snapshot is gone with the program it was read from
        if want is not None and res != want:
            return [('result', 'the snapshots answered %s, not %s' % (res, want))]
        return self.lifecycle(spec, r, image)

    def lifecycle(self, spec, r, image):
        return []

    def probes(self, spec, ctx):
        return ['booted %d' % (len(ctx.runs) - 1)]


class P32(P30):
    id = 'P32'
    technique = 'seeded snapshots and restarts at random instants of interleaved processes; the notifications of every dependent are compared with the life of the VM'

    def gen(self, rng, tier):
        s = super().gen(rng, tier)
        s['deps'] = rng.randrange(1, 5)
        s['items'] = s['items'][:2]
        return s

    LIFE = ('returnFromSnapshot', 'aboutToSnapshot', 'finishedSnapshot', 'aboutToQuit')

    def lifecycle(self, spec, r, image):
        for d in range(spec['deps']):
            want = []
            n = len([e for e in r.events if e.w[0] == '!open'])
            got = ['OPEN' if e.w[0] == '!open' else e.w[2] for e in r.events
                   if e.w[0] == '!open' or e.w[0] == 'u' and e.w[1] == str(d) and e.w[2] in self.LIFE]
            want += ['aboutToSnapshot', 'OPEN', 'finishedSnapshot'] * n + ['aboutToQuit']
            # processes of the image can go on while a dependent that is told
            # of the restart waits, for a lock that was held when it was saved
            if image is not None:
                want = want[:got.index('returnFromSnapshot')] + ['returnFromSnapshot'] + want[got.index('returnFromSnapshot'):] if 'returnFromSnapshot' in got[:-1] else ['returnFromSnapshot'] + want
            if got != want:
                return [('events', 'dependent %d of %d was told %s, not %s' % (d, spec['deps'], got, want))]
        # every dependent is told before whoever asked for the snapshot goes on
        state = None
        for e in r.events:
            if e.w[0] == 'b':
                state = 0
            elif e.w[0] == 'u' and e.w[2] == 'finishedSnapshot':
                state = (state or 0) + 1
            elif e.w[0] == 'r' and e.w[2] == 'false':
                if state != spec['deps']:
                    return [('order', 'the snapshot answered when %s of %d dependents knew that it was finished' % (state, spec['deps']))]
        return []
