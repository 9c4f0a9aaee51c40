"""P48: ObjectDumper.

Seeded object graphs are dumped by several processes to files of their own while others run, system calls transfer less
than asked or the VM crashes; a second VM builds the same graphs again, loads the files and seeded prefixes of them, and
compares what it gets with an isomorphism test that does not use the dumper."""
import os
from core import Prop
from props.util import swarm, st

SHAPES = {'byte': (0, 255), 'int8': (-128, 127), 'short': (-32768, 32767), 'ushort': (0, 65535), 'int': (-2**31, 2**31 - 1),
          'uint': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}

CLASSES = r'''
Object subclass: SimD [ | a b | a [ ^a ] b [ ^b ] a: x b: y [ a := x. b := y ] ]
SimD subclass: SimDX [ | c | <shape: #pointer> c [ ^c ] c: x [ c := x ] ]
Object subclass: SimPair [ | x y | SimPair class >> x: p y: q [ ^self new setX: p y: q ] setX: p y: q [ x := p. y := q ]
    = o [ ^o class == self class and: [x = o x and: [y = o y]] ] hash [ ^x hash ] x [ ^x ] y [ ^y ] ]
''' + '\n'.join("Object subclass: SimS%s [ | t | <shape: #%s> t [ ^t ] t: x [ t := x ] ]" % (k, k)
                for k in list(SHAPES) + ['character', 'utf32', 'float', 'double']) + r'''
Object subclass: SimIso [
    | m back |
    SimIso class >> is: x like: y [ ^self new init is: x like: y ]
    init [ m := IdentityDictionary new. back := IdentityDictionary new ]
    is: x like: y [
        | c |
        x class == y class ifFalse: [^false].
        x class == UnicodeCharacter ifTrue: [^x codePoint = y codePoint].
        (x isNil or: [x == true or: [x == false or: [x isSymbol or: [x isSmallInteger or: [x isCharacter or: [x isClass or: [x isMetaclass
            or: [x == Smalltalk or: [x == Processor]]]]]]]]]) ifTrue: [^x == y].
        (m includesKey: x) ifTrue: [^(m at: x) == y].
        (back includesKey: y) ifTrue: [^false].
        m at: x put: y. back at: y put: x.
        c := x class.
        (x isKindOf: HashedCollection) ifTrue: [^self hashed: x like: y].
        1 to: c instSize do: [:i | (self is: (x instVarAt: i) like: (y instVarAt: i)) ifFalse: [^false]].
        x basicSize = y basicSize ifFalse: [^false].
        c isPointers ifTrue: [1 to: x basicSize do: [:i | (self is: (x basicAt: i) like: (y basicAt: i)) ifFalse: [^false]]. ^true].
        1 to: x basicSize do: [:i | (x basicAt: i) = (y basicAt: i) ifFalse: [^false]].
        ^true ]
    hashed: x like: y [
        x size = y size ifFalse: [^false].
        (x isKindOf: Dictionary)
            ifTrue: [x keysAndValuesDo: [:k :v | (y includesKey: k) ifFalse: [^false]. (self is: v like: (y at: k)) ifFalse: [^false]]]
            ifFalse: [x do: [:e | (y includes: e) ifFalse: [^false]]].
        ^true ]
]
'''


class P48(Prop):
    id = 'P48'
    technique = 'seeded object graphs dumped by concurrent processes under short transfers, interrupted calls, collections and crashes, loaded by another VM from the file or any prefix of it, and compared by an independent isomorphism test'
    lists = ('files', 'roots', 'cuts')
    components = {'real': ['libgst', 'kernel/*.st image', 'packages/object-dumper', 'a scratch file system'],
                  'stub': ['clock, timers and signals of the host (simulated)', 'system calls on the files fall short, are interrupted or crash as the plan says']}

    def node(self, rng, n):
        """One node: Smalltalk expressions over the nodes made before (N at: k)."""
        ref = lambda: '(N at: %d)' % rng.randint(1, n) if n and rng.random() < 0.8 else rng.choice(['nil', 'true', '7', '#foo', '$x', "'q'"])
        k = rng.choice(['int', 'int', 'chr', 'str', 'str', 'sym', 'lpi', 'frac', 'flt', 'const', 'shape', 'shape', 'pt', 'arr', 'arr', 'oc', 'dict',
                        'set', 'bag', 'fix', 'fix', 'var', 'pair', 'cls', 'long', 'uni', 'bytes', 'date', 'iv', 'sd'])
        if k == 'int':
            return str(rng.choice([0, 1, -1, 127, 255, -256, 2**30, -2**30, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32, 2**40 + 7, -2**45 - 3, 2**61, -2**61, rng.randrange(-10**6, 10**6)]))
        if k == 'chr':
            return '(Character value: %d)' % rng.choice([0, 10, 65, 127, 128, 255, 256 - 1]) if rng.random() < 0.8 else '(UnicodeCharacter value: %d)' % rng.choice([300, 8364, 0x1F600])
        if k == 'str':
            return "'%s' copy" % ''.join(rng.choice('abc xyz') for _ in range(rng.choice([0, 1, 5, 40])))
        if k == 'long':
            return "(String new: %d withAll: $%s)" % (rng.choice([200, 3000]), rng.choice('kz'))
        if k == 'sym':
            return rng.choice(['#foo', '#at:put:', '#+', "#'with space'", "#x%d" % rng.randint(0, 9)])
        if k == 'lpi':
            return '(%d)' % (rng.choice([1, -1]) * rng.choice([2**62, 2**64, 2**64 - 1, 10**30, 3**200]))
        if k == 'frac':
            return rng.choice(['(1/3)', '(-7/5)', '(3/7) * 1000000000000', '1.25s2', '(2 raisedTo: 100) / 3'])
        if k == 'flt':
            return rng.choice(['0.0', '3.5', '-1.0e100', '1.5e', '2.5q', '1.0e-300', '0.1'])
        if k == 'const':
            return rng.choice(['nil', 'true', 'false', 'Processor', 'Smalltalk'])
        if k == 'cls':
            return rng.choice(['Object', 'Object class', 'SimD', 'SimD class', 'Smalltalk', 'SystemExceptions.NotYetImplemented', 'SystemExceptions.NotYetImplemented class'])
        if k == 'shape':
            s = rng.choice(list(SHAPES) + ['character', 'utf32', 'float', 'double'])
            z = rng.choice([0, 1, 2, 5])
            lo, hi = SHAPES.get(s, (0, 0))
            vals = {'character': lambda: '$' + rng.choice('abc'), 'utf32': lambda: rng.choice(['$a', '(Character codePoint: 960)', '(Character codePoint: 128)']), 'float': lambda: rng.choice(['1.5e0 asFloatE', '-0.25 asFloatE', '3 asFloatE']),
                    'double': lambda: rng.choice(['1.5', '0.1', '-1e300'])}.get(s, lambda: str(rng.choice([lo, hi, 0, 1, max(lo, -1), (lo + hi) // 2 + 3])))
            return "((SimS%s new: %d)%s t: %s; yourself)" % (s, z, ''.join(' at: %d put: %s;' % (i + 1, vals()) for i in range(z)), ref())
        if k == 'pt':
            return '(%s @ %s)' % (rng.randint(0, 9), rng.choice(['3', '(1/2)', '4.5']))
        if k == 'arr':
            return '{%s}' % '. '.join(ref() for _ in range(rng.randint(0, 5)))
        if k == 'oc':
            return '(OrderedCollection new%s; yourself)' % ';'.join([''] + [' add: %s' % ref() for _ in range(rng.randint(0, 4))]).lstrip(';') if rng.random() < 0.9 else 'OrderedCollection new'
        key = lambda: rng.choice(["'k%d'" % rng.randint(0, 30), '#s%d' % rng.randint(0, 30), str(rng.randint(0, 10**9)), '(%d/7)' % rng.randint(1, 6), "(SimPair x: %d y: 'u')" % rng.randint(0, 9)])
        if k == 'dict':
            return '(%s new%s; yourself)' % (rng.choice(['Dictionary', 'LookupTable']), ';'.join([''] + [' at: %s put: %s' % (key(), ref()) for _ in range(rng.choice([1, 3, 40]))]).lstrip(';'))
        if k == 'iv':
            return '(IdentityDictionary new%s; yourself)' % ';'.join([''] + [' at: #s%d put: %s' % (rng.randint(0, 30), ref()) for _ in range(rng.choice([1, 3, 40]))]).lstrip(';')
        if k == 'set':
            return '(Set new%s; yourself)' % ';'.join([''] + [' add: %s' % key() for _ in range(rng.choice([1, 3, 40]))]).lstrip(';')
        if k == 'bag':
            return "(SimPair x: (3/4) y: 'bag')"
        if k == 'sd':
            return '(IdentitySet new%s; yourself)' % ';'.join([''] + [' add: #s%d' % rng.randint(0, 30) for _ in range(rng.choice([1, 3, 20]))]).lstrip(';')
        if k == 'fix':
            return '(SimD new a: %s b: %s; yourself)' % (ref(), ref())
        if k == 'pair':
            return '(%s -> %s)' % (ref(), ref())
        if k == 'var':
            z = rng.choice([0, 1, 3])
            return '((SimDX new: %d)%s a: %s b: %s; c: %s; yourself)' % (z, ''.join(' at: %d put: %s;' % (i + 1, ref()) for i in range(z)), ref(), ref(), ref())
        if k == 'uni':
            return "((UnicodeString new: 3) at: 1 put: (Character codePoint: 960); at: 2 put: $a; at: 3 put: (Character codePoint: 128512); yourself)"
        if k == 'bytes':
            return '(ByteArray new: %d withAll: %d)' % (rng.choice([1, 3, 100]), rng.choice([0, 200]))
        return "(Date year: 2001 day: %d hour: 0 minute: 0 second: 0)" % rng.randint(1, 300) if rng.random() < 0.5 else '(Interval from: 1 to: %d)' % rng.randint(1, 99)

    def gen(self, rng, tier):
        files = []
        for i in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 3, 8, 20])
            roots = [[self.node(rng, j), rng.choice([0, 0, 1]), rng.randint(1, j + 1), rng.randint(1, j + 1)] for j in range(n)]
            files.append(dict(pri=rng.choice([3, 4, 4, 5]), roots=roots, mode=rng.choice(['write', 'write', 'mem'])))
        knobs = swarm(rng, gc_p=0.4, max_sp=20000000)
        x = rng.random()
        if x < 0.4:
            knobs['crash_ppm'] = rng.choice([20000, 200000])
        if rng.random() < 0.4:
            knobs['wshort_ppm'] = 200000
        if rng.random() < 0.3:
            knobs['eintr_ppm'] = 100000
        k2 = swarm(rng, gc_p=0.4, max_sp=20000000)
        if rng.random() < 0.4:
            k2['rshort_ppm'] = 300000
        return dict(files=files, knobs=knobs, k2=k2, cuts=[rng.choice([-1, -2, -3, -4, -5, -8, -9, rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 999)]) for _ in range(rng.choice([1, 3, 6]))])

    def build(self, f):
        l = ['| N | N := OrderedCollection new.']
        n = 0
        for e, cyc, i, j in f['roots']:
            n += 1
            l.append('N addLast: %s.' % (e if self.known(e, n) else 'nil'))
            if cyc:
                # a reference to any node, itself included
                l.append('((N at: %d) class == SimD) ifTrue: [(N at: %d) a: (N at: %d) b: (N at: %d)].' % (min(i, n), min(i, n), min(j, n), n))
                l.append('((N at: %d) class == Array and: [(N at: %d) size > 0]) ifTrue: [(N at: %d) at: 1 put: (N at: %d)].' % (min(j, n), min(j, n), min(j, n), n))
        l.append('^N')
        return '\n'.join(l)

    @staticmethod
    def known(e, n):
        """Shrinking may have removed nodes that E names."""
        import re
        return all(int(k) < n for k in re.findall(r'\(N at: (\d+)\)', e))

    def run(self, spec, ctx):
        os.makedirs(ctx.path('data'), exist_ok=True)
        com = CLASSES + '\n'.join('Object subclass: SimF%d [ SimF%d class >> make [ %s ] ]' % (i, i, self.build(f)) for i, f in enumerate(spec['files']))
        l = [com, 'Smalltalk at: #P put: OrderedCollection new.', 'Eval [']
        for i, f in enumerate(spec['files']):
            dump = "SimF%d make do: [:x | Sim log: 'dump %d'. d dump: x]." % (i, i)
            if f['mode'] == 'mem':
                body = ("m := ReadWriteStream on: String new. d := ObjectDumper on: m. %s s := FileStream open: 'data/d%d' mode: FileStream write. s nextPutAll: m contents; close." % (dump, i))
            else:
                body = "s := FileStream open: 'data/d%d' mode: FileStream write. d := ObjectDumper on: s. %s s close." % (i, dump)
            l.append("P addLast: (Sim process: 'd%d' at: %d do: [| s d m | %s Sim log: 'closed %d'])." % (i, f['pri'], body, i))
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 3000 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]")
        r = ctx.phase('\n'.join(l) + '\n', spec['knobs'])
        v = self.vmcheck(r, ('DONE', 'CRASHED')) or self.outcheck(r)
        if v:
            return v
        closed = {int(e.w[1]) for e in r.events if e.w[0] == 'closed'}
        for e in r.events:
            if e.w[0] == 'err':
                return [('dump-error', e.text)]
        self.status = r.status
        l = [com, r'''
Smalltalk at: #Load put: [:name :want :what | | s d got x bad |
    s := FileStream open: name mode: FileStream read. d := ObjectDumper on: s. got := OrderedCollection new. bad := false.
    [[s atEnd or: [got size = want size]] whileFalse: [
        x := d load. got addLast: x.
        (SimIso is: (want first: got size) asArray like: got asArray) ifFalse: [bad := true. Sim log: 'wrong ', what, ' ', got size printString, ' of ', want size printString, ' ', (want at: got size) class printString, ' ', x class printString, ' ', ((want at: got size) isNumber ifTrue: [(want at: got size) printString] ifFalse: ['']), ' ', (x isNumber ifTrue: [x printString] ifFalse: [''])]]]
        on: Error do: [:e | Sim log: 'stop ', what, ' ', got size printString, ' ', e class printString, ' ', e messageText. e return].
    s close.
    Sim log: 'loaded ', what, ' ', got size printString, ' ', want size printString, ' ', bad printString].
Smalltalk at: #P put: OrderedCollection new.
Eval [''']
        n = 0
        for i, f in enumerate(spec['files']):
            p = ctx.path('data/d%d' % i)
            if not os.path.exists(p):
                continue
            data = open(p, 'rb').read()
            one = []
            one.append("Load value: 'data/d%d' value: SimF%d make value: 'all d%d'." % (i, i, i))
            for c in spec['cuts']:
                z = len(data) + c if c < 0 else len(data) * c // 1000
                if z < 0:
                    continue
                with open(ctx.path('data/c%d' % n), 'wb') as o:
                    o.write(data[:z])
                one.append("Load value: 'data/c%d' value: SimF%d make value: 'cut d%d'." % (n, i, i))
                n += 1
            l.append("P addLast: (Sim process: 'l%d' at: %d do: [%s])." % (i, f['pri'], '\n'.join(one)))
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 3000 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]")
        b = ctx.phase('\n'.join(l) + '\n', spec['k2'])
        v = self.vmcheck(b) or self.outcheck(b)
        if v:
            return v
        self.stops = 0
        for e in b.events:
            w = e.w
            if w[0] == 'err':
                return [('error', e.text)]
            if w[0] == 'wrong':
                return [('wrong-' + w[1], 'a loaded object differs from the one dumped (%s, object %s)' % (w[2], ' '.join(w[3:])))]
            if w[0] == 'stop':
                self.stops += 1
                if w[1] == 'all' and int(w[2][1:]) in closed:
                    return [('load-error', 'a complete dump cannot be loaded: %s' % e.text)]
            if w[0] == 'loaded' and w[1] == 'all' and int(w[2][1:]) in closed and w[3] != w[4]:
                return [('short', 'a complete dump holds %s of %s objects' % (w[3], w[4]))]
        if b.status == 'DONE' and sum(e.w[0] == 'loaded' for e in b.events) < n:
            return [('lost', 'a load did not return')]
        return []

    def probes(self, spec, ctx):
        p = ['loaded after ' + ctx.runs[0].status] if len(ctx.runs) > 1 else []
        if len(ctx.runs) > 1 and any(e.w[0] == 'stop' for e in ctx.runs[1].events):
            p.append('a cut dump refused')
        return p
