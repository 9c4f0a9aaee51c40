"""P20 and P23: the object graph, seen by programs which run while collections of all kinds happen.

Each process interprets a list of operations on a graph of objects hung from its roots: arrays, instances with
named and indexed variables, ordered collections, dictionaries, closures, leaves of all sorts.  The same operations
are applied to a model of the graph here, and the dumps which the program logs are compared line by line."""
from collections import deque
from core import Prop
from props.util import swarm, started, st

SUPPORT = r"""
Object subclass: SimNode [
    | id mark a b c d |
    simId [ ^id ] simId: n [ id := n ] simMark [ ^mark ] simMark: n [ mark := n ]
    simAt: i [ ^self instVarAt: i + 2 ]
    simAt: i put: x [ ^self instVarAt: i + 2 put: x ]
    simKind [ ^'N' ]
]
SimNode subclass: SimNode2 [ simKind [ ^'M' ] ]
Array extend [
    simId [ ^self at: 1 ] simId: n [ self at: 1 put: n ] simMark [ ^self at: 2 ] simMark: n [ self at: 2 put: n ]
    simAt: i [ ^self at: 3 + (i - 1 * (self size - 2 // 4)) ]
    simAt: i put: x [ ^self at: 3 + (i - 1 * (self size - 2 // 4)) put: x ]
    simKind [ ^'A' ]
]
Object subclass: SimVar [
    | id mark |
    <shape: #pointer>
    simId [ ^id ] simId: n [ id := n ] simMark [ ^mark ] simMark: n [ mark := n ]
    simAt: i [ ^self at: 1 + (i - 1 * (self size // 4)) ]
    simAt: i put: x [ ^self at: 1 + (i - 1 * (self size // 4)) put: x ]
    simKind [ ^'V' ]
]
OrderedCollection subclass: SimOC [
    | id mark |
    <shape: #pointer>
    simId [ ^id ] simId: n [ id := n ] simMark [ ^mark ] simMark: n [ mark := n ]
    simInit [ 4 timesRepeat: [self addLast: nil] ]
    copyEmpty: n [ ^(super copyEmpty: n) simId: id; simMark: mark; yourself ]
    simAt: i [ ^self at: i ]
    simAt: i put: x [ ^self at: i put: x ]
    simRotate: n [ n timesRepeat: [self addLast: self removeFirst] ]
    simPad: n [ n timesRepeat: [self addLast: n printString]. n timesRepeat: [self removeLast] ]
    simPadFirst: n [ n timesRepeat: [self addFirst: n printString]. n timesRepeat: [self removeFirst] ]
    simKind [ ^'O' ]
]
Object subclass: SimDic [
    | id mark dict keys |
    simId [ ^id ] simId: n [ id := n ] simMark [ ^mark ] simMark: n [ mark := n ]
    simInit: aClass [ dict := aClass new. keys := (1 to: 4) collect: [:i | Object new] ]
    simAt: i [ ^dict at: (keys at: i) ifAbsent: [nil] ]
    simAt: i put: x [ x isNil ifTrue: [dict removeKey: (keys at: i) ifAbsent: []] ifFalse: [dict at: (keys at: i) put: x] ]
    simPad: n [ | o | o := (1 to: n) collect: [:i | Object new]. o do: [:e | dict at: e put: e]. o do: [:e | dict removeKey: e] ]
    simKind [ ^'D' ]
]
Object subclass: SimClo [
    | id mark get set |
    simId [ ^id ] simId: n [ id := n ] simMark [ ^mark ] simMark: n [ mark := n ]
    simInit [ get := Array new: 4. set := Array new: 4. 1 to: 4 do: [:i | self simInit: i] ]
    simInit: i [ | v | get at: i put: [v]. set at: i put: [:x | v := x] ]
    simAt: i [ ^(get at: i) value ]
    simAt: i put: x [ ^(set at: i) value: x ]
    simKind [ ^'C' ]
]
Object subclass: SimMem [
    | tag r stamp late hashes |
    tag: s [ tag := s. r := Array new: 7. stamp := 0. late := OrderedCollection new. hashes := OrderedCollection new ]
    run: ops [ ops do: [:op | self perform: op first withArguments: op allButFirst] ]

    make: kind id: n size: k [
        | o |
        kind = #N ifTrue: [o := SimNode new].
        kind = #A ifTrue: [o := Array new: 4 * k + 2].
        kind = #V ifTrue: [o := SimVar new: 4 * k].
        kind = #O ifTrue: [o := (SimOC new: k) simInit; yourself].
        kind = #D ifTrue: [o := SimDic new simInit: (k = 1 ifTrue: [IdentityDictionary] ifFalse: [LookupTable]); yourself].
        kind = #C ifTrue: [o := SimClo new simInit; yourself].
        o simId: n; simMark: 0.
        ^o
    ]
    new: i kind: kind id: n size: k [ r at: i put: (self make: kind id: n size: k) ]
    mov: i to: j [ r at: j put: (r at: i) ]
    drop: i [ r at: i put: nil ]
    ref: i at: s put: j [ (r at: i) simAt: s put: (r at: j) ]
    clear: i at: s [ (r at: i) simAt: s put: nil ]
    get: i at: s to: j [ r at: j put: ((r at: i) simAt: s) ]
    leaf: i at: s kind: kind text: t [
        | o |
        kind = #str ifTrue: [o := t copy].
        kind = #sym ifTrue: [o := t asSymbol].
        kind = #byt ifTrue: [o := t asByteArray].
        kind = #num ifTrue: [o := t asNumber].
        kind = #big ifTrue: [o := String new: t asNumber withAll: $x].
        kind = #assoc ifTrue: [o := t copy -> t size].
        (r at: i) simAt: s put: o
    ]
    mut: i at: s pos: p put: c [ ((r at: i) simAt: s) at: p put: c ]
    share: i at: s with: j at: u [ (r at: j) simAt: u put: ((r at: i) simAt: s) ]
    rot: i by: n [ (r at: i) simRotate: n ]
    pad: i by: n [ (r at: i) simPad: n ]
    padf: i by: n [ (r at: i) simPadFirst: n ]
    copy: i to: j id: n [ r at: j put: ((r at: i) copy simId: n; yourself) ]
    scopy: i to: j id: n [ r at: j put: ((r at: i) shallowCopy simId: n; yourself) ]
    junk: n size: k [ n timesRepeat: [Array new: k. (String new: k) , 'x'] ]
    chain: n to: i id: base [ | p | p := nil. n to: 1 by: -1 do: [:k | | q | q := SimNode new simId: base + k; simMark: 0; yourself. q simAt: 1 put: p. p := q]. r at: i put: p ]
    gc: k [ Sim gc: k ]
    mem: k [
        k = 1 ifTrue: [^ObjectMemory scavenge]. k = 2 ifTrue: [^ObjectMemory globalGarbageCollect].
        k = 3 ifTrue: [^ObjectMemory compact]. k = 4 ifTrue: [^ObjectMemory incrementalGCStep].
        k = 5 ifTrue: [^ObjectMemory finishIncrementalGC]. k = 6 ifTrue: [^ObjectMemory growTo: 20000000]
    ]
    yield [ Processor yield ]
    sleep [ (Delay forMilliseconds: 1) wait ]
    deep: n id: base ops: ops [
        | x y z |
        x := SimNode new simId: base + n; simMark: 0; yourself.
        y := base printString , 'x'. z := [:q | q + n. x].
        n = 0 ifTrue: [self run: ops] ifFalse: [self deep: n - 1 id: base ops: ops].
        ((z value: 1) == x and: [x simId = (base + n) and: [y = (base printString , 'x')]]) ifFalse: [Sim log: 'BADFRAME ', tag with: n with: base]
    ]
    hold: i ops: ops [ | x | x := r at: i. self run: ops. r at: i put: x ]
    late: i [ | x | x := r at: i. late addLast: [x] ]
    collect: i [ r at: i put: late removeFirst value ]
    text: n seed: s [ | w | w := WriteStream on: String new. 1 to: n do: [:k | w nextPutAll: (k * s) printString; space]. Sim log: 't ', tag with: (w contents inject: 0 into: [:h :c | h * 31 + c value \\ 1000003]) ]
    large: n seed: s [ | w | w := s. n timesRepeat: [w := w * w + 1 \\ (1 bitShift: 200)]. Sim log: 't ', tag with: w \\ 1000003 ]
    sort: n seed: s [ | c x | x := s. c := (1 to: n) asOrderedCollection collect: [:k | x := x * 1103 + 12345 \\ 65537. x printString]. c := c asArray asSortedCollection: [:p :q | p < q]. Sim log: 't ', tag with: (c inject: 0 into: [:h :e | h * 31 + (e inject: 0 into: [:m :ch | m + ch value]) \\ 1000003]) ]
    put: n ch: ch id: base [ self chain: n to: 7 id: base. ((Smalltalk at: #Ch) at: ch) nextPut: (r at: 7). r at: 7 put: nil ]
    take: i ch: ch [ r at: i put: ((Smalltalk at: #Ch) at: ch) next ]

    swap: i with: j [ self unhash: (r at: i). self unhash: (r at: j). (r at: i) become: (r at: j) ]
    forward: i to: j [ self unhash: (r at: i). self unhash: (r at: j). (r at: i) becomeForward: (r at: j) ]
    exch: l with: m [ | p q | p := l collect: [:e | r at: e]. q := m collect: [:e | r at: e]. p do: [:e | self unhash: e]. q do: [:e | self unhash: e]. p multiBecome: q ]
    chclass: i to: k [ (r at: i) changeClassTo: (k = 1 ifTrue: [SimNode] ifFalse: [SimNode2]) ]
    hash: i [ hashes addLast: (r at: i); addLast: (r at: i) identityHash; addLast: (IdentitySet with: (r at: i)) ]
    unhash: o [ | k | k := 1. [k > hashes size] whileFalse: [(hashes at: k) == o ifTrue: [3 timesRepeat: [hashes removeAtIndex: k]] ifFalse: [k := k + 3]] ]
    frame: i with: j ops: ops [
        "References to both objects from frames, closures and locals, across a become:"
        | x y bx by |
        x := r at: i. y := r at: j. bx := [x]. by := [:dummy | y].
        self run: ops.
        self show: x. self show: y. self show: bx value. self show: (by value: 1)
    ]
    show: o [ Sim log: 's ', tag with: (self str: o) ]
    str: o [
        | k |
        o isNil ifTrue: [^'-'].
        (o isKindOf: SimNode) | (o class == SimVar) | (o class == SimOC) | (o class == SimDic) | (o class == SimClo) | (o class == Array)
            ifTrue: [^o simKind , o simId printString].
        o isSymbol ifTrue: [^((Symbol intern: o asString) == o ifTrue: ['y:'] ifFalse: ['BADSYM:']) , o].
        o isString ifTrue: [o size > 50 ifTrue: [^'b:' , o size printString , (o = (String new: o size withAll: $x) ifTrue: [''] ifFalse: [' damaged'])]. ^'s:' , o].
        o class == ByteArray ifTrue: [^'a:' , o asString].
        o class == Association ifTrue: [^'c:' , o key , o value printString].
        ^'n:' , o printString
    ]
    dump [
        | q |
        stamp := stamp + 1.
        q := OrderedCollection new.
        r do: [:o | self visit: o in: q].
        Sim log: 'd ', tag with: (r inject: '' into: [:s :o | s , ' ' , (self str: o)]).
        [q isEmpty] whileFalse: [ | n l |
            n := q removeFirst.
            l := n simKind , n simId printString.
            1 to: 4 do: [:i | | v | v := n simAt: i. self visit: v in: q. l := l , ' ' , (self str: v)].
            Sim log: 'n ', tag with: l].
        1 to: hashes size by: 3 do: [:k |
            ((hashes at: k) identityHash = (hashes at: k + 1) and: [(hashes at: k + 2) includes: (hashes at: k)])
                ifFalse: [Sim log: 'BADHASH ', tag with: (self str: (hashes at: k))]]
    ]
    visit: o in: q [
        | s |
        o isNil ifTrue: [^self].
        (o isKindOf: SimNode) | (o class == SimVar) | (o class == SimOC) | (o class == SimDic) | (o class == SimClo) | (o class == Array)
            ifFalse: [^self].
        o simMark = stamp ifTrue: [^self].
        o simMark: stamp.
        q addLast: o
    ]
]
"""


class Node:
    __slots__ = ('kind', 'id', 's', 'size')

    def __init__(self, kind, id, size):
        self.kind, self.id, self.size, self.s = kind, id, size, [None] * 4

    def swap(self, o):
        for a in self.__slots__:
            x, y = getattr(self, a), getattr(o, a)
            setattr(self, a, y)
            setattr(o, a, x)


class Leaf:
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def show(o):
    if o is None:
        return '-'
    if isinstance(o, Node):
        return o.kind + str(o.id)
    if o.kind == 'big':
        return 'b:%d' % int(o.v)
    if o.kind == 'assoc':
        return 'c:%s%d' % (o.v, len(o.v))
    return {'str': 's', 'sym': 'y', 'byt': 'a', 'num': 'n'}[o.kind] + ':' + o.v


class Skip(Exception):
    pass


class Model:
    """What the operations of one process do.  An operation that makes no sense in the present state is skipped
    (in the program too), so that shrunk programs stay valid."""

    def __init__(self, tag, chans):
        self.tag, self.r, self.chans = tag, [None] * 7, chans
        self.late, self.exp, self.frames = deque(), [], []

    def node(self, i, kinds=None):
        o = self.r[i - 1]
        if not isinstance(o, Node) or kinds and o.kind not in kinds:
            raise Skip
        return o

    def ops(self, l):
        out = []
        for o in l:
            try:
                c = self.op(o)
            except Skip:
                continue
            out.append(c)
        return out

    def op(self, o):
        k, r = o[0], self.r
        e = lambda *a: [k] + list(a)
        if k == 'new':
            _, i, kind, num, size = o
            r[i - 1] = Node(kind, num, size)
            return ['new:kind:id:size:', i, S(kind), num, size]
        if k == 'mov':
            r[o[2] - 1] = r[o[1] - 1]
            return ['mov:to:', o[1], o[2]]
        if k == 'drop':
            r[o[1] - 1] = None
            return ['drop:', o[1]]
        if k == 'ref':
            self.node(o[1]).s[o[2] - 1] = self.node(o[3])
            return ['ref:at:put:', *o[1:]]
        if k == 'clear':
            self.node(o[1]).s[o[2] - 1] = None
            return ['clear:at:', *o[1:]]
        if k == 'get':
            x = self.node(o[1]).s[o[2] - 1]
            if not isinstance(x, Node):
                raise Skip
            r[o[3] - 1] = x
            return ['get:at:to:', *o[1:]]
        if k == 'leaf':
            self.node(o[1]).s[o[2] - 1] = Leaf(o[3], o[4])
            return ['leaf:at:kind:text:', o[1], o[2], S(o[3]), o[4]]
        if k == 'mut':
            x = self.node(o[1]).s[o[2] - 1]
            if not isinstance(x, Leaf) or x.kind not in ('str', 'byt') or len(x.v) < o[3]:
                raise Skip
            x.v = x.v[:o[3] - 1] + o[4] + x.v[o[3]:]
            return ['mut:at:pos:put:', o[1], o[2], o[3], C(o[4]) if x.kind == 'str' else ord(o[4])]
        if k == 'share':
            x, y = self.node(o[1]), self.node(o[3])
            y.s[o[4] - 1] = x.s[o[2] - 1]
            return ['share:at:with:at:', *o[1:]]
        if k == 'rot':
            x = self.node(o[1], 'O')
            for _ in range(o[2]):
                x.s.append(x.s.pop(0))
            return ['rot:by:', *o[1:]]
        if k in ('pad', 'padf'):
            self.node(o[1], 'OD' if k == 'pad' else 'O')
            return [k + ':by:', *o[1:]]
        if k in ('copy', 'scopy'):
            x = self.node(o[1], 'NMAVO')
            if k == 'copy' and x.kind == 'O':
                pass
            y = Node(x.kind, o[3], x.size)
            y.s = list(x.s)
            r[o[2] - 1] = y
            return [k + ':to:id:', *o[1:]]
        if k == 'junk':
            return ['junk:size:', *o[1:]]
        if k == 'chain':
            r[o[2] - 1] = self.chain(o[1], o[3])
            return ['chain:to:id:', *o[1:]]
        if k == 'gc':
            return ['gc:', o[1]]
        if k == 'mem':
            return ['mem:', o[1]]
        if k in ('yield', 'sleep'):
            return [k]
        if k == 'deep':
            return ['deep:id:ops:', o[1], o[2], self.ops(o[3])]
        if k == 'hold':
            x = r[o[1] - 1]
            self.frames.append([x])
            c = self.ops(o[2])
            r[o[1] - 1] = self.frames.pop()[0]
            return ['hold:ops:', o[1], c]
        if k == 'late':
            self.late.append([r[o[1] - 1]])
            return ['late:', o[1]]
        if k == 'collect':
            if not self.late:
                raise Skip
            r[o[1] - 1] = self.late.popleft()[0]
            return ['collect:', o[1]]
        if k == 'text':
            h = 0
            for c in ''.join('%d ' % (i * o[2]) for i in range(1, o[1] + 1)):
                h = (h * 31 + ord(c)) % 1000003
            self.exp.append('t %s %d' % (self.tag, h))
            return ['text:seed:', *o[1:]]
        if k == 'large':
            w = o[2]
            for _ in range(o[1]):
                w = (w * w + 1) % (1 << 200)
            self.exp.append('t %s %d' % (self.tag, w % 1000003))
            return ['large:seed:', *o[1:]]
        if k == 'sort':
            x, c = o[2], []
            for _ in range(o[1]):
                x = (x * 1103 + 12345) % 65537
                c.append(str(x))
            h = 0
            for e in sorted(c):
                h = (h * 31 + sum(map(ord, e))) % 1000003
            self.exp.append('t %s %d' % (self.tag, h))
            return ['sort:seed:', *o[1:]]
        if k == 'put':
            self.chans.setdefault(o[2], deque()).append((o[1], o[3]))
            r[6] = None
            return ['put:ch:id:', *o[1:]]
        if k == 'take':
            q = self.chans.get(o[2])
            if not q:
                raise Skip
            r[o[1] - 1] = self.chain(*q.popleft())
            return ['take:ch:', *o[1:]]
        if k == 'swap':
            x, y = self.node(o[1]), self.node(o[2])
            if x is not y:
                x.swap(y)
            return ['swap:with:', *o[1:]]
        if k == 'exch':
            l, m = o[1:]
            xs = [self.node(i) for i in l + m]
            if len({id(x) for x in xs}) != len(xs):
                raise Skip
            for a, b in zip(l, m):
                self.node(a).swap(self.node(b))
            return ['exch:with:', A(l), A(m)]
        if k == 'forward':
            x, y = self.node(o[1]), self.node(o[2])
            if x is y:
                raise Skip
            self.redirect(x, y)
            return ['forward:to:', *o[1:]]
        if k == 'chclass':
            x = self.node(o[1], 'NM')
            x.kind = 'N' if o[2] == 1 else 'M'
            return ['chclass:to:', *o[1:]]
        if k == 'hash':
            self.node(o[1])
            return ['hash:', o[1]]
        if k == 'frame':
            f = [self.node(o[1]), self.node(o[2])]
            self.frames.append(f)
            c = self.ops(o[3])
            self.frames.pop()
            for x in f + f:
                self.exp.append('s %s %s' % (self.tag, show(x)))
            return ['frame:with:ops:', o[1], o[2], c]
        if k == 'dump':
            self.dump()
            return ['dump']
        raise ValueError(k)

    def chain(self, n, base):
        p = None
        for i in range(n, 0, -1):
            q = Node('N', base + i, 1)
            q.s[0] = p
            p = q
        return p

    def everything(self):
        """All lists of references."""
        yield self.r
        yield from self.late
        yield from self.frames
        seen, todo = set(), [o for l in [self.r, *self.late, *self.frames] for o in l]
        while todo:
            o = todo.pop()
            if isinstance(o, Node) and id(o) not in seen:
                seen.add(id(o))
                yield o.s
                todo += o.s

    def redirect(self, x, y):
        for l in list(self.everything()):
            for i, o in enumerate(l):
                if o is x:
                    l[i] = y

    def dump(self):
        self.exp.append('d %s  %s' % (self.tag, ' '.join(show(o) for o in self.r)))
        seen, q = set(), deque()

        def visit(o):
            if isinstance(o, Node) and id(o) not in seen:
                seen.add(id(o))
                q.append(o)
        for o in self.r:
            visit(o)
        while q:
            n = q.popleft()
            for o in n.s:
                visit(o)
            self.exp.append('n %s %s%d %s' % (self.tag, n.kind, n.id, ' '.join(show(o) for o in n.s)))


class S(str):
    """A symbol."""


class C(str):
    """A character."""


class A(list):
    """A literal array of numbers."""


def lit(x):
    if isinstance(x, S):
        return '#' + x
    if isinstance(x, C):
        return '$' + x
    if isinstance(x, list):
        return '(' + ' '.join(lit(y) if not (i == 0 and isinstance(y, str) and not isinstance(x, A)) else '#' + y for i, y in enumerate(x)) + ')'
    if isinstance(x, str):
        return st(x)
    return str(x)


def oplist(l):
    return '#(' + ' '.join(lit(x) for x in l) + ')'


class Graph(Prop):
    lists = ('procs', 'ops')
    bias = {}

    def words(self, rng):
        return rng.choice(['', 'q', 'abc', 'hello', 'x' * 30, 'Zebra7', 'ab' * 8])

    def gen(self, rng, tier):
        np = rng.choice([1, 1, 2, 3, 4])
        ids = [0]
        big = rng.random() < 0.4
        kinds = rng.sample(['N', 'A', 'V', 'O', 'D', 'C'], rng.randint(2, 6))
        w = {'new': 10, 'mov': 3, 'drop': 3, 'ref': 14, 'clear': 2, 'get': 8, 'leaf': 8, 'mut': 4, 'share': 4, 'rot': 2,
             'pad': 2, 'padf': 1, 'copy': 2, 'scopy': 2, 'junk': 4, 'chain': 1, 'gc': 5, 'mem': 1, 'yield': 1, 'sleep': 0.5,
             'deep': 1, 'hold': 1.5, 'late': 1.5, 'collect': 1.5, 'text': 1, 'large': 0.7, 'sort': 0.7, 'put': 1, 'take': 1,
             'swap': 1, 'exch': 0.3, 'forward': 0.6, 'chclass': 0.5, 'hash': 2, 'frame': 0.7, 'dump': 1}
        w.update(self.bias)
        for k in w:
            if rng.random() < 0.25 and k not in self.keep:
                w[k] = 0
        names, weights = list(w), list(w.values())
        n_ids = lambda n: ids.__setitem__(0, ids[0] + n) or ids[0] - n
        root = lambda: rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
        slot = lambda: rng.randint(1, 4)
        live = {}

        def one(p, depth, recur):
            k = rng.choices(names, weights)[0]
            if k == 'new':
                kind = rng.choice(kinds)
                size = rng.choice([1, 1, 2, 5, 30, 1000, 6000] if big and rng.random() < 0.3 else [1, 1, 1, 2, 8])
                return [k, root(), kind, n_ids(1), size]
            if k == 'mov' or k in ('swap', 'forward'):
                return [k, root(), root()]
            if k in ('drop', 'late', 'collect', 'hash'):
                return [k, root()]
            if k == 'ref':
                return [k, root(), slot(), root()]
            if k == 'clear':
                return [k, root(), slot()]
            if k == 'get':
                return [k, root(), slot(), root()]
            if k == 'leaf':
                kind = rng.choice(['str', 'str', 'sym', 'byt', 'num', 'assoc', 'big'])
                t = self.words(rng)
                if kind == 'sym':
                    t = rng.choice(['foo', 'bar%d' % rng.randrange(5), 'new%d' % n_ids(1)])
                if kind == 'num':
                    t = rng.choice(['123456789012345678901234567890', '-98765432109876543210', '1.5', '100.25', '1073741824', '4611686018427387904', '7'])
                if kind == 'big':
                    t = str(rng.choice([60, 1000, 20000, 70000]))
                return [k, root(), slot(), kind, t]
            if k == 'mut':
                return [k, root(), slot(), rng.randint(1, 4), rng.choice('abcXYZ09')]
            if k == 'share':
                return [k, root(), slot(), root(), slot()]
            if k == 'rot':
                return [k, root(), rng.choice([1, 2, 3, 7, 50])]
            if k in ('pad', 'padf'):
                return [k, root(), rng.choice([1, 5, 40, 200])]
            if k in ('copy', 'scopy'):
                return [k, root(), root(), n_ids(1)]
            if k == 'junk':
                return [k, rng.choice([1, 10, 100]), rng.choice([0, 1, 10, 100, 1000])]
            if k == 'chain':
                n = rng.choice([1, 10, 10, 60, 60, 300])
                return [k, n, root(), n_ids(n + 1)]
            if k == 'gc':
                return [k, rng.choice([1, 1, 2, 3, 4])]
            if k == 'mem':
                return [k, rng.randint(1, 6)]
            if k in ('yield', 'sleep', 'dump'):
                return [k]
            if k == 'deep':
                n = rng.choice([1, 10, 60, 300])
                return [k, n, n_ids(n + 1), ops(p, rng.randint(1, 4), depth - 1)] if depth else ['yield']
            if k == 'hold':
                return [k, root(), ops(p, rng.randint(1, 5), depth - 1)] if depth else ['yield']
            if k == 'frame':
                return [k, root(), root(), ops(p, rng.randint(1, 5), depth - 1)] if depth else ['yield']
            if k in ('text', 'sort'):
                return [k, rng.choice([5, 50, 150]), rng.randint(1, 999)]
            if k == 'large':
                return [k, rng.choice([5, 60]), rng.randint(1, 999)]
            if k == 'exch':
                l = rng.sample(range(1, 7), 4)
                return [k, l[:2], l[2:]]
            if k == 'chclass':
                return [k, root(), rng.randint(1, 2)]
            if k == 'put':
                n = rng.choice([1, 5, 50])
                return [k, n, '%d%d' % (p, rng.randrange(np)), n_ids(n + 1)]
            if k == 'take':
                return [k, root(), '%d%d' % (rng.randrange(np), p)]
            raise ValueError(k)

        def ops(p, n, depth):
            return [one(p, depth, True) for _ in range(n)]
        procs = [dict(pri=rng.choice([3, 4, 4, 4, 5]), ops=[]) for _ in range(np)]
        total = rng.choice([10, 30, 60, 120])
        # one global order: what a process takes has been put earlier in it, so nobody waits forever
        order = []
        for i in range(total):
            p = rng.randrange(np)
            order.append([p, one(p, 2, False)])
            if i % 12 == 11:
                order.append([p, ['dump']])
        mem = {}
        if rng.random() < 0.3:
            mem['bigObjectThreshold:'] = rng.choice([100, 2000, 100000])
        if rng.random() < 0.3:
            mem['growThresholdPercent:'] = rng.choice([20, 60, 90])
        knobs = swarm(rng, gc_p=0.7, max_sp=60000000)
        return dict(pri=[rng.choice([3, 4, 4, 4, 5]) for _ in range(np)], ops=order, mem=mem, knobs=knobs)

    def render(self, spec):
        n = len(spec['pri'])
        chans = {}
        models = [Model('p%d' % i, chans) for i in range(n)]
        prog = [[] for _ in range(n)]
        for p, o in spec['ops']:
            try:
                prog[p].append(models[p].op(o))
            except Skip:
                pass
        for p in range(n):
            models[p].dump()
            prog[p].append(['dump'])
        self.models = models
        l = [SUPPORT, 'Smalltalk at: #P put: nil; at: #Ch put: nil.', 'Eval [', 'P := Array new: %d.' % n,
             'Ch := LookupTable new. 0 to: %d do: [:i | 0 to: %d do: [:j | Ch at: i printString, j printString put: SharedQueue new]].' % (n - 1, n - 1)]
        for k, v in sorted(spec['mem'].items()):
            l.append('ObjectMemory %s %s.' % (k, v))
        for i in range(n):
            l.append("P at: %d put: (Sim process: 'p%d' at: %d do: [(SimMem new tag: 'p%d'; yourself) run: %s])." % (
                i + 1, i, spec['pri'][i], i, oplist(prog[i])))
        l.append('Sim begin.')
        for i in range(n):
            l.append(started(i))
        l.append("Sim drain: 200 until: [P allSatisfy: [:p | p isTerminated]].")
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r) or self.outcheck(r)
        return v or self.judge(spec, r)

    def judge(self, spec, r):
        got = {}
        for e in r.events:
            if e.w[0] == 'err' or e.w[0].startswith('BAD'):
                return [(e.w[0].lower(), e.text)]
            if len(e.w) > 1:
                got.setdefault(e.w[1], []).append(e.text)
        for m in self.models:
            g = got.get(m.tag, [])
            if not g or g[-1] != 'end ' + m.tag:
                return [('not-finished', '%s did not finish: %s' % (m.tag, g[-1:]))]
            g.pop()
            for i, x in enumerate(m.exp):
                y = g[i] if i < len(g) else 'nothing'
                if x.rstrip() != y.rstrip():
                    return [('graph', '%s: line %d is "%s" where the program built "%s"' % (m.tag, i, y, x))]
            if len(g) != len(m.exp):
                return [('graph', '%s: %d lines instead of %d' % (m.tag, len(g), len(m.exp)))]
        return []

    def probes(self, spec, ctx):
        res = set()

        def walk(l):
            for o in l:
                res.add('op-' + o[0])
                if isinstance(o[-1], list) and o[-1] and isinstance(o[-1][0], list):
                    walk(o[-1])
        walk([o for _, o in spec['ops']])
        return res


class P20(Graph):
    id = 'P20'
    technique = 'seeded collections of every kind at seeded allocations while interleaved processes change object graphs; the graphs are dumped and compared with a reference graph'
    keep = ('new', 'ref', 'gc')


class P23(Graph):
    id = 'P23'
    technique = 'seeded become:, becomeForward: and identity hashing on object graphs referenced from variables, frames, closures and collections, with collections and switches in between, compared with a reference graph'
    bias = {'swap': 10, 'exch': 3, 'forward': 8, 'chclass': 2, 'hash': 10, 'frame': 8, 'hold': 4, 'late': 3, 'collect': 3, 'put': 0.3}
    keep = ('new', 'ref', 'swap', 'forward', 'frame')
