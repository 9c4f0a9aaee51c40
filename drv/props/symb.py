"""P24: symbols.

Processes intern the same and similar spellings in every way there is, while the collector runs; whenever one gets a
symbol, it must be the same object as every other one with this spelling, and have the right contents."""
from core import Prop
from props.util import swarm, started, st

SUPPORT = r"""
Object subclass: SimSym [
    | tag b |
    tag: s [ tag := s ]
    str: k [ ^((Smalltalk at: #Sp) at: k) asString ]
    eval: s [ ^(Smalltalk at: #Lk) critical: [Behavior evaluate: s] ]
    got: s for: k by: how [
        | t e h x |
        t := Smalltalk at: #T. e := (Smalltalk at: #Sp) at: k.
        (t at: k) isNil ifTrue: [(Smalltalk at: #H) at: k put: s identityHash. t at: k put: s].
        h := (Smalltalk at: #H) at: k. x := t at: k.
        (x == s or: [x isNil]) ifFalse: [^Sim log: 'TWO ', tag with: k with: how].
        s class == Symbol ifFalse: [^Sim log: 'CLASS ', tag with: k with: how].
        s asByteArray = e ifFalse: [^Sim log: 'CHARS ', tag with: k with: how , ' ' , s size printString].
        (h isNil or: [s identityHash = h]) ifFalse: [^Sim log: 'HASH ', tag with: k with: how].
        s = e asString asSymbol ifFalse: [^Sim log: 'EQUAL ', tag with: k with: how].
        Sim log: 'sym ', tag with: k with: how
    ]
    intern: k by: how [
        | s t x |
        how = #asSymbol ifTrue: [^self got: (self str: k) asSymbol for: k by: how].
        how = #intern ifTrue: [^self got: (Symbol intern: (self str: k)) for: k by: how].
        how = #chars ifTrue: [
            s := self str: k.
            s size = 1 ifTrue: [x := k even ifTrue: [Symbol internCharacter: s first] ifFalse: [s first asSymbol]].
            s size = 2 ifTrue: [x := Symbol with: (s at: 1) with: (s at: 2)].
            s size = 3 ifTrue: [x := Symbol with: (s at: 1) with: (s at: 2) with: (s at: 3)].
            s size = 4 ifTrue: [x := Symbol with: (s at: 1) with: (s at: 2) with: (s at: 3) with: (s at: 4)].
            s size = 5 ifTrue: [x := Symbol with: (s at: 1) with: (s at: 2) with: (s at: 3) with: (s at: 4) with: (s at: 5)].
            x isNil ifTrue: [x := s asSymbol].
            ^self got: x for: k by: how].
        how = #cat ifTrue: [s := self str: k. x := s size // 2. ^self got: ((s copyFrom: 1 to: x) , (s copyFrom: x + 1)) asSymbol for: k by: how].
        how = #stream ifTrue: [t := WriteStream on: String new. (self str: k) do: [:c | t nextPut: c]. ^self got: t contents asSymbol for: k by: how].
        how = #again ifTrue: [^self got: (self str: k) asSymbol asString asSymbol for: k by: how].
        how = #mutated ifTrue: [
            s := (self str: k) copy. x := s asSymbol. s isEmpty ifFalse: [s at: 1 put: $!. s at: s size put: $!]. ^self got: x for: k by: how].
        how = #readonly ifTrue: [
            x := (self str: k) asSymbol.
            x size > 0 ifTrue: [[x at: 1 put: $!. Sim log: 'WRITTEN ', tag with: k with: how] on: Error do: [:e | e return]].
            ^self got: x for: k by: how].
        how = #copy ifTrue: [x := (self str: k) asSymbol. ^self got: (k even ifTrue: [x copy] ifFalse: [x deepCopy]) for: k by: how].
        how = #eval ifTrue: [^self got: (self eval: '#', (self str: k) asSymbol printString allButFirst) for: k by: how].
        how = #quoted ifTrue: [^self got: (self eval: '#', (self str: k) printString) for: k by: how].
        how = #array ifTrue: [^self got: ((self eval: '#(1 #', (self str: k) printString, ' 2)') at: 2) for: k by: how].
        how = #stored ifTrue: [^self got: (self eval: (self str: k) asSymbol storeString) for: k by: how].
        how = #method ifTrue: [^self got: (self eval: '[:y | y == nil ifTrue: [#', (self str: k) printString, ']] value: nil') for: k by: how].
        how = #selector ifTrue: [
            "The selector of a message that is not understood, as the compiler made it."
            x := self eval: '[Object new ', (self str: k), '] on: MessageNotUnderstood do: [:e | e return: e message selector]'.
            ^self got: x for: k by: how].
        how = #asked ifTrue: [
            (Symbol hasInterned: (self str: k) ifTrue: [:y | self got: y for: k by: how]) ifFalse: [Sim log: 'none ', tag with: k].
            ^self].
        self error: how
    ]
    ask: k [
        | r q |
        Sim log: 'ask ', tag with: k.
        r := Symbol isSymbolString: (self str: k).
        q := Symbol hasInterned: (self str: k) ifTrue: [:y | self got: y for: k by: #ask].
        Sim log: 'is ', tag with: k with: r printString, ' ', q printString
    ]
    keywords: k [
        | x e |
        x := (self str: k) asSymbol keywords. e := (self str: k) substrings: ':'.
        (x collect: [:each | each asString]) asArray = (e collect: [:each | each , ':']) asArray ifFalse: [^Sim log: 'KEYWORDS ', tag with: k].
        x do: [:each | each == (each asString asSymbol) ifFalse: [^Sim log: 'TWO ', tag with: k with: #keywords]]
    ]
    drop: k [ (Smalltalk at: #T) at: k put: nil. (Smalltalk at: #H) at: k put: nil ]
    gc: k [ Sim gc: k ]
    rebuild [ Symbol rebuildTable ]
    yield [ Processor yield ]
    junk: n [ n timesRepeat: [Array new: n. String new: n * 3] ]
    run: ops [ ops do: [:op | self perform: op first withArguments: op allButFirst] ]
]
"""
ANY = ['asSymbol', 'asSymbol', 'intern', 'cat', 'stream', 'again', 'mutated', 'readonly', 'copy', 'chars', 'asked']
TEXT = ['quoted', 'array', 'stored', 'method']


class P24(Prop):
    id = 'P24'
    technique = 'seeded collections at the allocations of interning, with processes interning equal and similar spellings; identity and contents judged'
    lists = ('procs', 'ops')

    def gen(self, rng, tier):
        sp = []
        n = rng.randint(3, 10)
        base = ''.join(rng.choice('abcdefghij') for _ in range(rng.randint(1, 6)))
        while len(sp) < n:
            x = rng.random()
            if x < 0.2:
                s = [rng.randrange(256) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16]))]
            elif x < 0.4:
                s = [ord(c) for c in 'zq' + base] + [rng.choice([97, 98]) for _ in range(rng.choice([0, 1, 2, 3]))]
            elif x < 0.55:
                s = [ord(c) for c in rng.choice(['', 'zq%s:' % base, 'zq%sat:put:' % base, 'a:b:', 'zq%s:%s:x:' % (base, base), 'zqx:'])]
            elif x < 0.8 or not sp:
                s = [rng.choice([97, 98, 122, 0, 255, 58, 39]) for _ in range(rng.choice([98, 99, 100, 101, 102, 128, 255, 300, 1000]))]
            else:
                # one byte of an earlier one changed, or one more byte
                s = list(rng.choice(sp))
                if s and rng.random() < 0.7:
                    s[rng.choice([0, len(s) - 1, rng.randrange(len(s)), min(len(s) - 1, rng.randrange(12))])] = rng.choice([0, 1, 97, 98, 128, 255])
                else:
                    s.append(rng.choice([0, 97, 32]))
            if s not in sp:
                sp.append(s)
        procs = []
        for p in range(rng.choice([1, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(3, 14)):
                k = rng.randrange(len(sp))
                s = sp[k]
                asc = all(32 < c < 127 for c in s)
                ident = asc and s and all(chr(c).isalnum() for c in s) and chr(s[0]).isalpha()
                txt = asc and s
                keyw = asc and s and s[-1] == 58 and all(chr(c).isalnum() or c == 58 for c in s) and chr(s[0]).isalpha() and b'::' not in bytes(s) \
                    and all(q[:1].isalpha() for q in bytes(s).decode().split(':')[:-1])
                x = rng.random()
                if x < 0.5:
                    ops.append(['intern:by:', k + 1, rng.choice(ANY)])
                elif x < 0.68 and txt:
                    ops.append(['intern:by:', k + 1, rng.choice(TEXT + (['eval'] if ident or keyw else []) + (['selector'] * 3 if ident else []))])
                elif x < 0.76:
                    ops.append(['ask:', k + 1])
                elif x < 0.8 and keyw:
                    ops.append(['keywords:', k + 1])
                elif x < 0.86:
                    ops.append(['drop:', k + 1])
                elif x < 0.9:
                    ops.append(['gc:', rng.choice([1, 1, 2, 3, 4])])
                elif x < 0.905:
                    ops.append(['rebuild'])
                elif x < 0.95:
                    ops.append(['yield'])
                else:
                    ops.append(['junk:', rng.choice([1, 10, 100])])
            procs.append(dict(pri=rng.choice([4, 4, 5]), ops=ops))
        # The compiler, which may be preempted, relies on symbols never being collected; rebuilding the table collects them.
        if any(o[-1] in TEXT + ['eval', 'selector'] for p in procs for o in p['ops']):
            for p in procs:
                p['ops'] = [o for o in p['ops'] if o[0] != 'rebuild']
        return dict(sp=sp, procs=procs, knobs=swarm(rng, gc_p=0.7, max_sp=6000000))

    def render(self, spec):
        l = [SUPPORT, 'Smalltalk at: #P put: nil; at: #T put: nil; at: #H put: nil; at: #Sp put: nil; at: #Lk put: nil.', 'Eval [',
             'Sp := {%s}. T := Array new: Sp size. H := Array new: Sp size. P := OrderedCollection new. Lk := Semaphore forMutualExclusion.' % '. '.join(
                 '#[%s]' % ' '.join(map(str, s)) for s in spec['sp'])]
        for i, p in enumerate(spec['procs']):
            ops = ' '.join('(%s)' % ' '.join(('#' + x if j == 0 else str(x) if isinstance(x, int) else '#' + x) for j, x in enumerate(o)) for o in p['ops'])
            l.append("P addLast: (Sim process: 'p%d' at: %d do: [(SimSym new tag: 'p%d') run: #(%s)])." % (i, p['pri'], i, ops))
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 150 until: [P allSatisfy: [:p | p isTerminated]].")
        l.append("T doWithIndex: [:a :i | T doWithIndex: [:b :j | (i < j and: [a notNil and: [a == b]]) ifTrue: [Sim log: 'SAME ' with: i with: j]]].")
        l.append("T doWithIndex: [:a :i | a isNil ifFalse: [(SimSym new tag: 'main') got: (Sp at: i) asString asSymbol for: i by: #end]].")
        l.append("Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        return self.vmcheck(r) or self.outcheck(r) or self.judge(spec, r)

    def judge(self, spec, r):
        known, asked, ends = set(), {}, set()
        rebuilt = any(o[0] == 'rebuild' for p in spec['procs'] for o in p['ops'])
        self.n = 0
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('error', e.text)]
            if w[0].isupper() and w[0].isalpha():
                return [('symbol-' + w[0].lower(), e.text)]
            if w[0] == 'sym':
                known.add(int(w[2]))
                self.n += 1
            elif w[0] == 'ask':
                asked[w[1]] = int(w[2]) in known
            elif w[0] == 'is':
                if asked[w[1]] and not rebuilt and (w[3] != 'true' or w[4] != 'true'):
                    return [('not-found', 'an interned symbol was not found: %s' % e.text)]
            elif w[0] == 'end':
                ends.add(w[1])
        for i in range(len(spec['procs'])):
            if 'p%d' % i not in ends:
                return [('stuck', 'p%d did not end' % i)]
        return []

    def nontrivial(self, spec, ctx):
        return getattr(self, 'n', 0) > 0
