"""P49: source code, read in pieces of any size.

Every process files in its own generated source text through one of the channels there are (a file, a string, a stream that
answers what it has got, in pieces and after waiting, the compiler's entry points), with short and interrupted reads, while
the others do so too and the collector runs inside the lexer, the parser and the compiler.  The generator knows the value of
each expression it writes, and the source text of each method."""
import os
from core import Prop
from props.util import swarm, st

SUPPORT = r"""
Stream subclass: SimPieces [
    | text pos sizes k wait |
    on: s sizes: a wait: w [ text := s. pos := 0. sizes := a. k := 0. wait := w ]
    atEnd [ ^pos >= text size ]
    next [ pos := pos + 1. ^text at: pos ]
    position [ ^pos ]
    isPositionable [ ^false ]
    name [ ^'pieces' ]
    nextAvailable: n [
        | m r |
        k := k \\ sizes size + 1.
        m := ((sizes at: k) min: n) min: text size - pos.
        wait = 1 ifTrue: [Processor yield].
        (wait = 2 and: [k = 1]) ifTrue: [(Delay forMilliseconds: 1) wait].
        r := text copyFrom: pos + 1 to: pos + m.
        pos := pos + m.
        ^r
    ]
]
SimPieces subclass: SimSeek [
    isPositionable [ ^true ]
    copyFrom: a to: b [ ^text copyFrom: a + 1 to: b + 1 ]
]
Sim class extend [
    describe: o [
        <category: 'sim'>
        o isNil ifTrue: [^'n'].
        o == true ifTrue: [^'t'].
        o == false ifTrue: [^'f'].
        o isInteger ifTrue: [^'i', o printString].
        o isSymbol ifTrue: [^'y', (self hash: o)].
        o isString ifTrue: [^'s', (self hash: o)].
        o isCharacter ifTrue: [^'c', o value printString].
        o class == ByteArray ifTrue: [^'b', (o inject: '' into: [:a :b | a isEmpty ifTrue: [b printString] ifFalse: [a, ',', b printString]])].
        o class == Array ifTrue: [^'a(', (o inject: '' into: [:a :b | a isEmpty ifTrue: [self describe: b] ifFalse: [a, ' ', (self describe: b)]]), ')'].
        ^o printString
    ]
    hash: s [ <category: 'sim'> ^s size printString, '.', (s asString inject: 7 into: [:h :c | h * 31 + c value \\ 1000003]) printString ]
    show: o as: id [ <category: 'sim'> self log: 'v ', id, ' ', (self describe: o) ]
    text: n [ <category: 'sim'> ^(Smalltalk at: #Texts) at: n ]
    file: i in: how with: a [
        <category: 'sim'>
        how = 'file' ifTrue: [^FileStream fileIn: 'data/t', i printString, '.st'].
        how = 'string' ifTrue: [^(self text: i + 1) readStream fileIn].
        how = 'pieces' ifTrue: [^(SimPieces new on: (self text: i + 1) sizes: a allButLast wait: a last) fileIn].
        how = 'open' ifTrue: [| f | f := FileStream open: 'data/t', i printString, '.st' mode: FileStream read. f bufferSize: (a first max: 1). f fileIn. ^f close].
        self error: how
    ]
]
"""
IDS = ['aVariable', 'x', 'yy', 'someRatherLongVariableNameWhichIsUnusual', 'tmp1', 'zork', 'q9', 'aBlock', 'each2']
CHARS = "abc xyz,;.:!?(){}[]<>|^_#$%&*+-/\\~@=`"


class Gen:
    """Generates expressions with their values.  Values: int, str (String), ('sym', s), ('chr', c), ('arr', [..]), bool, None"""

    def __init__(self, rng, tag, bang, pure=False):
        self.pure, self.uid = pure, 0
        self.rng, self.tag, self.bang = rng, tag, bang
        self.k = 0
        self.vars = {}
        self.methods = {}          # selector -> (nargs, function)

    def ident(self):
        return self.rng.choice(IDS) + self.rng.choice(['', '', '', str(self.rng.randrange(100)), 'N%s' % self.tag])

    def fresh(self):
        self.uid += 1
        return '%sv%d' % (self.rng.choice(IDS), self.uid)

    def ws(self):
        rng = self.rng
        r = rng.random()
        if r < 0.75:
            return ' '
        if r < 0.85:
            return rng.choice(['\n', '\t', '  \n  ', '\r\n'])
        n = rng.choice([0, 1, 10, 50, 50, 400, 1100])
        return ' "%s" ' % ''.join(rng.choice("abc 'def' [x] (y\n") for _ in range(n)).replace('"', '')

    def string(self, n=None):
        rng = self.rng
        n = rng.choice([0, 1, 3, 8, 8, 30, 30, 200, 1500]) if n is None else n
        s = ''.join(rng.choice(CHARS.replace('!', '') + "'\"\n") for _ in range(n))
        return s

    def quote(self, s):
        return "'" + s.replace("'", "''") + "'"

    def num(self):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            v = rng.randint(-50, 200)
            return str(v), v
        if r < 0.7:
            v = rng.randint(0, 10 ** rng.randint(3, 30))
            return str(v), v
        if r < 0.85:
            v = rng.randint(0, 70000)
            b = rng.choice([2, 8, 16, 36])
            d = ''
            x = v
            while True:
                d = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[x % b] + d
                x //= b
                if not x:
                    break
            return '%dr%s' % (b, d), v
        v = rng.randint(10000, 9999999)
        s = str(v)
        return s[:-4] + '_' + s[-4:], v

    def sym(self):
        rng = self.rng
        x = rng.random()
        if x < 0.4:
            s = self.ident()
            return '#' + s, ('sym', s)
        if x < 0.6:
            s = ''.join(self.ident() + ':' for _ in range(rng.randint(1, 4)))
            return '#' + s, ('sym', s)
        if x < 0.75:
            s = rng.choice(['+', '-', '//', '<=', '~=', '->', '>>'])
            return '#' + s, ('sym', s)
        s = self.string(rng.choice([1, 5, 20, 120]))
        return '#' + self.quote(s), ('sym', s)

    def chr(self):
        c = self.rng.choice("abc'\"#$ ^|[]():=.;")
        return '$' + c, ('chr', c)

    def literal(self, depth=0):
        rng = self.rng
        x = rng.random()
        if x < 0.3:
            return self.num()
        if x < 0.5:
            s = self.string()
            return self.quote(s), s
        if x < 0.65:
            return self.sym()
        if x < 0.75:
            return self.chr()
        if x < 0.82:
            n = rng.randint(0, 12)
            b = [rng.randrange(256) for _ in range(n)]
            return '#[' + self.ws() + ' '.join(map(str, b)) + ']', ('byt', b)
        if x < 0.88:
            return rng.choice([('true', True), ('false', False), ('nil', None)])
        if depth > 3:
            return self.num()
        el = [self.literal(depth + 1) for _ in range(rng.randint(0, 6))]
        if rng.random() < 0.5 or depth:
            return '#(' + self.ws() + self.ws().join(e[0] for e in el) + self.ws() + ')', ('arr', [e[1] for e in el])
        return '{' + (self.ws() + '.' + self.ws()).join('(%s)' % e[0] for e in el) + '}', ('arr', [e[1] for e in el])

    def int_expr(self, depth=0, env=None):
        rng = self.rng
        env = env or {}
        x = rng.random()
        if depth > 4 or x < 0.2:
            if env and rng.random() < 0.6:
                n = rng.choice(sorted(env))
                return n, env[n]
            t, v = self.num()
            return '(%s)' % t if t.startswith('-') else t, v
        w = self.ws
        a, av = self.int_expr(depth + 1, env)
        if x < 0.5:
            b, bv = self.int_expr(depth + 1, env)
            op = rng.choice(['+', '-', '*', 'max:', 'min:'])
            if self.pure and op == '*' or op == '*' and (abs(av) > 10**40 or abs(bv) > 10**40):
                op = '+'
            v = {'+': av + bv, '-': av - bv, '*': av * bv, 'max:': max(av, bv), 'min:': min(av, bv)}[op]
            return '(%s%s%s%s%s)' % (a, w(), op, w(), b), v
        if x < 0.6:
            return '(%s%snegated)' % (a, w()), -av
        if x < 0.7:
            n = self.fresh()
            b, bv = self.int_expr(depth + 1, dict(env, **{n: av}))
            return '([:%s |%s%s] value: %s)' % (n, w(), b, a), bv
        if x < 0.78:
            b, bv = self.int_expr(depth + 1, env)
            c, cv = self.int_expr(depth + 1, env)
            return '(%s > %s ifTrue:%s[%s]%sifFalse: [%s])' % (a, b, w(), a, w(), c), (av if av > bv else cv)
        if x < 0.86:
            n, m, l = self.fresh(), self.fresh(), rng.randint(0, 9)
            return '([:%s0 | |%s|%s %s := %s0. 1 to: %d do: [:i%s |%s%s := %s + i%s]. %s] value: %s)' % (
                n, m, w(), m, n, l, n, w(), m, m, n, m, a), av + l * (l + 1) // 2
        if x < 0.92:
            return '((OrderedCollection new%sadd: 1;%sadd: %s;%s yourself) last)' % (w(), w(), a, w()), av
        if self.methods:
            sel = rng.choice(sorted(self.methods))
            n, f = self.methods[sel]
            args = [self.int_expr(depth + 2, env) for _ in range(n)]
            vals = [y[1] for y in args]
            if all(abs(y) < 10**40 for y in vals):
                if n == 0:
                    return '(Sim%s new %s)' % (self.tag, sel), f()
                parts = sel.split(':')[:-1]
                return '(Sim%s new %s)' % (self.tag, w().join('%s: %s' % (p, y[0]) for p, y in zip(parts, args))), f(*vals)
        return a, av

    def show(self, v):
        if v is None:
            return 'n'
        if v is True:
            return 't'
        if v is False:
            return 'f'
        if isinstance(v, int):
            return 'i%d' % v
        if isinstance(v, str):
            return 's' + self.hash(v)
        k, x = v
        if k == 'sym':
            return 'y' + self.hash(x)
        if k == 'chr':
            return 'c%d' % ord(x)
        if k == 'byt':
            return 'b' + ','.join(map(str, x))
        return 'a(' + ' '.join(self.show(y) for y in x) + ')'

    def hash(self, s):
        h = 7
        for c in s:
            h = (h * 31 + ord(c)) % 1000003
        return '%d.%d' % (len(s), h)

    def statement(self):
        """Source of a statement and the text which it logs."""
        self.k += 1
        rng = self.rng
        if rng.random() < 0.5:
            t, v = self.int_expr(0, {k: x for k, x in self.vars.items()})
        else:
            t, v = self.literal()
        id = '%s.%d' % (self.tag, self.k)
        pre = ''
        if rng.random() < 0.1:
            pre = 'Processor yield.' + self.ws()
        return pre + "Sim show: (%s%s%s) as: '%s'.%s" % (self.ws(), t, self.ws(), id, self.ws()), 'v %s %s' % (id, self.show(v))

    def assign(self):
        n = ('%s%s' % (self.ident(), self.tag))
        n = n[0].lower() + n[1:]
        t, v = self.int_expr(0, dict(self.vars))
        if abs(v) > 10**40:
            v, t = 5, '5'
        self.vars[n] = v
        return '%s := %s.%s' % (n, t, self.ws())

    def method(self, ind):
        """Body of a method: (text, selector)."""
        rng = self.rng
        n = rng.choice([0, 0, 1, 2, 3])
        self.k += 1
        names = []
        while len(names) < n:
            names.append(self.fresh() + 'm')
        base = rng.choice(['m', 'compute', 'aRatherLongSelectorName']) + '%d' % self.k
        sel = base if n == 0 else ''.join('%s%d:' % (base, i) for i in range(n))
        seed = rng.randint(0, 10**9)
        import random
        text = None

        def f(*vals):
            g = Gen(random.Random(seed), self.tag, self.bang, True)
            return g.int_expr(1, dict(zip(names, vals)))[1]
        # the same generator, so the same text; conditional expressions depend on the values, so evaluate by substitution
        g = Gen(random.Random(seed), self.tag, self.bang, True)
        text = g.int_expr(1, dict(zip(names, [1, 2, 3])))[0]
        head = sel if n == 0 else ' '.join('%s%d: %s' % (base, i, names[i]) for i in range(n))
        return head, text, sel, n, f


def make_source(rng, tag, size, methods=True, bang=False, nested=None):
    """A source text and the list of lines that it logs."""
    g = Gen(rng, tag, bang)
    out, exp, srcs = [], [], []
    own = 'Sim' + tag
    # Sources for methods are expected as written.
    if methods:
        out.append('Object subclass: %s [%s]\n' % (own, g.ws() + '| a b |' + g.ws()))
    at = rng.randrange(size) if nested else -1
    while sum(map(len, out)) < size or nested:
        if nested and sum(map(len, out)) >= at:
            out.append(nested[0])
            exp += nested[1]
            nested = None
            continue
        x = rng.random()
        if x < 0.5:
            t, e = g.statement()
            out.append(t + '\n')
            exp.append(e)
        elif x < 0.65:
            out.append(g.assign() + '\n')
        elif x < 0.72:
            loc = []
            g2 = g.vars
            g.vars = {}
            for _ in range(rng.randint(1, 4)):
                t, e = g.statement()
                loc.append(t)
                exp.append(e)
            g.vars = g2
            out.append('Eval [%s%s]\n' % (g.ws(), ''.join(loc)))
        elif x < 0.9 and methods:
            ms, add = [], []
            for _ in range(rng.randint(1, 3)):
                head, text, sel, n, f = g.method('')
                kept = '%s [%s<category: \'c%s\'>%s^%s%s]' % (head, g.ws(), tag, g.ws(), text, g.ws())
                ms.append(kept)
                add.append((sel, n, f))
                srcs.append((sel, kept))
            # (the new methods are not called by the other ones, so their sources can be generated again)
            for sel, n, f in add:
                g.methods[sel] = (n, f)
            if bang:
                out.append('!%s methodsFor: \'c%s\'!\n\n' % (own, tag))
                for kept in ms:
                    h, b = kept.split(' [', 1)
                    b = b.rsplit(']', 1)[0]
                    out.append(h + '\n' + b.replace('!', '!!') + '!\n\n')
                out.append('!\n\n')
                g.vars = {}
                srcs = []
            else:
                out.append('%s extend [%s%s%s]\n' % (own, g.ws(), (g.ws() + '\n').join(ms), g.ws()))
        elif srcs:
            sel, kept = rng.choice(srcs)
            g.k += 1
            id = '%s.%d' % (tag, g.k)
            out.append("Sim show: (%s >> #%s) methodSourceString as: '%s'.\n" % (own, sel, id))
            exp.append('v %s s%s' % (id, g.hash(kept)))
    return ''.join(out), exp


class P49(Prop):
    id = 'P49'
    technique = 'seeded sources, sizes of reads, faults and collections in the lexer, parser and compiler; every value, known beforehand, compared'
    lists = ('texts', 'bg')

    def gen(self, rng, tier):
        texts = []
        for i in range(rng.choice([1, 1, 2, 3])):
            sizes = [rng.choice([1, 1, 2, 3, 7, 50, 1023, 1024, 1025, 5000]) for _ in range(rng.randint(1, 4))]
            texts.append(dict(seed=rng.randrange(2**40), size=rng.choice([100, 1000, 1000, 3000, 6000]), bang=rng.random() < 0.3,
                              methods=rng.random() < 0.8, chan=rng.choice(['file', 'string', 'pieces', 'open', 'pieces']), sizes=sizes,
                              wait=rng.choice([0, 0, 1, 2]), pri=rng.choice([4, 4, 4, 5]), nest=i > 0 and rng.random() < 0.35))
        knobs = swarm(rng, gc_p=0.6, max_sp=20000000)
        if rng.random() < 0.6:
            knobs['rshort_ppm'] = rng.choice([50000, 500000, 1000000])
        if rng.random() < 0.4:
            knobs['eintr_ppm'] = rng.choice([50000, 300000])
        bg = [dict(pri=rng.choice([4, 5, 6]), n=rng.randint(1, 200), w=rng.choice([0, 1])) for _ in range(rng.choice([0, 1, 2]))]
        return dict(texts=texts, bg=bg, knobs=knobs)

    def shrink(self, spec):
        import json
        yield from super().shrink(spec)
        for i, t in enumerate(spec['texts']):
            for k, v in (('size', t['size'] // 2), ('size', t['size'] * 3 // 4), ('wait', 0), ('nest', False), ('methods', False), ('bang', False)):
                if t[k] and t[k] != v and (k != 'size' or v > 20):
                    c = json.loads(json.dumps(spec))
                    c['texts'][i][k] = v
                    yield c

    def build(self, spec):
        """[(text, expected lines, nested?)]"""
        import random
        res = []
        for i in reversed(range(len(spec['texts']))):
            t = spec['texts'][i]
            nested = None
            if i + 1 < len(spec['texts']) and spec['texts'][i + 1]['nest']:
                nested = self.call(spec, i + 1) + '.\n', res[-1][1]
            res.append(make_source(random.Random(t['seed']), 'Q%d' % i, t['size'], t['methods'], t['bang'], nested))
        return res[::-1]

    def call(self, spec, i):
        t = spec['texts'][i]
        return "Sim file: %d in: '%s' with: #(%s %d)" % (i, t['chan'], ' '.join(map(str, t['sizes'])), t['wait'])

    def render(self, spec, src):
        l = [SUPPORT, 'Smalltalk at: #P put: nil; at: #Texts put: nil.', 'Eval [', 'P := OrderedCollection new. Texts := OrderedCollection new.']
        for i, s in enumerate(src):
            l.append("Texts addLast: (FileStream open: 't%d.st' mode: FileStream read) contents." % i)
        for i, t in enumerate(spec['texts']):
            if i and t['nest']:
                continue
            l.append("P addLast: (Sim process: 'q%d' at: %d do: [%s])." % (i, t['pri'], self.call(spec, i)))
        for i, b in enumerate(spec['bg']):
            l.append("P addLast: (Sim process: 'bg%d' at: %d do: [1 to: %d do: [:k | k printString -> (Array new: k). %s]])." % (
                i, b['pri'], b['n'], '(Delay forMilliseconds: 1) wait' if b['w'] else 'Processor yield'))
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: %d until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]"
                 % (200 + sum(len(s[0]) for s in src) * 2))
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        src = self.build(spec)
        for i, (t, e) in enumerate(src):
            for p in ('t%d.st' % i, 'data/t%d.st' % i):
                with open(ctx.path(p), 'w', encoding='latin1', newline='') as f:
                    f.write(t)
        r = ctx.phase(self.render(spec, src), spec['knobs'])
        return self.vmcheck(r) or self.outcheck(r) or self.judge(spec, r, src)

    def judge(self, spec, r, src):
        got, ends = {}, set()
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('error', e.text)]
            if w[0] == 'v':
                got.setdefault(w[1].split('.')[0], []).append(e.text)
            elif w[0] == 'end':
                ends.add(w[1])
        self.n = sum(map(len, got.values()))
        for i, (t, exp) in enumerate(src):
            if i and spec['texts'][i]['nest']:
                continue
            tags = {}
            for x in exp:
                tags.setdefault(x.split(' ')[1].split('.')[0], []).append(x)
            for tag, l in tags.items():
                g = got.get(tag, [])
                for a, b in zip(l + [None] * 1, g + [None] * (len(l) + 1 - len(g))):
                    if a != b:
                        return [('value', 'text %s logged %s, not %s' % (tag, b, a))]
        for i, t in enumerate(spec['texts']):
            if not (i and t['nest']) and 'q%d' % i not in ends:
                return [('stuck', 'q%d did not end' % i)]
        return []

    def nontrivial(self, spec, ctx):
        return getattr(self, 'n', 0) > 0
