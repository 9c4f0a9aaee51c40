"""P40, P41: a FileStream against an array of bytes with a position."""
import json
import os
from core import Prop
from props.util import swarm, st

SUPPORT = r"""
Sim class extend [
    hash: s [ <category: 'sim'> ^s size printString, '.', (s inject: 7 into: [:h :c | h * 31 + c value \\ 1000003]) printString ]
    describe: o [
        <category: 'sim'>
        o isNil ifTrue: [^'nil'].
        o isCharacter ifTrue: [^'c', o value printString].
        o isString ifTrue: [^'s', (self hash: o)].
        ^o printString
    ]
    bytes: seed n: n [
        <category: 'sim'>
        | s x |
        s := String new: n. x := seed.
        1 to: n do: [:i |
            x := x * 1103 + 12345 \\ 65536.
            s at: i put: (Character value: (x // 64 \\ 8 = 0 ifTrue: [x // 512 \\ 2 = 0 ifTrue: [10] ifFalse: [13]] ifFalse: [x // 256]))].
        ^s
    ]
    op: tag do: aBlock [
        <category: 'sim'>
        | r |
        r := [self describe: aBlock value] on: Error do: [:e | e return: 'E ', e class printString, ' ', e messageText printString].
        self log: 'r ', tag, ' ', r.
        ^(r startsWith: 'E ') not
    ]
]
"""


def content(seed, n):
    x, out = seed, bytearray()
    for _ in range(n):
        x = (x * 1103 + 12345) % 65536
        out.append((10 if x // 512 % 2 == 0 else 13) if x // 64 % 8 == 0 else x // 256)
    return bytes(out)


def H(b):
    h = 7
    for c in b:
        h = (h * 31 + c) % 1000003
    return 's%d.%d' % (len(b), h)


class Model:
    """The file and its stream.  do(op) answers the source text of the operation and what it answers: a string, a
    predicate of the logged text, or None if that does not matter."""

    def __init__(self, data):
        self.data, self.pos, self.mode = bytearray(data), 0, None

    def write(self, b):
        if b and self.pos > len(self.data):
            self.data.extend(bytes(self.pos - len(self.data)))
        self.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def rest(self):
        return bytes(self.data[self.pos:])

    def do(self, o):
        k, d, p = o[0], self.data, self.pos
        n = len(d)
        R, W = self.mode in ('r', 'rw'), self.mode in ('w', 'rw')
        if k == 'next':
            if not R:
                return None
            if p < n:
                self.pos += 1
                return 'f next', 'c%d' % d[p]
            return 'f next', 'nil'
        if k == 'peek':
            return ('f peek', 'c%d' % d[p] if p < n else 'nil') if R else None
        if k == 'peekFor':
            if not R:
                return None
            c = o[1] if o[2] or p >= n else d[p]
            hit = p < n and d[p] == c
            self.pos += hit
            return 'f peekFor: (Character value: %d)' % c, 'true' if hit else 'false'
        if k == 'nextN':
            m = min(o[1], n - p)
            if not R or m < 0:
                return None
            self.pos += m
            return 'f next: %d' % m, H(d[p:p + m])
        if k == 'nextInto':
            m = min(o[1], n - p)
            if not R or m < 0:
                return None
            self.pos += m
            return '(f next: %d into: (String new: %d withAll: $x) startingAt: %d)' % (m, m + o[2] + 3, o[2] + 1), H(b'x' * o[2] + bytes(d[p:p + m]) + b'xxx')
        if k == 'avail':
            if not R or p > n:
                return None
            full = bytes(d[p:p + o[1]])
            ok = {H(full[:i]) for i in range(1 if full else 0, len(full) + 1)}
            return 'r := f nextAvailable: %d. f position: %d. r' % (o[1], p), ok.__contains__
        if k == 'upTo':
            if not R:
                return None
            if p >= n:
                return 'f upTo: (Character value: %d)' % o[1], 'nil'
            i = d.find(o[1], p)
            self.pos = n if i < 0 else i + 1
            return 'f upTo: (Character value: %d)' % o[1], H(d[p:n if i < 0 else i])
        if k == 'line':
            if not R:
                return None
            if p >= n:
                return 'f nextLine', 'nil'
            i = p
            while i < n and d[i] not in (10, 13):
                i += 1
            self.pos = min(i + 1, n)
            if i < n - 1 and d[i] == 13 and d[i + 1] == 10:
                self.pos += 1
            return 'f nextLine', H(d[p:i])
        if k == 'upToEnd':
            if not R or p > n:
                return None
            self.pos = n
            return 'f upToEnd', H(d[p:])
        if k == 'contents':
            if not R or p > n:
                return None
            self.pos = n
            return 'f contents', H(d[p:])
        if k == 'copy':
            a = min(o[1], n)
            b = min(a + o[2], n) - 1
            if not R:
                return None
            return 'f copyFrom: %d to: %d' % (a, b), H(d[a:b + 1])
        if k == 'nextPutAllOn':
            if not R or p > n:
                return None
            self.pos = n
            return 'r := WriteStream on: String new. f nextPutAllOn: r. r contents', H(d[p:])
        if k == 'position':
            return 'f position', str(p)
        if k == 'seek':
            q = min(o[1], n + (o[2] if W else 0))
            self.pos = q
            return 'f position: %d. 0' % q, '0'
        if k == 'skip':
            q = max(0, min(p + o[1], n))
            if p > n:
                return None
            self.pos = q
            return 'f skip: %d. 0' % o[1], '0'
        if k == 'reset':
            self.pos = 0
            return 'f reset. 0', '0'
        if k == 'toEnd':
            self.pos = n
            return 'f setToEnd. 0', '0'
        if k == 'size':
            return 'f size', str(n)
        if k == 'atEnd':
            return ('f atEnd', 'true' if p >= n else 'false') if R and p <= n else None
        if k == 'isEmpty':
            return 'f isEmpty', 'true' if n == 0 else 'false'
        if k == 'put':
            if not W:
                return None
            self.write(bytes([o[1]]))
            return 'f nextPut: (Character value: %d). 0' % o[1], '0'
        if k in ('putAll', 'putN', 'putStream'):
            if not W:
                return None
            b = content(o[1], o[2])
            s = '(Sim bytes: %d n: %d)' % (o[1], o[2])
            if k == 'putAll':
                self.write(b)
                return 'f nextPutAll: %s. 0' % s, '0'
            if k == 'putStream':
                self.write(b)
                return 'f nextPutAll: %s readStream. 0' % s, '0'
            a = min(o[3], o[2])
            self.write(b[a:])
            return 'f next: %d putAll: %s startingAt: %d. 0' % (o[2] - a, s, a + 1), '0'
        if k == 'nl':
            if not W:
                return None
            self.write(b'\n')
            return 'f nl. 0', '0'
        if k == 'truncate':
            if not W or p > n:
                return None
            del d[p:]
            return 'f truncate. 0', '0'
        if k == 'flush':
            return 'f flush. 0', '0'
        if k == 'fsync':
            return ('f fsync. 0', '0') if W else None
        if k == 'buf':
            return 'f bufferSize: %d. 0' % o[1], '0'
        raise ValueError(k)


class FileBase(Prop):
    lists = ('files', 'ops')
    ordered = True

    def ops(self, rng, n):
        L = lambda: rng.choice([0, 1, 2, 3, 7, 50, 200, 1023, 1024, 1025, 2048, 3000])
        out = []
        bias = rng.choice(['r', 'w', 'rw', 'all'])
        kinds = {'r': ['next'] * 3 + ['peek', 'peekFor', 'nextN', 'nextN', 'nextInto', 'avail', 'upTo', 'line', 'line', 'upToEnd', 'contents', 'copy', 'nextPutAllOn', 'atEnd'],
                 'w': ['put'] * 4 + ['putAll'] * 4 + ['putN', 'putStream', 'nl', 'truncate', 'flush', 'fsync'],
                 's': ['position', 'position', 'seek', 'seek', 'seek', 'skip', 'skip', 'reset', 'toEnd', 'size', 'isEmpty', 'buf']}
        pool = (kinds['r'] * (2 if bias == 'r' else 1) if bias != 'w' else []) + (kinds['w'] * (2 if bias == 'w' else 1) if bias != 'r' else []) + kinds['s']
        for _ in range(n):
            k = rng.choice(pool)
            o = [k]
            if k == 'peekFor':
                o += [rng.randrange(256), rng.randint(0, 1)]
            elif k in ('nextN', 'avail'):
                o += [max(1, L())]
            elif k == 'nextInto':
                o += [L(), rng.choice([0, 1, 5])]
            elif k in ('upTo',):
                o += [rng.choice([10, 13, rng.randrange(256)])]
            elif k == 'copy':
                o += [L(), L()]
            elif k == 'seek':
                o += [L(), rng.choice([0, 0, 0, 1, 30, 2000])]
            elif k == 'skip':
                o += [L() * rng.choice([1, -1])]
            elif k == 'put':
                o += [rng.randrange(256)]
            elif k in ('putAll', 'putStream'):
                o += [rng.randrange(65536), L()]
            elif k == 'putN':
                o += [rng.randrange(65536), L(), rng.choice([0, 1, 10])]
            elif k == 'buf':
                o += [rng.choice([1, 2, 10, 100, 1024, 5000])]
            out.append(o)
        return out

    def gen(self, rng, tier):
        files = []
        for i in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops += [['open', rng.choice(['r', 'w', 'rw', 'rw', 'rw', 'a'])]] + self.ops(rng, rng.choice([3, 10, 25]))
            files.append(dict(seed=rng.randrange(65536), n=rng.choice([-1, 0, 1, 100, 1024, 2000, 5000]), ops=ops, pri=rng.choice([4, 4, 5])))
        knobs = swarm(rng, gc_p=0.3, max_sp=20000000)
        for k in ('rshort_ppm', 'wshort_ppm', 'eintr_ppm'):
            if rng.random() < 0.6:
                knobs[k] = rng.choice([50000, 300000, 1000000]) if k != 'eintr_ppm' else rng.choice([50000, 300000])
        return dict(files=files, knobs=knobs)

    def build(self, spec):
        """Per file: source of the process, [(text, expected)], final content (or None)"""
        res = []
        for i, f in enumerate(spec['files']):
            m = Model(content(f['seed'], f['n']) if f['n'] >= 0 else b'')
            exists = f['n'] >= 0
            src, exp, snaps = [], [], [(0, bytes(m.data) if exists else None)]

            def add(text, want):
                snaps.append((m.pos, bytes(m.data)))
                src.append("(ok and: [Sim op: '%d.%d' do: [%s]]) ifFalse: [ok := false]." % (i, len(exp), text))
                exp.append((text, want))
            for o in f['ops']:
                if o[0] == 'open':
                    if m.mode:
                        add('f close. 0', '0')
                        m.mode = None
                    mode = o[1]
                    if mode == 'r' and not exists:
                        continue
                    m.pos = 0
                    if mode == 'w' or mode == 'rw' and not exists:
                        m.data = bytearray()
                        how = 'FileStream write' if mode == 'w' else 'FileStream create'
                    else:
                        how = {'r': 'FileStream read', 'rw': 'FileStream readWrite', 'a': 'FileStream append'}[mode]
                    exists = True
                    m.mode = mode
                    add("f := FileStream open: 'data/f%d' mode: %s. 0" % (i, how), '0')
                elif m.mode == 'a':
                    if o[0] in ('put', 'putAll', 'putN', 'putStream', 'nl', 'flush', 'fsync'):
                        m.mode, m.pos = 'w', len(m.data)
                        add(*m.do(o))
                        m.mode = 'a'
                elif m.mode:
                    r = m.do(o)
                    if r:
                        add(*r)
            if m.mode:
                add('f close. 0', '0')
            res.append((src, exp, bytes(m.data) if exists else None, snaps))
        return res

    def render(self, spec, built):
        l = [SUPPORT, 'Smalltalk at: #P put: nil.', 'Eval [', 'P := OrderedCollection new.']
        for i, f in enumerate(spec['files']):
            l.append("P addLast: (Sim process: 'q%d' at: %d do: [| f r ok | ok := true. %s])." % (i, f['pri'], '\n'.join(built[i][0])))
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 400 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        built = self.build(spec)
        for i, f in enumerate(spec['files']):
            if f['n'] >= 0:
                with open(ctx.path('data/f%d' % i), 'wb') as h:
                    h.write(content(f['seed'], f['n']))
        r = ctx.phase(self.render(spec, built), spec['knobs'])
        return self.vmcheck(r) or self.outcheck(r) or self.judge(spec, r, built, ctx)

    def nontrivial(self, spec, ctx):
        return getattr(self, 'n', 0) > 0


class P40(FileBase):
    id = 'P40'
    technique = 'seeded operation histories with short and interrupted transfers; every answer and the final file compared with an array of bytes'

    def judge(self, spec, r, built, ctx):
        got = {}
        for e in r.events:
            if e.w[0] == 'err':
                return [('error', e.text)]
            if e.w[0] == 'r':
                got[e.w[1]] = e.text.split(' ', 2)[2]
        self.n = len(got)
        for i, (src, exp, data, _) in enumerate(built):
            for j, (text, want) in enumerate(exp):
                g = got.get('%d.%d' % (i, j))
                if g is None:
                    return [('missing', 'file %d: %s: no answer' % (i, text))]
                if not (want(g) if callable(want) else g == want):
                    return [('answer', 'file %d operation %d: %s: answered %s, not %s' % (i, j, text, g, want if isinstance(want, str) else 'a prefix'))]
            p = ctx.path('data/f%d' % i)
            real = open(p, 'rb').read() if os.path.exists(p) else None
            if real != data:
                return [('content', 'file %d holds %s, not %s' % (i, real and H(real), data and H(data)))]
        return []


class P41(FileBase):
    id = 'P41'
    technique = 'seeded operation histories with failing system calls: the operation in which a call fails must raise an error, no other may, and nothing else is lost'

    def gen(self, rng, tier):
        s = super().gen(rng, tier)
        s['files'] = s['files'][:1]
        s['knobs']['ioerr_ppm'] = rng.choice([10000, 50000, 200000])
        s['retry'] = rng.random() < 0.5
        return s

    def render(self, spec, built):
        l = [SUPPORT, 'Smalltalk at: #P put: nil.', 'Eval [', 'P := OrderedCollection new.']
        end = "ok ifFalse: [Sim arm: 0. Sim op: 'retry' do: [%sf isNil ifFalse: [f close]. 0]]." % ('f isNil ifFalse: [f flush]. ' if spec['retry'] else '')
        l.append("P addLast: (Sim process: 'q0' at: 4 do: [| f r ok | ok := true. %s %s])." % ('\n'.join(built[0][0]), end))
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 400 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def judge(self, spec, r, built, ctx):
        src, exp, data, snaps = built[0]
        j, fault, failed, retry = 0, None, None, None
        self.n = 0
        for e in r.events:
            w = e.w
            if w[0] == 'err':
                return [('error', e.text)]
            if w[0] == '!ioerr':
                fault = e.text
                self.n += 1
            if w[0] != 'r':
                continue
            g = e.text.split(' ', 2)[2]
            if w[1] == 'retry':
                retry = g
                continue
            text, want = exp[j]
            err = g.startswith('E ')
            if fault and not err:
                return [('swallowed', '%s failed within %s, which answered %s' % (fault, text, g))]
            if err and not fault:
                return [('unfounded', '%s raised %s, but no system call failed' % (text, g))]
            if err:
                failed = j
                continue
            if not (want(g) if callable(want) else g == want):
                return [('answer', 'operation %d: %s: answered %s, not %s' % (j, text, g, want if isinstance(want, str) else 'a prefix'))]
            j += 1
        p = ctx.path('data/f0')
        real = open(p, 'rb').read() if os.path.exists(p) else None
        if failed is None:
            if j < len(exp):
                return [('missing', '%s: no answer' % exp[j][0])]
            if real != data:
                return [('content', 'the file holds %s, not %s' % (real and H(real), data and H(data)))]
            return []
        if retry is None or retry.startswith('E '):
            return [('retry', 'after %s failed, closing: %s' % (exp[failed][0], retry))]
        if 'open' in exp[failed][0] or real is None:
            return []
        # The file may differ from what the operations before the failed one left only within the range of that one.
        (oldpos, a), (newpos, b) = snaps[failed], snaps[failed + 1]
        lo, hi = min(oldpos, newpos, len(a)), max(oldpos, newpos)
        if not min(len(a), len(b)) <= len(real) <= max(len(a), len(b)):
            return [('length', '%s failed: then the file has %d bytes, not %d to %d' % (exp[failed][0], len(real), min(len(a), len(b)), max(len(a), len(b))))]
        for i in range(len(real)):
            if not (i < len(a) and real[i] == a[i]) and not (i < len(b) and real[i] == b[i]) and not lo <= i < hi:
                return [('lost', '%s failed: then byte %d of the file is %d, not %s' % (
                    exp[failed][0], i, real[i], a[i] if i < len(a) else b[i] if i < len(b) else '-'))]
        return []
