"""P11, P13, P25: random programs run in several processes, against a reference interpreter.

A program is a list of methods over integers, with closures kept in slots, non-local returns, recursion, exceptions,
unwind blocks, generators and escaping continuations.  What each process logs must be what the reference interpreter
logs, whatever is preempted, interrupted or collected meanwhile."""
import random
from core import Prop
from props.util import swarm

MOD = 10007
# class -> parent; all of them below X = Exception
PARENT = {'R0': 'X', 'R1': 'R0', 'E0': 'X', 'E1': 'E0', 'E2': 'E0', 'B': 'X', 'X': None}
NAME = {'X': 'Exception', 'R0': 'SimR0', 'R1': 'SimR1', 'E0': 'SimE0', 'E1': 'SimE1', 'E2': 'SimE2', 'B': 'SystemExceptions.BadReturn'}
RES = ('R0', 'R1')

SUPPORT = r"""
Exception subclass: SimR0 [ | val | SimR0 class >> sig: x [ ^(self new) val: x; signal ] val: x [ val := x ] val [ ^val ] code [ ^1 ] ]
SimR0 subclass: SimR1 [ code [ ^2 ] ]
Error subclass: SimE0 [ | val | SimE0 class >> sig: x [ ^(self new) val: x; signal ] val: x [ val := x ] val [ ^val ] code [ ^3 ] ]
SimE0 subclass: SimE1 [ code [ ^4 ] ]
SimE0 subclass: SimE2 [ code [ ^5 ] ]
Exception extend [ val [ <category: 'sim'> ^11 ] code [ <category: 'sim'> ^6 ] ]
Object subclass: SimL [
    | tag bs ks gs depth |
    init: t [ tag := t. bs := Array new: 6. gs := Array new: 6. ks := OrderedCollection new. depth := 0 ]
    l: v [ Sim log: 'v ', tag with: v ]
    call: k with: x [
        | b |
        b := bs at: k. b isNil ifTrue: [^5]. depth > 8 ifTrue: [^6]. depth := depth + 1.
        ^[[b value: x] on: SystemExceptions.BadReturn do: [:e | e return: 7777]] ensure: [depth := depth - 1]
    ]
    gnext: k [ | g | g := gs at: k. g isNil ifTrue: [^5]. ^g atEnd ifTrue: [8] ifFalse: [g next] ]
    deep: n do: b [ | t u | n = 0 ifTrue: [^b value: 3]. t := n * 3. u := self deep: n - 1 do: b. ^u + t + n \\ 10007 ]
    edeep: n do: b [ | t | t := n. ^n = 0 ifTrue: [b value: 4] ifFalse: [[(self edeep: n - 1 do: b) + t \\ 10007] ensure: [depth := depth + t - t]] ]
    wide: a w: b w: c w: d w: e w: f w: g w: h [ | x y z | x := a + b. y := c + d. z := e + f. ^x * 3 + (y * 5) + (z * 7) + (g * 2) + h \\ 10007 ]
    ctx: c [ ks addLast: c. ks size > 5 ifTrue: [ks removeFirst]. ^0 ]
    main: n [ ^0 ]
    run: n [ | r | r := [self main: n] on: Exception do: [:e | Sim log: 'm ', tag with: e class with: e messageText. Sim log: 'x ', tag with: e code with: e val. e return: 9999]. Sim log: 'z ', tag with: r ]
"""


class NLR(Exception):
    def __init__(self, home, v):
        self.home, self.v = home, v


class Unwind(Exception):
    """Control goes back to the on:do: `h`: kind 'ret', 'retry' or 'using'."""
    def __init__(self, h, kind, v):
        self.h, self.kind, self.v = h, kind, v


class Escape(Exception):
    def __init__(self, k, v):
        self.k, self.v = k, v


class Fuel(Exception):
    pass


class Handler:
    gen = False
    def __init__(self, classes, blk, env, home, up):
        self.classes, self.blk, self.env, self.home, self.up = classes, blk, env, home, up


class Exc:
    def __init__(self, cls, val):
        self.cls, self.val = cls, val
        self.code = {'X': 6, 'R0': 1, 'R1': 2, 'E0': 3, 'E1': 4, 'E2': 5, 'B': 6}[cls]


class Home:
    alive = True


class Env:
    def __init__(self, up):
        self.d, self.up = {}, up

    def find(self, n):
        e = self
        while n not in e.d:
            e = e.up
        return e


class Resume(Exception):
    def __init__(self, x, v):
        self.x, self.v = x, v


class Ref:
    """The reference interpreter.  Everything that may run program code is a Python generator, so that the body of a
    Smalltalk generator can be suspended: it yields its values."""

    def __init__(self, prog, fuel=30000):
        self.p, self.fuel, self.log = prog, fuel, []
        self.bs, self.gs, self.depth = [None] * 6, [None] * 6, 0

    def step(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()

    def run(self, n):
        h = Handler(['X'], None, None, None, None)
        try:
            r = self.drive(self.method('main', [n], h))
        except Unwind as u:
            assert u.h is h
            r = 9999
        self.log.append('z %d' % r)

    @staticmethod
    def drive(g):
        try:
            while True:
                next(g)
        except StopIteration as s:
            return s.value

    def method(self, name, args, H):
        self.step()
        m = self.p[name]
        env, home = Env(None), Home()
        for a, v in zip(m['args'], args):
            env.d[a] = v
        for t in m['temps']:
            env.d[t] = None
        try:
            yield from self.body(m['body'], env, home, H)
            r = 0
        except NLR as n:
            if n.home is not home:
                raise
            r = n.v
        finally:
            home.alive = False
        return r

    def body(self, stmts, env, home, H):
        for s in stmts:
            yield from self.stmt(s, env, home, H)

    def block(self, b, args, env, home, H):
        """Evaluate the block literal B."""
        self.step()
        e = Env(env)
        for a, v in zip(b['args'], args):
            e.d[a] = v
        for t in b['temps']:
            e.d[t] = None
        yield from self.body(b['body'], e, home, H)
        return (yield from self.expr(b['res'], e, home, H))

    def signal(self, x, H):
        """Find a handler and run it on top of this; answer the resumption value."""
        h = H
        while h and not any(self.isa(x.cls, c) for c in h.classes):
            h = h.up
        assert h
        if h.gen:
            raise Fuel()        # an exception that leaves the body of a generator: not specified
        if h.blk is None:
            if h.up is None:
                self.log.append('x %d %d' % (x.code, x.val))
            raise Unwind(h, 'ret', x)
        try:
            r = yield from self.handler(h, x)
        except Resume as r:
            if r.x is not x:
                raise
            return r.v
        raise Unwind(h, 'ret', r)

    @staticmethod
    def isa(c, d):
        while c and c != d:
            c = PARENT[c]
        return c == d

    def handler(self, h, x):
        b = h.blk
        self.step()
        e = Env(h.env)
        e.d[b['args'][0]] = (x, h)
        for t in b['temps']:
            e.d[t] = None
        yield from self.body(b['body'], e, h.home, h.up)
        return (yield from self.expr(b['res'], e, h.home, h.up))

    def stmt(self, s, env, home, H):
        self.step()
        k = s[0]
        E = lambda x: self.expr(x, env, home, H)
        if k == 'set':
            v = yield from E(s[2])
            env.find(s[1]).d[s[1]] = v
        elif k == 'log':
            self.log.append('v %d' % (yield from E(s[1])))
        elif k == 'ret':
            v = yield from E(s[1])
            if home.alive:
                raise NLR(home, v)
            yield from self.signal(Exc('B', 11), H)
        elif k == 'mk':
            self.bs[s[1] - 1] = (s[2], env, home)
        elif k == 'to':
            n = s[2]
            d = env.find(s[1]).d
            d[s[1]] = 1
            while d[s[1]] <= n:
                yield from self.body(s[3], env, home, H)
                d[s[1]] += 1
        elif k == 'times':
            for i in range(s[1]):
                yield from self.block(s[2], [], env, home, H)
        elif k == 'if':
            c = yield from E(s[1])
            yield from self.body(s[2] if c % 2 == 0 else s[3], env, home, H)
        elif k == 'gen':
            g = Handler(['X'], None, None, None, None)
            g.gen = True
            self.gs[s[1] - 1] = [self.block(s[2], [0], env, home, g), None, None]
        elif k == 'yield':
            yield ('y', (yield from E(s[1])))
        elif k in ('hret', 'resume', 'retry', 'using', 'pass', 'again'):
            x, h = env.find(s[1]).d[s[1]]
            if k == 'hret':
                raise Unwind(h, 'ret', (yield from E(s[2])))
            if k == 'resume':
                raise Resume(x, (yield from E(s[2])))
            if k == 'retry':
                n = env.find(s[2]).d
                n[s[2]] += 1
                if n[s[2]] < 3:
                    raise Unwind(h, 'retry', None)
            if k == 'using':
                raise Unwind(h, 'using', (s[2], env, home))
            if k == 'pass':
                v = yield from self.outer(x, h)
                raise Resume(x, v)
        elif k == 'escape':
            K = env.find(s[1]).d[s[1]]
            raise Escape(K, (yield from E(s[2])))
        else:
            assert k in ('gc', 'tick', 'junk', 'ctx'), k

    def outer(self, x, h):
        y = Exc(x.cls, x.val)
        return (yield from self.signal(y, h.up))

    def expr(self, x, env, home, H):
        k = x[0]
        if k == 'n':
            return x[1]
        if k == 'v':
            v = env.find(x[1]).d[x[1]]
            return 99 if v is None else v
        if k == 'ev':
            return env.find(x[1]).d[x[1]][0].val
        if k == 'ec':
            return env.find(x[1]).d[x[1]][0].code
        E = lambda y: self.expr(y, env, home, H)
        if k in ('+', '*', '-'):
            a = yield from E(x[1])
            b = yield from E(x[2])
            return (a + b if k == '+' else a * b if k == '*' else a - b) % MOD
        self.step()
        if k == 'call':
            a = []
            for y in x[2]:
                a.append((yield from E(y)))
            return (yield from self.method(x[1], a, H))
        if k == 'wide':
            a = []
            for y in x[1]:
                a.append((yield from E(y)))
            return ((a[0] + a[1]) * 3 + (a[2] + a[3]) * 5 + (a[4] + a[5]) * 7 + a[6] * 2 + a[7]) % MOD
        if k == 'val':
            a = []
            for y in x[2]:
                a.append((yield from E(y)))
            return (yield from self.block(x[1], a, env, home, H))
        if k == 'if':
            c = yield from E(x[1])
            return (yield from E(x[2] if c % 2 == 0 else x[3]))
        if k == 'inj':
            v = yield from E(x[2])
            for i in range(1, x[1] + 1):
                v = yield from self.block(x[3], [v, i], env, home, H)
            return v
        if k == 'slot':
            a = yield from E(x[2])
            b = self.bs[x[1] - 1]
            if b is None:
                return 5
            if self.depth > 8:
                return 6
            self.depth += 1
            h = Handler(['B'], None, None, None, H)
            try:
                return (yield from self.block(b[0], [a], b[1], b[2], h))
            except Unwind as u:
                if u.h is not h:
                    raise
                return 7777
            finally:
                self.depth -= 1
        if k == 'deep' or k == 'edeep':
            v = yield from self.block(x[2], [3 if k == 'deep' else 4], env, home, H)
            for i in range(1, x[1] + 1):
                v = (v + (i * 4 if k == 'deep' else i)) % MOD
            return v
        if k == 'gnext':
            g = self.gs[x[1] - 1]
            if g is None:
                return 5
            if g[0] is None:
                return 8
            try:
                return next(g[0])[1]
            except StopIteration:
                g[0] = None
                return 8
        if k == 'sig':
            v = yield from E(x[2])
            return (yield from self.signal(Exc(x[1], v), H))
        if k == 'outer':
            e, h = env.find(x[1]).d[x[1]]
            return (yield from self.outer(e, h))
        if k == 'esc':
            K = object()
            e = Env(env)
            e.d[x[1]] = K
            try:
                return (yield from self.block(x[2], [], e, home, H))
            except Escape as q:
                if q.k is not K:
                    raise
                return q.v
        if k == 'on':
            h = Handler(x[2], x[3], env, home, H)
            while True:
                try:
                    return (yield from self.block(x[1], [], env, home, h))
                except Unwind as u:
                    if u.h is not h:
                        raise
                    if u.kind == 'ret':
                        return u.v
                    if u.kind == 'using':
                        b, e, ho = u.v
                    else:
                        continue
                return (yield from self.block(b, [], e, ho, H))
        if k in ('ens', 'cur'):
            try:
                v = yield from self.block(x[1], [], env, home, H)
            except (Fuel, GeneratorExit, Escape):        # a continuation does not run unwind blocks
                raise
            except BaseException:
                yield from self.block(x[2], [], env, home, H)
                raise
            if k == 'ens':
                yield from self.block(x[2], [], env, home, H)
            return v
        assert 0, k


# ---- source -----------------------------------------------------------------

def S(x):
    k = x[0]
    if k == 'n':
        return str(x[1])
    if k == 'v':
        return '(%s isNil ifTrue: [99] ifFalse: [%s])' % (x[1], x[1]) if x[1][0] == 'u' else x[1]
    if k == 'ev':
        return '(%s val)' % x[1]
    if k == 'ec':
        return '(%s code)' % x[1]
    if k in '+*-':
        return '(%s %s %s \\\\ 10007)' % (S(x[1]), k, S(x[2]))
    if k == 'call':
        a = [S(y) for y in x[2]]
        return '(self %s)' % pattern(x[1], a)
    if k == 'wide':
        return '(self wide: %s)' % ' w: '.join(S(y) for y in x[1])
    if k == 'val':
        return '(%s %s)' % (B(x[1]), ' '.join('value: ' + S(y) for y in x[2]) or 'value')
    if k == 'if':
        return '(%s even ifTrue: [%s] ifFalse: [%s])' % (S(x[1]), S(x[2]), S(x[3]))
    if k == 'inj':
        return '((1 to: %d) inject: %s into: %s)' % (x[1], S(x[2]), B(x[3]))
    if k == 'slot':
        return '(self call: %d with: %s)' % (x[1], S(x[2]))
    if k in ('deep', 'edeep'):
        return '(self %s: %d do: %s)' % (k, x[1], B(x[2]))
    if k == 'gnext':
        return '(self gnext: %d)' % x[1]
    if k == 'sig':
        return '(%s sig: %s)' % (NAME[x[1]], S(x[2]))
    if k == 'outer':
        return '(%s outer)' % x[1]
    if k == 'esc':
        b = x[2]
        return '(Continuation escapeDo: [:%s | %s%s%s oneShotValue: %s])' % (
            x[1], '| %s | ' % ' '.join(b['temps']) if b['temps'] else '', T(b['body']) + ('. ' if b['body'] else ''), x[1], S(b['res']))
    if k == 'on':
        return '(%s on: %s do: %s)' % (B(x[1]), ', '.join(NAME[c] for c in x[2]), B(x[3]))
    if k == 'ens':
        return '(%s ensure: %s)' % (B(x[1]), B(x[2]))
    if k == 'cur':
        return '(%s ifCurtailed: %s)' % (B(x[1]), B(x[2]))
    assert 0, k


def T(stmts):
    return '. '.join(ST(s) for s in stmts)


def ST(s):
    k = s[0]
    if k == 'set':
        return '%s := %s' % (s[1], S(s[2]))
    if k == 'log':
        return 'self l: %s' % S(s[1])
    if k == 'ret':
        return '^%s' % S(s[1])
    if k == 'mk':
        return 'bs at: %d put: %s' % (s[1], B(s[2]))
    if k == 'to':
        return '%s := 1. [%s <= %d] whileTrue: [%s%s := %s + 1]' % (s[1], s[1], s[2], T(s[3]) + ('. ' if s[3] else ''), s[1], s[1])
    if k == 'times':
        return '%d timesRepeat: %s' % (s[1], B(s[2]))
    if k == 'if':
        return '%s even ifTrue: [%s] ifFalse: [%s]' % (S(s[1]), T(s[2]), T(s[3]))
    if k == 'gen':
        return 'gs at: %d put: (Generator on: %s)' % (s[1], B(s[2]))
    if k == 'yield':
        return 'gg yield: %s' % S(s[1])
    if k == 'hret':
        return '%s return: %s' % (s[1], S(s[2]))
    if k == 'resume':
        return '%s resume: %s' % (s[1], S(s[2]))
    if k == 'retry':
        return '%s := %s + 1. %s < 3 ifTrue: [%s retry]' % (s[2], s[2], s[2], s[1])
    if k == 'using':
        return '%s retryUsing: %s' % (s[1], B(s[2]))
    if k == 'pass':
        return '%s pass' % s[1]
    if k == 'escape':
        return '%s value: %s' % (s[1], S(s[2]))
    if k == 'gc':
        return 'Sim gc: %d' % s[1]
    if k == 'tick':
        return 'Processor yield'
    if k == 'junk':
        return '%d timesRepeat: [Array new: 9]' % s[1]
    if k == 'ctx':
        return 'self ctx: thisContext'
    assert 0, k


def B(b):
    return '[%s%s%s %s]' % (''.join(':%s ' % a for a in b['args']), '| ' if b['args'] else '',
                            '| %s | ' % ' '.join(b['temps']) if b['temps'] else '', T(b['body']) + ('. ' if b['body'] else '') + S(b['res']))


def pattern(name, args):
    if not args:
        return name
    return ' '.join('%s %s' % (name + ':' if i == 0 else 'a%d:' % i, a) for i, a in enumerate(args))


def M(name, m):
    return '    %s [ %s %s%s ]' % (pattern(name, m['args']), '| %s |' % ' '.join(m['temps']) if m['temps'] else '', T(m['body']), '' if m['body'] and m['body'][-1][0] == 'ret' else '. ^0' if m['body'] else '^0')


# ---- generation -------------------------------------------------------------

class Gen:
    """Scope: vars readable, vars assignable, exception variables, escape variables and what is allowed here."""

    def __init__(self, rng, mode, henv=False):
        # henv: handler blocks may signal exceptions of their own, and retry with whatever is on the stack (known
        # findings).  simple: blocks may be retried, but there is nothing on the stack for a retry to disturb.
        self.henv = henv
        self.simple = not henv and mode == 'P11' and rng.random() < 0.3
        self.rng, self.mode, self.n = rng, mode, 0
        self.w = {k: rng.random() ** 2 for k in ('exc', 'ens', 'nlr', 'slot', 'deep', 'gen', 'esc', 'gc', 'call', 'loop', 'wide', 'ctx')}
        if mode == 'P11':
            self.w['exc'] = 1
            self.w['ens'] = max(0.3, self.w['ens'])
        elif mode == 'P13':
            self.w['gen'] = 1
            self.w['esc'] = max(0.3, self.w['esc'])
        else:
            self.w['slot'] = max(0.5, self.w['slot'])
            self.w['exc'] = 0 if rng.random() < 0.5 else self.w['exc'] * 0.3
        if mode != 'P13':
            self.w['gen'] = self.w['esc'] = 0
        if self.simple:
            self.w['ens'] = self.w['slot'] = 0
        self.size = rng.choice([20, 40, 80, 160])

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def program(self):
        rng = self.rng
        prog = {}
        self.methods = []
        nm = rng.randrange(1, 6)
        for i in range(nm, -1, -1):
            name = 'main' if i == 0 else 'm%d' % i
            args = [self.name('a') for _ in range(1 if i == 0 else rng.choice([0, 1, 1, 2, 3, 5, 8]))]
            temps, init = [], []
            for _ in range(rng.choice([0, 1, 2, 3, 6])):
                t = self.name(rng.choice('tttu'))
                temps.append(t)
                if t[0] == 't':
                    init.append(['set', t, ['n', rng.randrange(100)]])
            sc = {'r': args + temps, 'w': list(temps), 'ex': [], 'esc': [], 'm': temps, 'late': False, 'ok': {'ret', 'exc', 'call', 'slot', 'gen'}, 'd': 0}
            self.budget = self.size // (nm + 1) + 6
            body = init + self.stmts(sc, rng.randrange(1, 6 if i else 9))
            if rng.random() < 0.7:
                body.append(['ret', self.expr(sc)])
            prog[name] = {'args': args, 'temps': temps, 'body': body}
            if i:
                self.methods.append((name, len(args)))
        return prog

    def sub(self, sc, args=(), temps=None, **kw):
        """The scope of a block."""
        rng = self.rng
        ts, init = [], []
        for _ in range(rng.choice([0, 0, 1, 2]) if temps is None else temps):
            t = self.name(rng.choice('ttu'))
            ts.append(t)
            if t[0] == 't':
                init.append(['set', t, ['n', rng.randrange(100)]])
        s = dict(sc, r=sc['r'] + list(args) + ts, w=sc['w'] + ts, d=sc['d'] + 1)
        s.update(kw)
        return s, ts, init

    def block(self, sc, nargs=0, args=None, n=None, **kw):
        args = [self.name('b') for _ in range(nargs)] if args is None else args
        ro = kw.pop('ro', True)
        s, ts, init = self.sub(sc, args if ro else (), **kw)
        body = init + self.stmts(s, self.rng.choice([0, 0, 1, 2, 3]) if n is None else n)
        return {'args': args, 'temps': ts, 'body': body, 'res': self.expr(s)}

    def stmts(self, sc, n):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            out.append(self.stmt(sc))
        return out

    def pick(self, *wk):
        t = sum(w for w, _ in wk)
        x = self.rng.random() * t
        for w, k in wk:
            x -= w
            if x < 0:
                return k
        return wk[-1][1]

    def stmt(self, sc):
        rng, w, ok = self.rng, self.w, sc['ok']
        self.budget -= 1
        deep = sc['d'] > 6
        k = self.pick((2, 'log'), (2.5 if sc['w'] else 0, 'set'), (1.5 if 'uret' in ok else 0.7 * w['nlr'] if 'ret' in ok else 0, 'ret'),
                      (1.5 * w['slot'] if 'slot' in ok else 0, 'mk'), (0 if deep else w['loop'], 'to'), (0 if deep else 0.6 * w['loop'], 'times'),
                      (0 if deep else 0.8, 'if'), (0.3 * w['gc'], 'gc'), (0.3, 'tick'), (0.3 * w['gc'], 'junk'), (0.4 * w['ctx'], 'ctx'),
                      (1.2 * w['gen'] if 'gen' in ok else 0, 'gen'), (3 if 'yield' in ok else 0, 'yield'),
                      (1.2 if sc['ex'] else 0, 'exc'), (1.2 if sc['esc'] else 0, 'escape'))
        E = lambda: self.expr(sc)
        if k == 'log':
            return ['log', E()]
        if k == 'set':
            return ['set', rng.choice(sc['w']), E()]
        if k == 'ret':
            return ['if', ['n', 0] if 'uret' in ok and rng.random() < 0.5 else E(), [['ret', E()]], []]
        if k == 'mk':
            # The block may be called when its home has ended, its handlers are gone and its escapes are void.
            return ['mk', rng.randrange(1, 7), self.block(sc, 1, ex=[], esc=[], late=True, ok=ok - {'yield'})]
        if k == 'to':
            v = self.name('i')
            sc['m'].append(v)
            return ['to', v, rng.randrange(1, 5), self.stmts(dict(sc, r=sc['r'] + [v], d=sc['d'] + 2), rng.randrange(1, 4))]
        if k == 'times':
            return ['times', rng.randrange(1, 4), self.block(sc, 0)]
        if k == 'if':
            s = dict(sc, d=sc['d'] + 1)
            return ['if', E(), self.stmts(s, rng.randrange(0, 3)), self.stmts(s, rng.randrange(0, 3))]
        if k == 'gc':
            return ['gc', rng.randrange(1, 5)]
        if k == 'junk':
            return ['junk', rng.choice([3, 100, 2000])]
        if k == 'gen':
            b = self.block(sc, 0, args=['gg'], n=rng.randrange(1, 6), ro=False, ex=[], esc=[], ok={'yield', 'call'} if rng.random() < 0.7 else {'yield'})
            return ['gen', rng.randrange(1, 7), b]
        if k == 'yield':
            return ['yield', E()]
        if k == 'exc':
            return self.action(sc)
        if k == 'escape':
            return ['if', E(), [['escape', rng.choice(sc['esc']), E()]], []]
        return [k]

    @staticmethod
    def quiet(sc):
        """What a handler block may do without signaling a new exception."""
        return sc['ok'] - ({'exc', 'call', 'slot', 'gen', 'ret'} if sc['late'] else {'exc', 'call', 'slot', 'gen'})

    def action(self, sc):
        rng = self.rng
        e, res, cnt = rng.choice(sc['ex'])
        x = rng.random()
        E = lambda: self.expr(sc)
        if x < 0.25:
            a = ['hret', e, E()]
        elif x < 0.5 and res:
            a = ['resume', e, E()]
        elif not self.henv and not self.simple:
            a = ['pass', e]
        elif x < 0.65:
            return ['retry', e, cnt]
        elif x < 0.75 or self.simple:
            a = ['using', e, self.block(sc, 0, ex=[], ok=sc['ok'] if self.henv else self.quiet(sc))]
        else:
            a = ['pass', e]
        return ['if', E(), [a], []] if rng.random() < 0.5 else a

    def expr(self, sc):
        rng, w, ok = self.rng, self.w, sc['ok']
        self.budget -= 0.3
        if sc['d'] > 7 or self.budget <= 0 or rng.random() < 0.4:
            if sc['ex'] and rng.random() < 0.4:
                return [rng.choice(['ev', 'ec']), rng.choice(sc['ex'])[0]]
            return ['v', rng.choice(sc['r'])] if sc['r'] and rng.random() < 0.8 else ['n', rng.randrange(1000)]
        s = dict(sc, d=sc['d'] + 1)
        E = lambda: self.expr(s)
        gen = 'yield' in ok
        k = self.pick((2, '+'), (0.5, '-'), (0.7, '*'), (1.5 * w['call'] if self.methods and 'call' in ok else 0, 'call'), (w['wide'], 'wide'),
                      (0.8, 'val'), (0.6, 'if'), (0.6, 'inj'), (2 * w['slot'] if 'slot' in ok else 0, 'slot'),
                      (0.5 * w['deep'] if 'exc' in ok else 0, 'deep'), (0.4 * w['deep'] if 'exc' in ok else 0, 'edeep'), (2 * w['gen'] if 'gen' in ok else 0, 'gnext'),
                      (2 * w['exc'] if 'exc' in ok else 0, 'on'), (1.2 * w['exc'] if 'exc' in ok else 0, 'sig'),
                      (1.2 * w['ens'] if 'exc' in ok or 'uret' in ok else 0, 'ens'), (0.6 * w['ens'] if 'exc' in ok or 'uret' in ok else 0, 'cur'),
                      (0.8 if sc['ex'] and 'exc' in ok and not self.simple else 0, 'outer'), (w['esc'] if 'exc' in ok else 0, 'esc'))
        if k in '+-*':
            return [k, E(), E()]
        if k == 'call':
            m, n = rng.choice(self.methods)
            return ['call', m, [E() for _ in range(n)]]
        if k == 'wide':
            return ['wide', [E() for _ in range(8)]]
        if k == 'val':
            n = rng.choice([0, 1, 2, 3])
            return ['val', self.block(sc, n), [E() for _ in range(n)]]
        if k == 'if':
            return ['if', E(), E(), E()]
        if k == 'inj':
            return ['inj', rng.randrange(1, 4), E(), self.block(sc, 2)]
        if k == 'slot':
            return ['slot', rng.randrange(1, 7), E()]
        if k == 'deep':
            return ['deep', rng.choice([5, 50, 300, 1500]), self.block(sc, 1)]
        if k == 'edeep':
            return ['edeep', rng.choice([2, 10, 60]), self.block(sc, 1)]
        if k == 'gnext':
            return ['gnext', rng.randrange(1, 7)]
        if k == 'sig':
            return ['sig', rng.choice(['R0', 'R1', 'E0', 'E1', 'E2']), E()]
        if k == 'outer':
            return ['outer', rng.choice(sc['ex'])[0]]
        if k == 'esc':
            v = self.name('k')
            return ['esc', v, self.block(sc, 0, esc=sc['esc'] + [v])]
        if k == 'on':
            cl = rng.choice([['R0'], ['R1'], ['E0'], ['E1'], ['E2'], ['X'], ['E1', 'R0'], ['E2', 'E1'], ['R1', 'E0']])
            if self.simple:
                cl = ['X']
            x = self.name('x')
            c = self.name('t')
            sc['m'].append(c)
            res = all(q in RES for q in cl)
            return ['val', {'args': [], 'temps': [], 'body': [['set', c, ['n', 0]]],
                            'res': ['on', self.block(sc, 0), cl, self.block(sc, 0, args=[x], ro=False, ok=sc['ok'] if self.henv else self.quiet(sc), ex=sc['ex'] + [(x, res, c)] if rng.random() < 0.2 else [(x, res, c)])]}, []]
        if 'uret' in ok or 'ret' in ok and not sc['late'] and not sc['ex'] and rng.random() < 0.3:
            # An unwind block that returns from the method, whatever was being unwound; the protected block may only end
            # or return from the same method.
            u = {'ret', 'uret'}
            return [k, self.block(sc, 0, n=rng.choice([1, 2, 3]), ex=[], esc=[], ok=u), self.block(sc, 0, n=rng.choice([1, 1, 2]), ex=[], esc=[], ok=u)]
        # unwind blocks only log, assign and handle their own exceptions
        eb = self.block(sc, 0, n=rng.choice([1, 1, 2, 3]), ex=[], esc=[], ok=set())
        return [k, self.block(sc, 0), eb]


class LangBase(Prop):
    def gen(self, rng, tier):
        ps = []
        henv = self.id == 'P11' and rng.random() < 0.06
        for _ in range(rng.choice([1, 2, 2, 3])):
            while True:
                p = Gen(rng, self.id, henv).program()
                if self.reference(p, 7):
                    break
            ps.append({'prog': p, 'n': 7, 'pri': rng.choice([4, 4, 4, 3, 5])})
        # several processes may run the same program
        procs = [dict(x, cls=i) for i, x in enumerate(ps)]
        if rng.random() < 0.4:
            i = rng.randrange(len(ps))
            procs.append({'prog': None, 'cls': i, 'n': 7, 'pri': rng.choice([4, 4, 3, 5])})
        return {'knobs': dict(swarm(rng, gc_p=0.5, yield_p=0.9), max_sp=20000000), 'procs': procs, 'poke': rng.random() < 0.3, 'henv': henv}

    @staticmethod
    def reference(p, n):
        r = Ref(p)
        try:
            r.run(n)
        except (Fuel, RecursionError):
            return None
        except ValueError as e:                # a generator that asks itself for a value: no meaning
            assert 'already executing' in str(e)
            return None
        return r.log

    def render(self, spec):
        l = [SUPPORT + ']', 'Smalltalk at: #P put: nil.']
        for i, x in enumerate(spec['procs']):
            if x['prog']:
                l.append('SimL subclass: SimL%d [' % i)
                for k, m in x['prog'].items():
                    m = dict(m)
                    if k == 'main':
                        k = 'main'
                    l.append(M(k, m))
                l.append(']')
        l.append('Eval [ P := OrderedCollection new.')
        for i, x in enumerate(spec['procs']):
            l.append("P addLast: (Sim process: 'q%d' at: %d do: [(SimL%d new) init: 'q%d'; run: %d])." % (i, x['pri'], x['cls'], i, x['n']))
        if spec['poke']:
            l.append("P addLast: (Sim process: 'poke' at: 5 do: [ | n | n := 0. 1 to: 60 do: [:i | (Delay forMilliseconds: 1) wait. "
                     "P do: [:p | (p name = 'poke' or: [p isTerminated]) ifFalse: [[p queueInterrupt: [n := n + 1. Array new: 7]] on: SystemExceptions.ProcessTerminated do: [:e | e return]]]]]).")
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 30000 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    def run(self, spec, ctx):
        r = ctx.phase(self.render(spec), spec['knobs'])
        self.n = 0
        return self.vmcheck(r) or self.outcheck(r) or self.judge(spec, r)

    def judge(self, spec, r):
        got = {'q%d' % i: [] for i in range(len(spec['procs']))}
        for e in r.events:
            if e.w[0] == 'err':
                return [('handler-environment' if spec['henv'] else 'error', e.text)]
            if e.w[0] in 'vxz':
                got[e.w[1]].append(e.w[0] + ' ' + ' '.join(e.w[2:]))
        for i, x in enumerate(spec['procs']):
            p = spec['procs'][x['cls']]['prog']
            want = self.reference(p, x['n'])
            g = got['q%d' % i]
            self.n += len(g)
            if g != want:
                k = next((k for k in range(min(len(g), len(want))) if g[k] != want[k]), min(len(g), len(want)))
                return [('handler-environment' if spec['henv'] else 'trace', 'process q%d logged %s as number %d, not %s' % (i, g[k:k + 3], k, want[k:k + 3]))]
        return []

    def nontrivial(self, spec, ctx):
        return self.n > 1


class P11(LangBase):
    id = 'P11'
    technique = 'seeded exception programs in interleaved processes with interrupts and collections; logs compared with a reference interpreter'


class P13(LangBase):
    id = 'P13'
    technique = 'seeded generator and continuation programs in interleaved processes with interrupts and collections; logs compared with a reference interpreter'


class P25(LangBase):
    id = 'P25'
    technique = 'seeded closure and recursion programs in interleaved processes with interrupts and collections; logs compared with a reference interpreter'
