"""P50: files and directories against a model tree."""
import errno
import os
from core import Prop
from props.util import swarm, st
from props.files import SUPPORT

NAMES = ['a', 'b', 'c']
MORE = r"""
Sim class extend [
    names: aCollection [ <category: 'sim'> ^(aCollection reject: [:x | x = '.' or: [x = '..']]) asSortedCollection inject: '' into: [:s :x | s, '/', x] ]
    kids: aCollection of: d [
        <category: 'sim'>
        | p |
        p := d asString, '/'.
        ^self names: (((aCollection collect: [:x | x asString]) select: [:x | x startsWith: p])
            collect: [:x | x copyFrom: p size + 1])
    ]
]
"""


class Err(Exception):
    def __init__(self, no):
        self.no = no


class Tree:
    """The part of the file system below data/pK.  A directory is a dict, a file a list with one byte string."""

    def __init__(self):
        self.root = {}
        self.lost = []          # files whose stream could not be flushed: it tries again when it is finalized

    def look(self, path):
        n = self.root
        for c in path:
            if not isinstance(n, dict):
                raise Err(errno.ENOTDIR)
            if c not in n:
                raise Err(errno.ENOENT)
            n = n[c]
        return n

    def parent(self, path):
        p = self.look(path[:-1])
        if not isinstance(p, dict):
            raise Err(errno.ENOTDIR)
        return p

    def exists(self, path):
        try:
            self.look(path)
            return True
        except Err:
            return False

    def mkdir(self, path):
        p = self.parent(path)
        if path[-1] in p:
            raise Err(errno.EEXIST)
        p[path[-1]] = {}

    def mkdirs(self, path, step):
        """step(path) is called before each mkdir and may raise."""
        if not path:
            return
        if self.exists(path[:-1]):
            if self.exists(path):
                if isinstance(self.look(path), dict):
                    return
        else:
            self.mkdirs(path[:-1], step)
        step(path)
        self.mkdir(path)

    def rm(self, path):
        p = self.parent(path)
        n = self.look(path)
        if isinstance(n, dict) and n:
            raise Err(errno.ENOTEMPTY)
        del p[path[-1]]

    def create(self, path, data, append=False):
        p = self.parent(path)
        n = p.setdefault(path[-1], [b''])
        if isinstance(n, dict):
            raise Err(errno.EISDIR)
        n[0] = (n[0] if append else b'') + data

    def rename(self, a, b):
        pa, pb = self.parent(a), self.parent(b)
        na = self.look(a)
        nb = pb.get(b[-1])
        if na is nb:
            return
        if isinstance(na, dict) and b[:len(a)] == a:
            raise Err(errno.EINVAL)
        if isinstance(na, dict) and nb is not None:
            if not isinstance(nb, dict):
                raise Err(errno.ENOTDIR)
            if nb:
                raise Err(errno.ENOTEMPTY)
        if not isinstance(na, dict) and isinstance(nb, dict):
            # the parent of the source is a directory with something in it
            raise Err(errno.ENOTEMPTY if a[:len(b)] == b else errno.EISDIR)
        if isinstance(nb, dict) and a[:len(b)] == b:
            raise Err(errno.ENOTEMPTY)
        pb[b[-1]] = na
        del pa[a[-1]]

    def link(self, a, b):
        n = self.look(a)
        p = self.parent(b)
        if b[-1] in p:
            raise Err(errno.EEXIST)
        if isinstance(n, dict):
            raise Err(errno.EPERM)
        p[b[-1]] = n


def walk(n, at=''):
    o = []
    for k in sorted(n):
        if isinstance(n[k], dict):
            o.append(at + k + '/')
            o += walk(n[k], at + k + '/')
        else:
            o.append(at + k + ' ' + (n[k][0].decode('latin-1') if len(n[k]) == 1 else '?'))
    return o


def real(path, at=''):
    o = []
    for k in sorted(os.listdir(path)):
        p = os.path.join(path, k)
        if os.path.isdir(p):
            o.append(at + k + '/')
            o += real(p, at + k + '/')
        else:
            o.append(at + k + ' ' + open(p, 'rb').read().decode('latin-1'))
    return o


class P50(Prop):
    id = 'P50'
    technique = 'seeded operations of several processes on directory trees under injected failures of the system calls and preemption at every bytecode; every answer and error, and the tree left on the disk, are compared with a model'
    components = {'real': ['kernel/File.st, FilePath.st, Directory.st, FileDescr.st', 'libgst (call-outs and their errno, file primitives, interpreter)', 'a scratch file system'],
                  'stub': ['failures of mkdir, rmdir, unlink, rename, link, open, write and readdir (injected)', 'clock and timers']}
    lists = ('procs',)
    OPS = ['mkdir'] * 4 + ['mkdirs'] * 3 + ['rm'] * 4 + ['write'] * 4 + ['append'] * 2 + ['touch'] * 2 + ['rename'] * 4 + ['link'] * 2 + \
        ['exists'] * 2 + ['isdir', 'isfile', 'size', 'contents', 'contents', 'names', 'names', 'files', 'dirs', 'match', 'includes', 'acc']

    def gen(self, rng, tier):
        k = swarm(rng, gc_p=0.2, yield_p=0.85, max_sp=30000000)
        if rng.random() < 0.5:
            k['ioerr_ppm'] = rng.choice([20000, 100000, 300000])
        if rng.random() < 0.2:
            k['wshort_ppm'] = 300000
        if rng.random() < 0.2:
            k['eintr_ppm'] = 200000
        procs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.choice([5, 15, 40])):
                path = lambda: [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
                ops.append([rng.choice(self.OPS), path(), path(), rng.randrange(0, 60)])
            procs.append([rng.choice([4, 4, 4, 5, 3]), ops])
        return {'knobs': k, 'procs': procs}

    @staticmethod
    def code(k, op, a, b, n):
        f = "(File path: 'data/p%d/%s')" % (k, '/'.join(a))
        p = "'data/p%d/%s'" % (k, '/'.join(b))
        d = "(File path: 'data/p%d%s')" % (k, ''.join('/' + x for x in a[:n % (len(a) + 1)]))
        return {'mkdir': f + ' createDirectory. 0', 'mkdirs': f + ' createDirectories. 0', 'rm': f + ' remove. 0',
                'write': f + " withWriteStreamDo: [:s | s nextPutAll: '%s']. 0" % ('x' * n),
                'append': "| s | s := %s open: FileStream append. [s nextPutAll: '%s'] ensure: [s close]. 0" % (f, 'y' * n),
                'touch': f + ' touch. 0', 'rename': f + ' renameTo: ' + p + '. 0', 'link': f + ' linkAs: ' + p + '. 0', 'exists': f + ' exists',
                'isdir': f + ' isDirectory', 'isfile': f + ' isFile', 'acc': f + ' isAccessible', 'size': f + ' size', 'contents': f + ' contents',
                'names': "'n', (Sim names: %s entryNames)" % d, 'files': "'n', (Sim kids: %s files of: %s)" % (d, d),
                'dirs': "'n', (Sim kids: %s directories of: %s)" % (d, d),
                'match': "'n', (Sim kids: (%s filesMatching: 'a*') of: %s)" % (d, d),
                'includes': d + " includes: '%s'" % b[-1]}[op]

    def source(self, spec):
        o = [SUPPORT.replace("^'s', (self hash: o)", "^'s', o").replace(
            'e messageText printString', "((e messageText startsWith: 'could not open') ifTrue: ['-'] ifFalse: [e messageText printString])"), MORE, 'Smalltalk at: #P put: OrderedCollection new.', 'Eval [']
        for k, (pri, ops) in enumerate(spec['procs']):
            b = '\n'.join("Sim op: '%d %d' do: [%s]." % (k, i, self.code(k, *op)) for i, op in enumerate(ops))
            o.append("P addLast: (Sim process: 'p%d' at: %d do: [%s])." % (k, pri, b))
        o.append('Sim begin. P do: [:p | p resume]. Sim drain: 30000 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: \'ok\' ]\n')
        return '\n'.join(o)

    def run(self, spec, ctx):
        for k in range(len(spec['procs'])):
            os.makedirs(ctx.path('data/p%d' % k), exist_ok=True)
        r = ctx.phase(self.source(spec), spec['knobs'])
        v = self.vmcheck(r, ('DONE',))
        if not v and not any(e.w[0] == '!ioerr' for e in r.events):
            v = self.outcheck(r)      # (a stream that could not be flushed says so when it is finalized)
        if v:
            return v
        trees = [Tree() for _ in spec['procs']]
        errs = [[] for _ in spec['procs']]
        done = [0] * len(spec['procs'])
        for e in r.events:
            w = e.w
            if w[0] == '!ioerr':
                p = w[3].split('/')
                errs[int(p[1][1:])].append((w[1], int(w[2]), p[2:]))
            elif w[0] == 'err':
                return [('error', e.text)]
            elif w[0] == 'r':
                k, i = int(w[1]), int(w[2])
                if i != done[k]:
                    return [('order', e.text)]
                done[k] += 1
                op = spec['procs'][k][1][i]
                got = e.text.split(' ', 3)[3]
                bad = self.judge(trees[k], op, got, errs[k])
                if bad:
                    return [(op[0], 'process %d operation %d %s %s %s answered %s, not %s%s' % (
                        k, i, op[0], '/'.join(op[1]), '/'.join(op[2]), got[:200], bad, ' (faults %s)' % errs[k] if errs[k] else ''))]
                errs[k] = []
        for k, (pri, ops) in enumerate(spec['procs']):
            if done[k] != len(ops):
                return [('stuck', 'process %d ended at operation %d of %d' % (k, done[k], len(ops)))]
            a, b = walk(trees[k].root), real(ctx.path('data/p%d' % k))
            if len(a) != len(b) or any(x != y and not (x.endswith(' ?') and y.startswith(x[:-1])) for x, y in zip(a, b)):
                return [('tree', 'process %d left %s, not %s' % (k, b, a))]
        return []

    def judge(self, t, op, got, errs):
        """None, or what was expected."""
        name, a, b, n = op
        d = a[:n % (len(a) + 1)]
        def late(e):
            """A stream that an error kept from being closed flushes and closes its file when it is finalized."""
            return e[2] in t.lost and (e[0] == 'write' and not (name in ('write', 'append') and a == e[2]) or
                                       e[0] == 'close' and not (str(os.strerror(e[1])) in got and name in ('write', 'append', 'touch', 'contents') and a == e[2]))
        errs = [e for e in errs if not late(e)]
        FE = 'E SystemExceptions.FileError'

        def call(what, path=None):
            """A system call: it fails if a fault was injected there."""
            if errs and errs[0][0] == what and (path is None or errs[0][2] == path):
                raise Err(errs.pop(0)[1])

        if a in t.lost and name in ('write', 'append', 'touch', 'contents') and any(e[2] == a and e[0] in ('write', 'close') for e in errs):
            # whose stream failed, this one or an older one, cannot be told
            if name != 'contents' and not any(e[0] == 'open' for e in errs):
                try:
                    t.create(a, b'', True)
                    t.look(a)[1:] = [True]
                except Err:
                    pass
            return None if got == '0' or got[0] == 's' or got.startswith(FE) else FE

        def listing():
            call('opendir', d)
            x = t.look(d)
            if not isinstance(x, dict):
                raise Err(errno.ENOTDIR)
            call('readdir', d)
            return x
        try:
            want = '0'
            if name == 'mkdir':
                call('mkdir', a)
                t.mkdir(a)
            elif name == 'mkdirs':
                t.mkdirs(a, lambda p: call('mkdir', p))
            elif name == 'rm':
                isdir = t.exists(a) and isinstance(t.look(a), dict)
                call('rmdir' if isdir else 'unlink', a)
                t.rm(a)
            elif name in ('write', 'append'):
                try:
                    call('open', a)
                    t.create(a, (b'x' if name == 'write' else b'y') * n, name == 'append')
                except Err:
                    return None if got.startswith(FE) and not errs else FE
                if errs and errs[0][0] == 'write':
                    t.look(a)[1:] = [True]
                    if a in t.lost:
                        return None
                    t.lost.append(a)
                    errs = errs[:1]
                call('write', a)
                if len(errs) > 1:
                    errs = errs[-1:]
                call('close', a)
            elif name == 'touch':
                if not t.exists(a):
                    try:
                        call('open', a)
                        t.create(a, b'', True)
                    except Err:
                        return None if got.startswith(FE) and not errs else FE
                    call('close', a)
            elif name == 'rename':
                call('rename', a)
                t.rename(a, b)
            elif name == 'link':
                call('link', b)
                t.link(a, b)
            elif name == 'exists':
                want = 'true' if t.exists(a) else 'false'
            elif name == 'isdir' or name == 'acc':
                want = 'true' if t.exists(a) and isinstance(t.look(a), dict) else 'false'
            elif name == 'isfile':
                want = 'true' if t.exists(a) and not isinstance(t.look(a), dict) else 'false'
            elif name == 'size':
                x = t.look(a)
                if isinstance(x, dict) or len(x) > 1:
                    return None if got.isdigit() else 'a number'
                want = str(len(x[0]))
            elif name == 'contents':
                try:
                    x = t.look(a)
                except Err:
                    return None if got.startswith(FE) and not errs else FE
                if errs and errs[0][0] == 'read' or isinstance(x, dict):
                    t.lost.append(a)
                call('read', a)
                if isinstance(x, dict):
                    raise Err(errno.EISDIR)
                call('close', a)
                if len(x) > 1:
                    return None if got.startswith('s') else 'a string'
                want = 's' + x[0].decode('latin-1')
            elif name == 'includes':
                want = 'true' if t.exists(d + [b[-1]]) else 'false'
            else:
                x = listing()
                want = 'sn' + ''.join('/' + k for k in sorted(x) if
                                      name == 'names' or
                                      name == 'files' and not isinstance(x[k], dict) or
                                      name == 'dirs' and isinstance(x[k], dict) or
                                      name == 'match' and k[0] == 'a')
        except Err as e:
            want = "%s '%s'" % (FE, os.strerror(errno.EEXIST if e.no == errno.ENOTEMPTY else e.no))
        if [e for e in errs if not late(e)]:
            return 'an error'
        return None if got == want else want
