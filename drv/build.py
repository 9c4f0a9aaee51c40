"""Build the simulated VM and its images from /repo's current working tree.

Everything goes to /verif/.build/<hash of the inputs>; /repo is only read."""
import hashlib, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
ROOT = os.path.join(VERIF, '.build')
GPERF_SHA = 'ca0b8b'
JOBS = 8

LIBGST = '''gstpub files gst-parse lex str tree byte comp sym dict oop opt save cint
heap input sysdep callin xlat mpz print alloc re interp real sockets events'''.split()
LIBSRC = 'getopt getopt1 md5 avltrees rbtrees lock strspell regex socketx pointer-set'.split()
SNV = 'custom filament format mem printf stream'.split()
DIRS = ['libgst', 'lib-src', 'snprintfv/snprintfv', 'lightning', 'kernel']
PKGS = {  # directory, namespace, package.xml section order
    'object-dumper': 'Smalltalk', 'sockets': 'Sockets', 'sandstonedb': 'SandstoneDb',
    'continuations': 'Smalltalk',
}
CPP = '-DHAVE_CONFIG_H -DGST_SIM -I.. -I. -I../lib-src -I../snprintfv -I../lightning'.split()
CFLAGS = ['-O2', '-g1', '-w', '-fno-gcse', '-fstrict-aliasing', '-fno-pie']
SRC_EXT = ('.c', '.h', '.def', '.inl', '.y', '.l', '.gperf', '.st', '.xml', '.in')


class BuildError(Exception):
    pass


def run(cmd, cwd, out=None, inp=None):
    p = subprocess.run(cmd, cwd=cwd, stdin=inp or subprocess.DEVNULL,
                       stdout=out or subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode('latin1')[-3000:]))
    return p


def sources():
    for d in DIRS:
        top = os.path.join(REPO, d)
        for base, sub, files in os.walk(top):
            sub[:] = sorted(s for s in sub if not s.startswith('.'))
            for f in sorted(files):
                if f.endswith(SRC_EXT):
                    yield os.path.relpath(os.path.join(base, f), REPO)
    for p in sorted(PKGS):
        top = os.path.join(REPO, 'packages', p)
        for base, sub, files in os.walk(top):
            sub[:] = sorted(s for s in sub if not s.startswith('.'))
            for f in sorted(files):
                if f.endswith(('.st', '.xml', '.c', '.h')):
                    yield os.path.relpath(os.path.join(base, f), REPO)
    yield 'config.h'


GENERATED = {'libgst/match.h', 'libgst/prims.inl', 'libgst/vm.inl', 'libgst/genbc-decl.c',
             'libgst/genbc-decl.h', 'libgst/genbc-impl.c', 'libgst/genbc-impl.h',
             'libgst/genbc-scan.c', 'libgst/genpr-parse.c', 'libgst/genpr-parse.h',
             'libgst/genpr-scan.c', 'libgst/genvm-parse.c', 'libgst/genvm-parse.h',
             'libgst/genvm-scan.c'}


def input_hash(files):
    h = hashlib.sha256()
    for f in files:
        if f in GENERATED:
            continue
        p = os.path.join(REPO, f)
        h.update(f.encode() + b'\0')
        try:
            h.update(hashlib.sha256(open(p, 'rb').read()).digest())
        except OSError:
            h.update(b'missing')
    for d in ('sim',):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            h.update(open(os.path.join(VERIF, d, f), 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:16]


def ensure_config(b):
    if os.path.exists(os.path.join(REPO, 'config.h')):
        return
    # Not configured: do it in a scratch copy.
    tmp = os.path.join(b, 'cfg')
    shutil.copytree(REPO, tmp, symlinks=True, ignore=shutil.ignore_patterns('.git', '*.o', '*.star', '*.im'))
    run(['bash', '-c', 'autoreconf -vi && ./configure --without-emacs --enable-gtk=no'], tmp)
    shutil.copy(os.path.join(tmp, 'config.h'), os.path.join(b, 'config.h'))
    shutil.rmtree(tmp)


def compile_vm(b):
    L = os.path.join(b, 'libgst')
    pool = ThreadPoolExecutor(JOBS)

    def cc(d, src, obj, extra=()):
        run(['gcc', '-c'] + CPP + CFLAGS + list(extra) + [src, '-o', obj], os.path.join(b, d))
        return os.path.join(b, d, obj)

    helpers = [pool.submit(cc, 'lib-src', f + '.c', 'sim-%s.o' % f,
                           ['-DDEFAULT_EXECUTABLE="/nonexistent/gst"']) for f in LIBSRC]
    helpers += [pool.submit(cc, 'snprintfv/snprintfv', f + '.c', 'sim-%s.o' % f,
                            ['-I..', '-I../..']) for f in SNV]

    def gen(prog, ys, ls, cs):
        objs = []
        for y in ys:
            run(['bison', '-y', '-d', '-o', y + '.c', y + '.y'], L)
        for l in ls:
            run(['flex', '-Cfe', '-o' + l + '.c', l + '.l'], L)
        for c in ys + ls + cs:
            objs.append(cc('libgst', c + '.c', 'sim-%s.o' % c, ['-O1']))
        return prog, objs

    gens = [pool.submit(gen, 'genbc', ['genbc-decl', 'genbc-impl'], ['genbc-scan'], ['genbc']),
            pool.submit(gen, 'genprims', ['genpr-parse'], ['genpr-scan'], []),
            pool.submit(gen, 'genvm', ['genvm-parse'], ['genvm-scan'], [])]
    hobjs = [h.result() for h in helpers]
    for g in gens:
        prog, objs = g.result()
        run(['gcc', '-no-pie', '-o', prog] + objs + hobjs + ['-lm'], L)
    with open(os.path.join(L, 'match.h'), 'wb') as f:
        run(['./genbc', './byte.def', './byte.c', './opt.c', './xlat.c'], L, out=f)
    with open(os.path.join(L, 'prims.inl'), 'wb') as f:
        run(['./genprims'], L, out=f, inp=open(os.path.join(L, 'prims.def'), 'rb'))
    with open(os.path.join(L, 'vm.inl'), 'wb') as f:
        run(['bash', '-c', "./genvm < vm.def | awk '{ /^#/ && gsub(/__oline__/,NR+1); print }'"], L, out=f)
    sha = hashlib.sha256(open(os.path.join(L, 'builtins.gperf'), 'rb').read()).hexdigest()
    if sha != builtins_sha():
        g = run(['gperf'] + gperf_args() + ['builtins.gperf'], L).stdout.decode()
        open(os.path.join(L, 'builtins.inl'), 'w').write(re.sub(r'\bsize_t len\b', 'unsigned int len', g))
    order = ['interp', 'dict', 'oop', 'comp', 'cint', 'sym', 'gst-parse'] + \
        [f for f in LIBGST if f not in ('interp', 'dict', 'oop', 'comp', 'cint', 'sym', 'gst-parse')]
    jobs = [pool.submit(cc, 'libgst', f + '.c', 'sim-%s.o' % f,
                        ['-DDEFAULT_EXECUTABLE="/nonexistent/gst"']) for f in order]
    simsrc = [f[:-2] for f in sorted(os.listdir(os.path.join(VERIF, 'sim'))) if f.endswith('.c')]
    jobs += [pool.submit(cc, 'libgst', os.path.join(VERIF, 'sim', f + '.c'), 'simx-%s.o' % f,
                         ['-I' + os.path.join(VERIF, 'sim'), '-U_FORTIFY_SOURCE', '-O2']) for f in simsrc]
    objs = [j.result() for j in jobs]
    run(['gcc', '-no-pie', '-rdynamic', '-o', os.path.join(b, 'simgst')] + objs + hobjs +
        ['-lsigsegv', '-lffi', '-lgmp', '-lreadline', '-lltdl', '-lm', '-ldl', '-lpthread'], b)
    pool.shutdown()


def gperf_args():
    m = re.search(r'gperf.*', open(os.path.join(REPO, 'libgst', 'builtins.inl'), errors='replace').read(400))
    m2 = re.search(r'Command-line: \S*gperf (.*?) *\*/', open(os.path.join(REPO, 'libgst', 'builtins.inl'), errors='replace').read(600), re.S)
    if m2:
        a = [x.strip("'") for x in m2.group(1).split()]
        return [x for x in a if x.startswith('-') or x.isdigit()]
    return ['-D', '-t']


def builtins_sha():
    try:
        return open(os.path.join(VERIF, 'drv', 'builtins.sha')).read().strip()
    except OSError:
        return ''


def pkg_order(b, p):
    x = open(os.path.join(REPO, 'packages', p, 'package.xml'), errors='replace').read()
    x = re.sub(r'<test>.*?</test>', '', x, flags=re.S)
    return re.findall(r'<filein>\s*(.*?)\s*</filein>', x)


def simgst(b, *args, timeout=180):
    p = subprocess.run([os.path.join(b, 'simgst')] + list(args), cwd=b, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('latin1')


def make_images(b):
    os.makedirs(os.path.join(b, 'img'), exist_ok=True)
    im = os.path.join(b, 'img', 'gst.im')
    rc, out = simgst(b, '-k', os.path.join(b, 'kernel'), '-I', im, '-S', im)
    open(os.path.join(b, 'img', 'log'), 'w').write(out)
    if rc or not os.path.exists(im) or re.search(r'kernel/[A-Za-z0-9_]+\.st:\d+: ', out):
        raise BuildError('gst.im: rc %s\n%s' % (rc, out[-3000:]))
    scr = os.path.join(b, 'img', 'load.st')
    with open(scr, 'w') as f:
        for p, ns in [('object-dumper', 'Smalltalk'), ('continuations', 'Smalltalk'),
                      ('sockets', 'Sockets'), ('sandstonedb', 'SandstoneDb')]:
            if ns == 'Smalltalk':
                f.write("Eval [ Namespace current: Smalltalk ]\n")
            else:
                f.write("Eval [ (Smalltalk includesKey: #%s) ifFalse: [Smalltalk addSubspace: #%s]. Namespace current: (Smalltalk at: #%s) ]\n" % (ns, ns, ns))
            for fn in pkg_order(b, p):
                f.write("Eval [ FileStream fileIn: '%s' ]\n" % os.path.join(b, 'packages', p, fn))
        f.write("Eval [ Namespace current: Smalltalk ]\n")
    pre = os.path.join(b, 'img', 'prelude.st')
    shutil.copy(os.path.join(VERIF, 'drv', 'prelude.st'), pre)
    rc, out = simgst(b, '-k', os.path.join(b, 'kernel'), '-I', im, '-S', os.path.join(b, 'img', 'sim.im'), scr, pre)
    open(os.path.join(b, 'img', 'log2'), 'w').write(out)
    if rc or not os.path.exists(os.path.join(b, 'img', 'sim.im')):
        raise BuildError('sim.im: rc %s\n%s' % (rc, out[-3000:]))


def build(verbose=False):
    """Answer (build directory, seconds)."""
    t0 = time.time()
    os.makedirs(ROOT, exist_ok=True)
    files = list(sources())
    h = input_hash(files)
    hp = hashlib.sha256(open(os.path.join(VERIF, 'drv', 'prelude.st'), 'rb').read()).hexdigest()[:8]
    b = os.path.join(ROOT, h + hp)
    with open(os.path.join(ROOT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(b, 'ok')):
            os.utime(b)
            return b, time.time() - t0
        shutil.rmtree(b, ignore_errors=True)
        old = sorted((d for d in os.listdir(ROOT) if os.path.isdir(os.path.join(ROOT, d))),
                     key=lambda d: os.path.getmtime(os.path.join(ROOT, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(ROOT, d), ignore_errors=True)
        for f in files:
            dst = os.path.join(b, f)
            if f in GENERATED or not os.path.exists(os.path.join(REPO, f)):
                continue
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
        ensure_config(b)
        compile_vm(b)
        make_images(b)
        for d in ('libgst', 'lib-src', 'snprintfv'):
            for f in os.listdir(os.path.join(b, d)):
                if f.endswith('.o'):
                    os.unlink(os.path.join(b, d, f))
        open(os.path.join(b, 'ok'), 'w').write('ok\n')
    return b, time.time() - t0


if __name__ == '__main__':
    try:
        b, t = build(True)
        print(b, '%.1fs' % t)
    except BuildError as e:
        print('BUILD FAILED', e)
        sys.exit(2)
