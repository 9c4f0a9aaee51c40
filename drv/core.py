"""Runs seeded cases of a property in a pool of simulated VMs, gates, minimises and reports violations.

A case is (property, spec, seed).  `Prop.gen(rng, tier)` makes the spec (plain JSON), `Prop.run(spec, ctx)`
executes it -- one simulated VM per `ctx.phase` call -- and answers a list of (key, message) violations.
"""
import fnmatch, hashlib, json, multiprocessing, os, random, shutil, signal, subprocess, sys, tempfile, time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'
MASK = (1 << 62) - 1


def mix(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big') & MASK


class Ev:
    __slots__ = ('seq', 't', 'text', 'w')

    def __init__(self, seq, t, text):
        self.seq, self.t, self.text = seq, t, text
        self.w = text.split(' ')

    def __repr__(self):
        return '%d@%.3fms %s' % (self.seq, (self.t - 10**15) / 1e6, self.text)


class Run:
    """History of one simulated VM."""

    def __init__(self, raw, out, rc):
        self.out, self.rc = out, rc
        self.events, self.dec, self.fault, self.stat = [], [], {}, {}
        self.status, self.note = 'TRUNCATED', ''
        for l in raw.split('\n'):
            k = l[:2]
            if k == 'E ':
                a = l.split(' ', 3)
                self.events.append(Ev(int(a[1]), int(a[2]), a[3] if len(a) > 3 else ''))
            elif k == 'D ':
                a = l.split(' ')
                self.dec.append([a[1], int(a[2]), int(a[3])])
            elif k == 'F ':
                a = l.split(' ')
                self.fault[a[1]] = (int(a[2]), int(a[3]))
            elif k == 'S ':
                a = l.split(' ')
                self.stat[a[1]] = a[2]
            elif k == 'X ':
                self.note += l[2:]
            elif l.startswith('END '):
                self.status = l.split(' ')[1]
        self.digest = hashlib.sha256((raw + '\0' + out).encode('latin1', 'replace')).hexdigest()[:16]

    def texts(self):
        return [e.text for e in self.events]

    def ok(self):
        return self.status == 'DONE'


class SimError(Exception):
    pass


class Ctx:
    """Execution context of one case: scratch directory, seed or recorded decisions, phases run so far."""

    def __init__(self, build, scratch, seed, decisions=None, timeout=30):
        self.build, self.dir, self.seed = build, scratch, seed
        self.decisions, self.timeout = decisions, timeout
        self.runs = []
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(os.path.join(scratch, 'data'))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def phase(self, src, knobs=None, image=None, save=None, files=None, args=()):
        """Run one VM on the source text SRC (or on FILES)."""
        i = len(self.runs)
        if src is not None:
            with open(self.path('w%d.st' % i), 'w', encoding='latin1') as f:
                f.write(src)
            files = ['w%d.st' % i] + list(files or [])
        with open(self.path('plan'), 'w') as f:
            f.write('seed %d\n' % (mix(self.seed, i) >> 1))
            for k, v in sorted((knobs or {}).items()):
                f.write('knob %s %d\n' % (k, v))
            if self.decisions is not None:
                f.write('mode replay\n')
                for c, x, v in (self.decisions[i] if i < len(self.decisions) else []):
                    f.write('d %s %d %d\n' % (c, x, v))
        cmd = [os.path.join(self.build, 'simgst'), '-I', image or os.path.join(self.build, 'img', 'sim.im'),
               '-k', os.path.join(self.build, 'kernel'), '-p', 'plan', '-o', 'hist']
        if save:
            cmd += ['-S', save]
        cmd += list(args) + list(files or [])
        hist = self.path('hist')
        if os.path.exists(hist):
            os.unlink(hist)
        with open(self.path('out'), 'wb') as o:
            p = subprocess.Popen(cmd, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=o,
                                 stderr=subprocess.STDOUT, env={'HOME': '/nonexistent', 'PATH': '/usr/bin:/bin'})
            try:
                rc = p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
        try:
            raw = open(hist, encoding='latin1').read()
        except OSError:
            raw = ''
        out = open(self.path('out'), encoding='latin1').read().replace(self.dir, '$D').replace(self.build, '$B')
        r = Run(raw, out[:200000], rc)
        if rc == 'timeout':
            r.status = 'STUCK'
        if r.status == 'SIMERROR' or rc in (90, 91):
            raise SimError('simulator error: %s %s' % (r.note, out[-300:]))
        self.runs.append(r)
        return r

    def digest(self):
        return ','.join(r.digest for r in self.runs)


# Words in the output which mean that the VM itself reports an internal failure.
PANIC = ('GNU Smalltalk: ', 'Aborted', 'bug, please report', 'call nesting too deep', 'Bad OOP',
         'Assertion', 'does not understand #', 'Segmentation', 'should not be reached', 'Invalid ')


class Prop:
    id = None
    level_note = ''
    technique = 'seeded schedules and faults over seeded workloads, judged against a reference model'
    components = {'real': ['libgst (interpreter, collector, compiler, primitives)', 'kernel/*.st image'],
                  'stub': ['clock, timers and signals of the host (simulated)']}
    quick_s, thorough_s = 30, 900
    allow_output = ()
    sample_knobs = True

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, spec, ctx):
        raise NotImplementedError

    def nontrivial(self, spec, ctx):
        return any(len(r.events) > 2 for r in ctx.runs)

    def probes(self, spec, ctx):
        """Names of rare conditions reached by this case."""
        return ()

    def shrink(self, spec):
        """Smaller variants of SPEC: drop elements of any list named in self.lists, recursively."""
        yield from shrink_lists(spec, getattr(self, 'lists', ('procs', 'ops')))

    # -- helpers for oracles --
    def vmcheck(self, r, statuses=('DONE',)):
        """Failures of the VM as such."""
        v = []
        if r.status not in statuses:
            v.append(('vm-%s' % r.status.lower(), 'the VM ended with %s (rc %s): %s' % (
                r.status, r.rc, r.out[-600:])))
        return v

    def outcheck(self, r):
        if r.out.strip():
            return [('output', 'unexpected output: %s' % r.out[:600])]
        return []


def shrink_lists(spec, names):
    """Yield copies of SPEC with one chunk of one list removed, large chunks first."""
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                if k in names and isinstance(x[k], list) and x[k]:
                    paths.append(path + [k])
                walk(x[k], path + [k])
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, path + [i])

    def get(x, path):
        for k in path:
            x = x[k]
        return x
    walk(spec, [])
    todo = []
    for p in paths:
        n = len(get(spec, p))
        size = n
        while size >= 1:
            for i in range(0, n, size):
                todo.append((size, p, i))
            size //= 2
    todo.sort(key=lambda t: -t[0])
    for size, p, i in todo:
        c = json.loads(json.dumps(spec))
        l = get(c, p)
        del l[i:i + size]
        yield c


# ---- workers -----------------------------------------------------------------

_w = {}


def new_root():
    # (the length of the path matters for the layout of the heap, and so for an exact replay)
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp/.sim'
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix='sim', dir=base)


def _init(build, root, propname):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import importlib
    _w['build'] = build
    _w['dir'] = os.path.join(root, 'w%06d' % (os.getpid() % 1000000))
    _w['prop'] = importlib.import_module('props').load(propname)


def execute(job):
    """Run one case.  JOB: dict(spec|None, seed, decisions, tier, timeout)."""
    prop = _w['prop']
    spec = job.get('spec')
    try:
        if spec is None:
            spec = prop.gen(random.Random(job['seed']), job['tier'])
            spec = json.loads(json.dumps(spec))
        ctx = Ctx(_w['build'], _w['dir'], job['seed'], job.get('decisions'), job.get('timeout', 30))
        v = prop.run(spec, ctx)
        tot = Counter()
        for r in ctx.runs:
            for c, (f, o) in r.fault.items():
                tot['fired.' + c] += f
                tot['opp.' + c] += o
            for k in ('sp', 'switches', 'gc', 'vtime', 'idle'):
                tot[k] += int(r.stat.get(k, 0))
            if r.status in ('CRASHED',):
                tot['crashes'] += 1
            tot['vms'] += 1
        res = dict(seed=job['seed'], viol=v, digest=ctx.digest(), tot=dict(tot),
                   sched=','.join(r.stat.get('sched', r.status) for r in ctx.runs),
                   nontriv=bool(prop.nontrivial(spec, ctx)), probes=list(prop.probes(spec, ctx)),
                   events=sum(len(r.events) for r in ctx.runs), tag=job.get('tag'))
        if v or job.get('full'):
            res['spec'] = spec
            res['dec'] = [r.dec for r in ctx.runs]
            res['log'] = [['%s' % e for e in r.events[-400:]] + ['END ' + r.status] for r in ctx.runs]
            res['out'] = [r.out[-2000:] for r in ctx.runs]
        return res
    except SimError as e:
        return dict(seed=job['seed'], error=str(e), tag=job.get('tag'))
    except Exception:
        import traceback
        return dict(seed=job['seed'], error=traceback.format_exc(), tag=job.get('tag'))


class Engine:
    def __init__(self, prop, build, tier, seed, jobs=8):
        self.prop, self.build, self.tier, self.seed = prop, build, tier, seed
        self.root = new_root()
        self.jobs = jobs
        self.pool = self.new_pool()

    def new_pool(self):
        return multiprocessing.get_context('fork').Pool(
            self.jobs, _init, (self.build, self.root, self.prop.id))

    def close(self):
        self.pool.terminate()
        self.pool.join()
        shutil.rmtree(self.root, ignore_errors=True)

    def job(self, seed, **k):
        return dict(seed=seed, tier=self.tier, **k)

    def map(self, jobs):
        return self.pool.map(execute, jobs, 1)

    # -- search --
    skip = 0

    def search(self, budget, max_cases, known):
        t0 = time.time()
        self.agg, self.probes = Counter(), Counter()
        self.scheds, self.errors, self.samples = set(), [], []
        self.cases = self.nontriv = self.det = 0
        self.known_seen = Counter()
        found = []
        digests = {}
        n = 0

        def gen():
            i = self.skip
            while time.time() - t0 < budget and i < max_cases and not found and len(self.errors) < 5:
                yield self.job(mix(self.prop.id, self.seed, i))
                # Determinism: the first cases and one in 40 afterwards run twice, in whichever
                # worker comes first.
                if i < 16 or i % 40 == 0:
                    yield self.job(mix(self.prop.id, self.seed, i), tag='again')
                i += 1
                self.skip = i
        # imap consumes its generator eagerly: feed it in slices.
        g = gen()
        while True:
            batch = []
            for j in g:
                batch.append(j)
                if len(batch) >= self.jobs * 6:
                    break
            if not batch:
                break
            for r in self.pool.imap_unordered(execute, batch, 1):
                if 'error' in r:
                    self.errors.append(r)
                    continue
                if r['seed'] in digests:
                    self.det += 1
                    if digests[r['seed']] != r['digest']:
                        self.errors.append(dict(seed=r['seed'], error='not deterministic: %s / %s' % (
                            digests[r['seed']], r['digest'])))
                digests[r['seed']] = r['digest']
                if r['tag'] == 'again':
                    continue
                self.cases += 1
                self.agg.update(r['tot'])
                self.probes.update(r['probes'])
                self.agg['events'] += r['events']
                if r['nontriv']:
                    self.nontriv += 1
                    self.scheds.add(r['sched'])
                if len(self.samples) < 3:
                    self.samples.append(r['seed'])
                new = []
                for k, m in r['viol']:
                    kf = match_known(known, self.prop.id, k)
                    if kf:
                        self.known_seen[kf] += 1
                    else:
                        new.append((k, m))
                if new:
                    r['viol'] = new
                    found.append(r)
        self.search_s = time.time() - t0
        return found

    # -- gate and minimise --
    def gate(self, r):
        """Same seed twice, and a replay of the recorded decisions in fresh processes."""
        key = r['viol'][0][0]
        rs = self.map([self.job(r['seed'], spec=r['spec'], full=1, timeout=60),
                       self.job(r['seed'], spec=r['spec'], full=1, timeout=60),
                       self.job(r['seed'], spec=r['spec'], decisions=r['dec'], full=1, timeout=60),
                       self.job(r['seed'], spec=r['spec'], decisions=r['dec'], full=1, timeout=60)])
        for x in rs:
            if 'error' in x or key not in [k for k, _ in x['viol']]:
                return None
        if len({x['digest'] for x in rs[:2]}) != 1 or len({x['digest'] for x in rs[2:]}) != 1:
            return None
        return key

    def minimise(self, r, key, budget):
        t0 = time.time()
        best = dict(seed=r['seed'], spec=r['spec'], dec=r['dec'])
        known = lambda x: 'error' not in x and key in [k for k, _ in x['viol']]
        tries = 0
        # 1. the workload: candidates are retried under several seeds, since schedules shift
        progress = True
        while progress and time.time() - t0 < budget * 0.6:
            progress = False
            cands = []
            for c in self.prop.shrink(best['spec']):
                cands.append(c)
                if len(cands) >= 400:
                    break
            k = 0
            while k < len(cands) and time.time() - t0 < budget * 0.6:
                group = cands[k:k + self.jobs]
                k += len(group)
                jobs = []
                for gi, c in enumerate(group):
                    seeds = [best['seed']] + [mix(best['seed'], 'm', s) for s in range(4)]
                    jobs += [self.job(s, spec=c, full=1, tag=gi) for s in seeds]
                hit = {}
                for x in self.pool.imap(execute, jobs, 1):
                    tries += 1
                    if known(x):
                        hit.setdefault(x['tag'], x)
                if hit:
                    x = hit[min(hit)]
                    best = dict(seed=x['seed'], spec=x['spec'], dec=x['dec'])
                    progress = True
                    break
        # 2. the decisions
        flat = [(i, d) for i, ph in enumerate(best['dec']) for d in ph]

        def unflat(fl):
            dec = [[] for _ in best['dec']]
            for i, d in fl:
                dec[i].append(d)
            return dec
        n = 2
        size = len(flat)
        while flat and time.time() - t0 < budget:
            chunk = max(1, (len(flat) + n - 1) // n)
            cands = [flat[:i] + flat[i + chunk:] for i in range(0, len(flat), chunk)]
            ok = None
            for k in range(0, len(cands), self.jobs):
                if time.time() - t0 > budget:
                    break
                grp = cands[k:k + self.jobs]
                for c, x in zip(grp, self.map([self.job(best['seed'], spec=best['spec'], decisions=unflat(c), full=1)
                                               for c in grp])):
                    tries += 1
                    if known(x):
                        ok = c
                        break
                if ok is not None:
                    break
            if ok is not None:
                flat = ok
                n = max(2, n - 1)
            elif chunk == 1:
                break
            else:
                n = min(len(flat), n * 2)
        best['dec'] = unflat(flat)
        best['min'] = dict(tries=tries, decisions_before=size, decisions_after=len(flat))
        return best

    def finalise(self, best, key):
        """Replay the minimised case twice in fresh processes; answer its full record."""
        rs = self.map([self.job(best['seed'], spec=best['spec'], decisions=best['dec'], full=1, timeout=60)
                       for _ in range(2)])
        if any('error' in x for x in rs) or rs[0]['digest'] != rs[1]['digest']:
            return None
        m = [v for v in rs[0]['viol'] if v[0] == key]
        if not m:
            return None
        return dict(rs[0], viol=m, min=best.get('min'))


# ---- known findings -------------------------------------------------------------

def load_known():
    """Lines `known: property=ID key=PATTERN what...` and `fixed: property=ID COMMIT what...`."""
    res = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('known: '):
                a = l.split(' ', 3)
                res.append(dict(property=a[1].split('=', 1)[1], key=a[2].split('=', 1)[1], what=a[3].strip()))
    except OSError:
        pass
    return res


def match_known(known, pid, key):
    for k in known:
        if k['property'] == pid and fnmatch.fnmatchcase(key, k['key']):
            return k['key']
    return None


# ---- entry ----------------------------------------------------------------------

def write_replay(prop, rec, build):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop.id, rec['digest'].replace(',', '')[:12]))
    json.dump(dict(property=prop.id, seed=rec['seed'], key=rec['viol'][0][0], message=rec['viol'][0][1],
                   spec=rec['spec'], decisions=rec['dec'], digest=rec['digest'], minimisation=rec.get('min'),
                   history=rec['log'], output=rec['out'],
                   how_to_replay='python3 /verif/check.py --replay ' + p), open(p, 'w'), indent=1)
    return p


def replay(path):
    import build as B, props
    j = json.load(open(path))
    b, _ = B.build()
    root = new_root()
    try:
        _init(b, root, j['property'])
        r = execute(dict(seed=j['seed'], spec=j['spec'], decisions=j['decisions'], tier='quick', full=1, timeout=60))
        if 'error' in r:
            print(r['error'])
            return 2
        for l in r['log']:
            print('\n'.join(l))
        print('\n'.join(r['out']))
        hit = [m for k, m in r['viol'] if k == j['key']]
        print('digest %s, recorded %s' % (r['digest'], j['digest']))
        if hit:
            print(hit[0])
            print('VIOLATION property=%s replay=%s' % (j['property'], path))
            return 1
        print('not reproduced')
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check(pid, tier, seed, budget=None, max_cases=10**9):
    import build as B, props
    t0 = time.time()
    prop = props.load(pid)
    print('property %s tier %s seed %d' % (pid, tier, seed), flush=True)
    try:
        b, bs = B.build()
    except B.BuildError as e:
        print('build of the simulated VM failed:\n%s' % e)
        return 2
    known = load_known()
    eng = Engine(prop, b, tier, seed)
    rc, viol = 0, 0
    try:
        budget = budget or (prop.quick_s if tier == 'quick' else prop.thorough_s)
        ghosts, odd = 0, []
        while True:
            found = eng.search(max(5, budget - (time.time() - t0 - bs)), max_cases, known)
            path = None
            # Different keys first: one of them has to pass the gate.
            seen, order = set(), []
            for r in found:
                if r['viol'][0][0] not in seen:
                    seen.add(r['viol'][0][0])
                    order.append(r)
            order += [r for r in found if r not in order]
            for r in order[:24]:
                key = eng.gate(r)
                if key is None:
                    print('seed %d: violation %s did not reproduce' % (r['seed'], r['viol'][0]))
                    continue
                best = eng.minimise(r, key, 40 if tier == 'quick' else 300)
                rec = eng.finalise(best, key)
                if rec is None:
                    rec = eng.finalise(dict(seed=r['seed'], spec=r['spec'], dec=r['dec']), key)
                if rec is None:
                    print('seed %d: minimised violation did not replay' % r['seed'])
                    continue
                path = write_replay(prop, rec, b)
                viol += 1
                print('%s: %s' % (key, rec['viol'][0][1]))
                print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
                break
            # A bug that makes the VM run wild shows differently each time: look for a run of it that repeats.
            ghosts += 1
            odd += [r for r in found if r['viol'][0][0] != 'vm-stuck'] + eng.errors
            if viol or not found or ghosts > 3 or time.time() - t0 > budget + 200:
                break
        if viol:
            rc = 1
        elif found or odd:
            for e in odd[:5]:
                if 'error' in e:
                    print('error, seed %d: %s' % (e['seed'], e['error']))
            rc = 2
        for k in known:
            if k['property'] == pid:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        a = eng.agg
        hours = max(eng.search_s, 1e-3) / 3600
        cov = dict(
            evaluations=eng.cases, distinct_nontrivial=len(eng.scheds),
            rule=prop.rule if hasattr(prop, 'rule') else
            'one case = one seeded workload under one seeded schedule; non-trivial: the workload logged events; '
            'distinct: by the hash of the ordered event log of all its VMs',
            samples=[{'seed': s, 'spec': prop.gen(random.Random(s), tier)} for s in eng.samples[:2]],
            vm_runs=a['vms'], runs_per_hour=int(a['vms'] / hours), seeds_per_hour=int(eng.cases / hours),
            simulated_seconds=round(a['vtime'] / 1e9, 3), bytecodes=a['sp'], process_switches=a['switches'],
            forced_collections=a['gc'], idle_waits=a['idle'], crashes_injected=a['crashes'],
            faults_fired={k[6:]: v for k, v in sorted(a.items()) if k.startswith('fired.') and v},
            fault_opportunities={k[4:]: v for k, v in sorted(a.items()) if k.startswith('opp.') and v},
            nontrivial_cases=eng.nontriv, determinism_reruns=eng.det, probes=dict(eng.probes),
            components=prop.components, known_findings_seen=dict(eng.known_seen), build_s=round(bs, 1))
        ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL, coverage=cov,
                  assumptions=list(getattr(prop, 'assumptions', ())) + [
                      'switches between processes happen at bytecode boundaries, as in the VM',
                      'one native thread: the VM does not create others here'],
                  wall_s=round(time.time() - t0, 1), violations=viol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%d cases, %d distinct, %d VMs, %.0f simulated s, %.1f s wall' % (
            eng.cases, len(eng.scheds), a['vms'], a['vtime'] / 1e9, time.time() - t0))
        print('faults', cov['faults_fired'], 'probes', dict(eng.probes))
    finally:
        eng.close()
    return rc
