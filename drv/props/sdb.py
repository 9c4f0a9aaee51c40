"""P47: SandstoneDb.

Several processes save, change, abort and delete records; the VM crashes or system calls fail at seeded points; a fresh VM
recovers the store.  The hooks that the records have (before and after a save or deletion) log what is going on inside
the record's lock."""
import os
from core import Prop
from props.util import swarm

# (the image loads its records in the background when it starts: let it find none)
CLASSES = r'''
Eval [ (Delay forMilliseconds: 10) wait ]
Eval [ Namespace current: SandstoneDb ]
SDFileStore subclass: SimStore [
    defaultBaseDirectory [ ^File name: 'data/renewals/db' ]
    defaultCacheSize [ ^32 ]
]
SDActiveRecord subclass: SimRec [
    | n data other |
    Cnt := 0.
    SimRec class >> next [ ^Cnt := Cnt + 1 ]
    SimRec class >> cnt: x [ Cnt := x ]
    initialize [ super initialize. id := 'k', SimRec next printString. n := 0 ]
    n [ ^n ] other [ ^other ] data [ ^data ]
    n: x size: z other: o [ n := x. data := Array new: z withAll: x. o isNil ifFalse: [other := o] ]
    ok [ ^data isArray and: [data allSatisfy: [:x | x = n]] ]
    show [ ^self class name, ' ', id, ' ', n printString, ' ', self ok printString ]
    say: x [ Sim log: x, ' ', id, ' ', self class name, ' ', n printString, ' ', Processor activeProcess name ]
    onBeforeSave [ super onBeforeSave. self say: 'bs' ]
    onAfterSave [ self say: 'es' ]
    onBeforeDelete [ self say: 'bd' ]
    onAfterDelete [ self say: 'ed' ]
]
SimRec subclass: SimSub [ ]
Eval [ SDActiveRecord setStore: SimStore new ]
'''


class P47(Prop):
    id = 'P47'
    technique = 'seeded crashes, I/O errors, short transfers and interleavings of savers at every system call of the store; the recovered store is compared with the set of states that the completed and unfinished operations allow'
    lists = ('procs', 'ops')
    components = {'real': ['libgst', 'kernel/*.st image', 'packages/sandstonedb', 'packages/object-dumper', 'a scratch file system'],
                  'stub': ['clock, timers and signals of the host (simulated)', 'system calls on the files of the store fail, fall short or crash as the plan says']}
    thorough_s = 600

    def gen(self, rng, tier):
        nr = rng.choice([1, 2, 3, 5])
        recs = [rng.choice(['SimRec', 'SimRec', 'SimSub']) for _ in range(nr)]
        procs = []
        for p in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 7)):
                x = rng.random()
                i = rng.randrange(nr)
                if x < 0.6:
                    ops.append(['save', i, rng.choice([1, 1, 5, 300, 1500]), rng.choice([-1, -1, rng.randrange(nr)])])
                elif x < 0.75:
                    ops.append(['del', i])
                elif x < 0.85:
                    ops.append(['abort', i])
                elif x < 0.92:
                    ops.append(['find', i])
                else:
                    ops.append(['delay', rng.randint(1, 3)])
            procs.append(dict(pri=rng.choice([3, 4, 4, 5]), ops=ops))
        knobs = swarm(rng, gc_p=0.2, max_sp=40000000)
        x = rng.random()
        if x < 0.6:
            knobs['crash_ppm'] = rng.choice([2000, 10000, 40000])
        if rng.random() < 0.35:
            knobs['ioerr_ppm'] = rng.choice([3000, 30000])
        if rng.random() < 0.3:
            knobs['wshort_ppm'] = 200000
        if rng.random() < 0.3:
            knobs['eintr_ppm'] = 50000
        return dict(recs=recs, procs=procs, knobs=knobs, k2=rng.choice([0, 0, 5000, 40000]), again=rng.randrange(2))

    def op(self, o, nr):
        if o[0] == 'delay':
            return '(Delay forMilliseconds: %d) wait.' % o[1]
        if o[1] >= nr:
            return ''
        r = '(R at: %d)' % (o[1] + 1)
        if o[0] == 'save':
            other = '(R at: %d)' % (o[3] + 1) if 0 <= o[3] < nr and o[3] != o[1] else 'nil'
            # an object may only refer to records that are saved
            return ("r := %s. t := %s. (t isNil or: [t isNew]) ifTrue: [t := nil]. r save: [r n: (N at: 1 put: (N at: 1) + 1) size: %d other: nil]." % (r, other, o[2]))
        if o[0] == 'del':
            return "r := %s. r isNew ifFalse: [r critical: [r isNew ifFalse: [r delete]]]." % r
        if o[0] == 'abort':
            return ("r := %s. r isNew ifFalse: [r critical: [r isNew ifFalse: [v := r n. x := r id. r n: -1 size: 1 other: nil. r abortChanges. r := %s. Sim log: 'aborted ', x, ' ', v printString, ' ', r n printString, ' ', r ok printString]]]." % (r, r))
        if o[0] == 'find':
            return ("r := %s. r isNew ifFalse: [r critical: [r isNew ifFalse: [x := r class atId: r id. Sim log: 'found ', (x == r) printString, ' ', r id]]]." % r)
        raise KeyError(o)

    def render(self, spec):
        nr = len(spec['recs'])
        l = ['Smalltalk at: #P put: nil; at: #R put: nil; at: #N put: (Array with: 0).', CLASSES, 'Eval [',
             'P := OrderedCollection new. SDActiveRecord warmUpAllClasses.',
             'R := {%s}.' % '. '.join('%s new' % c for c in spec['recs'])]
        for i, p in enumerate(spec['procs']):
            body = '\n'.join("[%s] on: Error do: [:e | Sim log: 'fail ', e class printString, ' ', (e messageText copyReplaceAll: Directory working name with: '$D'). e return]." % self.op(o, nr) for o in p['ops'])
            l.append("P addLast: (Sim process: 'p%d' at: %d do: [| r t v x | %s])." % (i, p['pri'], body))
        l.append("Sim begin. P do: [:p | p resume]. Sim drain: 3000 until: [P allSatisfy: [:p | p isTerminated]]. Sim done: 'ok' ]")
        return '\n'.join(l) + '\n'

    RECOVER = '\n'.join(['Smalltalk at: #P put: nil.', CLASSES, r'''
Eval [ | a |
    Sim begin.
    SDActiveRecord warmUpAllClasses.
    %s
    a := SimRec findAll asSortedCollection: [:x :y | x id <= y id].
    a do: [:r | Sim log: 'rec ', r show].
    a do: [:r | (r class atId: r id) == r ifFalse: [Sim log: 'twice ', r show]].
    Sim arm: 0.
    Sim done: 'ok' ]
'''])

    def run(self, spec, ctx):
        os.makedirs(ctx.path('data'), exist_ok=True)
        r = ctx.phase(self.render(spec), spec['knobs'])
        v = self.vmcheck(r, ('DONE', 'CRASHED'))
        if not any(e.w[0] == '!ioerr' for e in r.events):
            v = v or self.outcheck(r)
        if v:
            return v
        may = {}          # id -> set of (class, n) or None, as allowed on disk
        cur = {}          # id -> operation going on in the record's lock
        err = False
        self.crashed = r.status == 'CRASHED'
        self.n = 0
        lastn = {}
        for e in r.events:
            w = e.w
            if w[0] == '!ioerr':
                err = True
            elif w[0] == 'err':
                return [('error', e.text)]
            elif w[0] in ('bs', 'bd'):
                k, c, n, p = w[1], w[2], int(w[3]), w[4]
                o = cur.get(k)
                if o and not o[2]:
                    return [('lock', 'two operations on record %s at once: %s and %s' % (k, o[:2], e.text))]
                cur[k] = [w[0], p, False]
                may.setdefault(k, {None})
                may[k].add((c, n) if w[0] == 'bs' else None)
            elif w[0] in ('es', 'ed'):
                k, c, n = w[1], w[2], int(w[3])
                cur[k] = None
                may[k] = {(c, n) if w[0] == 'es' else None}
                self.n += 1
            elif w[0] == 'fail':
                if not err:
                    return [('failed', 'an operation failed though no system call had: %s' % e.text)]
                # whose operation it was does not matter: it is over
                for k in cur:
                    if cur[k]:
                        cur[k][2] = True
            elif w[0] == 'aborted':
                if not err and (w[4] != 'true' or int(w[3]) not in {x[1] for x in may.get(w[1], ()) if x}):
                    return [('abort', 'abortChanges answered a record that was not the saved one (%s): %s' % (may.get(w[1]), e.text))]
            elif w[0] == 'found':
                if w[1] != 'true' and not err:
                    return [('find', 'a saved record is not found: %s' % e.text)]
        for i in range(1 + (spec['k2'] > 0) + spec['again']):
            k2 = {'max_sp': 40000000}
            if i == 0 and spec['k2']:
                k2['crash_ppm'] = spec['k2']
            b = ctx.phase(self.RECOVER % '', k2)
            v = self.vmcheck(b, ('DONE', 'CRASHED'))
            if v:
                return v
            if b.status == 'CRASHED':
                continue
            got = {}
            for e in b.events:
                w = e.w
                if w[0] in ('err', 'twice'):
                    return [('recover-' + w[0], e.text)]
                if w[0] == 'rec':
                    if w[2] in got:
                        return [('twice', 'record %s is there twice' % w[2])]
                    got[w[2]] = (w[1], int(w[3]))
                    if w[4] != 'true':
                        return [('garbage', 'a record holds what was never saved: %s' % e.text)]
            for k in set(may) | set(got):
                if got.get(k) not in may.get(k, ()):
                    return [('state', 'record %s is %s after the restart, not %s' % (k, got.get(k), ' or '.join(map(str, may.get(k, ())))))]
            # what was found once stays
            may = {k: {got.get(k)} for k in may}
        return []

    def nontrivial(self, spec, ctx):
        return any(e.w[0] in ('es', 'ed') for e in ctx.runs[0].events)

    def probes(self, spec, ctx):
        p = ['recovered after ' + ctx.runs[0].status] if len(ctx.runs) > 1 else []
        if any(r.status == 'CRASHED' for r in ctx.runs[1:]):
            p.append('crash in the recovery')
        for k in ('fail', 'ed', 'aborted'):
            if any(e.w[0] == k for e in ctx.runs[0].events):
                p.append(k)
        return p
