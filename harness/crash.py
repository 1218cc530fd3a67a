"""P13: executions interrupted at any of their file operations, and executions at the same time under chosen interleavings.

A process executes one operation with an audit hook: every opening, renaming, removal, copy or lock of a file in the folders of
tables, geopotentials or configuration is an event, and so is the moment after a file was opened for writing."""
import copy
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import time

import geo
import store
import tlc

WATCHED = ('it', 'alt', 'git', '.pyg2p', 'geo', 'galt', 'ggeo', 'configuration', 'outs')
FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
LOCKS = ('fcntl.flock', 'fcntl.lockf', 'fcntl.fcntl')
CHANGES = ('os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move')


class Events:
    """audit hook; act(number, event) is called at each of them"""

    def __init__(self, act):
        self.root = os.getcwd()
        self.act = act
        self.n = 0
        self.busy = False
        self.on = True
        sys.addaudithook(self.hook)
        # (not audited)
        for name in ('stat', 'lstat', 'access'):
            setattr(os, name, self.looking(getattr(os, name)))

    def looking(self, fn):
        def look(path, *a, **k):
            if self.on and not self.busy and isinstance(path, (str, bytes, os.PathLike)):
                self.busy = True
                try:
                    if self.watched(os.fspath(path)):
                        self.event('look ' + os.path.relpath(os.path.abspath(os.fsdecode(path)), self.root), False)
                finally:
                    self.busy = False
            return fn(path, *a, **k)
        return look

    def watched(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return False
        p = os.path.relpath(os.path.abspath(p), self.root)
        return p.split(os.sep)[0] in WATCHED

    def hook(self, event, args):
        if not self.on or self.busy:
            return
        if event == 'open':
            if len(args) < 3 or not isinstance(args[0], (str, bytes)):
                return
        elif event not in CHANGES and event not in LOCKS:
            return
        self.busy = True
        try:
            if event == 'open':
                if self.watched(args[0]):
                    w = isinstance(args[2], int) and bool(args[2] & FLAGS)
                    self.event(('write ' if w else 'read ') + os.path.relpath(os.path.abspath(os.fsdecode(args[0])), self.root), w)
                    if w:
                        sys.setprofile(self.opened)
            elif event in LOCKS:
                self.event('lock', False)
            elif any(self.watched(a) for a in args[:2]):
                self.event('%s %s' % (event, ' '.join(os.path.basename(a) if isinstance(a, str) else '' for a in args[:2])), True)
        finally:
            self.busy = False

    def opened(self, frame, event, arg):
        """first event of the interpreter after an opening"""
        if self.busy or event in ('c_return', 'c_exception'):
            return
        sys.setprofile(None)
        self.busy = True
        try:
            self.event('opened', True)
        finally:
            self.busy = False

    def event(self, what, change):
        self.n += 1
        self.act(self.n, what, change)


def forked(fn, before):
    """fn() in a forked process; returns pid, pipe. before(): in it, at first"""
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            before()
            try:
                res = ('ok', fn())
            except BaseException as e:
                import traceback
                res = ('error', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            data = pickle.dumps(res)
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    return pid, rd


def collect(pid, rd, timeout=60):
    data, end = b'', time.time() + timeout
    while True:
        if not select.select([rd], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            data = pickle.dumps(('hung', None))
            break
        x = os.read(rd, 1 << 16)
        if not x:
            break
        data += x
    os.close(rd)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('killed', None)


class Hung(Exception):
    pass


def isolated(fn, *args):
    st, v = collect(*forked(lambda: fn(*args), lambda: None), timeout=30)
    if st == 'hung':
        raise Hung()
    if st != 'ok':
        raise AssertionError(v)
    return v


# ---------------------------------------------------------------- interruption
def interrupted(fn, at, how, limit):
    """fn() interrupted at its at-th change of files: kill (before it), cut (killed writing after limit bytes), full (no more space).
    at = 0: no interruption. Returns result and changes seen"""
    log = os.open('events.txt', os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    inf = resource.RLIM_INFINITY
    st = dict(n=0, cut=False)

    def act(n, what, change):
        if not change:
            return
        st['n'] += 1
        os.write(log, (what + '\n').encode())
        if st['cut'] and what != 'opened':
            resource.setrlimit(resource.RLIMIT_FSIZE, (inf, inf))
            st['cut'] = False
        if st['n'] != at:
            return
        if how == 'kill' or not what.startswith('write'):
            os.kill(os.getpid(), signal.SIGKILL)
        else:
            st['cut'] = True
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            if how == 'cut':
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, inf))
    pid, rd = forked(fn, lambda: Events(act))
    res = collect(pid, rd)
    os.lseek(log, 0, 0)
    with os.fdopen(log, 'r') as f:
        ev = f.read().splitlines()
    os.remove('events.txt')
    return res, ev


# ---------------------------------------------------------------- executions at the same time
class Player:
    def __init__(self, fn):
        a, b = os.pipe()   # tokens
        c, d = os.pipe()   # events

        def act(n, what, change):
            os.write(d, (what + '\n').encode())
            os.read(a, 1)
        self.ev = []
        self.buf = b''
        self.done = False
        self.res = None
        self.waiting = False
        self.pid, self.rd = forked(fn, lambda: (os.close(b), os.close(c), Events(act)))
        os.close(a)
        os.close(d)
        self.token, self.events = b, c
        self.trying = False

    def poll(self, timeout):
        """True when it stops at an event or ends, False when it's still running after timeout"""
        end = time.time() + timeout
        while not self.waiting and not self.done:
            r, _, _ = select.select([self.events], [], [], max(0, end - time.time()))
            if not r:
                return False
            x = os.read(self.events, 4096)
            if not x:
                self.res = collect(self.pid, self.rd)
                self.done = True
                os.close(self.events)
                os.close(self.token)
                break
            self.buf += x
            if self.buf.endswith(b'\n'):
                what = self.buf.decode().strip()
                self.ev.append(what)
                # waiting for others by attempts, not by a lock
                self.trying = len(self.ev) >= 16 and len(set(self.ev[-16:])) <= 4
                self.buf = b''
                self.waiting = True
        return True

    def go(self):
        if self.waiting:
            self.waiting = False
            os.write(self.token, b'x')

    def limit(self):
        return .25 if self.ev and self.ev[-1] == 'lock' else 20.


def together(fns, plan, observe):
    """plan: [[player, events]...]: player goes on for that many events; then all to the end. observe() at every change of player"""
    P = [Player(f) for f in fns]
    sched = []
    deadline = time.time() + 40

    def advance(p, m):
        """False when blocked"""
        k = 0
        while not p.done:
            if not p.poll(p.limit()):
                return False
            if p.done:
                break
            if k >= m:
                break
            if p.trying and sum(not q.done for q in P) > 1:
                p.go()
                return False
            if time.time() > deadline:
                return False
            p.go()
            k += 1
            sched.append((P.index(p), p.ev[-1]))
        return True
    try:
        for i, m in plan:
            advance(P[i], m)
            observe()
        while not all(p.done for p in P):
            for p in P:
                if not p.done:
                    advance(p, 10 ** 6)
                    observe()
            if time.time() > deadline:
                raise AssertionError('executions do not end: %s' % [p.ev[-3:] for p in P])
    finally:
        for p in P:
            if not p.done:
                os.kill(p.pid, signal.SIGKILL)
                os.waitpid(p.pid, 0)
    out = []
    for p in P:
        if p.res[0] != 'ok':
            raise AssertionError(p.res[1] or 'died')
        out.append(p.res[1])
    return out, sched


# ---------------------------------------------------------------- scenarios
FOLDERS = ('it', 'alt', 'git', 'geo', 'galt', 'ggeo', '.pyg2p', 'configuration')


def save(d='snap'):
    shutil.rmtree(d, ignore_errors=True)
    for f in FOLDERS:
        if os.path.isdir(f):
            shutil.copytree(f, os.path.join(d, f))


def restore(d='snap'):
    for f in FOLDERS:
        if os.path.isdir(os.path.join(d, f)):
            shutil.rmtree(f)
            shutil.copytree(os.path.join(d, f), f)


def clean_config():
    """as at the very first execution of the user"""
    for f in ('intertables.json', 'geopotentials.json', 'ftp.json'):
        if os.path.exists('.pyg2p/' + f):
            os.remove('.pyg2p/' + f)


class Tables:
    """operations on tables: [k, create]"""

    def __init__(self, keys, pre, first, shared=False):
        self.w = store.World(keys)
        self.shared = shared    # one output folder, created by executions
        self.good = self.w.fresh()
        self.known = {}
        self.alt = False
        for k, c in pre:
            y = self.w.run(self.key(k), True, False)
            if y['rc']:
                raise AssertionError('not created')
        for k, c in pre:
            if c == 'missing':      # registered, its file was removed
                for f in self.w.state()['files']:
                    if f['c'] == self.key(k):
                        os.remove('it/' + f['n'])
        if first and not pre:
            clean_config()

    def reset(self):
        restore()
        shutil.rmtree('outs', ignore_errors=True)
        self.w.entries = dict(self.known)
        self.files = {f['n'] for f in self.w.state()['files']}

    def key(self, k):
        return self.good[(k - 1) % len(self.good)]

    def state(self):
        return self.w.state()

    def call(self, op, i=0):
        if self.shared:
            return lambda: self.w.run_here(self.key(op[0]), op[1], False, out='outs', shared='p%dp' % i)
        return lambda: self.w.run_here(self.key(op[0]), op[1], False, out='out%d' % i)

    def run(self, op, y):
        k = self.key(op[0])
        return dict(x=dict(k=k, create=op[1], alt=False), rc=y['rc'], right=store.same(y['maps'], self.w.maps[k]), maps=len(y['maps']), err=y['err'])

    def alone(self, op):
        """leftovers of interrupted executions are not specified, but for not being used"""
        s = self.state()
        y = isolated(self.call(op))
        t = self.state()
        used = {r['n'] for r in t['reg']} | self.files
        for x in (s, t):
            x['files'] = [f for f in x['files'] if f['n'] in used]
        return dict(self.run(op, y), kind='exec', s=s, t=t)

    def after(self, ops):
        """operations after an interruption"""
        ks = {self.key(o[0]) for o in ops} | {self.key(1), self.key(2)}
        return [[self.good.index(k) + 1, True] for k in sorted(ks)]


class Geos:
    """operations on geopotentials: [c]"""

    def __init__(self, st, pre, first):
        self.w = geo.World(st)
        self.w.fresh()
        for c, x in pre:
            geo.I.isolated(self.w.add, self.w.path(c))
        if first and not pre:
            clean_config()

    def reset(self):
        restore()
        self.files = {f['n'] for f in self.w.state()['files']}

    def state(self):
        return self.w.state()

    def call(self, op, i=0):
        return lambda: self.w.add(self.w.path(op[0]))

    def x(self, c):
        return dict(e=self.w.ids[c], c=c, n=self.w.base(c), inside=False)

    def run(self, op, rc):
        return dict(x=self.x(op[0]), rc=rc)

    def grids(self):
        return [self.w.ids[c] for c in sorted(self.w.ids)]

    def alone(self, op):
        s = self.state()
        self.files |= {n for c in range(1, self.w.st['C'] + 1) for n in [self.w.base(c)]}
        if op[0] < 0:
            rc, used = isolated(self.w.correct, -op[0], False)
            return dict(kind='correct', s=s, x=dict(e=self.w.ids[-2 * op[0] - 1], alt=False), rc=rc, used=used, t=self.state(), grids=self.grids())
        rc = isolated(self.call(op))
        t = self.state()
        used = {r['n'] for r in t['reg']} | self.files
        for x in (s, t):
            x['files'] = [f for f in x['files'] if f['n'] in used]
        return dict(kind='add', s=s, x=self.x(op[0]), rc=rc, t=t, grids=self.grids())

    def after(self, ops):
        g = sorted({(o[0] + 1) // 2 for o in ops} | {1})
        return [[o[0]] for o in ops] + [[-e] for e in g]


def world(sc):
    if sc['kind'] == 'tables':
        return Tables(sc['keys'], sc['pre'], sc['first'], sc['shared'])
    return Geos(sc['keys'], sc['pre'], sc['first'])


def mark(w, rec, sc):
    if sc['kind'] == 'geos':
        rec['grids'] = w.grids()
    return rec


def crashes(sc, points, rnd):
    """job: operation sc['ops'][0] interrupted at chosen points (None: all)"""
    import random
    import pyg2p.main  # noqa
    w = world(sc)
    op = sc['ops'][0]
    s = w.state()
    w.known = dict(getattr(w.w, 'entries', {}))
    save()
    _, ev = interrupted(w.call(op), 0, None, 0)
    r = random.Random(rnd)
    cases = [(j + 1, how) for j, e in enumerate(ev) for how in (('kill', 'cut', 'full') if e.startswith('write') else ('kill',))]
    if points and len(cases) > points:
        cases = r.sample(cases, points)
    out = []
    for j, how in cases:
        w.reset()
        limit = r.choice([0, 1, 10, 40, 90])
        res, seen = interrupted(w.call(op), j, how, limit)
        t = w.state()
        recs = [mark(w, dict(kind='broken', s=s, t=t), sc)]
        if how == 'kill' and res[0] != 'killed':
            recs[0]['missed'] = True
        x = dict(at=j, how=how, limit=limit, event=ev[j - 1], recs=recs)
        out.append(x)
        try:
            for o in w.after([op]):
                recs.append(w.alone(o))
        except Hung:
            x['hung'] = True
            break
    return out


def interleavings(sc, plans, rnd):
    """job: operations at the same time; plans: how many (random ones)"""
    import random
    import pyg2p.main  # noqa
    w = world(sc)
    s = w.state()
    w.known = dict(getattr(w.w, 'entries', {}))
    save()
    r = random.Random(rnd)
    n = len(sc['ops'])
    counts, changes = [], []
    for i, op in enumerate(sc['ops']):
        w.reset()
        _, sched = together([w.call(op, i)], [], lambda: None)
        counts.append(len(sched))
        # (number of events before each change of files)
        changes.append([k for k, (_, e) in enumerate(sched) if not e.startswith(('look', 'read', 'lock'))] or [0])
        folders = [k for k, (_, e) in enumerate(sched) if e.startswith('os.mkdir')]
    out = []
    for p in range(plans):
        w.reset()
        plan = []
        done = [0] * n
        first = r.randrange(n)
        if p < len(folders):
            # all the others create the folder before this one
            plan = [[n - 1, folders[p]], [0, 10 ** 6]]
        elif n == 2 and r.random() < .5:
            plan = [[first, r.choice(changes[first]) if r.random() < .5 else r.randint(0, counts[first])], [1 - first, 10 ** 6]]
        else:
            for _ in range(r.randint(2, 4)):
                i = r.randrange(n)
                plan.append([i, r.randint(1, max(1, counts[i] * 2 // 3))])
        recs = []

        def observe():
            recs.append(mark(w, dict(kind='state', s=w.state()), sc))
        ys, sched = together([w.call(op, i) for i, op in enumerate(sc['ops'])], plan, observe)
        t = w.state()
        recs.append(mark(w, dict(kind='many', s=s, t=t, runs=[w.run(op, y) for op, y in zip(sc['ops'], ys)]), sc))
        if r.random() < .3:
            for o in w.after(sc['ops'][:1]):
                recs.append(w.alone(o))
        out.append(dict(plan=plan, recs=recs, schedule=[list(x) for x in sched]))
    return out


def scenario(r, kind, many):
    n = 1 if not many else r.choice([2, 2, 2, 3])
    if kind == 'tables':
        m = r.randint(2, 3)
        keys = store.pool(r, m, modes=('nearest', 'bilinear', 'invdist', 'nearest', 'grib_nearest'))
        pre = [[k, r.choice(['', '', 'missing'])] for k in range(1, m + 1) if r.random() < .35]
        ops = [[r.randint(1, m), r.random() < .9] for _ in range(n)]
        if n == 1:
            done = [k for k, x in pre if not x]
            ops = [[r.choice([k for k in range(1, m + 1) if k not in done] or [1]), True]]
    else:
        keys = geo.setup(r, 6)
        cs = r.sample(range(1, 7), 6)
        m = r.randint(0, 2)
        pre = [[c, ''] for c in cs[:m]]
        ops = [[c] for c in cs[m:m + n]]
        if n > 1 and r.random() < .3:
            ops[1] = list(ops[0])
    return dict(kind=kind, keys=keys, pre=pre, ops=ops, first=r.random() < .4, shared=many and kind == 'tables' and r.random() < .4)


def corrupted(r, x):
    x = copy.deepcopy(x)
    k = r.choice(['lost', 'valid', 'share', 'rc', 'right', 'gone', 'mixed'])
    z = x['t'] if 't' in x else x['s']
    if k == 'valid':
        z['valid'] = False
    elif k == 'lost':
        if x['kind'] == 'state' or not x['s']['reg']:
            return None
        z['reg'] = [e for e in z['reg'] if e != x['s']['reg'][0]]
    elif k == 'share':
        if len(z['reg']) < 2:
            return None
        z['reg'][0]['n'] = z['reg'][1]['n']
    elif k == 'mixed':
        n = [f for f in z['files'] for e in z['reg'] if e['n'] == f['n'] and f['c']]
        if not n:
            return None
        n[0]['c'] = 0
    elif x['kind'] != 'many':
        return None
    elif k == 'rc':
        if x['runs'][0]['rc']:
            return None
        if 'k' in x['runs'][0]['x'] and not x['runs'][0]['x']['create']:
            return None
        x['runs'][0]['rc'] = 1
    elif k == 'right':
        if 'right' not in x['runs'][0] or x['runs'][0]['rc']:
            return None
        x['runs'][0]['right'] = False
    else:
        new = [e for e in x['t']['reg'] if e not in x['s']['reg']]
        if not new:
            return None
        x['t']['files'] = [f for f in x['t']['files'] if f['n'] != new[0]['n']]
    return x


def judge(check, jobs, timeout=400):
    """jobs: (function, scenario, number, seed)"""
    R = check.lab.run([(j[0], j[1:]) for j in jobs], timeout=timeout)
    groups = {'tables': ([], []), 'geos': ([], [])}
    ev = check.cov.setdefault('interrupted_at', {})
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(job=[jobs[i][0].__name__] + list(jobs[i][1:]), error=x))
            continue
        recs, idx = groups[jobs[i][1]['kind']]
        for a, y in enumerate(x):
            check.cov['evaluations'] += 1
            if y.get('hung'):
                check.violation(['hung'], dict(job=[jobs[i][0].__name__] + list(jobs[i][1:]), case={k: y[k] for k in y if k != 'recs'}))
            if 'at' in y:
                e = '%s %s' % (y['how'], y['event'].split()[0])
                ev[e] = ev.get(e, 0) + 1
            else:
                check.cov['interleavings'] = check.cov.get('interleavings', 0) + 1
            for rec in y['recs']:
                recs.append(rec)
                idx.append((i, a))
    check.note('executed %d: %d observations' % (check.cov['evaluations'], sum(len(g[0]) for g in groups.values())))
    for kind, module in (('tables', 'StoreTrace.tla'), ('geos', 'GeoTrace.tla')):
        recs, idx = groups[kind]
        if not recs:
            continue
        V = check.validate(module, recs)
        seen, good = set(), []
        for (i, a), v, rec in zip(idx, V, recs):
            check.cov['traces_validated_against_impl'] += 1
            if v and i not in seen:
                seen.add(i)
                y = R[i][1][a]
                check.violation(v, dict(job=[jobs[i][0].__name__] + list(jobs[i][1:]), case={k: y[k] for k in y if k != 'recs'}, observed=rec))
            elif not v and rec['kind'] != 'exec':
                good.append(rec)
                if rec['kind'] in ('broken', 'many') and rec['s'] != rec['t']:
                    check.sample({k: rec[k] for k in rec if k != 'grids'}, 4)
        bad = [x for x in (corrupted(check.r, x) for x in check.r.sample(good, min(len(good), 150)) if x['kind'] in ('state', 'broken', 'many')) if x]
        for v, x in zip(check.validate(module, bad), bad):
            if v == []:
                raise tlc.MachineryError('corrupted observation accepted: %s' % x)
        check.cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    q, r = check.quick, check.r
    check.modelcheck('StoreSteps.tla', 'StoreSteps_%s.cfg' % ('quick' if q else 'thorough'))
    for x in ('noExcl', 'noTmp', 'noCfgTmp', 'noLock'):
        check.mustfail('StoreSteps.tla', 'StoreSteps_%s.cfg' % x, 'Inv')
    jobs = []
    n = (16, 10, 20, 12) if q else (150, 60, 300, 100)
    for kind, a, b in (('tables', n[0], n[2]), ('geos', n[1], n[3])):
        for _ in range(a):
            jobs.append((crashes, scenario(r, kind, False), 18 if q else None, r.randint(1, 10 ** 6)))
        for _ in range(b):
            jobs.append((interleavings, scenario(r, kind, True), 8 if q else 30, r.randint(1, 10 ** 6)))
    r.shuffle(jobs)
    judge(check, jobs)


def replay(check, d):
    j = d['job']
    judge(check, [tuple([globals()[j[0]]] + j[1:])])
