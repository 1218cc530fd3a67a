"""P22: downloads of datasets (pyg2p -W) from a server of the harness, failing, stalling, interrupted and at the same time (Download.tla)"""
import copy
import json
import os
import random
import signal
import socket
import threading
import time

import crash
import scen
import tlc

CLAUSES = {'whole', 'kept', 'others', 'stays', 'done', 'exitcode', 'extra'}
DATASETS = {'intertables': 'it', 'geopotentials': 'geo'}
IGNORED = ('.', '..', 'readme.txt')


# ---------------------------------------------------------------- server
class Server:
    """plan.json (read at every connection): fault, file (position among the transfers of the connection), bytes. Markers: faulted, stalled, go"""

    def __init__(self, sock, remote, user, pwd):
        self.sock, self.remote, self.user, self.pwd = sock, remote, user, pwd

    def serve(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.client, args=(c,), daemon=True).start()

    def plan(self):
        try:
            with open('plan.json') as f:
                return json.load(f)
        except (OSError, ValueError):
            return {}

    @staticmethod
    def mark(name):
        open(name, 'w').close()

    def file(self, cwd, name):
        d, x = os.path.split(os.path.normpath(os.path.join(cwd, name)))
        return self.remote.get(d, {}).get(x)

    def client(self, c):
        try:
            self.session(c)
        except OSError:
            pass
        finally:
            c.close()

    def session(self, c):
        plan = self.plan()
        fault = plan.get('fault', 'none')
        token = '-%s' % plan.get('token', 0)
        faulted, go = 'faulted' + token, 'go' + token
        if plan.get('once'):
            # others are not concerned
            os.remove('plan.json')

        def say(x):
            c.sendall((x + '\r\n').encode())

        def data():
            d, _ = passive.accept()
            return d
        say('220 ready')
        f = c.makefile('rb')
        cwd, user, passive, n, logged = '/', None, None, 0, False
        for line in f:
            cmd, _, arg = line.decode().strip().partition(' ')
            cmd = cmd.upper()
            if cmd == 'USER':
                user = arg
                say('331 password')
            elif cmd == 'PASS':
                if fault == 'login' or (user, arg) != (self.user, self.pwd):
                    self.mark(faulted)
                    say('530 no')
                else:
                    say('230 ok')
                    logged = True
            elif not logged and cmd not in ('QUIT', 'NOOP', 'OPTS'):
                say('530 log in first')
            elif cmd == 'CWD':
                new = os.path.normpath(os.path.join(cwd, arg))
                if fault == 'cwd' or new not in self.remote:
                    self.mark(faulted)
                    say('550 no such folder')
                else:
                    cwd = new
                    say('250 ok')
            elif cmd == 'PWD':
                say('257 "%s"' % cwd)
            elif cmd in ('TYPE', 'NOOP', 'OPTS'):
                say('200 ok')
            elif cmd in ('PASV', 'EPSV'):
                passive = socket.socket()
                passive.bind(('127.0.0.1', 0))
                passive.listen(1)
                p = passive.getsockname()[1]
                say('227 (127,0,0,1,%d,%d)' % (p // 256, p % 256) if cmd == 'PASV' else '229 (|||%d|)' % p)
            elif cmd in ('NLST', 'LIST'):
                if fault == 'list':
                    self.mark(faulted)
                    say('451 no')
                    continue
                names = self.remote.get(os.path.normpath(os.path.join(cwd, '' if arg.startswith('-') else arg)), {})
                say('150 list')
                d = data()
                d.sendall(b''.join((x + '\r\n').encode() for x in names))
                d.close()
                say('226 done')
            elif cmd == 'SIZE':
                x = self.file(cwd, arg)
                say('550 no' if x is None else '213 %d' % len(x))
            elif cmd == 'RETR':
                x = self.file(cwd, arg)
                here = n == plan.get('file', -1)
                n += 1
                if x is None or here and fault == 'missing':
                    self.mark(faulted)
                    say('550 no such file')
                    continue
                say('150 data')
                d = data()
                if here and fault in ('abort', 'drop', 'stall'):
                    d.sendall(x[:plan['bytes']])
                    if fault == 'stall':
                        self.mark('stalled' + token)
                        end = time.time() + 60
                        while not os.path.exists(go) and time.time() < end:
                            time.sleep(.01)
                        if plan.get('then') == 'go on':
                            d.sendall(x[plan['bytes']:])
                            d.close()
                            say('226 done')
                            continue
                    self.mark(faulted)
                    if fault == 'drop' or fault == 'stall':
                        c.shutdown(socket.SHUT_RDWR)
                        d.close()
                        return
                    d.close()
                    say('426 aborted')
                    continue
                d.sendall(x)
                d.close()
                say('226 done')
            elif cmd == 'QUIT':
                say('221 bye')
                return
            else:
                say('502 not implemented')


def server(remote, user, pwd):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind(('127.0.0.1', 0))
    s.listen(20)
    port = s.getsockname()[1]
    pid = os.fork()
    if pid == 0:
        try:
            Server(s, remote, user, pwd).serve()
        finally:
            os._exit(0)
    s.close()
    return pid, port


# ---------------------------------------------------------------- scenarios
def content(k, size):
    return random.Random(k).randbytes(size)


def gen(r):
    dataset = r.choice(sorted(DATASETS))
    n = r.choice([1, 2, 3, 3, 4, 5])
    names = r.sample(['tbl_a_10_scipy_nearest.npy.gz', 'tbl_b.npy', 'geo_1.grb', 'geo 2.grb', 'x', '.hidden', 'readme.txt.gz', 'README.txt', 'z.tmp', 'b.npy.gz', 'b.npy'], n)
    files = [dict(name=x, size=r.choice([0, 1, 700, 8191, 8192, 8193, 20000, 70000]), own=r.choice([None, None, None, None, 0, 1, 500, 8192])) for x in names]
    extra = [x for x in IGNORED if r.random() < .5]
    ops = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        kind = r.choice(['run', 'fault', 'fault', 'fault', 'limit', 'kill', 'kill', 'stall', 'stall', 'together', 'noconf'])
        k = r.randrange(n)
        b = r.choice([0, 1, 100, 8192, 8193, 60000])
        if kind == 'fault':
            f = r.choice(['noserver', 'login', 'cwd', 'list', 'missing', 'missing', 'abort', 'abort', 'drop', 'drop'])
            ops.append(dict(op='run', fault=f, file=k, bytes=b))
        elif kind == 'limit':
            ops.append(dict(op='limit', bytes=r.choice([4096, 8192, 20000, 30000])))
        elif kind == 'kill':
            ops.append(dict(op='kill', at=r.randint(1, 3 * n + 1)))
        elif kind == 'stall':
            ops.append(dict(op='stall', file=k, bytes=b, then=r.choice(['kill', 'kill', 'go on', 'drop']), other=r.random() < .7))
        elif kind == 'together':
            ops.append(dict(op='together', plan=[[r.randrange(2), r.randint(1, 8)] for _ in range(r.randint(1, 6))]))
        else:
            ops.append(dict(op=kind))
    return dict(dataset=dataset, files=files, ignored=extra, order=r.random() < .5, folder=r.choice(['', '/', '/data/pyg2p', 'sub']), ops=ops,
                registered=r.random() < .3, elsewhere=r.random() < .4)


class World:
    def __init__(self, sc):
        self.sc = sc
        self.dir = DATASETS[sc['dataset']]
        self.dirs = dict(sc['dirs']) if 'dirs' in sc else {}
        self.whole = {f['name']: content('remote ' + f['name'], f['size']) for f in sc['files']}
        self.own = {f['name']: content('own ' + f['name'], f['own']) for f in sc['files'] if f['own'] is not None}
        here, other = {}, {}
        for x in sc['ignored'] + [f['name'] for f in sc['files']]:
            here[x] = self.whole.get(x, b'not needed')
            other[x] = content('other ' + x, 50)
        if sc['order']:
            here = dict(sorted(here.items(), reverse=True))
        base = os.path.normpath(os.path.join('/', sc['folder']))
        o = [d for d in DATASETS if d != sc['dataset']][0]
        remote = {os.path.join(base, sc['dataset']): here, os.path.join(base, o): other, base: {}, '/': {}}
        self.pid, self.port = server(remote, 'me', 'secret: 1')
        with open('.pyg2p/ftp.json', 'w') as f:
            json.dump(dict(host='127.0.0.1', folder=sc['folder'], user='me', pwd='secret: 1', description='x'), f)
        for x, c in self.own.items():
            self.write(os.path.join(self.dir, x), c)
        for d in DATASETS.values():
            self.write(os.path.join(d, 'mine.txt'), b'mine ' + d.encode())
        if 'readme.txt' in sc['ignored']:
            self.write(os.path.join(self.dir, 'readme.txt'), b'of the user')
        if sc.get('elsewhere'):
            # files having the same names in the global folder, in the folder of the other dataset and in the current one
            g = dict(geopotentials=os.path.abspath('ggeo'), intertables=os.path.abspath('git'))
            for d in g.values():
                os.makedirs(d, exist_ok=True)
            with open('configuration/global/global_conf.json', 'w') as f:
                json.dump(g, f)
            for d in (g[sc['dataset']], DATASETS[o], '.'):
                self.write(os.path.join(d, sc['files'][-1]['name']), b'elsewhere')
        if sc['registered']:
            x = sc['files'][0]['name']
            with open('.pyg2p/intertables.json', 'w') as f:
                json.dump({'description': 'x', 'I1': {'filename': x}}, f)
            with open('.pyg2p/geopotentials.json', 'w') as f:
                json.dump({'description': 'x', 'grid$1$2': x}, f)
        self.before = self.tree()
        self.states, self.runs, self.token = [], [], 0
        self.state()

    @staticmethod
    def write(p, c):
        with open(p, 'wb') as f:
            f.write(c)

    @staticmethod
    def tree():
        out = {}
        for d in list(DATASETS.values()) + ['.pyg2p']:
            for b, _, fs in os.walk(d):
                for x in fs:
                    with open(os.path.join(b, x), 'rb') as f:
                        out[os.path.join(b, x)] = f.read()
        return out

    def look(self):
        t = self.tree()
        l = []
        for f in self.sc['files']:
            x = t.get(os.path.join(self.dir, f['name']))
            l.append(-1 if x is None else -2 if x == self.own.get(f['name']) else 2 if x == self.whole[f['name']] else 0)
        mine = {os.path.join(self.dir, f['name']) for f in self.sc['files']}
        return l, all(t.get(k) == v for k, v in self.before.items() if k not in mine), {k for k in t if k not in self.before and k not in mine and not k.startswith('.pyg2p')}

    def state(self):
        l, others, names = self.look()
        self.states.append(dict(l=l, others=others))
        return names

    def call(self):
        import ftplib
        ftplib.FTP.port = self.port
        return scen.call(['-W', self.sc['dataset'], '-l', 'ERROR'])

    def clear(self, **plan):
        # a session of an earlier operation may still be under way: the marks of each operation are its own
        self.token += 1
        with open('plan.tmp', 'w') as f:
            json.dump(dict(plan, token=self.token), f)
        os.rename('plan.tmp', 'plan.json')

    def marked(self, name):
        return os.path.exists('%s-%d' % (name, self.token))

    def end(self, rc, fault, names=None, err=''):
        new = self.state()
        self.runs.append(dict(rc=rc, fault=fault, l=self.states[-1]['l'], extra=0 if names is None else len(new - names), err=err[:100]))

    def run(self, op):
        kind = op['op']
        names = self.state()
        if kind == 'run':
            self.clear(**{k: v for k, v in op.items() if k != 'op'})
            port = self.port
            if op.get('fault') == 'noserver':
                s = socket.socket()
                s.bind(('127.0.0.1', 0))
                self.port = s.getsockname()[1]      # not listening
            rc, err = crash.isolated(self.call)
            self.port = port
            self.end(rc, op.get('fault') == 'noserver' or self.marked('faulted'), names, err)
        elif kind == 'noconf':
            self.clear()
            os.rename('.pyg2p/u.conf', 'u.conf')
            rc, err = crash.isolated(self.call)
            os.rename('u.conf', '.pyg2p/u.conf')
            self.end(rc, True, names, err)
        elif kind == 'limit':
            self.clear()
            l = self.states[-1]['l']
            fault = any(x == -1 and f['size'] > op['bytes'] for x, f in zip(l, self.sc['files']))

            def limited():
                import resource
                null = os.open('/dev/null', os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                resource.setrlimit(resource.RLIMIT_FSIZE, (op['bytes'], resource.RLIM_INFINITY))
                return self.call()
            rc, err = crash.isolated(limited)
            self.end(rc, fault, names, err)
        elif kind == 'kill':
            self.clear()
            (st, v), ev = crash.interrupted(self.call, op['at'], 'kill', 0)
            if st == 'ok':
                self.end(v[0], False, names, v[1])
            elif st == 'killed':
                self.state()
            else:
                raise AssertionError(v)
        elif kind == 'stall':
            self.clear(fault='stall', file=op['file'], bytes=op['bytes'], then=op['then'], once=True)
            pid, rd = crash.forked(self.call, lambda: None)
            end = time.time() + 30
            import select
            while not self.marked('stalled') and not select.select([rd], [], [], .01)[0] and time.time() < end:
                pass
            stalled = self.marked('stalled')
            time.sleep(.03)
            self.state()
            if op['other'] and stalled:
                rc, err = crash.isolated(self.call)
                self.end(rc, False, None, err)
            if op['then'] == 'kill':
                if stalled:
                    os.kill(pid, signal.SIGKILL)
                    self.state()
            open('go-%d' % self.token, 'w').close()
            st, v = crash.collect(pid, rd)
            if st == 'ok':
                self.end(v[0], self.marked('faulted'), None, v[1])
            elif st == 'killed':
                self.state()
            else:
                raise AssertionError(v)
        else:
            self.clear()
            out, _ = crash.together([self.call] * 2, op['plan'], self.state)
            for rc, err in out:
                self.end(rc, False, None, err)


def execute(sc):
    import pyg2p.main  # noqa
    w = World(sc)
    try:
        for op in sc['ops'] + [dict(op='run')]:
            w.run(op)
    finally:
        os.kill(w.pid, signal.SIGKILL)
        os.waitpid(w.pid, 0)
    return dict(own=[f['own'] is not None for f in sc['files']], states=w.states, runs=w.runs)


def corrupted(r, rec):
    x = copy.deepcopy(rec)
    s = r.choice(x['states'])
    s['l'][r.randrange(len(s['l']))] = 1
    return x


def judge(check, S):
    check.note('%d histories' % len(S))
    R = check.lab.run([(execute, (s,)) for s in S], timeout=200)
    recs, idx = [], []
    cov = check.cov
    for i, (st, x) in enumerate(R):
        check.cov['evaluations'] += 1
        if st == 'ok':
            recs.append(x)
            idx.append(i)
        else:
            check.violation(['execution'], dict(scenario=S[i], error=x))
    V = check.validate('DownloadTrace.tla', recs)
    for i, v, rec in zip(idx, V, recs):
        cov['traces_validated_against_impl'] += 1
        cov['downloads'] = cov.get('downloads', 0) + len(rec['runs'])
        cov['downloads_failing'] = cov.get('downloads_failing', 0) + sum(x['fault'] for x in rec['runs'])
        cov['states_observed'] = cov.get('states_observed', 0) + len(rec['states'])
        if set(v) & CLAUSES:
            check.violation(v, dict(scenario=S[i], observed=rec))
        else:
            check.sample(dict(scenario=S[i], observed=rec['runs']))
    bad = [corrupted(check.r, x) for x in recs[:20]]
    V = check.validate('DownloadTrace.tla', bad)
    if any('whole' not in v for v in V):
        raise tlc.MachineryError('corrupted observation accepted')
    cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    check.modelcheck('Download.tla', 'Download_%s.cfg' % ('quick' if check.quick else 'thorough'))
    check.mustfail('Download.tla', 'Download_inplace.cfg', 'WholeInv')
    check.mustfail('Download.tla', 'Download_others.cfg', 'DoneInv')
    judge(check, [gen(check.r) for _ in range(160 if check.quick else 3000)])
    check.assumptions += ['the server is one of the harness (loopback); a server reporting success after sending an incomplete file can not be told',
                          'fsync and power loss are out of scope']


def replay(check, d):
    judge(check, [d['scenario']])
