"""P11, P12: histories of executions on stored interpolation tables, judged by Store.tla"""
import copy
import glob
import gzip
import hashlib
import json
import os
import re
import shutil

import numpy as np

import interp as I
import scen
import strategy
import tlc

DIRS = {'user': 'it', 'alt': 'alt', 'global': 'git'}
CFG = '.pyg2p/intertables.json'
GCFG = 'configuration/global/intertables.json'


# ---------------------------------------------------------------- keys: variations of an interpolation
def base(r, modes=I.MODES):
    ni, nj = r.choice([(6, 5), (7, 4), (5, 6), (6, 6)])
    d = r.choice([100, 200])
    lat0, lon0 = r.choice([1000, 5000, -1000]), r.choice([0, 1000, 2000])
    mode = r.choice(modes)
    if mode not in ('grib_nearest', 'grib_invdist') and r.random() < .2:
        src = I.rotated(ni, nj, 200, 100, 100, -4000, 1000)
    else:
        src = I.regular(ni, nj, lat0, lon0, d, d)
    return variation(r, dict(mode=mode, src=src, tgt=None), 'tgt')


def box(src):
    la, lo = np.array(src['la']), np.array(src['lo'])
    return int(la.min()), int(la.max()), int(lo.min()), int(lo.max())


def lattice(r, src, shape=None, frm=None):
    a0, a1, o0, o1 = box(src)
    sh = shape or r.choice([(3, 4), (4, 3), (3, 3), (2, 6)])
    if frm:
        ext = (min(frm[0]), max(frm[0])), (min(frm[1]), max(frm[1]))
    else:
        ext = (a0 + (a1 - a0) // 5, a1 - (a1 - a0) // 4), (o0 + (o1 - o0) // 5, o1 - (o1 - o0) // 6)
    ax = []
    for (x0, x1), n in zip(ext, sh):
        inner = sorted(r.sample(range(x0 + 7, x1 - 7), n - 2)) if n > 2 else []
        ax.append([x0] + inner + [x1])
    return target(ax[0][::-1], ax[1])


def target(A, O, fmt='pcr'):
    return dict(la=[[a for _ in O] for a in A], lo=[list(O) for _ in A], format=fmt, axes=(list(A), list(O)))


VARIATIONS = ('lat', 'up', 'lon', 'res', 'pole', 'tgt', 'flip', 'mirror', 'inner', 'shape', 'transpose', 'shift', 'mode', 'cdd', 'nc', 'lat', 'flip')


def variation(r, k, v=None):
    """another key, differing from k"""
    k = copy.deepcopy(k)
    v = v or r.choice(VARIATIONS)
    s, t = k['src'], k['tgt']
    if v in ('lat', 'up', 'lon', 'res') and s['kind'] != 'regular':
        v = 'pole'
    if v == 'lat':
        k['src'] = I.regular(s['ni'], s['nj'], s['lat0'] + r.choice([-1, 1]) * s['dlat'], s['lon0'], s['dlat'], s['dlon'], s['up'])
    elif v == 'up':
        lat0 = s['lat0'] - s['dlat'] * (s['nj'] - 1) if not s['up'] else s['lat0'] + s['dlat'] * (s['nj'] - 1)
        k['src'] = I.regular(s['ni'], s['nj'], lat0, s['lon0'], s['dlat'], s['dlon'], not s['up'])
    elif v == 'lon':
        k['src'] = I.regular(s['ni'], s['nj'], s['lat0'], s['lon0'] + s['dlon'], s['dlat'], s['dlon'], s['up'])
    elif v == 'res':
        k['src'] = I.regular(2 * s['ni'] - 1, 2 * s['nj'] - 1, s['lat0'], s['lon0'], s['dlat'] // 2, s['dlon'] // 2, s['up'])
    elif v == 'pole':
        if s['kind'] == 'rotated':
            k['src'] = I.rotated(s['ni'], s['nj'], 200, 100, 100, -4000, s['sp'][1] + r.choice([100, -100]))
    elif v == 'tgt':
        k['tgt'] = lattice(r, s)
    elif v == 'flip':
        k['tgt'] = target(t['axes'][0][::-1], t['axes'][1], t['format'])
    elif v == 'mirror':
        k['tgt'] = target(t['axes'][0], t['axes'][1][::-1], t['format'])
    elif v == 'inner':
        k['tgt'] = lattice(r, s, (len(t['axes'][0]), len(t['axes'][1])), t['axes'])
    elif v == 'shape':
        k['tgt'] = lattice(r, s, (len(t['axes'][0]) + 1, len(t['axes'][1])), t['axes'])
    elif v == 'transpose':
        k['tgt'] = lattice(r, s, (len(t['axes'][1]), len(t['axes'][0])), t['axes'])
    elif v == 'shift':
        x = r.choice([20, 37, -25])
        k['tgt'] = target([a + x for a in t['axes'][0]], [o - x for o in t['axes'][1]], t['format'])
    elif v == 'nc':
        k['tgt'] = dict(t, format='nc')
    elif v == 'mode':
        k['mode'] = r.choice([m for m in I.MODES if m != k['mode'] and not (m.startswith('grib') and s['kind'] != 'regular')])
    if k['mode'] == 'cdd' and (v in ('cdd', 'mode') or 'cdd' not in k):
        k['cddmode'] = r.choice(['Hofstra', 'MixHofstraShepard'])
        k['cddbase'] = r.choice([200, 300, 500])
        if k['cddmode'] == 'MixHofstraShepard' and r.random() < .5:
            k['cddopt'] = {'m_const': r.choice([2, 4]), 'min_num_of_station': 4, 'radius_ratio': .25, 'weights_mode': 'All'}
        else:
            k.pop('cddopt', None)
    n = len(k['src']['la'])
    k['vals'] = [[(7 * i + 13 * (i % 5)) % 97 + (i * i) % 11 for i in range(n)]]
    k['global'] = False
    if k['mode'] == 'cdd':
        m = np.array(k['tgt']['la']).size
        k['cdd'] = [float(k.get('cddbase', 300) + 10 * (i % 4)) for i in range(m)]
    return k


def pool(r, n, modes=I.MODES):
    b = base(r, modes)
    P = [b]
    while len(P) < n:
        k = variation(r, r.choice(P))
        P.append(k)
    return P


# ---------------------------------------------------------------- the store
def write(path, text):
    with open(path, 'w') as f:
        f.write(text)


def set_var(v):
    it = {'ok': os.path.abspath('it'), 'missing': os.path.abspath('nowhere/it')}.get(v)
    write('.pyg2p/u.conf', ('INTERTABLES=%s\n' % it if it else '') + 'GEOPOTENTIALS=%s\n' % os.path.abspath('geo'))


def empty():
    for d in DIRS.values():
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    for f in (CFG, GCFG):
        if os.path.exists(f):
            os.remove(f)
    with open('configuration/global/global_conf.json') as f:
        g = json.load(f)
    g['intertables'] = os.path.abspath('git')
    write('configuration/global/global_conf.json', json.dumps(g))
    write(GCFG, '{"description": "d"}')
    set_var('ok')


def content(path):
    """digest of the table in a file"""
    try:
        with open(path, 'rb') as f:
            b = f.read(2)
        f = gzip.open(path, 'rb') if b == b'\x1f\x8b' else open(path, 'rb')
        with f:
            a = np.load(f)
            if f.read(1):
                return 'bad'
        return hashlib.sha1(a.tobytes() + str(a.dtype).encode() + str(a.shape).encode()).hexdigest()
    except Exception:
        return 'bad'


def same(a, b):
    """maps of observed values are the same: within one unit, roundings may differ"""
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(u - v) <= 1 for u, v in zip(x, y)) for x, y in zip(a, b))


def jload(path):
    with open(path) as f:
        return json.load(f)


def readable():
    """all the configuration files of the user"""
    for p in glob.glob('.pyg2p/*.json'):
        try:
            if not isinstance(jload(p), dict):
                return False
        except Exception:
            return False
    return True


class World:
    """files of keys, digests of their tables, known registrations. Names of files are the observed ones"""

    def __init__(self, keys):
        self.keys = keys
        self.digest, self.maps, self.names, self.entries, self.ids = {}, {}, {}, {}, {}
        self.var = 'ok'
        self.args = []
        for i, k in enumerate(keys):
            d = 'k%d' % (i + 1)
            os.makedirs(d + '/maps')
            with open(d + '/in.grib', 'wb') as f:
                I.write_source(f, k['src'], k['vals'][0])
            self.args.append(I.command(k, dict(maps=d + '/maps', create=False), name=d + '/cmd.json', out='out', inp=d + '/in.grib'))
        write('.pyg2p/parameters.json', json.dumps({'sp': {'@description': 'd', '@shortName': 'sp', '@unit': 'u0'}}))

    def fresh(self):
        """each key alone; False for keys having the same table of another one, or not executable"""
        good = []
        for i in range(len(self.keys)):
            empty()
            y = self.run(i + 1, True, False)
            fs = os.listdir('it')
            if y['rc'] or len(fs) != 1 or not y['maps']:
                raise AssertionError('fresh execution of key: rc %s files %s %s' % (y['rc'], fs, y['err']))
            c = content('it/' + fs[0])
            if c == 'bad':
                raise AssertionError('unreadable table')
            if c in self.digest:
                continue
            good.append(i + 1)
            self.digest[c] = i + 1
            self.maps[i + 1] = y['maps']
            self.names[i + 1] = fs[0]
            self.ids[i + 1] = [e for e, x in jload(CFG).items() if isinstance(x, dict)][0]
        empty()
        return good

    def run(self, k, create, alt, out='out', extra=()):
        """an execution in a new process"""
        return I.isolated(self.run_here, k, create, alt, out, extra)

    def run_here(self, k, create, alt, out='out', extra=(), shared=''):
        """shared: prefix of maps in a folder of other executions, too, that is created by them"""
        if shared:
            extra = list(extra) + ['-n', shared]
        else:
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
        a = list(self.args[k - 1])
        a[a.index('-o') + 1] = out
        a += ['-B'] if create else []
        a += ['-N', os.path.abspath('alt')] if alt else []
        rc, err = scen.call(a + list(extra))
        return dict(rc=rc, err=err, maps=I.observe({}, out, shared))

    def state(self):
        valid, reg = True, {}
        for p in (GCFG, CFG):
            if os.path.exists(p):
                try:
                    j = jload(p)
                    reg.update({e: (x['filename'], p == GCFG or reg.get(e, (0, False))[1]) for e, x in j.items() if isinstance(x, dict)})
                except Exception:
                    valid = False
        valid = valid and readable()
        files = []
        for d, p in DIRS.items():
            if os.path.isdir(p):
                for n in sorted(os.listdir(p)):
                    files.append(dict(d=d, n=n, c=self.digest.get(content(os.path.join(p, n)), 0)))
        for e, (n, g) in reg.items():
            if e not in self.entries:
                # identifiers may start with the ones of other keys: it's the one of the table first found
                own = [k for k, x in self.ids.items() if e.startswith(x)]
                c = [f['c'] for f in files if f['n'] == n and f['c'] in own] if len(own) > 1 else own
                if c:
                    self.entries[e] = c[0]
        return dict(reg=[dict(e=e, k=self.entries.get(e, -1), n=n, g=g) for e, (n, g) in sorted(reg.items())], files=files, var=self.var, valid=valid)

    def find(self, k):
        return [(e, n) for e, n in ((x['e'], x['n']) for x in self.state()['reg'] if x['k'] == k)]

    # ------------------------------------------------------------ actions of the user
    def user(self, op):
        o, k = op['op'], op.get('k', 0)
        if o in ('ok', 'undefined', 'missing'):
            self.var = o
            set_var(o)
        elif o == 'delete':
            d = 'git' if op.get('n') == -1 else 'alt' if op.get('alt') else 'it'
            if k:
                for e, n in self.find(k):
                    if os.path.exists(os.path.join(d, n)):
                        os.remove(os.path.join(d, n))
            else:
                for f in self.state()['files']:
                    if f['d'] == 'user' and f['c'] == 0:
                        os.remove('it/' + f['n'])
                        break
        elif o == 'unregister':
            j = jload(CFG)
            for e, n in self.find(k):
                j.pop(e, None)
                self.entries.pop(e)
            write(CFG, json.dumps(j))
        elif o == 'foreign':
            used = {x['n'] for x in self.state()['reg']}
            for n in sorted(self.names.values()) + ['other%d.npy.gz' % i for i in range(9)]:
                if n not in used and not os.path.exists('it/' + n):
                    write('it/' + n, 'not a table')
                    break
        elif o == 'global':
            j, g = jload(CFG), jload(GCFG)
            for e, n in self.find(k):
                if os.path.exists('it/' + n):
                    os.rename('it/' + n, 'git/' + n)
                    if e in j:
                        g[e] = j.pop(e)
            write(CFG, json.dumps(j))
            write(GCFG, json.dumps(g))


def history(keys, ops):
    """job: a history on the keys; observation of every execution"""
    import pyg2p.main  # noqa  (loaded once)
    w = World(keys)
    good = w.fresh()
    steps = []
    for op in ops:
        if op['op'] == 'check':
            s = w.state()
            rc = I.isolated(scen.call, ['-K', '-l', 'ERROR'])[0]
            steps.append(dict(kind='check', s=s, t=w.state(), rc=rc))
            continue
        if op['op'] != 'exec':
            w.user(op)
            continue
        k = good[(op['k'] - 1) % len(good)]
        s = w.state()
        y = w.run(k, op['create'], op['alt'])
        t = w.state()
        steps.append(dict(kind='exec', s=s, x=dict(k=k, create=op['create'], alt=op['alt']), t=t, rc=y['rc'], right=same(y['maps'], w.maps[k]),
                          maps=len(y['maps']), err=y['err']))
    return steps, len(good)


def simulated(check, n):
    out = []
    for name in ('quick', 'alt'):
        with open(os.path.join(tlc.SPEC, 'StoreMC_%s.cfg' % name)) as f:
            t = f.read()
        t = re.sub(r'(INVARIANT|PROPERTY|VIEW).*\n', '', t.replace('SPECIFICATION Spec', 'SPECIFICATION SimSpec'))
        t = re.sub(r'Depth = \d+', 'Depth = %d' % (9 if check.quick else 14), t)
        t = t.replace('{1, 2}', '{1, 2, 3}').replace('{1, 2, 3, 4}', '{1, 2, 3, 4, 5}')
        path = os.path.join(check.root, 'sim.cfg')
        with open(path, 'w') as f:
            f.write(t)
        rc, o = tlc._java(check.root, ['-noGenerateSpecTE', '-workers', '1', '-simulate', 'num=%d' % (n // 2), '-depth', '30', '-seed',
                                       str(check.r.randint(1, 10 ** 6)), '-config', path, 'StoreSim.tla'], 300, '4g')
        H = [json.loads(json.loads('"%s"' % m.group(1))) for m in re.finditer(r'^"HISTORY (.*)"$', o, re.M)]
        if not H:
            raise tlc.MachineryError('no histories from TLC: ' + o[-2000:])
        out += H[:n // 2]
    return out


def histories(check, n):
    """P12: many similar keys"""
    r = check.r
    H = []
    for _ in range(n):
        m = r.randint(3, 5)
        ops = []
        for _ in range(r.randint(m + 2, 2 * m + 2)):
            ops.append(dict(op='exec', k=r.randint(1, m), create=r.random() < .85, alt=False))
        for k in r.sample(range(1, m + 1), 2):
            ops.append(dict(op='exec', k=k, create=False, alt=False))
        H.append((pool(r, m), ops))
    return H


def corrupted(r, st):
    x = copy.deepcopy(st)
    k = r.choice(['rc', 'right', 'content', 'lost', 'extra', 'share', 'valid'])
    if k == 'rc':
        x['rc'] = 1 - x['rc']
    elif k == 'right':
        if x['rc'] or x['kind'] == 'check':
            return None
        x['right'] = False
    elif k == 'valid':
        x['t']['valid'] = False
    elif k == 'content':
        f = [f for f in x['t']['files'] if f['c']]
        if not f:
            return None
        r.choice(f)['c'] = 0
    elif k == 'lost':
        if not x['t']['reg']:
            return None
        x['t']['reg'].pop(r.randrange(len(x['t']['reg'])))
    elif k == 'extra':
        x['t']['files'].append(dict(d='user', n='xx', c=0))
    else:
        if len(x['t']['reg']) < 2:
            return None
        x['t']['reg'][0]['n'] = x['t']['reg'][1]['n']
    return x


def judge(check, H, timeout=120):
    check.note('%d histories' % len(H))
    R = check.lab.run([(history, h) for h in H], timeout=timeout)
    recs, idx = [], []
    ops = check.cov.setdefault('executions', {})
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(history=H[i], error=x))
            continue
        steps, n = x
        check.cov['keys'] = check.cov.get('keys', 0) + n
        for j, s in enumerate(steps):
            recs.append(s)
            idx.append((i, j))
    check.cov['evaluations'] += len(recs)
    check.note('executed %d' % len(recs))
    V = check.validate('StoreTrace.tla', recs)
    seen = set()
    good = []
    for (i, j), v, rec in zip(idx, V, recs):
        check.cov['traces_validated_against_impl'] += 1
        what = 'checked' if rec['kind'] == 'check' else 'refused' if rec['rc'] else 'used' if rec['s'] == rec['t'] else 'created'
        ops[what] = ops.get(what, 0) + 1
        if v and i not in seen:
            seen.add(i)
            check.violation(v, dict(history=H[i], step=j, observed=rec))
        elif not v:
            good.append(rec)
            if len(rec['t']['reg']) > 2:
                check.sample(dict(before=rec['s'], execution=rec.get('x', 'check'), after=rec['t'], rc=rec['rc']), 3)
    bad = [x for x in (corrupted(check.r, rec) for rec in check.r.sample(good, min(len(good), 150))) if x]
    V = check.validate('StoreTrace.tla', bad)
    for v, x in zip(V, bad):
        if v == []:
            raise tlc.MachineryError('corrupted observation accepted: %s' % x)
    check.cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    q = check.quick
    check.modelcheck('StoreMC.tla', 'StoreMC_%s.cfg' % ('quick' if q else 'thorough'))
    check.modelcheck('StoreMC.tla', 'StoreMC_alt.cfg')
    check.mustfail('StoreMC.tla', 'StoreMC_names.cfg', 'Inv')
    if check.pid == 'P11':
        H = simulated(check, 120 if q else 2000)
        check.cov['scenarios_generated_by_tlc'] = len(H)
        judge(check, [(pool(check.r, 3), h) for h in H])
    else:
        judge(check, histories(check, 110 if q else 2500))


def replay(check, d):
    judge(check, [tuple(d['history'])])
