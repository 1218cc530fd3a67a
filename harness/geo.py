"""P18: histories of commands on geopotentials, judged by Geo.tla"""
import copy
import hashlib
import json
import os
import re
import shutil

import numpy as np

import fields as F
import interp as I
import scen
import store
import tlc

DIRS = {'user': 'geo', 'alt': 'galt', 'global': 'ggeo'}
CFG = '.pyg2p/geopotentials.json'
GCFG = 'configuration/global/geopotentials.json'
P = 500.
WITHIN = [['geo.grib', 'my_geo.grib'], ['geo.grib', 'geo.grib2'], ['z', 'geo.z'], ['Z', 'geoZ.grib'], ['eo.grib', 'geo_1.grib']]


# ---------------------------------------------------------------- geopotentials: c of grid (c + 1) // 2, named base(c)
def variation(r, s):
    v = r.choice(('lon', 'last', 'first', 'ni', 'nj', 'half'))
    if s['kind'] != 'regular':
        v = r.choice(('ni', 'nj'))
    ni, nj, a, o, da, do = s['ni'], s['nj'], s['lat0'], s['lon0'], s['dlat'], s['dlon']
    if v == 'lon':
        o += r.choice([1, 10, do])
    elif v == 'last':
        do += r.choice([1, 10])
    elif v == 'first':
        o, do = o + ni - 1, do - 1
    elif v == 'ni':
        ni += 1
    elif v == 'nj':
        nj += 1
    elif v == 'half':
        ni, do = 2 * ni - 1, do // 2
    if s['kind'] != 'regular':
        return I.rotated(ni, nj, s['lat0'], o, da, *s['sp'])
    return I.regular(ni, nj, a, o, da, do)


def setup(r, C):
    """grids, names and variants of geopotential files"""
    ni, nj = r.choice([(5, 4), (4, 5), (6, 3)])
    src = I.regular(ni, nj, r.choice([1000, 5000]), r.choice([0, 1000, 2000]), 100, 200)
    if r.random() < .2:
        src = I.rotated(ni, nj, 200, 100, 100, -4000, 1000)
    S = [src]
    while len(S) < (C + 1) // 2:
        x = variation(r, r.choice(S))
        if x not in S:
            S.append(x)
    bases = r.sample(['geo.grib', 'geopotential.grb', 'z', 'geo.v1.grb2', 'geo_1.grib', 'Geo.GRIB'], 2)
    x = r.random()
    if x < .2:
        bases = ['geo.grib', 'geo_1.grib']
    elif x < .5:
        # names within other ones
        bases = r.sample(r.choice(WITHIN), 2)
    return dict(grids=S, bases=bases, C=C, sn=[r.choice(['z', 'orog', 'z']) for _ in range(C)], mixed=[r.random() < .3 for _ in range(C)],
                jsondir=r.random() < .5, infolder=r.random() < .3)


def write(f, text):
    with open(f, 'w') as g:
        g.write(text)


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


class World:
    def __init__(self, st):
        self.st = st
        self.var = 'ok'
        self.dig = {}
        self.ids = {}
        g = json.load(open('configuration/global/global_conf.json'))
        g['geopotentials'] = os.path.abspath('ggeo')
        write('configuration/global/global_conf.json', json.dumps(g))
        write(GCFG, '{"description": "d"}')
        for d in DIRS.values():
            os.makedirs(d, exist_ok=True)
        write('.pyg2p/parameters.json', json.dumps({'sp': {'@description': 'd', '@shortName': 'sp', '@unit': 'u0'}}))
        for c in range(1, st['C'] + 1):
            os.makedirs('src/%d' % c)
            with open(self.path(c), 'wb') as f:
                s = self.grid(c)
                n = len(s['la'])
                if st['mixed'][c - 1]:
                    I.write_source(f, st['grids'][c % len(st['grids'])], np.zeros(len(st['grids'][c % len(st['grids'])]['la'])), sn='sp')
                I.write_source(f, s, self.values(c, n), sn=st['sn'][c - 1])
            self.dig[digest(self.path(c))] = c
        for e, s in enumerate(st['grids']):
            self.input(e + 1, s)

    def grid(self, c):
        return self.st['grids'][(c + 1) // 2 - 1]

    def base(self, c):
        return self.st['bases'][c % 2]

    def path(self, c):
        return 'src/%d/%s' % (c, self.base(c))

    @staticmethod
    def values(c, n):
        return 1000. * c + np.arange(n)

    def input(self, e, s):
        d = 'g%d' % e
        os.makedirs(d)
        with open(d + '/in.grib', 'wb') as f:
            I.write_source(f, s, np.full(len(s['la']), P))
        n = s['ni'] * (s['nj'] // 2)
        la = np.array(s['la'][:n]).reshape(-1, s['ni'])
        lo = np.array(s['lo'][:n]).reshape(-1, s['ni'])
        clone, lat, lon = I.write_target(dict(la=la.tolist(), lo=lo.tolist(), format='pcr', axes=None), d + '/maps')
        F.pcr(d + '/maps/dem.map', np.zeros(la.shape))
        it = {'@latMap': lat, '@lonMap': lon, '@mode': 'nearest'}
        cmd = {'@name': 'x', 'Parameter': {'@shortName': 'sp', '@applyCorrection': 'True', '@demMap': d + '/maps/dem.map', '@gem': 'z',
                                           '@correctionFormula': 'p+gem-dem'},
               'OutMaps': {'@cloneMap': clone, '@unitTime': '24', '@namePrefix': 'v', '@format': 'netcdf', '@valueFormat': 'f8', 'Interpolation': it}}
        write(d + '/cmd.json', json.dumps({'Execution': cmd}))
        it['@geopotentialDir'] = 'galt'
        write(d + '/cmdalt.json', json.dumps({'Execution': cmd}))

    # ------------------------------------------------------------ state
    def state(self):
        valid, reg = True, {}
        for p, g in ((GCFG, True), (CFG, False)):
            if os.path.exists(p):
                try:
                    reg.update({(e, n): dict(e=e, n=n, g=g) for e, n in store.jload(p).items() if e != 'description'})
                except Exception:
                    valid = False
        valid = valid and store.readable()
        files = []
        for d, p in DIRS.items():
            if os.path.isdir(p):
                for n in sorted(os.listdir(p)):
                    files.append(dict(d=d, n=n, c=self.dig.get(digest(os.path.join(p, n)), 0)))
        return dict(reg=[reg[k] for k in sorted(reg)], files=files, var=self.var, valid=valid)

    def of(self, e):
        return [r for r in self.state()['reg'] if r['e'] == e]

    def clear(self):
        for d in DIRS.values():
            shutil.rmtree(d)
            os.makedirs(d)
        for f in (CFG, '.pyg2p/intertables.json'):
            if os.path.exists(f):
                os.remove(f)
        write(GCFG, '{"description": "d"}')
        self.set_var('ok')

    def fresh(self, run=I.isolated):
        for c in range(1, self.st['C'] + 1):
            self.clear()
            rc = run(self.add, self.path(c))
            s = self.state()
            if rc or len(s['reg']) != 1:
                raise AssertionError('geopotential not registered: rc %s %s' % (rc, s))
            self.ids[c] = s['reg'][0]['e']
        self.clear()
        g = [self.ids[c] for c in sorted(self.ids)]
        for a in range(len(g)):
            for b in range(len(g)):
                if (g[a] == g[b]) != (a // 2 == b // 2):
                    raise AssertionError('identifiers of grids: %s' % g)

    def set_var(self, v):
        self.var = v
        p = {'ok': os.path.abspath('geo'), 'missing': os.path.abspath('nowhere/geo')}.get(v)
        write('.pyg2p/u.conf', ('GEOPOTENTIALS=%s\n' % p if p else '') + 'INTERTABLES=%s\n' % os.path.abspath('it'))

    # ------------------------------------------------------------ commands
    @staticmethod
    def add(path):
        return scen.call(['-g', path, '-l', 'ERROR'])[0]

    @staticmethod
    def remove(name):
        from pyg2p.main.config import Configuration
        try:
            Configuration().remove_geopotential(name)
            return 0
        except Exception:
            import traceback
            traceback.print_exc()
            return 1

    def correct(self, e, alt, out='out'):
        d = 'g%d' % e
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        a = ['-c', d + '/cmd.json', '-i', d + '/in.grib', '-o', out, '-l', 'ERROR', '-B']
        if alt and self.st['jsondir']:
            a[1] = d + '/cmdalt.json'
        elif alt:
            a += ['-G', 'galt']
        rc, err = scen.call(a)
        return rc, self.used(out)

    @staticmethod
    def used(out):
        """geopotential that values come from"""
        m = I.observe({}, out)
        if not m:
            return -1
        v = np.array(m[0]) / 100. - P
        if len(m) != 1:
            return 0
        c = int(round(v[0] / 1000.))
        return c if c > 0 and np.abs(v - World.values(c, len(v))).max() < .51 else 0

    # ------------------------------------------------------------ steps of histories
    def step(self, o, run):
        op, e = o['op'], o['e']
        s = self.state()
        gid = self.ids.get(2 * e - 1)
        rec = None
        if op == 'add':
            c = o['c']
            path = self.path(c)
            if self.st['infolder'] and not os.path.exists('galt/' + self.base(c)):
                # (the file is in another folder)
                path = os.path.relpath(path)
            x = dict(e=gid, c=c, n=self.base(c), inside=False)
            rec = dict(kind='add', s=s, x=x, rc=run(self.add, path))
        elif op == 'addinside':
            names = [r['n'] for r in s['reg']]
            f = [f['n'] for f in s['files'] if f['d'] == 'user' and f['c'] == o['c'] and f['n'] not in names]
            if not f:
                return None
            x = dict(e=gid, c=o['c'], n=f[0], inside=True)
            rec = dict(kind='add', s=s, x=x, rc=run(self.add, 'geo/' + f[0]))
        elif op == 'remove':
            n = [r['n'] for r in self.of(gid)] or [self.st['bases'][e % 2][1:] or 'grib']
            rec = dict(kind='remove', s=s, x=dict(n=n[0]), rc=run(self.remove, n[0]))
        elif op in ('correct', 'correctalt'):
            alt = op == 'correctalt'
            rc, used = run(self.correct, e, alt)
            rec = dict(kind='correct', s=s, x=dict(e=gid, alt=alt), rc=rc, used=used)
        elif op in ('ok', 'undefined', 'missing'):
            self.set_var(op)
        elif op == 'foreign':
            n = self.st['bases'][o['c']]
            if not os.path.exists('geo/' + n):
                write('geo/' + n, 'not a geopotential')
        else:
            n = [r['n'] for r in self.of(gid)]
            if not n:
                return None
            n = n[0]
            if op == 'move':
                if not os.path.exists('geo/' + n):
                    return None
                os.rename('geo/' + n, DIRS[o['d']] + '/' + n)
                if o['d'] == 'global':
                    j, g = store.jload(CFG), store.jload(GCFG)
                    g[gid] = j.pop(gid)
                    write(CFG, json.dumps(j))
                    write(GCFG, json.dumps(g))
            elif op == 'alternative':
                shutil.copy(self.path(o['c']), 'galt/' + n)
            elif op == 'replace':
                if os.path.exists(DIRS[o['d']] + '/' + n):
                    shutil.copy(self.path(o['c']), DIRS[o['d']] + '/' + n)
            elif op == 'delete':
                if os.path.exists(DIRS[o['d']] + '/' + n):
                    os.remove(DIRS[o['d']] + '/' + n)
            else:
                raise AssertionError(op)
        if rec:
            rec['t'] = self.state()
            rec['grids'] = [self.ids[c] for c in sorted(self.ids)]
        return rec


def history(st, ops, own):
    """job; own: a process for each command"""
    import pyg2p.main  # noqa
    w = World(st)
    w.fresh()
    run = I.isolated if own else (lambda f, *a: f(*a))
    return [x for x in (w.step(o, run) for o in ops) if x]


def simulated(check, n):
    """few grids: the same registrations are used and changed again and again; more: names collide"""
    r = check.r
    out = []
    with open(os.path.join(tlc.SPEC, 'GeoMC_quick.cfg')) as f:
        t = f.read()
    t = re.sub(r'(INVARIANT|PROPERTY|VIEW).*\n', '', t.replace('SPECIFICATION Spec', 'SPECIFICATION SimSpec'))
    for C, m in ((2, n // 2), (4, n // 4), (6, n - n // 2 - n // 4)):
        depth = (11 if C < 6 else 14) if check.quick else 20
        path = os.path.join(check.root, 'sim.cfg')
        u = re.sub(r'Depth = \d+', 'Depth = %d' % depth, re.sub(r'C = \d+', 'C = %d' % C, t))
        write(path, u + ('ACTION_CONSTRAINT Focus\n' if C < 6 else ''))
        rc, o = tlc._java(check.root, ['-noGenerateSpecTE', '-workers', '1', '-simulate', 'num=%d' % m, '-depth', '30', '-seed',
                                       str(r.randint(1, 10 ** 6)), '-config', path, 'GeoSim.tla'], 300, '4g')
        H = [json.loads(json.loads('"%s"' % x.group(1))) for x in re.finditer(r'^"HISTORY (.*)"$', o, re.M)]
        if not H:
            raise tlc.MachineryError('no histories from TLC: ' + o[-2000:])
        out += [(setup(r, C), h, r.random() < .5) for h in H[:m]]
    return out


def registrations(check, n):
    """geopotentials of several grids registered, some having names within other ones, and removed again"""
    r = check.r
    out = []
    for _ in range(n):
        C = r.choice([4, 6])
        st = setup(r, C)
        st['bases'] = r.sample(r.choice(WITHIN), 2)
        ops = [dict(op='add', e=(c + 1) // 2, c=c) for c in r.sample(range(1, C + 1), C)]
        for e in r.choices(range(1, C // 2 + 1), k=3):
            ops += [dict(op='remove', e=e, c=0), dict(op=r.choice(['correct', 'remove', 'correct']), e=r.randint(1, C // 2), c=0)]
        out.append((st, ops, r.random() < .3))
    return out


def latitudes():
    """job: two geopotentials of grids differing only in latitudes"""
    import pyg2p.main  # noqa
    S = [I.regular(5, 4, 5000, 1000, 100, 200), I.regular(5, 4, 5100, 1000, 100, 200)]
    w = World(dict(grids=S, bases=['geo.grib', 'z'], C=4, sn=['z'] * 4, mixed=[False] * 4, jsondir=False, infolder=False))
    w.clear()
    ids = [1, 1, 2, 2]
    out = []
    for c in (1, 3):
        s = w.state()
        rc = I.isolated(w.add, w.path(c))
        t = w.state()
        # registrations are the ones of the geopotentials they have been made for
        new = [r for r in t['reg'] if r not in s['reg']]
        out.append(dict(kind='add', x=dict(e=str(ids[c - 1]), c=c, n=w.base(c), inside=False), rc=rc, grids=[str(i) for i in ids],
                        s=dict(s, reg=[dict(r, e='1') for r in s['reg']]),
                        t=dict(t, reg=[dict(r, e=str(ids[c - 1]) if r in new else '1') for r in t['reg']])))
    return out


def probe(check):
    st, x = check.lab.run([(latitudes, ())], timeout=60)[0]
    if st != 'ok':
        check.violation(['execution'], dict(error=x))
        return
    V = check.validate('GeoTrace.tla', x)
    if V[0]:
        check.violation(V[0], dict(observed=x))
    elif V[1]:
        check.violation(V[1], dict(observed=x, **({'known': 'geopotential-latitudes'} if V[1] == ['exitcode'] and x[1]['rc'] else {})))


def corrupted(r, x):
    x = copy.deepcopy(x)
    k = r.choice(['rc', 'used', 'lost', 'content', 'file', 'name', 'valid'])
    if k == 'rc':
        x['rc'] = 1 - x['rc']
    elif k == 'used':
        if x['kind'] != 'correct' or x['rc']:
            return None
        x['used'] = x['used'] + 1
    elif k == 'lost':
        if not x['t']['reg']:
            return None
        x['t']['reg'].pop(r.randrange(len(x['t']['reg'])))
    elif k == 'file':
        if not x['t']['files']:
            return None
        x['t']['files'].pop(r.randrange(len(x['t']['files'])))
    elif k == 'content':
        if not x['t']['files']:
            return None
        f = r.choice(x['t']['files'])
        f['c'] = (f['c'] + 1) % (len(x['grids']) + 1)
    elif k == 'name':
        if len(x['t']['reg']) < 2:
            return None
        x['t']['reg'][0]['n'] = x['t']['reg'][1]['n']
    else:
        x['t']['valid'] = False
    return x


def judge(check, H, timeout=120):
    check.note('%d histories' % len(H))
    R = check.lab.run([(history, h) for h in H], timeout=timeout)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(history=H[i], error=x))
            continue
        for j, s in enumerate(x):
            recs.append(s)
            idx.append((i, j))
    check.cov['evaluations'] += len(recs)
    check.note('executed %d' % len(recs))
    V = check.validate('GeoTrace.tla', recs)
    ops = check.cov.setdefault('commands', {})
    seen, good = set(), []
    for (i, j), v, x in zip(idx, V, recs):
        check.cov['traces_validated_against_impl'] += 1
        what = x['kind'] + (' refused' if x['rc'] else '') + ('' if H[i][2] else ', same process')
        ops[what] = ops.get(what, 0) + 1
        if v and i not in seen:
            seen.add(i)
            check.violation(v, dict(history=H[i], step=j, observed=x))
        elif not v:
            good.append(x)
            if len(x['t']['reg']) > 1:
                check.sample(dict(x, grids=None), 4)
    bad = [x for x in (corrupted(check.r, x) for x in check.r.sample(good, min(len(good), 200))) if x]
    V = check.validate('GeoTrace.tla', bad)
    for v, x in zip(V, bad):
        if v == []:
            raise tlc.MachineryError('corrupted observation accepted: %s' % x)
    check.cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    q = check.quick
    check.modelcheck('GeoMC.tla', 'GeoMC_%s.cfg' % ('quick' if q else 'thorough'))
    check.mustfail('GeoMC.tla', 'GeoMC_names.cfg', 'Inv')
    H = simulated(check, 160 if q else 2500)
    check.cov['scenarios_generated_by_tlc'] = len(H)
    judge(check, H + registrations(check, 40 if q else 600))
    probe(check)


def replay(check, d):
    if 'history' in d:
        judge(check, [tuple(d['history'])])
    else:
        probe(check)
