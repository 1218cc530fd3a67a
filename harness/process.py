"""P20: histories of executions in a process, each one compared with an execution in a new process (Caches.tla)"""
import copy
import gzip
import hashlib
import json
import os
import random
import re
import shutil

import numpy as np

import api
import fields as F
import interp as I
import scen
import tlc

FIELDS = ('configuration', 'parameters', 'coordinates', 'source', 'mode', 'options', 'tables', 'dem', 'geopotential', 'formula',
          'selection', 'output', 'clone', 'interface')
STEPS = (0, 6, 12)
SHAPES = ((7, 6, 1200, 0, 100), (7, 6, 1200, 50, 100), (13, 11, 1200, 0, 50), (7, 6, 1300, 0, 100), (7, 6, 1200, 0, 100), (6, 7, 1200, 0, 100), (8, 8, 350, -350, 100), (8, 8, 350, -340, 100))
TARGETS = ([1100, 1000, 900, 800], [100, 200, 300, 400]), ([1050, 950, 850, 750], [150, 250, 350, 450]), ([1100, 950, 800], [100, 150, 270, 300, 400]), \
    ([1100, 1030, 880, 800], [100, 190, 320, 400]), ([1100, 1050, 1000, 950, 900, 850, 800], [100, 150, 200, 250, 300, 350, 400]), \
    ([800, 900, 1000, 1100], [100, 200, 300, 400]), ([1100, 1000, 900, 800, 750], [100, 200, 300, 400])
FORMULAS = (('p+gem-dem', 'z'), ('p-gem', 'z'), ('p+gem', 'z*2'), ('p+gem', 'z'), ('p*2+dem', 'z'), ('p+gem-dem', 'z*10'))
OUT = (dict(format='netcdf', valueFormat='f8'), dict(format='netcdf', valueFormat='f4', namePrefix='w'), dict(format='pcraster'),
       dict(format='pcraster', fmap='3', ext='2'), dict(format='netcdf', valueFormat='i4', scaleFactor='0.5', offset='10'),
       dict(format='netcdf', valueFormat='f8', validMin='0', validMax='900'), dict(format='netcdf', valueFormat='i2', outputStepUnits='h'),
       dict(format='netcdf', valueFormat='f8', outputStepUnits='s'))
SELECTIONS = (dict(), dict(tend='6'), dict(tstart='6'), dict(tstart='6', tend='6'), dict(agg=('average', '12')), dict(agg=('instantaneous', '6')),
              dict(agg=('average', '6')), dict(two=True), dict(two=True, agg=('instantaneous', '12')), dict(member=True), dict(level=True),
              dict(cli=('-s', '0', '-e', '6')), dict(short='2t'), dict(agg=('average', '6'), half=True))
INTERFACES = ('cli', 'api', 'cli', 'debug')
MODES = ('nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist')
VARIABLES = ['one', 'two', 'undefined']
FILES = {'source', 'coordinates', 'dem', 'geopotential', 'clone', 'parameters'}
FAULTS = ('dem', 'formula', 'clone', 'mode', 'late', 'name', 'nocreate', 'format', 'truncated', 'nogeo', 'latmap', 'function', 'cmd', 'geo', 'shape', 'outdir')


# ---------------------------------------------------------------- histories: values of fields
def setup(r, ops):
    """what values of fields are"""
    changed = [o['f'] for o in ops if o['op'] == 'change']
    st = dict(seed=r.randrange(10 ** 9), way={})
    for f in FILES:
        st['way'][f] = r.choice(['path', 'inplace', 'rename', 'keep'])
    cdd = ['cdd'] * 2 if 'options' in changed else []
    st['mode'] = r.sample(sorted(set(MODES + tuple(cdd))), 3)
    if cdd and r.random() < .7:
        st['mode'][0] = 'cdd'
    st['source'] = r.sample(range(len(SHAPES)), 3)
    st['coordinates'] = r.sample(range(len(TARGETS)), 3)
    st['formula'] = r.sample(FORMULAS, 3)
    st['output'] = r.sample(OUT, 3)
    st['selection'] = r.sample(SELECTIONS, 3) if 'selection' in changed else [r.choice(SELECTIONS[:7])] * 3
    st['interface'] = r.sample(INTERFACES, 3) if r.random() < .7 else [r.choice(INTERFACES)] * 3
    st['options'] = [options(r) for _ in range(3)]
    if r.random() < .6:
        # just one difference
        for k in (1, 2):
            o = copy.deepcopy(st['options'][0])
            d = r.choice(['map', 'cddmode', 'cddoptions', 'splits', 'rotated', 'map', 'cddmode'])
            o[d] = {'map': k + 1, 'cddmode': ('Hofstra', 'MixHofstraShepard')[o['cddmode'] == 'Hofstra'], 'splits': k + 1, 'rotated': k == 1,
                    'cddoptions': {'m_const': 2 * k, 'min_num_of_station': 4, 'radius_ratio': .25, 'weights_mode': 'All'}}[d]
            if d == 'cddoptions':
                o['cddmode'] = st['options'][0]['cddmode'] = 'MixHofstraShepard'
            st['options'][k] = o
    if any(o['rotated'] for o in st['options']):
        st['source'] = [6, r.choice([6, 7]), 7]
    st['configuration'] = r.sample(['plain', 'other', 'global', 'option', 'alt', 'globalgeo', 'nofolder'] + VARIABLES, 3)
    if 'configuration' in changed and r.random() < .25:
        st['configuration'] = r.sample(VARIABLES, 3)
    st['parameters'] = r.sample(['plain', 'x=x*2', 'x=x+7', 'cut', 'second', 'user'], 3)
    st['corr'] = r.random() < .75 or 'formula' in changed or 'geopotential' in changed or 'dem' in changed
    st['tables'] = [r.choice(['delete', 'delete all', 'scale', 'unregister', 'swap', 'keep', 'clear']) for _ in range(4)]
    st['mask'] = r.sample(range(3), 3)
    st['how'] = dict(ints=r.random() < .5, default=r.random() < .5, start=r.random() < .5, end=r.random() < .5, dataTime=False, dataDate=False)
    st['faults'] = r.sample(FAULTS, len(FAULTS))
    st['reuse'] = r.random() < .5
    st['missing'] = r.random() < .3
    return st


def options(r):
    return dict(map=r.randint(1, 3), cddmode=r.choice(['Hofstra', 'MixHofstraShepard']),
                cddoptions=r.choice([None, {'m_const': 4, 'min_num_of_station': 3, 'radius_ratio': 1 / 3., 'weights_mode': 'All'}]),
                splits=r.choice([None, 1, 2]), rotated=r.random() < .06)


# ---------------------------------------------------------------- files
def put(path, data, way='path'):
    """changes a file"""
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    if way == 'inplace' and os.path.exists(path):
        with open(path, 'r+b') as f:
            f.write(data)
            f.truncate()
        return
    st = os.stat(path) if os.path.exists(path) else None
    with open(path + '.new', 'wb') as f:
        f.write(data)
    if way == 'keep' and st:
        os.utime(path + '.new', ns=(st.st_atime_ns, st.st_mtime_ns))
    os.replace(path + '.new', path)


def jput(path, x, way='path'):
    put(path, json.dumps(x).encode(), way)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


class World:
    """files of a history in the working directory, and the current values of fields"""

    def __init__(self, st):
        self.st = st
        self.v = {f: 1 for f in FIELDS}
        self.r = random.Random(st['seed'])
        self.nt = self.nf = 0
        st = self.st
        for d in ('it', 'it2', 'itg', 'ita', 'geo', 'gg', 'out', 'lib'):
            os.makedirs(d, exist_ok=True)
        q = random.Random(7)
        for k in (1, 2, 3):
            ni, nj, la, lo, d = SHAPES[st['source'][k - 1]]
            rot = st['source'][k - 1] > 5
            s = I.rotated(ni, nj, la, lo, d, -8050, 250) if rot else I.regular(ni, nj, la, lo, d, d)
            n = len(s['la'])
            with open('lib/source%d' % k, 'wb') as f:
                for t in STEPS:
                    v = [q.randint(0, 400) for _ in range(n)]
                    if st['missing'] and k == 2:
                        v[n // 2] = None
                    I.write_source(f, s, v, step=str(t))
                    if t == 6:
                        I.write_source(f, s, [q.randint(200, 300) for _ in range(n)], sn='2t', step=str(t))
                        rot or F.msg(f, np.array([q.randint(0, 99) for _ in range(n)]).reshape(nj, ni), ni=ni, nj=nj, lat0=la / 100., lon0=lo / 100., d=d / 100., step=str(t),
                              sn='sp', member=3)
            # geopotentials of the grid
            for c in (1, 2, 3):
                with open('lib/geo%d_%d' % (k, c), 'wb') as f:
                    I.write_source(f, s, [100. * c + (7 * i * c) % 50 for i in range(n)], sn='z')
            A, O = TARGETS[st['coordinates'][k - 1]]
            sh = (len(A), len(O))
            F.pcr('lib/lat%d' % k, np.array([[a / 100.] * len(O) for a in A]))
            F.pcr('lib/lon%d' % k, np.array([[o / 100. for o in O]] * len(A)))
            for c in (1, 2, 3):
                m = np.ones(sh)
                if c > 1:
                    m.ravel()[[1, 5] if c == 2 else [0, 3, 7]] = np.nan
                F.pcr('lib/clone%d_%d' % (k, c), m)
                F.pcr('lib/dem%d_%d' % (k, c), np.array([[c * 10. + (i * j) % 7 for i in range(sh[1])] for j in range(sh[0])]))
                F.pcr('lib/cdd%d_%d' % (k, c), np.full(sh, 150. * c) + np.arange(sh[1]))
        s2 = I.regular(13, 11, 1200, 0, 50, 50)
        with open('second.grib', 'wb') as f:
            for t in (18, 24):
                I.write_source(f, s2, [q.randint(0, 400) for _ in s2['la']], step=str(t))
        with open('lib/zsecond', 'wb') as f:
            I.write_source(f, s2, [50. + i % 9 for i in range(len(s2['la']))], sn='z')
        self.write()

    # ------------------------------------------------------------ files of current values
    def path(self, f, name):
        """path of the file of a field, which may be the same for all the values"""
        return 'in/%s%s' % (name, '_%s' % self.v[f] if self.st['way'][f] == 'path' else '')

    def same(self, path, lib, f):
        d = read(lib)
        if not os.path.exists(path) or read(path) != d:
            put(path, d, self.st['way'][f])
            # (two changes of a file have different times)
            if self.st['way'][f] != 'keep':
                st = os.stat(path)
                self.clock = getattr(self, 'clock', 0) + 1
                os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns + 1000 * self.clock))

    def write(self):
        v, st = self.v, self.st
        k = v['coordinates']
        self.src = self.path('source', 'source.grib')
        self.same(self.src, 'lib/source%d' % v['source'], 'source')
        w = 'coordinates'
        self.lat, self.lon = self.path(w, 'lat.map'), self.path(w, 'lon.map')
        self.same(self.lat, 'lib/lat%d' % k, w)
        self.same(self.lon, 'lib/lon%d' % k, w)
        # the elevation and the mask have the shape of the target
        self.dem = 'in/dem%s.map' % ('' if st['way']['dem'] != 'path' else '%d_%d' % (k, v['dem']))
        self.same(self.dem, 'lib/dem%d_%d' % (k, v['dem']), 'dem')
        self.clone = 'in/clone%s.map' % ('' if st['way']['clone'] != 'path' else '%d_%d' % (k, v['clone']))
        self.same(self.clone, 'lib/clone%d_%d' % (k, v['clone']), 'clone')
        for c in (1, 2, 3):
            self.same('in/cdd%d_%d.map' % (k, c), 'lib/cdd%d_%d' % (k, c), 'dem')
        # configuration of folders
        c = st['configuration'][v['configuration'] - 1]
        it = 'it2' if c == 'other' else 'it'
        conf = ('INTERTABLES=%s\n' % os.path.abspath(it) if c != 'nofolder' else '') + 'GEOPOTENTIALS=%s\n' % os.path.abspath('geo')
        # a variable used by the commands file
        p = '.pyg2p/maps.conf'
        if os.path.exists(p) and c in ('undefined', 'plain'):
            os.unlink(p)
        for x in ('one', 'two'):
            self.same('in/%s/clone.map' % x, 'lib/clone%d_%d' % (k, v['clone'] if x == 'one' else v['clone'] % 3 + 1), 'clone')
            if c == x:
                put(p, ('MAPS=in/%s\n' % x).encode())
        if not os.path.exists('.pyg2p/u.conf') or read('.pyg2p/u.conf').decode() != conf:
            put('.pyg2p/u.conf', conf.encode())
        g = dict(geopotentials=os.path.abspath('gg' if c == 'globalgeo' else 'none'), intertables=os.path.abspath('itg' if c == 'global' else 'none'))
        p = 'configuration/global/global_conf.json'
        if json.loads(read(p)) != g:
            jput(p, g)
        if c == 'globalgeo':
            # geopotentials are found in the global folder only
            for n in os.listdir('geo'):
                os.rename('geo/' + n, 'gg/' + n)
        else:
            for n in os.listdir('gg'):
                os.rename('gg/' + n, 'geo/' + n)
        if c == 'global':
            for n in os.listdir('it'):
                d = read('it/' + n)
                a = np.load(gzip.open('it/' + n), allow_pickle=True) if False else d
                put('itg/' + n, a)
                os.unlink('it/' + n)
        # geopotentials
        if os.path.exists('geo/geo1.grib') or os.path.exists('gg/geo1.grib'):
            for i in (1, 2, 3):
                d = 'gg' if c == 'globalgeo' else 'geo'
                p = '%s/geo%d.grib' % (d, i)
                if st['way']['geopotential'] == 'path':
                    for c_ in (1, 2, 3):
                        q = 'g%d/geo%d.grib' % (c_, i)
                        if not os.path.exists(q):
                            put(q, read('lib/geo%d_%d' % (i, c_)))
                elif os.path.exists(p):
                    self.same(p, 'lib/geo%d_%d' % (i, v['geopotential']), 'geopotential')
        # parameters
        c = st['parameters'][v['parameters'] - 1]
        par = {'@description': 'd', '@shortName': 'sp', '@unit': 'u0'}
        par['Conversion'] = [{'@id': 'a', '@function': c if c.startswith('x=') else 'x=x-200', '@unit': 'u1', '@cutOffNegative': c == 'cut'},
                             {'@id': 'b', '@function': 'x=x*3', '@unit': 'u2', '@cutOffNegative': False}]
        allp = {'sp': par, '2t': {'@description': 'd', '@shortName': '2t', '@unit': 'K'}}
        p = '.pyg2p/parameters.json'
        if not os.path.exists(p) or json.loads(read(p)) != allp:
            jput(p, allp, st['way']['parameters'])
        self.conv = {'second': 'b', 'plain': None}.get(c, 'a')

    def change(self, f, v):
        if f == 'tables':
            return self.tables()
        self.v[f] = v
        self.write()

    def tables(self):
        """a change of tables"""
        act = self.st['tables'][self.nt % 4]
        self.nt += 1
        T = [d + '/' + n for d in ('it', 'it2', 'itg', 'ita') for n in sorted(os.listdir(d))]
        cfg = '.pyg2p/intertables.json'
        if not T:
            return
        if act == 'delete':
            os.unlink(self.r.choice(T))
        elif act == 'delete all':
            for t in T:
                os.unlink(t)
        elif act == 'clear':
            for t in T:
                os.unlink(t)
            os.path.exists(cfg) and os.unlink(cfg)
        elif act == 'unregister' and os.path.exists(cfg):
            c = json.loads(read(cfg))
            k = [k for k in sorted(c) if isinstance(c[k], dict)]
            if k:
                c.pop(self.r.choice(k))
                jput(cfg, c)
        elif act in ('scale', 'keep'):
            # indexes are changed: values come from other points
            t = self.r.choice(T)
            d = bytearray(gzip.decompress(read(t)))
            new = gzip.compress(altered(bytes(d)))
            put(t, new, 'keep' if act == 'keep' else 'inplace')
        elif act == 'swap' and len(T) > 1:
            a, b = self.r.sample(T, 2)
            x, y = read(a), read(b)
            put(a, y, 'rename')
            put(b, x, 'rename')

    # ------------------------------------------------------------ executions
    def command(self, fault=None):
        v, st = self.v, self.st
        pick = lambda f: st[f][v[f] - 1]
        sel, out, o = pick('selection'), pick('output'), pick('options')
        conf = pick('configuration')
        par = {'@shortName': sel.get('short', 'sp')}
        if self.conv and par['@shortName'] == 'sp':
            par['@applyConversion'] = self.conv
        for k in ('tstart', 'tend'):
            if k in sel:
                par['@' + k] = sel[k]
        args = []
        if 'cli' in sel:
            args += list(sel['cli'])
        if sel.get('member'):
            args += ['-m', '3']
        if sel.get('level'):
            par['@level'] = '0'
        if st['corr']:
            par['@correctionFormula'], par['@gem'] = pick('formula')
            par['@demMap'] = self.dem
        it = {'@latMap': self.lat, '@lonMap': self.lon, '@mode': pick('mode')}
        if o['splits']:
            it['@num_of_splits'] = o['splits']
        if o['rotated']:
            it['@rotated_target'] = True
        if it['@mode'] == 'cdd':
            it['@cdd_map'] = 'in/cdd%d_%d.map' % (v['coordinates'], o['map'])
            it['@cdd_mode'] = o['cddmode']
            if o['cddoptions'] and o['cddmode'] == 'MixHofstraShepard':
                it['@cdd_options'] = o['cddoptions']
        om = {'@cloneMap': self.clone, '@unitTime': '24', '@namePrefix': 'v', 'Interpolation': it}
        if conf in VARIABLES:
            om['@cloneMap'] = '{MAPS}/clone.map'
        for k, x in out.items():
            om['@' + k] = x
        ex = {'@name': 'x', 'Parameter': par, 'OutMaps': om}
        if sel.get('agg'):
            ex['Aggregation'] = {'@type': sel['agg'][0], '@step': sel['agg'][1]}
            if sel.get('half'):
                ex['Aggregation']['@halfweights'] = 'True'
        args = ['-c', 'cmd.json', '-i', self.src, '-o', 'out', '-l', 'DEBUG' if pick('interface') == 'debug' else 'ERROR', '-B'] + args
        if sel.get('two'):
            args += ['-I', 'second.grib']
        if conf == 'option':
            args += ['-N', 'ita']
        elif conf == 'alt':
            it['@intertableDir'] = 'ita'
        if st['way']['geopotential'] == 'path' and st['corr']:
            args += ['-G', 'g%d' % v['geopotential']]
        if fault == 'dem':
            par['@demMap'] = 'in/none.map'
        elif fault == 'formula':
            par['@correctionFormula'] = 'p+nothing'
            par.setdefault('@gem', 'z')
            par.setdefault('@demMap', self.dem)
        elif fault == 'clone':
            om['@cloneMap'] = 'in/none.map'
        elif fault == 'mode':
            it['@mode'] = 'unknown'
        elif fault == 'late':
            par['@tstart'] = '600'
        elif fault == 'name':
            par['@shortName'] = 'unknown'
        elif fault == 'nocreate':
            args.remove('-B')
        elif fault == 'format':
            om['@format'] = 'unknown'
        elif fault == 'truncated':
            d = read(self.src)
            with open('cut.grib', 'wb') as f:
                f.write(d[:len(d) - 300])
            args[args.index(self.src)] = 'cut.grib'
        elif fault == 'nogeo' and st['corr']:
            os.makedirs('g0', exist_ok=True)
            if '-G' in args:
                k = args.index('-G')
                del args[k:k + 2]
            args += ['-G', 'g0']
        elif fault == 'latmap':
            it['@latMap'] = 'in/none.map'
        elif fault == 'function':
            om['@unitTime'] = 'x'
        elif fault == 'shape':
            k = v['coordinates'] % 3 + 1
            put('in/shape.map', read('lib/clone%d_1' % k))
            om['@cloneMap'] = 'in/shape.map'
        elif fault == 'outdir':
            args[args.index('out')] = 'second.grib/out'
        jput('cmd.json', {'Execution': ex} if fault != 'cmd' else [1])
        return dict(kind='api' if pick('interface') == 'api' and fault not in ('cmd', 'outdir') else 'cli', args=args, cmd={'Execution': ex})

    def fault(self):
        self.nf += 1
        return self.st['faults'][self.nf % len(FAULTS)]

    def prepare(self, o):
        """what to execute"""
        shutil.rmtree('out', ignore_errors=True)
        os.makedirs('out')
        if o['op'] == 'geo':
            return dict(kind='geo', args=['-g', 'add/geo%d.grib' % o['v'], '-l', 'ERROR'])
        if o['op'] == 'remove':
            return dict(kind='remove', name='geo%d.grib' % o['v'])
        f = self.fault() if o['n'] < 6 else None
        if f == 'geo':
            return dict(kind='geo', args=['-g', 'add/geo1.grib', '-l', 'ERROR'])
        return self.command(f)


def altered(data):
    """an npy file having other indexes: rows in another order"""
    import io
    a = np.load(io.BytesIO(data), allow_pickle=True)
    if a.ndim == 0:
        return data
    b = io.BytesIO()
    if a.ndim == 1:
        a = a[::-1]
    else:
        a = np.array(a)
        a[0] = np.roll(a[0], 1, axis=0)
    np.save(b, a)
    return b.getvalue()


class Session:
    """the process"""

    def __init__(self):
        self.last = None

    def execute(self, x, st, unchanged):
        if x['kind'] == 'remove':
            from pyg2p.main.config import Configuration
            try:
                Configuration().remove_geopotential(x['name'])
                return dict(rc=0), None
            except Exception:
                return dict(rc=1), None
        if x['kind'] in ('cli', 'geo'):
            rc, err = scen.call(x['args'])
            return dict(rc=rc, err=err), None
        from pyg2p.exceptions import ApplicationException, NO_MESSAGES
        from pyg2p.main.api import ApiContext, Pyg2pApi
        try:
            conf = api.config(x['cmd'], x['args'], st['how'])
            if st['reuse'] and unchanged and self.last and self.last[0] == conf:
                # the same object again
                a = self.last[1]
            else:
                a = Pyg2pApi(ApiContext(copy.deepcopy(conf)))
            self.last = conf, a
            return dict(rc=0, err=''), [(int(k.end_step), v) for k, v in a.execute().items()]
        except ApplicationException as e:
            self.last = None
            return dict(rc=0 if e.code == NO_MESSAGES else 1, err=str(e)[:200]), []
        except Exception as e:
            import traceback
            traceback.print_exc()
            self.last = None
            return dict(rc=1, err='%s: %s' % (type(e).__name__, e)), []


def sha(x):
    return hashlib.sha1(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:16]


def digest(a):
    a = np.asarray(a, float)
    return sha(np.round(np.where(np.isfinite(a), a, -7e30), 5).tobytes() + repr(a.shape).encode())


def observe(res, returned):
    """what is left by an execution"""
    maps, tables, others = [], [], []
    for n in sorted(os.listdir('out')) if os.path.isdir('out') else []:
        p = 'out/' + n
        if n.endswith('.aux.xml'):
            continue
        if n.endswith('.nc'):
            try:
                x = F.readnc(p)
            except Exception:
                maps.append('%s incomplete' % n)
                continue
            maps += ['%s %s %s' % (n, v, digest(a)) for v, a in sorted(x['vars'].items())]
            maps.append(sha([x['time'], x['units'], x.get('dtype'), sorted((k, v) for k, v in (x.get('attrs') or {}).items())]))
            maps += ['%s %s' % (c, digest(x[c])) for c in ('lat', 'lon') if c in x]
        else:
            a, gt = F.readpcr(p)
            maps.append('%s %s %s' % (n, digest(a), gt))
    for d in ('it', 'it2', 'itg', 'ita'):
        for n in sorted(os.listdir(d)):
            b = read('%s/%s' % (d, n))
            try:
                b = gzip.decompress(b)
            except OSError:
                pass
            tables.append('%s/%s %s' % (d, n, sha(b)))
    regs = []
    for n in ('intertables.json', 'geopotentials.json'):
        if os.path.exists('.pyg2p/' + n):
            try:
                regs.append(n + ' ' + sha(json.dumps(json.loads(read('.pyg2p/' + n)), sort_keys=True)))
            except ValueError:
                regs.append(n + ' invalid')
    for d, ds, fs in os.walk('.'):
        ds[:] = sorted(x for x in ds if os.path.join(d, x) not in ('./out', './it', './it2', './itg', './ita', './pyc', './lib'))
        for n in sorted(fs):
            p = os.path.join(d, n)
            if p not in ('./.pyg2p/u.conf', './.pyg2p/intertables.json', './.pyg2p/geopotentials.json', './log.txt', './configuration/global/global_conf.json'):
                others.append('%s %s' % (p, sha(read(p))))
    ret = []
    for e, v in returned or ():
        a = np.asarray(v.filled() if isinstance(v, np.ma.MaskedArray) else v)
        ret.append('%d %s %s' % (e, a.dtype, digest(a)))
    return dict(rc=res['rc'], maps=maps, tables=tables, registrations=regs, others=others, returned=ret)


def enter(d):
    os.makedirs(d)
    os.chdir(d)
    os.environ['HOME'] = os.getcwd()
    os.makedirs('.pyg2p')
    shutil.copytree('../configuration', 'configuration')


def one(x, st):
    """an execution in a new process"""
    res, ret = Session().execute(x, st, False)
    return dict(observe(res, ret), err=res.get('err'))


def walk(ops, st, run):
    enter_ops = [dict(op='geo', f='', v=k, n=6) for k in (1, 2, 3, 4)] if st['corr'] else []
    os.makedirs('add')
    w = World(st)
    for k in (1, 2, 3):
        put('add/geo%d.grib' % k, read('lib/geo%d_1' % k))
    put('add/geo4.grib', read('lib/zsecond'))
    steps, unchanged = [], False
    for o in enter_ops + list(ops):
        if o['op'] == 'change':
            if o['f'] == 'geopotential' and st['way']['geopotential'] != 'path' and o['v'] == 3 and st['corr']:
                # removed, and added again with other values
                k = w.v['source']
                x = w.prepare(dict(op='remove', v=k))
                steps.append(dict(run(x, st, False), what='remove'))
                put('add/geo%d.grib' % k, read('lib/geo%d_3' % k))
                x = w.prepare(dict(op='geo', v=k))
                steps.append(dict(run(x, st, False), what='add'))
                w.v['geopotential'] = 3
            else:
                w.change(o['f'], o['v'])
            unchanged = False
            continue
        x = w.prepare(o)
        y = run(x, st, unchanged)
        steps.append(dict(y, what=x['kind'], cmd=x.get('cmd'), args=x.get('args')))
        unchanged = True
    return steps


def in_a_process(ops, st):
    enter('A')
    s = Session()

    def run(x, st, unchanged):
        res, ret = s.execute(x, st, unchanged)
        y = I.isolated(observe, res, ret)
        return dict(y, err=res.get('err'))
    return walk(ops, st, run)


def in_new_processes(ops, st):
    enter('R')
    return walk(ops, st, lambda x, st, u: I.isolated(one, x, st))


def history(ops, st):
    """job"""
    home = os.getcwd()
    a = I.isolated(in_a_process, ops, st)
    os.chdir(home)
    b = I.isolated(in_new_processes, ops, st)
    return a, b


# ---------------------------------------------------------------- check
def simulated(check, n):
    with open(os.path.join(tlc.SPEC, 'CachesMC_quick.cfg')) as f:
        t = f.read()
    t = re.sub(r'(INVARIANT|PROPERTY|VIEW).*\n', '', t.replace('SPECIFICATION Spec', 'SPECIFICATION SimSpec'))
    t = re.sub(r'Depth = \d+', 'Depth = %d' % (8 if check.quick else 12), t).replace('{1, 2}', '{1, 2, 3}')
    t = re.sub(r'Changed = .*', 'Changed = {%s}' % ', '.join('"%s"' % f for f in FIELDS), t)
    path = os.path.join(check.root, 'sim.cfg')
    with open(path, 'w') as f:
        f.write(t)
    rc, o = tlc._java(check.root, ['-noGenerateSpecTE', '-workers', '1', '-simulate', 'num=%d' % n, '-depth', '30', '-seed',
                                   str(check.r.randint(1, 10 ** 6)), '-config', path, 'CachesSim.tla'], 300, '4g')
    H = [json.loads(json.loads('"%s"' % m.group(1))) for m in re.finditer(r'^"HISTORY (.*)"$', o, re.M)]
    if not H:
        raise tlc.MachineryError('no histories from TLC: ' + o[-2000:])
    return H[:n]


def pairs(check, n):
    """an execution, one field changed, an execution; and back"""
    r = check.r
    H = []
    for i in range(n):
        f = (('options', 'formula', 'geopotential', 'dem', 'coordinates', 'source', 'mode', 'tables', 'configuration', 'parameters', 'options', 'geopotential')[i % 12])
        ex = dict(op='execute', f='', v=0, n=6)
        ch = lambda v: dict(op='change', f=f, v=v, n=0)
        H.append([ex, ch(2), ex, ch(1), ex] + ([ch(3), ex] if r.random() < .5 else [ex]))
    return H


def record(a, b):
    k = ('rc', 'maps', 'returned', 'registrations', 'tables', 'others')
    return dict(x={i: a[i] for i in k}, fresh={i: b[i] for i in k})


def corrupted(r, rec):
    x = copy.deepcopy(rec)
    k = r.choice(['rc', 'maps', 'registrations', 'tables', 'others'])
    if k == 'rc':
        x['x']['rc'] = 1 - x['x']['rc']
    elif not x['x'][k]:
        return None
    elif r.random() < .5:
        x['x'][k].pop(r.randrange(len(x['x'][k])))
    else:
        x['x'][k][r.randrange(len(x['x'][k]))] += '0'
    return x


def judge(check, H):
    check.note('%d histories' % len(H))
    R = check.lab.run([(history, h) for h in H], timeout=240)
    recs, idx, good = [], [], []
    ops = check.cov.setdefault('executions', {})
    for i, (st, y) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(history=H[i], error=y))
            continue
        if len(y[0]) != len(y[1]):
            check.violation(['execution'], dict(history=H[i], error='%d and %d executions' % (len(y[0]), len(y[1]))))
            continue
        for j, (a, b) in enumerate(zip(*y)):
            recs.append(record(a, b))
            idx.append((i, j))
            k = '%s %s' % (b['what'], 'refused' if b['rc'] else 'without outputs' if not b['maps'] and not b['returned'] and b['what'] in ('cli', 'api') else 'done')
            ops[k] = ops.get(k, 0) + 1
    check.cov['evaluations'] += len(recs)
    check.note('executed %d' % len(recs))
    V = check.validate('CachesTrace.tla', recs)
    bad = set()
    for (i, j), v, rec in zip(idx, V, recs):
        check.cov['traces_validated_against_impl'] += 1
        if v and i not in bad:
            bad.add(i)
            a, b = R[i][1][0][j], R[i][1][1][j]
            check.violation(v, dict(history=H[i], step=j, process=a, new=b))
        elif not v:
            good.append(rec)
            check.sample(dict(operations=[(o['op'], o['f'], o['v']) for o in H[i][0]], observed=rec['x']['maps'][:2]))
    check.r.shuffle(good)
    bad = [x for x in (corrupted(check.r, g) for g in good[:80]) if x]
    V = check.validate('CachesTrace.tla', bad)
    if any(not v for v in V):
        raise tlc.MachineryError('corrupted trace accepted')
    check.cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    tier = 'quick' if check.quick else 'thorough'
    check.modelcheck('CachesMC.tla', 'CachesMC_%s.cfg' % tier)
    for m in ('options', 'tables', 'folders'):
        check.mustfail('CachesMC.tla', 'CachesMC_%s.cfg' % m, 'SameAsNew')
    n = (60, 60) if check.quick else (1200, 1200)
    H = simulated(check, n[0]) + pairs(check, n[1])
    judge(check, [(h, setup(check.r, h)) for h in H])
    check.assumptions += ['an execution in a process forked before pyg2p is imported is one in a new process']


def replay(check, detail):
    judge(check, [tuple(detail['history'])])
