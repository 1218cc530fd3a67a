"""P14, P15: written maps, judged by Output.tla"""
import copy
import datetime
import hashlib
import json
import os
import re
from fractions import Fraction

import numpy as np

import fields as F
import scen
import tlc

MISS = 2000000000
NI, NJ = 6, 5
SLAT = [10. - j for j in range(NJ)]
SLON = [1. * i for i in range(NI)]
FORMATS = {'i1': (-120, 120), 'i2': (-3000, 3000), 'i4': (-9000, 9000), 'i8': (-9000, 9000), 'u1': (0, 250), 'u2': (0, 6000), 'u4': (0, 9000),
           'u8': (0, 9000), 'f4': (-9000, 9000), 'f8': (-9000, 9000)}
SCALES = [(1, 1), (1, 1), (1, 2), (1, 10), (1, 4), (1, 100), (2, 1), (5, 1)]


def dec(t):
    """decimal text of thousandths"""
    s = '%d.%03d' % (abs(t) // 1000, abs(t) % 1000)
    s = ('-' if t < 0 else '') + s
    return s.rstrip('0').rstrip('.') if s.endswith('0') else s


# ---------------------------------------------------------------- scenarios
def target(r):
    rows = sorted(r.sample(range(NJ), r.randint(2, NJ)))
    cols = sorted(r.sample(range(NI), r.randint(2, NI)))
    if r.random() < .2:
        rows = rows[::-1]
    if r.random() < .1:
        cols = cols[::-1]
    n = len(rows) * len(cols)
    p = r.choice([0, 0, .2, .5])
    valid = [r.random() >= p for _ in range(n)]
    if not any(valid):
        valid[0] = True
    return dict(rows=rows, cols=cols, valid=valid)


def steps(r, n):
    d = r.choice([1, 3, 6, 24])
    s, out = r.choice([0, d]), []
    while len(out) < n:
        out.append(s)
        s += d * r.choice([1, 1, 1, 2])
    return out


def common(r, n, lo, hi):
    s = steps(r, n)
    agg = r.random() < .25
    if agg:
        # instantaneous values at every step
        d = r.choice([3, 6])
        s = [d * (k + 1) for k in range(n)]
    vals = []
    for _ in s:
        v = [r.randint(lo, hi) for _ in range(NI * NJ)]
        if r.random() < .4:
            for k in r.sample(range(NI * NJ), r.randint(1, 8)):
                v[k] = None
        if r.random() < .08:
            # nothing at this step
            v = [None] * len(v)
        vals.append(v)
    order = list(range(len(s)))
    r.shuffle(order)
    return dict(steps=s, vals=vals, order=order, clone=r.choice([1., 0., -1., 250., [r.choice([0., 1., -9999., 12.5, 1e6, -200.]) for _ in range(7)]]), cumul=not agg and s[0] > 0 and r.random() < .5, agg=(s[0] if agg else 0), tgt=target(r),
                geo=[r.choice([0, 12.5, -30]), r.choice([10, 55.25, -5]), r.choice([1, .5, 5])])


def short(sc):
    return 'tp' if sc['cumul'] else 'sp'


def name(r, n, chars='abXyz_-019'):
    return ''.join(r.choice(chars) for _ in range(n))


def pcraster(r):
    n = r.choice([1, 2, 3, 5, 12, 12, 25, r.randint(1, 120)])
    sc = common(r, n, 0, 2000 * 1000 // 1000)
    sc['vals'] = [[None if x is None else x * 1000 for x in v] for v in sc['vals']]
    k = r.choice(['short', 'short', 'long', 'long', 'default', 'digits'])
    sc['prefix'] = {'short': name(r, r.randint(1, 5), 'abXyz_019'), 'long': name(r, r.randint(6, 14)), 'digits': 'p' + name(r, r.randint(7, 12), '0123'),
                    'default': None}[k]
    if sc['prefix'] and sc['prefix'][0] == '-':
        sc['prefix'] = 'a' + sc['prefix']
    sc['fmap'] = r.choice([None, None, 1, 0, 2, 6, 14, 95, 990, 9998])
    sc['ext'] = r.choice([None, None, 1, 2, 4, 6, 10, 100])
    cli = [x for x in ('prefix', 'fmap', 'ext', 'format') if r.random() < .4]
    if r.random() < .25:
        # given in both: command line values are used
        sc['both'] = [x for x in ('prefix', 'fmap', 'ext') if r.random() < .6]
    sc.update(kind='pcr', cli=cli, outdir=r.choice(['out', 'out/', './out', 'new/deep/out', None]), text=r.random() < .3, stale=r.random() < .4)
    return sc


def netcdf(r):
    fmt = r.choice(list(FORMATS) + [None, None, 'f4', 'i2', 'i2'])
    sp, sq = r.choice(SCALES)
    o = r.choice([0, 0, 0, 10000, -1500, 273150, 500])
    lo, hi = FORMATS[fmt or 'f8']
    while 1000 * max(abs(lo), abs(hi)) * sp // sq > 4000000:
        lo, hi = lo // 2, hi // 2
    if (fmt or 'f8')[0] == 'f':
        lo, hi = lo * 1000, hi * 1000
        sc = common(r, r.choice([1, 2, 3, 5]), lo // 4, hi // 4)
        g = lambda x: x
        if (sp, sq, o) == (1, 1, 0) and r.random() < .4:
            # digits that only double precision can hold
            g = lambda x: 1500000000 + x % 200000
    else:
        sc = common(r, r.choice([1, 2, 3, 5]), lo, hi)
        frac = r.random() < .5
        g = lambda x: o + 1000 * x * sp // sq + (r.randint(-300, 300) * sp // sq if frac and lo < x < hi else 0)
    sc['vals'] = [[None if x is None else g(x) for x in v] for v in sc['vals']]
    flat = sorted(x for v in sc['vals'] for x in v if x is not None) or [0]
    vmin = vmax = None
    if r.random() < .5:
        vmin = r.choice([flat[len(flat) // 4], flat[len(flat) // 4] + r.randint(-400, 400), flat[0], flat[0] - 7000, 0])
    if r.random() < .5:
        vmax = r.choice([flat[-len(flat) // 4], flat[-len(flat) // 4] + r.randint(-400, 400), flat[-1], flat[-1] + 90000, 0])
    if vmin is not None and vmax is not None and vmin > vmax:
        vmin, vmax = vmax, vmin
    opts = dict(valueFormat=fmt, scaleFactor=None if (sp, sq) == (1, 1) and r.random() < .5 else dec(1000 * sp // sq), offset=None if o == 0 and r.random() < .5 else dec(o),
                validMin=None if vmin is None else dec(vmin), validMax=None if vmax is None else dec(vmax),
                outputStepUnits=r.choice([None, None, 's', 'm', 'h', '3h', '6h', '12h', 'D', 'D', 'M', 'Y', 'week']))
    sc.update(kind='nc', scale=(sp, sq), off=o, vmin=MISS if vmin is None else vmin, vmax=MISS if vmax is None else vmax, opts=opts,
              cli=[x for x in list(opts) + ['prefix', 'format'] if r.random() < .35], prefix=r.choice([None, 'ta', 'Var_2', 'x1']),
              outdir=r.choice(['out', 'out/', 'new/deep/out', None]), nctarget=r.random() < .3, conv=r.random() < .3,
              date=r.choice([20200101, 19991231, 20240229, 19700101, 20351015]), time=r.choice([0, 0, 1200, 600, 900, 30, 1830]),
              units=r.choice([None, None, None, '3h', '6h', 'D']), stale=r.random() < .3)
    if sc['agg']:
        sc['units'] = None
    return sc


# ---------------------------------------------------------------- execution
def listing(d):
    out = {}
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = os.path.join(d, x)
        if os.path.isfile(p) and x != 'log.txt' and not x.endswith('.aux.xml'):
            with open(p, 'rb') as f:
                out[x] = hashlib.sha1(f.read()).hexdigest()[:12]
    return out


def clone_values(sc, shape):
    return np.resize(np.array(sc['clone'], float), shape)


def prepare(sc):
    t = sc['tgt']
    la = np.array([[SLAT[j] for _ in t['cols']] for j in t['rows']])
    lo = np.array([[SLON[i] for i in t['cols']] for _ in t['rows']])
    valid = np.array(t['valid']).reshape(la.shape)
    x0, y0, d = sc['geo']
    os.makedirs('maps')
    if sc.get('nctarget'):
        import netCDF4
        ds = netCDF4.Dataset('maps/target.nc', 'w')
        ds.createDimension('lat', la.shape[0])
        ds.createDimension('lon', la.shape[1])
        y, x = ds.createVariable('lat', 'f8', ('lat',)), ds.createVariable('lon', 'f8', ('lon',))
        y[:], x[:] = la[:, 0], lo[0]
        y.units, y.standard_name, x.units, x.standard_name = 'degrees_north', 'latitude', 'degrees_east', 'longitude'
        v = ds.createVariable('area', 'f8', ('lat', 'lon'), fill_value=-32000.)
        v[:] = np.where(valid, clone_values(sc, la.shape), -32000.)
        ds.close()
        maps = ('maps/target.nc',) * 3
    else:
        F.pcr('maps/lat.map', la, x0, y0, d)
        F.pcr('maps/lon.map', lo, x0, y0, d)
        F.pcr('maps/clone.map', np.where(valid, clone_values(sc, la.shape), np.nan), x0, y0, d)
        maps = ('maps/clone.map', 'maps/lat.map', 'maps/lon.map')
    with open('in.grib', 'wb') as f:
        for k in sc['order']:
            v = np.array([np.nan if x is None else x / 1000. for x in sc['vals'][k]]).reshape(NJ, NI)
            mv = np.isnan(v)
            # (every message has a bitmap or none: number of values is part of the identifier of grids)
            F.msg(f, np.nan_to_num(v), ni=NI, nj=NJ, lat0=10., lon0=0., d=1., step=('0-%d' if sc['cumul'] else '%d') % sc['steps'][k], steptype='accum' if sc['cumul'] else 'instant', sn=short(sc), mv=mv if mv.any() else None,
                  date=sc.get('date', 20200101), time=sc.get('time', 0), units=sc.get('units'))
    par = {'@description': 'description of it', '@shortName': short(sc), '@unit': 'u0', 'Conversion': [{'@id': 'k', '@unit': 'u1', '@function': 'x=x'}]}
    with open('.pyg2p/parameters.json', 'w') as f:
        json.dump({short(sc): par}, f)
    return command(sc, maps)


def command(sc, maps, extra=()):
    om = {'@cloneMap': maps[0], '@unitTime': '24', 'Interpolation': {'@latMap': maps[1], '@lonMap': maps[2], '@mode': 'nearest'}}
    args = []
    flags = dict(prefix='-n', fmap='-f', ext='-x', format='-F', valueFormat='-vf', scaleFactor='-S', offset='-O', validMin='-vm', validMax='-vM', outputStepUnits='-U')
    opts = dict(sc.get('opts', {}), prefix=sc['prefix'], fmap=sc.get('fmap'), ext=sc.get('ext'), format='netcdf' if sc['kind'] == 'nc' else None)
    other = dict(prefix='other', fmap=77, ext=3)
    for k, v in opts.items():
        if v is None:
            continue
        if k in sc['cli'] or k in sc.get('both', ()):
            args += [flags[k], str(v)]
            if k in sc.get('both', ()):
                om['@' + ('namePrefix' if k == 'prefix' else k)] = other[k]
        else:
            om['@' + ('namePrefix' if k == 'prefix' else k)] = str(v) if sc.get('text') and k != 'prefix' else v
    p = {'@shortName': short(sc)}
    if sc.get('conv'):
        p['@applyConversion'] = 'k'
    ex = {'@name': 'x', 'Parameter': p, 'OutMaps': om}
    if sc['agg']:
        ex['Aggregation'] = {'@step': sc['agg'], '@type': 'instantaneous'}
        p['@tstart'], p['@tend'] = sc['steps'][0], sc['steps'][-1]
    with open('cmd.json', 'w') as f:
        json.dump({'Execution': ex}, f)
    return ['-c', 'cmd.json', '-i', 'in.grib', '-l', 'ERROR', '-B'] + (['-o', sc['outdir']] if sc['outdir'] else []) + args + list(extra)


def expected(sc):
    t = sc['tgt']
    return [[MISS if v[j * NI + i] is None else v[j * NI + i] for j in t['rows'] for i in t['cols']] for v in sc['vals']]


def thousandth(x):
    return MISS if x is None or not np.isfinite(x) else int(max(-1.9e9, min(1.9e9, round(float(x) * 1000))))


def execute(sc):
    import pyg2p.main  # noqa
    args = prepare(sc)
    d = sc['outdir'] or './'
    if sc['stale']:
        os.makedirs(d, exist_ok=True)
        p = sc['prefix'] or short(sc)
        for x in ('keep.txt', (p + '0' * 11)[:8] + '.001', p[:3] + '.nc', 'v_None.nc', (p + '0' * 11)[:8] + '.777'):
            with open(os.path.join(d, x), 'w') as f:
                f.write('x' * 4000)
    before = listing(d)
    rc, err = scen.call(args)
    after = listing(d)
    rec = dict(kind=sc['kind'], rc=rc, err=err, steps=expected(sc), valid=sc['tgt']['valid'])
    lists = lambda: dict(before=[dict(n=list(x), h=h) for x, h in before.items()], after=[dict(n=list(x), h=h) for x, h in after.items()])
    if sc['kind'] == 'pcr':
        t = sc['tgt']
        rec.update(lists(), prefix=list(sc['prefix'] or short(sc)), fmap=1 if sc['fmap'] is None else sc['fmap'], ext=sc['ext'] or 1, maps=[],
                   geo=[len(t['rows']), len(t['cols'])] + [int(round(x * 1000)) for x in sc['geo']])
        for x in after:
            if after[x] != before.get(x):
                try:
                    a, gt = F.readpcr(os.path.join(d, x))
                except Exception:
                    a, gt = np.zeros((0, 0)), (0,) * 6
                rec['maps'].append(dict(n=list(x), geo=[a.shape[0], a.shape[1], int(round(gt[0] * 1000)), int(round(gt[3] * 1000)), int(round(gt[1] * 1000))],
                                        cells=[thousandth(y) for y in a.ravel()]))
        return rec
    sp, sq = sc['scale']
    fmt = sc['opts']['valueFormat'] or 'f8'
    hours = dict(D=24, **{'3h': 3, '6h': 6}).get(sc['units'], 1)
    fn = '%s_%s.nc' % (sc['prefix'] or short(sc), 'instantaneous' if sc['agg'] else 'None')
    new = [x for x in after if after[x] != before.get(x)]
    t = sc['tgt']
    when = datetime.datetime.strptime('%d%04d' % (sc['date'], sc['time']), '%Y%m%d%H%M')
    rec.update(name=list(fn), found=fn in new, names=new, ends=[s * hours for s in sc['steps']], eps=2, req=sc['opts']['outputStepUnits'] or '', format=fmt,
               p=dict(int=fmt[0] != 'f', double=fmt == 'f8', sp=sp, sq=sq, o=sc['off'], lo=sc['vmin'], hi=sc['vmax']), date=minutes(when),
               target=dict(lat=[thousandth(SLAT[j]) for j in t['rows']], lon=[thousandth(SLON[i]) for i in t['cols']]),
               expected=dict(var=sc['prefix'] or short(sc), units='u1' if sc['conv'] else 'u0', long_name='description of it', scale=1000000 * sp // sq, offset=sc['off'],
                             calendar='proleptic_gregorian', lat='degrees_north', lon='degrees_east', dims=['time', 'lat', 'lon']))
    before.pop(fn, None)
    after.pop(fn, None)
    rec.update(lists())
    rec.update(readback(os.path.join(d, fn)) if rec['found'] else {})
    return rec


def minutes(t):
    return int((t - datetime.datetime(2000, 1, 1)).total_seconds() // 60)


def readback(path):
    import netCDF4
    ds = netCDF4.Dataset(path)
    v = [x for x in ds.variables.values() if x.ndim == 3]
    out = dict(fmt='none', raw=[], decoded=[], time=[], unit='', since=0, meta={}, coords={}, packing=dict(int=False, double=True, sp=1, sq=1, o=0, lo=MISS, hi=MISS))
    if len(v) != 1:
        return out
    v = v[0]
    a = v[:]
    a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan)
    out['decoded'] = [[thousandth(y) for y in a[k].ravel()] for k in range(a.shape[0])]
    v.set_auto_maskandscale(False)
    raw = v[:]
    at = {k: v.getncattr(k) for k in v.ncattrs()}
    fills = [at[k] for k in ('_FillValue', 'missing_value') if k in at]
    fl = np.zeros(raw.shape, bool)
    for x in fills:
        fl |= raw == np.array(x, raw.dtype)
    isint = raw.dtype.kind in 'iu'
    lim = 400000 if isint else 1900000000 if at.get('scale_factor', 1.) == 1 and at.get('add_offset', 0.) == 0 else 400000000
    one = (lambda x: int(max(-lim, min(lim, int(x))))) if isint else (lambda x: int(max(-lim, min(lim, round(float(x) * 1000))) if np.isfinite(x) else lim))
    out['raw'] = [[MISS if m else one(x) for x, m in zip(raw[k].ravel(), fl[k].ravel())] for k in range(raw.shape[0])]
    fr = Fraction(float(at.get('scale_factor', 1.))).limit_denominator(1000)
    off = float(at.get('add_offset', 0.))
    out['packing'] = dict(int=isint, double=raw.dtype.itemsize == 8, sp=max(1, min(5, fr.numerator)), sq=fr.denominator, o=int(round(off * 1000)), lo=MISS, hi=MISS)
    out['fmt'] = '%s%d' % (raw.dtype.kind, raw.dtype.itemsize)
    t = ds.variables['time']
    m = re.match(r'(.*) since (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)$', t.units)
    if m:
        out['unit'], out['since'] = m.group(1), minutes(datetime.datetime.strptime(m.group(2), '%Y-%m-%d %H:%M:%S'))
    for x in t[:]:
        w = int(np.floor(float(x) + 1e-5))
        out['time'].append(dict(whole=w, frac=max(0, int(round((float(x) - w) * 10000)))))
    lat, lon = ds.variables['lat'], ds.variables['lon']
    out['coords'] = dict(lat=[thousandth(x) for x in lat[:]], lon=[thousandth(x) for x in lon[:]])
    out['meta'] = dict(var=v.name, units=at.get('units', ''), long_name=at.get('long_name', ''), scale=int(round(float(at.get('scale_factor', 1)) * 1000000)),
                       offset=int(round(off * 1000)), calendar=getattr(t, 'calendar', ''), lat=lat.units, lon=lon.units, dims=list(v.dimensions))
    ds.close()
    return out


# ---------------------------------------------------------------- verdicts
def corrupted(r, x):
    x = copy.deepcopy(x)
    if x['kind'] == 'pcr':
        k = r.choice(['name', 'value', 'swap', 'geo', 'lost', 'other', 'mask', 'rc'])
        m = r.choice(x['maps'])
        if k == 'name':
            m['n'] = m['n'][:-1] + ['9' if m['n'][-1] != '9' else '8']
        elif k == 'value':
            c = r.randrange(len(m['cells']))
            m['cells'][c] = 5 if m['cells'][c] == MISS else MISS if r.random() < .5 else m['cells'][c] + 1000
        elif k == 'swap':
            o = r.choice(x['maps'])
            if o['cells'] == m['cells']:
                return None
            o['n'], m['n'] = m['n'], o['n']
        elif k == 'geo':
            m['geo'][r.randrange(5)] += 1
        elif k == 'lost':
            x['maps'].remove(m)
        elif k == 'other':
            x['after'].append(dict(n=['z'], h='1'))
        elif k == 'mask':
            if False not in x['valid']:
                return None
            m['cells'][x['valid'].index(False)] = 7000
        else:
            x['rc'] = 1
        return x
    k = r.choice(['decoded', 'raw', 'time', 'unit', 'since', 'scale', 'coords', 'other', 'format', 'lost', 'meta', 'limit'])
    if k in ('decoded', 'raw'):
        m = r.choice(x[k])
        c = r.randrange(len(m))
        big = 3 * (1000 if x['p']['int'] else 1000 * x['p']['sq'] // x['p']['sp'] + 1) if k == 'decoded' else 4000
        if k == 'raw' and x['p']['int']:
            big = 2 + 10 * x['p']['sq'] // x['p']['sp']
        big += 4 * x['p']['sp'] * 1000 if k == 'decoded' else 0
        m[c] = 12345 if m[c] == MISS else m[c] + big
        if x[k] is x['raw'] and m[c] == 12345 and not x['p']['int']:
            m[c] = 12345
    elif k == 'limit':
        m = r.choice(x['decoded'])
        c = [i for i in range(len(m)) if m[i] != MISS and not any(abs(m[i] - q) < 2000 + 1000 * x['p']['sp'] for q in (x['p']['lo'], x['p']['hi']))]
        if not c:
            return None
        m[r.choice(c)] = MISS
    elif k == 'time':
        x['time'][r.randrange(len(x['time']))]['whole'] += 1
    elif k == 'unit':
        x['unit'] = 'months'
    elif k == 'since':
        x['since'] += 60
    elif k == 'scale':
        x['meta']['scale'] += 1
    elif k == 'coords':
        x['coords']['lat'] = x['coords']['lat'][::-1]
    elif k == 'other':
        x['after'].append(dict(n=['z'], h='1'))
    elif k == 'format':
        x['fmt'] = 'x4'
    elif k == 'lost':
        x['found'] = False
    else:
        x['meta']['units'] = '?'
    return x


def judge(check, S):
    check.note('%d executions' % len(S))
    R = check.lab.run([(execute, (s,)) for s in S], timeout=90)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(scenario=S[i], error=x))
            continue
        if x['kind'] == 'nc' and x['rc'] == 0 and not x['found']:
            x.update(fmt='', raw=[], decoded=[], time=[], unit='', since=0, meta={}, coords={}, packing=x['p'])
        recs.append(x)
        idx.append(i)
    check.cov['evaluations'] += len(recs)
    check.note('executed')
    V = check.validate('OutputTrace.tla', recs)
    kinds = check.cov.setdefault('kinds', {})
    good = []
    for i, v, x in zip(idx, V, recs):
        check.cov['traces_validated_against_impl'] += 1
        k = x['kind'] + ' ' + (x.get('format') or '%d maps' % len(x['steps']))
        kinds[k] = kinds.get(k, 0) + 1
        if v:
            check.violation(v, dict(scenario=S[i], observed=x))
        else:
            good.append(x)
            check.sample({k: x[k] for k in ('prefix', 'fmap', 'ext', 'p', 'ends', 'req', 'time', 'unit', 'meta') if k in x})
    bad = [x for x in (corrupted(check.r, x) for x in check.r.sample(good, min(len(good), 150))) if x]
    V = check.validate('OutputTrace.tla', bad)
    for v, x in zip(V, bad):
        if v == []:
            raise tlc.MachineryError('corrupted observation accepted: %s' % x)
    check.cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    q = check.quick
    check.modelcheck('OutputMC.tla', 'OutputMC_%s.cfg' % ('quick' if q else 'thorough'))
    check.mustfail('OutputMC.tla', 'OutputMC_own.cfg', 'Inv')
    check.mustfail('OutputMC.tla', 'OutputMC_cut.cfg', 'Inv')
    n = (260 if q else 6000) if check.pid == 'P14' else (400 if q else 9000)
    judge(check, [(pcraster if check.pid == 'P14' else netcdf)(check.r) for _ in range(n)])


def replay(check, d):
    judge(check, [d['scenario']])
