"""P09, P10: interpolation scenarios of Interp.tla."""
import copy
import json
import math
import os

import numpy as np

import fields as F
import scen
import tlc

SC = 100
MISS = 2000000000
MODES = ('nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist')
KNEAR = {'nearest': 1, 'invdist': 4, 'adw': 11, 'cdd': 11, 'grib_nearest': 1, 'grib_invdist': 4}


# ---------------------------------------------------------------- sources
def regular(ni, nj, lat0, lon0, dlat, dlon, up=False):
    """hundredths of degree; rows in scanning order"""
    la = [lat0 + (dlat if up else -dlat) * j for j in range(nj)]
    lo = [lon0 + dlon * i for i in range(ni)]
    return dict(kind='regular', ni=ni, nj=nj, lat0=lat0, lon0=lon0, dlat=dlat, dlon=dlon, up=up,
                la=[a for a in la for _ in lo], lo=[o for _ in la for o in lo])


def reduced(pl):
    lats = {8: [73.79921362856324, 52.81294318999426, 31.70409174500795, 10.569882312576093]}[len(pl)]
    lats = lats + [-x for x in reversed(lats)]
    return dict(kind='reduced', pl=pl, ni=max(pl), nj=len(pl), la=[100 * a for a, n in zip(lats, pl) for _ in range(n)],
                lo=[36000. * i / n for n in pl for i in range(n)])


def rotated(ni, nj, lat0, lon0, d, sp_lat, sp_lon):
    s = dict(kind='rotated', ni=ni, nj=nj, lat0=lat0, lon0=lon0, dlat=d, dlon=d, sp=(sp_lat, sp_lon))
    la, lo = [], []
    th = math.radians(90 + sp_lat / 100.)
    for j in range(nj):
        for i in range(ni):
            a, o = math.radians((lat0 - d * j) / 100.), math.radians((lon0 + d * i) / 100.)
            x, y, z = math.cos(o) * math.cos(a), math.sin(o) * math.cos(a), math.sin(a)
            # rotation around the y axis, then around the pole
            # rotation around the y axis, then around the poles
            x2, z2 = math.cos(th) * x + math.sin(-th) * z, math.sin(th) * x + math.cos(th) * z
            la.append(100 * math.degrees(math.asin(max(-1, min(1, z2)))))
            lo.append(100 * (math.degrees(math.atan2(y, x2))) + sp_lon)
    s.update(la=la, lo=lo)
    return s


def write_source(f, s, vals, sn='sp', step='0', bits=24, bitmap=False, mvval=9999., steptype='instant'):
    import eccodes as ec
    mv = np.array([v is None for v in vals])
    v = np.array([0. if x is None else x for x in vals])
    if s['kind'] == 'regular':
        g = ec.codes_grib_new_from_samples('regular_ll_sfc_grib2')
    elif s['kind'] == 'rotated':
        g = ec.codes_grib_new_from_samples('rotated_ll_sfc_grib2')
    else:
        g = ec.codes_grib_new_from_samples('reduced_gg_sfc_grib2')
    if s['kind'] in ('regular', 'rotated'):
        ec.codes_set(g, 'Ni', s['ni'])
        ec.codes_set(g, 'Nj', s['nj'])
        up = s.get('up')
        last = s['lon0'] + s['dlon'] * (s['ni'] - 1)
        ec.codes_set(g, 'latitudeOfFirstGridPointInDegrees', s['lat0'] / 100.)
        ec.codes_set(g, 'latitudeOfLastGridPointInDegrees', (s['lat0'] + (s['dlat'] if up else -s['dlat']) * (s['nj'] - 1)) / 100.)
        w = (lambda x: x % 36000) if s['kind'] == 'regular' else (lambda x: x)
        ec.codes_set(g, 'longitudeOfFirstGridPointInDegrees', w(s['lon0']) / 100.)
        ec.codes_set(g, 'longitudeOfLastGridPointInDegrees', w(last) / 100.)
        ec.codes_set(g, 'iDirectionIncrementInDegrees', s['dlon'] / 100.)
        ec.codes_set(g, 'jDirectionIncrementInDegrees', s['dlat'] / 100.)
        if up:
            ec.codes_set(g, 'jScansPositively', 1)
        if s['kind'] == 'rotated':
            ec.codes_set(g, 'latitudeOfSouthernPoleInDegrees', s['sp'][0] / 100.)
            ec.codes_set(g, 'longitudeOfSouthernPoleInDegrees', s['sp'][1] / 100.)
    else:
        ec.codes_set(g, 'N', len(s['pl']) // 2)
        ec.codes_set(g, 'Nj', len(s['pl']))
        ec.codes_set_array(g, 'pl', s['pl'])
        ec.codes_set(g, 'latitudeOfFirstGridPointInDegrees', s['la'][0] / 100.)
        ec.codes_set(g, 'latitudeOfLastGridPointInDegrees', s['la'][-1] / 100.)
        ec.codes_set(g, 'longitudeOfLastGridPointInDegrees', 360 - 360. / max(s['pl']))
    ec.codes_set(g, 'dataDate', 20200101)
    ec.codes_set(g, 'dataTime', 0)
    if steptype != 'instant':
        ec.codes_set(g, 'stepType', steptype)
    ec.codes_set(g, 'shortName', sn)
    ec.codes_set(g, 'stepRange', str(step))
    ec.codes_set(g, 'bitsPerValue', bits)
    if mv.any() or bitmap:
        ec.codes_set(g, 'bitmapPresent', 1)
        ec.codes_set(g, 'missingValue', mvval)
        v = np.where(mv, mvval, v)
    ec.codes_set_values(g, v)
    ec.codes_write(g, f)
    ec.codes_release(g)


# ---------------------------------------------------------------- targets (hundredths of degree)
def write_target(s, d='maps', name=''):
    """coordinates and clone maps; returns cloneMap, latMap, lonMap"""
    la = np.array(s['la'], float) / 100.
    lo = np.array(s['lo'], float) / 100.
    os.makedirs(d, exist_ok=True)
    p = lambda n: os.path.join(d, name + n)
    if s['format'] == 'nc':
        import netCDF4
        if s.get('f4'):
            la, lo = np.float32(la), np.float32(lo)
        ds = netCDF4.Dataset(p('target.nc'), 'w')
        yn, xn = s.get('names', ('lat', 'lon'))
        ds.createDimension(yn, la.shape[0])
        ds.createDimension(xn, la.shape[1])
        y = ds.createVariable(yn, 'f8', (yn,))
        x = ds.createVariable(xn, 'f8', (xn,))
        y[:] = la[:, 0]
        x[:] = lo[0]
        y.units, y.standard_name = 'degrees_north', 'latitude'
        x.units, x.standard_name = 'degrees_east', 'longitude'
        v = ds.createVariable('area', 'f8', (yn, xn), fill_value=-9999.)
        v[:] = np.ones(la.shape)
        ds.close()
        return (p('target.nc'),) * 3
    F.pcr(p('lat.map'), la)
    F.pcr(p('lon.map'), lo)
    F.pcr(p('clone.map'), np.ones(la.shape))
    return p('clone.map'), p('lat.map'), p('lon.map')


# ---------------------------------------------------------------- executions
def prepare(sc, conc):
    """files of the scenario in the working directory; returns arguments"""
    for x in ('maps', 'out'):
        os.makedirs(x, exist_ok=True)
    with open('in.grib', 'wb') as f:
        for k, v in enumerate(sc['vals']):
            write_source(f, sc['src'], v, step=str(3 * k), bitmap=conc.get('bitmap', False), mvval=conc.get('mvval', 9999.))
    with open('.pyg2p/parameters.json', 'w') as f:
        json.dump({'sp': {'@description': 'd', '@shortName': 'sp', '@unit': 'u0'}}, f)
    return command(sc, conc)


def command(sc, conc, name='cmd.json', out='out', inp='in.grib'):
    clone, lat, lon = write_target(sc['tgt'], conc.get('maps', 'maps'))
    it = {'@latMap': lat, '@lonMap': lon, '@mode': sc['mode']}
    for k in ('num_of_splits', 'use_broadcasting', 'rotated_target'):
        if conc.get(k) is not None:
            it['@' + k] = conc[k]
    if sc['mode'] == 'cdd':
        n = np.array(sc['tgt']['la']).shape
        cdd = os.path.join(conc.get('maps', 'maps'), 'cdd.map')
        F.pcr(cdd, np.array(sc['cdd']).reshape(n))
        if conc.get('variable'):
            # in the folder of a variable of the user
            with open('.pyg2p/cdd.conf', 'w') as f:
                f.write('CDD_MAPS=%s\n' % os.path.dirname(cdd))
            cdd = '{CDD_MAPS}/cdd.map'
        it.update({'@cdd_map': cdd, '@cdd_mode': sc['cddmode']})
        if sc.get('cddopt'):
            it['@cdd_options'] = sc['cddopt']
    om = {'@cloneMap': clone, '@unitTime': '24', '@namePrefix': 'v', 'Interpolation': it}
    if conc.get('format', 'netcdf') == 'netcdf':
        om['@format'] = 'netcdf'
        om['@valueFormat'] = 'f8'
    ex = {'@name': 'x', 'Parameter': {'@shortName': 'sp'}, 'OutMaps': om}
    with open(name, 'w') as f:
        json.dump({'Execution': ex}, f)
    args = ['-c', name, '-i', inp, '-o', out, '-l', 'ERROR']
    if conc.get('create', True):
        args.append('-B')
    if conc.get('parallel'):
        args.append('-X')
    return args


def observe(conc, out='out', prefix=''):
    """values of every map, in order of time"""
    maps = []
    fs = [x for x in sorted(os.listdir(out)) if x.startswith(prefix) and not x.endswith('.aux.xml')] if os.path.isdir(out) else []
    for x in fs:
        p = os.path.join(out, x)
        if x.endswith('.nc'):
            n = F.readnc(p)
            for v, a in n['vars'].items():
                maps += [[fix(y) for y in a[k].ravel()] for k in range(a.shape[0])]
        else:
            a, gt = F.readpcr(p)
            maps.append([fix(y) for y in a.ravel()])
    return maps


def fix(x):
    if x is None or not np.isfinite(x):
        return MISS
    return max(-1999999999, min(1999999999, int(round(float(x) * SC))))


def execute(sc, conc):
    args = prepare(sc, conc)
    rc, err = scen.call(args)
    return dict(rc=rc, err=err, maps=as_target(sc, conc, observe(conc)))


def as_target(sc, conc, maps):
    """PCRaster maps have their rows from north to south, netCDF targets could have the opposite order"""
    la = sc['tgt']['la']
    if sc['tgt']['format'] == 'nc' and conc.get('format', 'netcdf') != 'netcdf' and la[0][0] < la[-1][0]:
        n = len(la[0])
        return [[v for j in reversed(range(len(m) // n)) for v in m[j * n:(j + 1) * n]] for m in maps]
    return maps


# ---------------------------------------------------------------- abstraction
def cart(la, lo):
    a, o = np.radians(np.asarray(la, float) / 100.), np.radians(np.asarray(lo, float) / 100.)
    return np.stack([np.cos(o) * np.cos(a), np.sin(o) * np.cos(a), np.sin(a)], -1)


def points(sc):
    """source and target points as integers; unit of length chosen so that squared distances fit 32 bits"""
    s = cart(sc['src']['la'], sc['src']['lo'])
    t = cart(np.array(sc['tgt']['la']).ravel(), np.array(sc['tgt']['lo']).ravel())
    a = np.concatenate([s, t])
    lo, hi = a.min(0), a.max(0)
    k = 26000 / np.linalg.norm(hi - lo)
    a = np.rint((a - lo) * k).astype(int)
    return a[:len(s)].tolist(), a[len(s):].tolist(), k


def record(sc, obs):
    s, t, k = points(sc)
    src = sc['src']
    reg = src['kind'] == 'regular'
    tl = np.array(sc['tgt']['la']).ravel()
    to = np.array(sc['tgt']['lo']).ravel()
    return dict(mode=sc['mode'], knear=KNEAR.get(sc['mode'], 4), reg=reg, dla=int(src['dlat']) if reg else 0, dlo=int(src['dlon']) if reg else 0,
                nj=src['nj'], glob=bool(sc['global']), rot=src['kind'] == 'rotated',
                src=[p + [int(round(a)), int(round(o)) % 36000] for p, a, o in zip(s, src['la'], src['lo'])],
                tgt=[p + [int(a), int(o) % 36000] for p, a, o in zip(t, tl, to)],
                vals=[[MISS if x is None else int(x * SC) for x in v] for v in sc['vals']],
                aff=bool(sc.get('aff')), rc=obs['rc'], maps=obs['maps'],
                perm=obs.get('perm', []), rc2=obs.get('rc2', 0), maps2=obs.get('maps2', []))


# ---------------------------------------------------------------- scenarios
def wrap(o, conv):
    """longitude in a convention"""
    return o % 36000 if conv == '360' else (o + 18000) % 36000 - 18000


def gen_source(r, mode):
    k = r.choice(['regular'] * 5 + ['global'] * 2 + ['reduced', 'rotated']) if mode not in ('grib_nearest', 'grib_invdist') else r.choice(['regular'] * 5 + ['global', 'reduced'])
    if k == 'regular':
        d = r.choice([50, 100, 200])
        dlon = r.choice([d, d, d, 50, 100])
        ni, nj = r.randint(4, 7), r.randint(3, 6)
        lat0 = r.choice([5000, 1000, -1000, 6000, 200, 150, -2500])
        lon0 = r.choice([0, 1000, -2000, -200, -150, 17700, 35800, 9000, -9000, 25000])
        return regular(ni, nj, lat0, lon0, d, dlon, r.random() < .25), False
    if k == 'global':
        d = r.choice([3000, 4500, 2000])
        ni = 36000 // d
        top = 9000 if r.random() < .5 else 9000 - d // 2
        nj = 2 * top // d + 1
        return regular(ni, nj, top, r.choice([0, 0, -18000]), d, d), True
    if k == 'reduced':
        return reduced(r.choice([[8, 12, 16, 16, 16, 16, 12, 8], [8, 16, 20, 24, 24, 20, 16, 8]])), True
    return rotated(r.randint(4, 6), r.randint(4, 5), 200, r.choice([-300, 100]), r.choice([50, 100]), r.choice([-4000, -6000, -3000]), r.choice([1000, 0, -1500])), False


def gen_target(r, src, glob, mode):
    """targets inside, on and out of the source"""
    la, lo = np.array(src['la']), np.array(src['lo'])
    if src['kind'] == 'rotated':
        la, lo = np.rint(la).astype(int), np.rint(lo).astype(int)
    pad = 0 if glob else r.choice([0, 0, 150, 500])
    a0, a1 = int(la.min()) - pad, int(la.max()) + pad
    o0, o1 = int(lo.min()) - pad, int(lo.max()) + pad
    if glob:
        o0, o1 = o0, o0 + 35999
    a0, a1 = max(a0, -8990), min(a1, 8990)
    conv = r.choice(['180', '180', '360'])
    shape = r.choice([(3, 5), (4, 4), (2, 6), (5, 3), (6, 2)])
    kind = r.choice(['lattice', 'lattice', 'random', 'points'])
    fmt = 'pcr'
    if kind == 'lattice':
        A = sorted((r.sample(range(a0, a1 + 1), shape[0])), reverse=r.random() < .75)
        O = sorted((r.sample(range(o0, o1 + 1), shape[1])))
        if r.random() < .3:
            A = sorted(set(r.choice([int(x) for x in la]) if r.random() < .5 else x for x in A), reverse=True)
            O = sorted(set(r.choice([int(x) for x in lo]) if r.random() < .5 else x for x in O))
        if r.random() < .15:
            O = O[::-1]
        if len(A) < 2 or len(O) < 2:
            return gen_target(r, src, glob, mode)
        tla = [[a for _ in O] for a in A]
        tlo = [[wrap(o, conv) for o in O] for _ in A]
        fmt = r.choice(['pcr', 'pcr', 'nc'])
    else:
        tla = [[r.randint(a0, a1) for _ in range(shape[1])] for _ in range(shape[0])]
        tlo = [[wrap(r.randint(o0, o1), conv) for _ in range(shape[1])] for _ in range(shape[0])]
        if kind == 'points':
            for j in range(shape[0]):
                for i in range(shape[1]):
                    if r.random() < .5:
                        p = r.randrange(len(la))
                        tla[j][i], tlo[j][i] = int(round(la[p])), wrap(int(round(lo[p])), conv)
    return dict(la=tla, lo=tlo, format=fmt, names=r.choice([('lat', 'lon'), ('y', 'x')]))


def gen(r, modes=MODES, missing=.3):
    mode = r.choice(modes)
    while True:
        src, glob = gen_source(r, mode)
        tgt = gen_target(r, src, glob, mode)
        if len(src['la']) >= (20 if mode == 'bilinear' else 12):
            break
    n = len(src['la'])
    aff = mode in ('bilinear', 'triangulation', 'bilinear_delaunay') and src['kind'] == 'regular' and not glob and r.random() < .5
    vals = []
    if aff:
        q = 50.
        a, b = r.choice([(1, 0), (0, 1), (1, 1), (2, -1), (-1, 3)])
        v = [a * x / q + b * y / q for x, y in zip(src['la'], src['lo'])]
        m = min(v)
        vals.append([x - m for x in v])
    else:
        for _ in range(r.choice([1, 1, 2])):
            vals.append([r.randint(0, 200) for _ in range(n)])
    for v in vals:
        # one value at the poles
        for a in (9000, -9000):
            P = [i for i in range(n) if src['la'][i] == a]
            for i in P:
                v[i] = v[P[0]]
    if not aff and r.random() < missing:
        for v in vals:
            for _ in range(r.randint(1, 3)):
                k = r.randrange(n)
                if abs(src['la'][k]) != 9000:
                    v[k] = None
    sc = dict(mode=mode, src=src, tgt=tgt, vals=vals, aff=aff)
    sc['global'] = glob
    if mode == 'cdd':
        sc['cddmode'] = r.choice(['Hofstra', 'MixHofstraShepard', 'NewEtAl'])
        m = np.array(tgt['la']).size
        base = {'regular': 300, 'rotated': 300, 'reduced': 4000}[src['kind']] if not glob else 6000
        sc['cdd'] = [float(r.randint(base // 2, base)) for _ in range(m)]
        if sc['cddmode'] == 'MixHofstraShepard' and r.random() < .5:
            sc['cddopt'] = {'m_const': r.choice([2, 4]), 'min_num_of_station': r.choice([3, 4]), 'radius_ratio': r.choice([.25, 1 / 3.]),
                            'weights_mode': r.choice(['All', 'OnlyTOP10'])}
    return sc


# ---------------------------------------------------------------- P09
def permuted(r, sc):
    """the same target in another order and convention; perm[c]: cell of the new target for cell c"""
    t = sc['tgt']
    la, lo = np.array(t['la']), np.array(t['lo'])
    idx = np.arange(la.size).reshape(la.shape)
    op = r.choice(['rows', 'cols', 'both', 'none'])
    if op in ('rows', 'both'):
        la, lo, idx = la[::-1], lo[::-1], idx[::-1]
    if op in ('cols', 'both'):
        la, lo, idx = la[:, ::-1], lo[:, ::-1], idx[:, ::-1]
    if t['format'] == 'pcr' and r.random() < .4:
        la, lo, idx = la.T, lo.T, idx.T
    conv = '180' if lo.max() > 18000 or (op == 'none' and lo.min() >= 0 and r.random() < .3) else '360'
    lo = np.vectorize(lambda o: wrap(int(o), conv))(lo)
    s = copy.deepcopy(sc)
    s['tgt'] = dict(t, la=la.tolist(), lo=lo.tolist())
    flat = idx.ravel().tolist()
    if 'cdd' in sc:
        s['cdd'] = [sc['cdd'][k] for k in flat]
    perm = [0] * len(flat)
    for new, old in enumerate(flat):
        perm[old] = new + 1
    return s, perm


def isolated(fn, *args):
    """result of fn in a forked process"""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            res = ('ok', fn(*args))
        except BaseException as e:
            import traceback
            traceback.print_exc()
            res = ('error', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        with os.fdopen(wr, 'wb') as f:
            pickle.dump(res, f)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    st, v = pickle.loads(data)
    if st != 'ok':
        raise AssertionError(v)
    return v


def execute_pair(sc, conc, sc2, perm):
    x = execute(sc, conc)
    if perm:
        os.rename('out', 'out1')
        # (same home: tables are identified by the extents of the target)
        import shutil
        shutil.rmtree('it')
        os.makedirs('it')
        if os.path.exists('.pyg2p/intertables.json'):
            os.remove('.pyg2p/intertables.json')
        y = isolated(execute, sc2, dict(conc, maps='maps2'))
        x.update(perm=perm, rc2=y['rc'], maps2=y['maps'])
    return x


CLAUSES = {'exitcode', 'count', 'shape', 'made', 'lost', 'values', 'linear', 'onpoint', 'convention', 'execution'}


def corrupted(r, rec):
    """a changed observation: must be rejected"""
    x = copy.deepcopy(rec)
    m = x['maps']
    k = r.randrange(len(m))
    kind = r.choice(['big', 'drop', 'shape', 'rc'])
    if kind == 'big':
        c = [i for i, v in enumerate(m[k]) if v != MISS]
        if not c:
            return None
        m[k][r.choice(c)] += r.choice([-1, 1]) * 30000
    elif kind == 'drop':
        del m[k]
    elif kind == 'shape':
        m[k].append(0)
    else:
        x['rc'] = 1
    return x


def judge(check, S, clauses=CLAUSES):
    """S: (scenario, concretisation, scenario2, perm)"""
    check.note('%d scenarios' % len(S))
    R = check.lab.run([(execute_pair, x) for x in S], timeout=150)
    check.cov['evaluations'] += len(S)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st == 'ok':
            recs.append(record(S[i][0], x))
            idx.append(i)
        else:
            check.violation(['execution'], dict(scenario=S[i][0], concretisation=S[i][1], scenario2=S[i][2], perm=S[i][3], error=x))
    check.note('executed')
    V = check.validate('InterpTrace.tla', recs)
    good = []
    for i, v, rec in zip(idx, V, recs):
        check.cov['traces_validated_against_impl'] += 1
        check.cov['cells'] = check.cov.get('cells', 0) + sum(len(m) for m in rec['maps'])
        if set(v) & clauses:
            check.violation(v, dict(scenario=S[i][0], concretisation=S[i][1], scenario2=S[i][2], perm=S[i][3], observed=R[i][1]))
        elif not v and rec['maps']:
            good.append(rec)
            s = S[i][0]
            check.sample(dict(mode=s['mode'], source={k: v for k, v in s['src'].items() if k not in ('la', 'lo')}, target=s['tgt'],
                              concretisation=S[i][1], observed=R[i][1]['maps'][0][:8]))
    # all the modes are sampled
    pick = []
    for m in MODES:
        pick += [x for x in good if x['mode'] == m][:5]
    bad = [c for c in (corrupted(check.r, rec) for rec in pick) if c]
    V = check.validate('InterpTrace.tla', bad)
    if any(v == [] for v in V):
        raise tlc.MachineryError('corrupted observation accepted')
    check.cov['corrupted_traces_rejected'] += len(bad)
    modes = check.cov.setdefault('modes', {})
    for s in S:
        modes[s[0]['mode']] = modes.get(s[0]['mode'], 0) + 1


def scenario(r):
    s = gen(r)
    conc = dict(format=r.choice(['netcdf', 'netcdf', 'pcraster']), parallel=r.random() < .15, bitmap=r.random() < .3)
    if r.random() < .15:
        conc['num_of_splits'] = r.randint(1, 4)
    if s['mode'] in ('adw', 'cdd') and r.random() < .3:
        conc['use_broadcasting'] = True
    s2, perm = None, []
    if s['mode'] in ('nearest', 'invdist', 'adw', 'cdd') and s.get('cddmode') != 'NewEtAl' and r.random() < .6:
        s2, perm = permuted(r, s)
    return s, conc, s2, perm


def anisotropic(sc_mode):
    """known finding: cells far from any point, but inside the box of the source"""
    src = regular(9, 5, -1000, 1000, 200, 50)
    tgt = dict(la=[[-1100, -1000], [-1500, -1700]], lo=[[1025, 1100], [1150, 1325]], format='pcr')
    v = [100] * len(src['la'])
    return dict(mode=sc_mode, src=src, tgt=tgt, vals=[v], aff=False, **{'global': False})


def run(check):
    check.modelcheck('InterpMC.tla', 'InterpMC_%s.cfg' % ('quick' if check.quick else 'thorough'))
    check.mustfail('InterpMC.tla', 'InterpMC_marker.cfg', 'Accepted')
    judge(check, [scenario(check.r) for _ in range(300 if check.quick else 9000)])
    # cells inside the box of the source are covered
    st, x = check.lab.run([(execute, (anisotropic('nearest'), dict(format='netcdf')))])[0]
    if st != 'ok' or x['rc'] or any(v == MISS for v in x['maps'][0]):
        check.violation(['lost'], dict(known='coverage-of-anisotropic-grids', scenario=anisotropic('nearest'), concretisation={}, scenario2=None, perm=[], observed=x))
    check.assumptions += ['distances are rational approximations on a sphere; values that are not determined by the method (ties, polar cells, edges of coverage) are only bounded']


def replay(check, d):
    judge(check, [(d['scenario'], d['concretisation'], d['scenario2'], d['perm'])])
