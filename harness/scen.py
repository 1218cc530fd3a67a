"""Scenarios of Pipeline.tla: concretisation into files and commands, execution, observation."""
import json
import os
import numpy as np
import fields as F

SC = 1000
MISS = 2000000000
NI, NJ = 4, 3            # first grid = target: latitudes 10, 9, 8; longitudes 0..3
K = NI * NJ
LATS = np.repeat(np.array([[10.], [9.], [8.]]), NI, axis=1)
LONS = np.repeat(np.array([[0., 1., 2., 3.]]), NJ, axis=0)
PARAMS = {'instant': ('sp', 'msl', 'skt'), 'accum': ('tp', 'e', 'lsp'), 'avg': ('avg_tprate', 'avg_smr', 'avg_surfror')}


def rat(x):
    return [0, 0] if x is None else [int(x), 1]


def names(sn):
    return [sn, sn.upper(), sn + 'var']


def fv(x):
    """floats of a field (None: missing)"""
    a = np.array([np.nan if v is None else float(v) for v in x]).reshape(NJ, NI)
    return a


def fix(x):
    if x is None or not np.isfinite(x):
        return MISS
    v = int(round(float(x) * SC))
    return max(-1999999999, min(1999999999, v))


def cfg(**kw):
    c = dict(sn='sp', st='instant', tstart=-1, tend=-1, mem=-1, lvl=-1, date=-1, time=-1, agg='none', step=0, half=False, fz=False,
             unit=24, conv=None, cut=False, corr=None, two=False)
    c.update(kw)
    return c


def message(sn, s, e, st, v, lvl=0, date=20200101, time=0, mem=-1, res=1):
    return dict(sn=sn, s=s, e=e, st=st, lvl=lvl, date=date, time=time, mem=mem, res=res, v=v)


def abstract(sc):
    """record of Pipeline.tla"""
    c = sc['cfg']
    cv = c['conv']
    co = c['corr']
    out = dict(names=names(c['sn']), tstart=c['tstart'], tend=c['tend'], mem=c['mem'], lvl=c['lvl'], date=c['date'], time=c['time'],
               agg=c['agg'], step=c['step'], half=c['half'], fz=c['fz'], unit=c['unit'], two=c['two'], cut=bool(c['cut']),
               conv=dict(on=bool(cv), p=cv[0] if cv else 0, q=cv[1] if cv else 1, c=cv[2] if cv else 0),
               corr=dict(on=bool(co), cp=1, cg=0, cd=0, gq=0, gc=0))
    if co:
        out['corr'].update(dict(zip(('cp', 'cg', 'cd', 'gq', 'gc'), co)))
    ms = lambda L: [dict(m, v=[rat(x) for x in m['v']]) for m in L]
    return dict(cfg=out, msgs=ms(sc['msgs']), msgs2=ms(sc.get('msgs2', [])), clone=sc['clone'], dem=[rat(x) for x in sc['dem']],
                geo=[[rat(x) for x in g] if g else [] for g in sc['geo']])


def write_msg(f, m, conc):
    v = fv(m['v'])
    if m['res'] == 1:
        kw = dict(ni=NI, nj=NJ, lat0=10., lon0=0., d=1.)
        a = v
    else:
        kw = dict(ni=2 * NI - 1, nj=2 * NJ - 1, lat0=10., lon0=0., d=0.5)
        a = np.full((2 * NJ - 1, 2 * NI - 1), 777.)
        a[::2, ::2] = v
    mv = np.isnan(a)
    step = str(m['e']) if m['st'] == 'instant' else '%d-%d' % (m['s'], m['e'])
    force = mv.any() or conc.get('bitmap')
    info = F.msg(f, np.nan_to_num(a), step=step, steptype=m['st'], sn=m['sn'], level=m['lvl'], date=m['date'], time=m['time'] * 100,
                 member=None if m['mem'] == -1 else m['mem'], mv=mv if force else None, mvval=conc.get('mvval', 9999.), **kw)
    assert m['sn'] in ('z', 'fis') or (info[0], int(info[2]), info[3], info[4]) == (m['sn'], m['e'], m['st'], m['lvl']), (info, m)


def correction_formulas(co):
    cp, cg, cd, gq, gc = co
    return 'p*(%d)+gem*(%d)+dem*(%d)' % (cp, cg, cd), 'z*(%d)/10+(%d)' % (gq, gc)


def commands(sc, conc):
    """commands file and arguments"""
    c = sc['cfg']
    p = {'@shortName': c['sn']}
    cli = []
    oncli = set(conc.get('cli', ()))
    for key, name, flag in (('tstart', '@tstart', '-s'), ('tend', '@tend', '-e'), ('mem', '@perturbationNumber', '-m'),
                            ('date', '@dataDate', '-D'), ('time', '@dataTime', '-T')):
        if c[key] == -1:
            continue
        val = c[key] * 100 if key == 'time' else c[key]
        if key in oncli or (key == 'time' and val not in (0, 1200) and False):
            cli += [flag, str(val)]
        else:
            p[name] = val if conc.get('numeric') else str(val)
    if c['lvl'] != -1:
        p['@level'] = str(c['lvl'])
    if c['conv']:
        p['@applyConversion'] = 'vc'
    if c['corr']:
        p['@correctionFormula'], p['@gem'] = correction_formulas(c['corr'])
        p['@demMap'] = 'maps/dem.map'
    om = {'@cloneMap': 'maps/clone.map', '@unitTime': str(c['unit']), '@namePrefix': conc.get('prefix', 'v'),
          'Interpolation': {'@latMap': 'maps/lat.map', '@lonMap': 'maps/lon.map', '@mode': conc.get('mode', 'nearest')}}
    t = conc.get('target')
    if t:
        om['@cloneMap'] = 'maps/target.nc'
        if t['coords']:
            om['Interpolation'].update({'@latMap': 'maps/target.nc', '@lonMap': 'maps/target.nc'})
    if conc.get('format', 'netcdf') == 'netcdf':
        om['@format'] = 'netcdf'
        if conc.get('valueFormat'):
            om['@valueFormat'] = conc['valueFormat']
    ex = {'@name': 'x', 'Parameter': p, 'OutMaps': om}
    if c['agg'] != 'none':
        ex['Aggregation'] = {'@step': c['step'], '@type': c['agg']}
        if c['half']:
            ex['Aggregation']['@halfweights'] = 'True'
        if c['fz']:
            ex['Aggregation']['@forceZeroArray'] = 'True'
    args = ['-c', 'cmd.json', '-i', 'in.grib', '-o', 'out', '-l', 'ERROR', '-B'] + cli
    if c['two']:
        args += ['-I', 'in2.grib']
    return {'Execution': ex}, args


def prepare(sc, conc):
    """writes inputs in the working directory, returns the arguments"""
    c = sc['cfg']
    for d in ('maps', 'out'):
        os.makedirs(d, exist_ok=True)
    t = conc.get('target')
    o = -1 if t and t['up'] else 1     # order of rows
    F.pcr('maps/lat.map', LATS[::o], x0=-.5, y0=10.5)
    F.pcr('maps/lon.map', LONS, x0=-.5, y0=10.5)
    F.pcr('maps/dem.map', fv(sc['dem'])[::o], x0=-.5, y0=10.5)
    if t:
        target_nc(t, np.array(sc['clone']).reshape(NJ, NI)[::o], LATS[::o])
    F.pcr('maps/clone.map', np.where(np.array(sc['clone']).reshape(NJ, NI), 1., np.nan), x0=-.5, y0=10.5)
    geofile = conc.get('geo', 'registered')
    with open('in.grib', 'wb') as f:
        for m in sc['msgs']:
            write_msg(f, m, conc)
        if c['corr'] and geofile == 'infile' and sc['geo'][0]:
            write_msg(f, message('z', 0, 0, 'instant', sc['geo'][0], res=1), conc)
    if c['two']:
        with open('in2.grib', 'wb') as f:
            for m in sc['msgs2']:
                write_msg(f, m, conc)
    par = {'@description': 'd', '@shortName': c['sn'], '@unit': 'u0'}
    if c['conv']:
        par['Conversion'] = [{'@id': 'other', '@function': 'x=x+100000', '@unit': 'o', '@cutOffNegative': not c['cut']},
                             {'@id': 'vc', '@unit': 'u1', '@function': function(c['conv'], conc.get('function')),
                              '@cutOffNegative': c['cut']}]
        if conc.get('cuttext'):
            for x in par['Conversion']:
                x['@cutOffNegative'] = str(x['@cutOffNegative'])
        if conc.get('singleconv'):
            par['Conversion'] = par['Conversion'][1]
    with open('.pyg2p/parameters.json', 'w') as f:
        json.dump({c['sn']: par}, f)
    cmd, args = commands(sc, conc)
    with open('cmd.json', 'w') as f:
        json.dump(cmd, f)
    geos = []
    if c['corr']:
        for i, g in enumerate(sc['geo']):
            if g and not (i == 0 and geofile == 'infile'):
                n = 'geo%d.grib' % i
                with open(n, 'wb') as f:
                    write_msg(f, message('z', 0, 0, 'instant', g, res=i + 1), conc)
                geos.append(n)
        # geopotentials of other grids
        for k in conc.get('decoys', ()):
            n = 'decoy_%s.grib' % k
            with open(n, 'wb') as f:
                decoy(f, k)
            geos.insert(len(geos) if conc.get('decoys_last') else 0, n)
    return args, geos


def target_nc(t, valid, lats, path='maps/target.nc'):
    """netCDF target: latitudes, longitudes and mask"""
    import netCDF4
    ds = netCDF4.Dataset(path, 'w')
    yn, xn = t['names']
    ds.createDimension(yn, NJ)
    ds.createDimension(xn, NI)
    y = ds.createVariable(yn, 'f8', (yn,))
    x = ds.createVariable(xn, 'f8', (xn,))
    y[:] = lats[:, 0]
    x[:] = LONS[0]
    y.units, y.standard_name = 'degrees_north', 'latitude'
    x.units, x.standard_name = 'degrees_east', 'longitude'
    fill = {'nan': np.nan, 'number': -9999., 'integer': -32000, 'none': None, 'small': 1e-10}[t['fill']]
    v = ds.createVariable('area', 'i2' if t['fill'] == 'integer' else 'f8' if t['fill'] != 'nan' else 'f4', (yn, xn), fill_value=fill)
    if fill is None:
        fill = np.nan
    v[:] = np.where(valid, 1, fill)
    ds.close()


def decoy(f, kind):
    """geopotential on a grid differing from the first one for just one detail"""
    kw = dict(ni=NI, nj=NJ, lat0=10., lon0=0., d=1., dj=1.)
    if kind == 'shift':
        kw.update(lon0=0.02)
    elif kind == 'first':
        kw.update(lon0=0.003, d=.999)
    elif kind == 'last':
        kw.update(d=1.001)
    elif kind == 'ni':
        kw.update(ni=NI + 3, d=.5)
    elif kind == 'nj':
        kw.update(nj=NJ + 1)
    elif kind == 'lat':
        kw.update(lat0=11.)
    F.msg(f, np.full((kw['nj'], kw['ni']), 12345.), sn='z', **kw)


def function(cv, form=None):
    """text of the conversion function; form: one of its spellings"""
    p, q, c = cv
    if (p, q, c) == (0, 1, 0):
        f = 'x'
    elif p == 0 and q == 1:
        f = 'x%+d' % c
    elif p == 0 and c == 0:
        f = 'x*(%d)' % q
    else:
        f = 'x*x*(%d)+x*(%d)+(%d)' % (p, q, c)
    if form == 'where':
        f = 'where(x>=0,%s,%s)' % (f, f)
    elif form == 'equal':
        f = 'where(x==0,%d,%s)' % (c, f)
    elif form == 'pieces':
        f = '(%s)*(x>3)+(%s)*(x<=3)' % (f, f)
    elif form == 'decimals':
        f = '0.5*(%s)*2.0' % f
    elif form == 'spaces':
        f = ' ( %s ) ' % f
    return 'x=' + f


def call(args):
    """exit code of pyg2p"""
    from pyg2p.main import pyg2p_exe
    try:
        return int(pyg2p_exe(*args) or 0), ''
    except SystemExit as e:
        return int(e.code or 0), 'exit'
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 1, '%s: %s' % (type(e).__name__, e)


def observe(conc, out='out'):
    """maps found in folder out; rows from north to south"""
    maps = []
    o = -1 if conc.get('target') and conc['target']['up'] else 1
    fs = sorted(x for x in os.listdir(out) if not x.endswith('.aux.xml')) if os.path.isdir(out) else []
    if conc.get('format', 'netcdf') == 'netcdf':
        for x in fs:
            n = F.readnc(os.path.join(out, x))
            for v, a in n['vars'].items():
                for k in range(a.shape[0]):
                    maps.append(dict(e=int(round(n['time'][k])), cells=[fix(y) for y in a[k][::o].ravel()]))
    else:
        for x in fs:
            a, gt = F.readpcr(os.path.join(out, x))
            maps.append(dict(e=-1, cells=[fix(y) for y in a.ravel()]))
    return maps


def execute(sc, conc):
    """job: concretise, execute, observe"""
    args, geos = prepare(sc, conc)
    for g in geos:
        rc, err = call(['-g', g, '-l', 'ERROR'])
        if rc:
            raise AssertionError('geopotential not added ' + err)
    rc, err = call(args)
    return dict(rc=rc, err=err, maps=observe(conc))
