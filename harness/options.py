"""P16: options from command line, commands file and configuration, judged by Context.tla

Every message of the input has its own constant value, so that output tells which options were effective."""
import copy
import json
import os
import re
import shutil

import numpy as np

import fields as F
import output as O
import scen
import tlc

NONE = '(none)'
AVAIL = [0, 6, 12, 18, 24]
NI, NJ = 4, 3
CONV = 1000000
GEO = 4000000
LONG = dict(start='--start', end='--end', member='--perturbationNumber', time='--dataTime', date='--dataDate', prefix='--namePrefix', fmap='--fmap',
            ext='--ext', format='--format', scale='--scaleFactor', offset='--offset', vmin='--validMin', vmax='--validMax', vformat='--valueFormat',
            units='--outputStepUnits', tabledir='--intertableDir', geodir='--geopotentialDir', outdir='--outDir')
SHORT = dict(start='-s', end='-e', member='-m', time='-T', date='-D', prefix='-n', fmap='-f', ext='-x', format='-F', scale='-S', offset='-O', vmin='-vm',
             vmax='-vM', vformat='-vf', units='-U', tabledir='-N', geodir='-G', outdir='-o')
JSON = dict(start=('Parameter', '@tstart'), end=('Parameter', '@tend'), member=('Parameter', '@perturbationNumber'), time=('Parameter', '@dataTime'),
            date=('Parameter', '@dataDate'), level=('Parameter', '@level'), prefix=('OutMaps', '@namePrefix'), fmap=('OutMaps', '@fmap'),
            ext=('OutMaps', '@ext'), format=('OutMaps', '@format'), scale=('OutMaps', '@scaleFactor'), offset=('OutMaps', '@offset'),
            vmin=('OutMaps', '@validMin'), vmax=('OutMaps', '@validMax'), vformat=('OutMaps', '@valueFormat'), units=('OutMaps', '@outputStepUnits'),
            tabledir=('Interpolation', '@intertableDir'), geodir=('Interpolation', '@geopotentialDir'), unittime=('OutMaps', '@unitTime'))
NUMBERS = ('start', 'end', 'member', 'time', 'date', 'level', 'fmap', 'ext', 'unittime')
VALUES = dict(member=['0', '1', '2', '5'], time=['0', '1200', '600', '1800'], date=['20200101', '20191231', '20200102'], level=['0', '2', '10', '500'],
              prefix=['sp', 'ab', 'Qq_', 'v'], fmap=['0', '1', '2', '7', '24'], ext=['1', '2', '4', '10'], scale=['1', '0.5', '0.25', '0.2'],
              offset=['0', '5', '-10', '100'], vmin=['0', '-5', '-1000'], vmax=['16777215', '20000000', '0'], vformat=['f8', 'f4', 'i4', 'i8'],
              units=['h', 's', 'm', '3h', '6h', 'D', '12h'], tabledir=['ncli', 'njson'], geodir=['gcli', 'gjson'], unittime=['24', '6', '1', '12'])
DEFAULT = dict(prefix='sp', fmap='1', ext='1', format='pcraster', scale='1', offset='0', vformat='f8', units='h', tabledir='it', geodir='geo', unittime='24',
               outdir='.', vmin=NONE, vmax=NONE)


# ---------------------------------------------------------------- scenarios
def some(r, o, p=.5, values=None):
    """value on command line, value in commands file"""
    v = values or VALUES[o]
    c = r.choice(v) if r.random() < p else NONE
    j = r.choice(v) if r.random() < p else NONE
    return c, j


def conf_text(r):
    """characters of values of variables"""
    return ''.join(r.choice('ab=-_.x1 #') for _ in range(r.randint(1, 8))).strip(' ".').replace('..', '.') or 'a'


def names(r, k):
    n = []
    while len(n) < k:
        x = r.choice(['MAPS', 'MAPS_DIR', 'Maps', 'A', 'DIR', 'CONF', 'CONF_', 'M', 'EFAS_Maps', 'EUROPE_5KM', 'D2'])
        if x not in n:
            n.append(x)
    return n


def variables(r):
    """lines of .conf files, paths of maps (text of the commands file)"""
    k = r.randint(1, 4)
    n = names(r, k)
    lines = []
    vals = {}
    for x in n:
        v = conf_text(r)
        vals[x] = v
        q = r.random() < .2
        lines.append(r.choice(['', '  ']) + x + r.choice(['=', ' = ', '= ', '\t=']) + ('"%s"' % v if q else v) + r.choice(['', '', ' ']))
    for x in ('# comment=1', '', '#%s=other' % n[0], '   '):
        if r.random() < .4:
            lines.insert(r.randint(0, len(lines)), x)
    if r.random() < .2:
        # defined twice: the last one is used
        lines.insert(0, '%s=first' % n[-1])
    paths = []
    for i in range(3):
        p = ['maps']
        for _ in range(r.randint(1, 2)):
            p.append(r.choice(['{%s}' % r.choice(n), '{%s}' % r.choice(n), 'x{%s}' % r.choice(n), 'plain', '{%s}{%s}' % (r.choice(n), r.choice(n)), '{%s}_y' % r.choice(n)]))
        paths.append('/'.join(p) + '/%s.map' % ('clone', 'lat', 'lon')[i])
    if r.random() < .3:
        paths = ['maps/clone.map', 'maps/lat.map', 'maps/lon.map']
    return lines, paths


def definitions(r, sn):
    """user and global definitions of parameters"""
    k = [0]

    def one(s, tag):
        convs = []
        for i in r.sample(['k', 'K', 'tomm', 'tommd', 'K2'], r.randint(0, 4)):
            k[0] = (k[0] + 1) % 4
            convs.append(dict(id=i, unit='%s%s' % (tag, i), k=k[0]))
        return dict(sn=s, unit=tag + 'u', convs=convs)

    which = r.choice(['user', 'global', 'both', 'both', 'none'] if r.random() < .2 else ['user', 'global', 'both'])
    user = [one(sn, 'U')] if which in ('user', 'both') else []
    glob = [one(sn, 'G')] if which in ('global', 'both') else []
    user += [one('msl', 'X')] * (r.random() < .5)
    glob += [one('skt', 'Y')] * (r.random() < .5)
    conv = NONE
    if r.random() < .6:
        ids = [c['id'] for d in (user if which in ('user', 'both') else glob) for c in d['convs'] if d['sn'] == sn]
        conv = r.choice(ids) if ids and r.random() < .9 else r.choice(['k', 'tomm', 'K2', 'K'])
    return user, glob, conv


def scenario(r):
    kind = r.choice(['pcr', 'pcr', 'nc', 'nc', 'nc', 'tables', 'geo', 'agg'])
    cli, js = {}, {}

    def put(o, c, j):
        if c != NONE:
            cli[o] = c
        if j != NONE:
            js[o] = j

    sn = 'tp' if kind == 'agg' else 'sp'
    if kind == 'agg':
        put('start', *some(r, 'start', .4, ['0', '12', '18']))
        put('end', *some(r, 'end', .4, ['18', '24']))
        put('unittime', NONE, some(r, 'unittime')[1])
    else:
        put('start', *some(r, 'start', .4, [str(x) for x in AVAIL]))
        put('end', *some(r, 'end', .4, [str(x) for x in AVAIL]))
        for o in ('member', 'date'):
            if r.random() < .5:
                put(o, *some(r, o))
        if r.random() < .5:
            put('time', r.choice(['0', '1200', NONE]), some(r, 'time')[1])
        if r.random() < .4:
            put('level', NONE, r.choice(VALUES['level']))
    put('prefix', *some(r, 'prefix'))
    nc = kind in ('nc', 'agg')
    if nc:
        if r.random() < .5:
            put('format', 'netcdf', r.choice([NONE, 'netcdf', 'pcraster']))
        else:
            put('format', r.choice([NONE, NONE, 'notset']), 'netcdf')
            cli.pop('format', None) if cli.get('format') != 'notset' else None
    else:
        if r.random() < .4:
            put('format', 'pcraster', r.choice([NONE, 'netcdf', 'pcraster']))
        elif r.random() < .4:
            put('format', NONE, 'pcraster')
    if kind == 'pcr' or kind in ('tables', 'geo') and r.random() < .3:
        put('fmap', *some(r, 'fmap'))
        put('ext', *some(r, 'ext'))
    if kind == 'nc':
        for o in ('scale', 'offset', 'vmin', 'vformat', 'units'):
            put(o, *some(r, o))
        put('vmax', *some(r, 'vmax', .5, VALUES['vmax'][:2]))
    if kind == 'tables':
        put('tabledir', *some(r, 'tabledir'))
    if kind == 'geo':
        put('geodir', *some(r, 'geodir'))
    if r.random() < .4:
        put('outdir', r.choice(['out', 'o1/o2', './out/']), NONE)
    # selectors never given: the input has one value
    sel = {}
    for o in ('member', 'time', 'date', 'level'):
        v = {x[o] for x in (cli, js) if o in x}
        if v:
            w = sorted(v | {r.choice(VALUES[o])}, key=int)
            if '0' not in w and r.random() < .5:
                w = sorted(w + ['0'], key=int) if o != 'date' else w
            sel[o] = w
    user, glob, conv = definitions(r, sn)
    lines, paths = variables(r)
    order = list(cli)
    r.shuffle(order)
    rep = r.choice(order) if order and r.random() < .15 else None
    args = [(o, cli[o], r.choice(['s', 'l', 'le', 'l'])) for o in order]
    if rep and rep in VALUES and rep not in ('time', 'tabledir', 'geodir'):
        # given twice: the last one is used
        args.insert(0, (rep, r.choice([v for v in VALUES[rep]]), 's'))
        if rep in sel and args[0][1] not in sel[rep]:
            sel[rep].append(args[0][1])
        if rep == 'vmax':
            args.pop(0)
    return dict(kind=kind, sn=sn, args=args, json=js, sel=sel, user=user, glob=glob, conv=conv, lines=lines, paths=paths, nfiles=r.randint(1, 2),
                text={o: r.random() < .5 for o in js}, cmd=r.choice(['cmd.json', './cmd.json', 'sub/cmd.json', 'abs', '../%s/cmd.json']),
                single=r.random() < .3, valid=r.randint(1, 2 ** 12 - 2), shuffle=r.random(), seed=r.randint(0, 10 ** 6))


# ---------------------------------------------------------------- execution
def code(sc, combo, step):
    return sum(d * (sc['sel'].get(o, [0]).index(combo.get(o)) if o in sc['sel'] else 0) for o, d in
               (('member', 10000), ('time', 1000), ('date', 100), ('level', 10))) + AVAIL.index(step) + 100000


def product(sc):
    out = [{}]
    for o in ('member', 'time', 'date', 'level'):
        if o in sc['sel']:
            out = [dict(x, **{o: v}) for x in out for v in sc['sel'][o]]
    return out


def geoms(d=0.):
    la = np.repeat(np.array([[10. - j] for j in range(NJ)]), NI, axis=1)
    lo = np.repeat(np.array([[1. * i for i in range(NI)]]), NJ, axis=0)
    return la, lo


def mask(sc):
    return np.array([bool(sc['valid'] >> k & 1) for k in range(NI * NJ)]).reshape(NJ, NI)


def expand(sc, p):
    """path with variables replaced, as files are created (checked by the specification)"""
    vals = {}
    for line in sc['lines']:
        t = line.strip()
        if t and t[0] != '#':
            n, v = t.split('=', 1)
            vals[n.strip()] = v.strip('" \t')
    return re.sub(r'{(\w+)}', lambda m: vals[m.group(1)], p)


def decoys(sc, p):
    """paths that a wrong replacement would give"""
    out = set()
    for f in (lambda v: v.split('=')[0], lambda v: v.split('=')[-1], lambda v: v.replace(' ', ''), lambda v: v.split('#')[0].strip(), lambda v: v.strip('"= \t'), lambda v: ''):
        vals = {}
        for line in sc['lines']:
            t = line.strip()
            if t and t[0] != '#':
                n, v = t.split('=', 1)
                vals[n.strip()] = f(v.strip('" \t'))
        out.add(re.sub(r'{(\w+)}', lambda m: vals[m.group(1)], p))
    first = {}
    for line in sc['lines']:
        t = line.strip()
        if t and t[0] != '#':
            n, v = t.split('=', 1)
            first.setdefault(n.strip(), v.strip('" \t'))
    out.add(re.sub(r'{(\w+)}', lambda m: first[m.group(1)], p))
    return out


def write_maps(sc):
    la, lo = geoms()
    m = mask(sc)
    real = [expand(sc, p) for p in sc['paths']]
    os.makedirs('maps', exist_ok=True)
    norm = [os.path.normpath(p) for p in real]
    for k, p in enumerate(sc['paths']):
        for q in [real[k]] + sorted(x for x in decoys(sc, p) if os.path.normpath(x) not in norm):
            if not os.path.realpath(q).startswith(os.path.realpath('maps')):
                continue
            try:
                os.makedirs(os.path.dirname(q), exist_ok=True)
            except OSError:
                continue
            bad = q != real[k]
            if os.path.isdir(q):
                continue
            if k == 0:
                F.pcr(q, np.where(~m if bad else m, 1., np.nan), -.5, 10.5)
            else:
                F.pcr(q, (la, lo)[k - 1] + (50 if bad else 0), -.5, 10.5)
    return real


def prepare(sc):
    real = write_maps(sc)
    import random
    r = random.Random(sc['seed'])
    msgs = []
    for c in product(sc):
        for s in AVAIL:
            msgs.append((c, s))
    if sc['shuffle'] < .5:
        r.shuffle(msgs)
    with open('in.grib', 'wb') as f:
        for c, s in msgs:
            v = np.full((NJ, NI), float(code(sc, c, s)) if sc['kind'] != 'agg' else 10. * s)
            acc = sc['kind'] == 'agg'
            F.msg(f, v, ni=NI, nj=NJ, lat0=10., lon0=0., d=1., sn=sc['sn'], step='0-%d' % s if acc else str(s), steptype='accum' if acc else 'instant',
                  level=int(c.get('level', 0)), date=int(c.get('date', 20200101)), time=int(c.get('time', 0)),
                  member=int(c['member']) if 'member' in c else None)
    base = os.path.realpath('.')
    confs = [[], []]
    for k, line in enumerate(sc['lines']):
        confs[k % sc['nfiles'] if len(set(x.split('=')[0].strip() for x in sc['lines'] if '=' in x)) == sum('=' in x for x in sc['lines']) else 0].append(line)
    for k, c in enumerate(confs):
        if c:
            with open('.pyg2p/maps%d.conf' % k, 'w') as f:
                f.write('\n'.join(c) + '\n')

    def conf(defs):
        out = {}
        for d in defs:
            x = {'@description': 'about ' + d['unit'], '@shortName': d['sn'], '@unit': d['unit']}
            cs = [{'@id': c['id'], '@unit': c['unit'], '@function': 'x=x*%d' % 1000 ** c['k'] if sc['kind'] == 'agg' else 'x=x+%d' % (c['k'] * CONV), '@cutOffNegative': False} for c in d['convs']]
            if cs:
                x['Conversion'] = cs[0] if len(cs) == 1 and sc['single'] else cs
            out[d['sn']] = x
        return out

    with open('configuration/global/parameters.json', 'w') as f:
        json.dump(conf(sc['glob']), f)
    if sc['user']:
        with open('.pyg2p/parameters.json', 'w') as f:
            json.dump(conf(sc['user']), f)
    om = {'@cloneMap': sc['paths'][0], 'Interpolation': {'@latMap': sc['paths'][1], '@lonMap': sc['paths'][2], '@mode': 'nearest'}}
    p = {'@shortName': sc['sn']}
    ex = {'@name': 'x', 'Parameter': p, 'OutMaps': om}
    where = dict(Parameter=p, OutMaps=om, Interpolation=om['Interpolation'])
    for o, v in sc['json'].items():
        g, k = JSON[o]
        x = v
        if o in NUMBERS and not sc['text'][o]:
            x = int(v)
        elif o in ('scale', 'offset', 'vmin', 'vmax') and not sc['text'][o]:
            x = float(v)
        elif o in ('tabledir', 'geodir') and not sc['text'][o]:
            # folders are paths too
            with open('.pyg2p/%s.conf' % o, 'w') as f:
                f.write('THE_%s=%s\n' % (o, v))
            x = '{THE_%s}' % o
        where[g][k] = x
    if sc['conv'] != NONE:
        p['@applyConversion'] = sc['conv']
    if sc['kind'] == 'agg':
        ex['Aggregation'] = {'@step': 6, '@type': 'accumulation'}
    if sc['kind'] == 'geo':
        p.update({'@correctionFormula': 'p+gem', '@gem': 'z', '@demMap': '{THE_MAPS}/dem.map'})
        with open('.pyg2p/maps.conf', 'w') as f:
            f.write('THE_MAPS=%s\n' % os.path.abspath('maps'))
        F.pcr('maps/dem.map', np.zeros((NJ, NI)), -.5, 10.5)
        for k, d in enumerate(('geo', 'gcli', 'gjson')):
            os.makedirs(d, exist_ok=True)
            with open(d + '/g.grib', 'wb') as f:
                F.msg(f, np.full((NJ, NI), k * float(GEO)), ni=NI, nj=NJ, sn='z')
    for d in ('ncli', 'njson'):
        os.makedirs(d, exist_ok=True)
    cmd = sc['cmd'] % os.path.basename(base) if '%s' in sc['cmd'] else base + '/cmd.json' if sc['cmd'] == 'abs' else sc['cmd']
    os.makedirs('sub', exist_ok=True)
    with open(cmd, 'w') as f:
        json.dump({'Execution': ex}, f)
    parts = [['-c', cmd] if r.random() < .5 else ['--commandsFile', cmd], ['-i', 'in.grib'] if r.random() < .5 else ['--inputFile=in.grib'],
             r.choice([['-l', 'ERROR'], ['--loggerLevel', 'ERROR']]), r.choice([['-B'], ['--createIntertable']])]
    fixed = len(parts)
    opts = []
    for o, v, form in sc['args']:
        opts.append([SHORT[o], v] if form == 's' else [LONG[o] + '=' + v] if form == 'le' or v.startswith('-') else [LONG[o], v])
    # order of options is the one of args, other arguments in any place
    out, k = [], 0
    slots = sorted(r.randint(0, len(opts)) for _ in range(fixed))
    r.shuffle(parts)
    for j in range(len(opts) + 1):
        for n in range(fixed):
            if slots[n] == j:
                out += parts[n]
        if j < len(opts):
            out += opts[j]
    return out, real


def number(x):
    return '%.5g' % x


def execute(sc, call=scen.call):
    import pyg2p.main  # noqa
    args, real = prepare(sc)
    if sc['kind'] == 'geo':
        rc, err = scen.call(['-g', 'geo/g.grib', '-l', 'ERROR'])
        if rc:
            raise AssertionError('geopotential not added ' + err)
    before = F.snapshot('.', exclude=('./log.txt', './.pyg2p/', './it/', './ncli/', './njson/', './pyc'))
    rc, err = call(args)
    after = F.snapshot('.', exclude=('./log.txt', './.pyg2p/', './it/', './ncli/', './njson/', './pyc'))
    new = sorted(x for x in after if x not in before and not x.endswith('.aux.xml'))
    cli = dict((o, v) for o, v, _ in sc['args'])
    js = sc['json']
    one = lambda d, o: int(d.get(o, -1))
    rec = dict(rc=rc, err=err, wrote=bool(new), intact=all(after.get(x) == h for x, h in before.items()),
               args=[dict(o=o, v=canon(o, v)) for o, v, _ in sc['args'] if (o, v) != ('format', 'notset')], json=[dict(o=o, v=canon(o, v)) for o, v in js.items()],
               defaults=[dict(o=o, v=v) for o, v in dict(DEFAULT, prefix=sc['sn']).items() if v != NONE],
               se=dict(cs=one(cli, 'start'), js=one(js, 'start'), ce=one(cli, 'end'), je=one(js, 'end')), avail=AVAIL, steps=[], obs=[],
               lines=[list(x) for x in sc['lines']], paths=[], user=sc['user'], glob=sc['glob'], sn=sc['sn'], conv=sc['conv'], oconv=dict(unit='(unseen)', k=-1))
    rec['global'] = rec.pop('glob')
    if new and rc == 0:
        look(sc, rec, new, real)
    return rec


def canon(o, v):
    if o in ('scale', 'offset', 'vmin', 'vmax'):
        return number(float(v))
    if o == 'outdir':
        return os.path.normpath(v)
    return v


def look(sc, rec, new, real):
    """effective options, as seen in files written"""
    obs = {}
    vals = []
    dirs = {os.path.normpath(os.path.dirname(x)) for x in new}
    obs['outdir'] = dirs.pop() if len(dirs) == 1 else '?'
    m = mask(sc)
    usedmask = None
    if new[0].endswith('.nc') and len(new) == 1:
        obs['format'] = 'netcdf'
        import netCDF4
        ds = netCDF4.Dataset(new[0])
        v = [x for x in ds.variables.values() if x.ndim == 3][0]
        at = {k: v.getncattr(k) for k in v.ncattrs()}
        sf, of = float(at['scale_factor']), float(at['add_offset'])
        obs.update(prefix=v.name, scale=number(sf), offset=number(of), vformat='%s%d' % (v.dtype.kind, v.dtype.itemsize))
        for o, k in (('vmin', 'valid_min'), ('vmax', 'valid_max')):
            obs[o] = number(float(at[k]) * sf + of) if k in at else NONE
        t = ds.variables['time']
        u = t.units.split(' since ')[0]
        obs['units'] = {'hours': 'h', 'seconds': 's', 'minutes': 'm', '3h steps': '3h', '6h steps': '6h', '12h steps': '12h', 'days': 'D'}.get(u, '?')
        hours = {'h': 1, 's': 1 / 3600., 'm': 1 / 60., '3h': 3, '6h': 6, '12h': 12, 'D': 24}.get(obs['units'], 1)
        times = [int(round(float(x) * hours)) for x in t[:]]
        a = np.ma.filled(np.ma.asarray(v[:]).astype(float), np.nan)
        rec['oconv']['unit'] = at.get('units', '')
        maps = [a[k] for k in range(a.shape[0])]
        if os.path.basename(new[0]) != '%s_%s.nc' % (obs['prefix'], 'accumulation' if sc['kind'] == 'agg' else 'None'):
            obs['prefix'] = '?'
        ds.close()
    else:
        obs['format'] = 'pcraster'
        times = None
        N = []
        for x in new:
            g = re.match(r'([A-Za-z_]+)(\d+)\.(\d{3})$', os.path.basename(x))
            N.append((int(g.group(2) + g.group(3)), x, g.group(1)) if g else (0, x, '?'))
        N.sort()
        obs['prefix'] = N[0][2]
        obs['fmap'] = str(N[0][0])
        d = {N[k + 1][0] - N[k][0] for k in range(len(N) - 1)}
        if d:
            obs['ext'] = str(d.pop()) if len(d) == 1 else '?'
        maps = [F.readpcr(x)[0] for _, x, _ in N]
    # cells with values: the ones of the clone
    rec['paths'] = []
    okmask = all((~np.isnan(a) == m).all() for a in maps)
    flat = [set(int(round(y)) for y in a[~np.isnan(a)]) for a in maps]
    one = all(len(x) == 1 for x in flat)
    rec['paths'].append(dict(p=list(sc['paths'][0]), used=list(real[0] if okmask else '?')))
    for k in (1, 2):
        rec['paths'].append(dict(p=list(sc['paths'][k]), used=list(real[k] if one else '?')))
    if not one:
        flat = [{0}] * len(maps)
    vals = [x.pop() if x else -1 for x in (set(y) for y in flat)]
    if sc['kind'] == 'agg':
        u = set(vals)
        u = u.pop() if len(u) == 1 else -1
        rec['oconv']['k'] = max([k for k in range(5) if u >= 1000 ** k] or [-1])
        obs['unittime'] = '%g' % (u / 10. / 1000 ** rec['oconv']['k']) if u > 0 else '?'
        # windows end at the start step (6 when it is 0), and so on
        rec['steps'] = [-3] if times is None else [0] + times if times[:1] == [6] else times
    else:
        g = set(x // GEO for x in vals)
        k = set(x % GEO // CONV for x in vals)
        rec['oconv']['k'] = k.pop() if len(k) == 1 else -1
        if sc['kind'] == 'geo':
            obs['geodir'] = ('geo', 'gcli', 'gjson', '?')[min(3, g.pop())] if len(g) == 1 else '?'
        codes = [x % CONV - 100000 for x in vals]
        rec['steps'] = [AVAIL[x % 10] if 0 <= x % 10 < len(AVAIL) else -1 for x in codes]
        if times is not None and times != rec['steps']:
            rec['steps'] = [-2]
        for o, d in (('member', 10000), ('time', 1000), ('date', 100), ('level', 10)):
            if o in sc['sel']:
                i = {x // d % 10 for x in codes}
                i = i.pop() if len(i) == 1 else 99
                obs[o] = sc['sel'][o][i] if i < len(sc['sel'][o]) else '?'
    if sc['kind'] == 'tables':
        t = [d for d in ('it', 'ncli', 'njson') if [x for x in os.listdir(d) if x.endswith('.npy.gz')]]
        obs['tabledir'] = t[0] if len(t) == 1 else '?'
    rec['obs'] = [dict(o=o, v=v) for o, v in obs.items() if o != 'units' or sc['kind'] == 'nc']


# ---------------------------------------------------------------- verdicts
def corrupted(r, x):
    x = copy.deepcopy(x)
    if not x['wrote'] or x['rc']:
        k = r.choice(['rc', 'intact'])
        if k == 'rc':
            x['rc'] = 0
        else:
            x['intact'] = False
        return x
    k = r.choice(['obs', 'obs', 'obs', 'steps', 'path', 'conv', 'unit', 'arg'])
    if k == 'obs':
        o = r.choice(x['obs'])
        o['v'] = r.choice([v for v in VALUES.get(o['o'], ['??']) + ['?'] if v != o['v']])
    elif k == 'steps':
        x['steps'] = x['steps'][1:]
    elif k == 'path':
        p = r.choice(x['paths'])
        p['used'] = p['used'][:-5] + p['used'][-4:]
    elif k == 'conv':
        x['oconv']['k'] = (x['oconv']['k'] + 1) % 4
    elif k == 'unit':
        if x['oconv']['unit'] == '(unseen)':
            return None
        x['oconv']['unit'] += 'x'
    else:
        seen = {o['o'] for o in x['obs']}
        a = [o for o in x['args'] if o['o'] in seen]
        if not a:
            return None
        o = a[-1]
        o['v'] += '9'
    return x


def judge(check, S):
    check.note('%d executions' % len(S))
    R = check.lab.run([(execute, (s,)) for s in S], timeout=90)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(scenario=S[i], error=x))
            continue
        recs.append(x)
        idx.append(i)
    check.cov['evaluations'] += len(recs)
    check.note('executed')
    V = check.validate('ContextTrace.tla', recs)
    kinds = check.cov.setdefault('options observed', {})
    good = []
    for i, v, x in zip(idx, V, recs):
        check.cov['traces_validated_against_impl'] += 1
        for o in x['obs']:
            kinds[o['o']] = kinds.get(o['o'], 0) + 1
        kinds['refused'] = kinds.get('refused', 0) + (x['rc'] != 0)
        if v:
            check.violation(v, dict(scenario=S[i], observed=x))
        else:
            good.append(x)
            check.sample({k: x[k] for k in ('args', 'json', 'obs', 'se', 'steps')})
    bad = [x for x in (corrupted(check.r, x) for x in check.r.sample(good, min(len(good), 150))) if x]
    V = check.validate('ContextTrace.tla', bad)
    for v, x in zip(V, bad):
        if v == []:
            raise tlc.MachineryError('corrupted observation accepted: %s' % x)
    check.cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    q = check.quick
    check.modelcheck('ContextMC.tla', 'ContextMC_%s.cfg' % ('quick' if q else 'thorough'))
    check.mustfail('ContextMC.tla', 'ContextMC_falsy.cfg', 'Inv')
    check.mustfail('ContextMC.tla', 'ContextMC_default.cfg', 'Inv')
    judge(check, [scenario(check.r) for _ in range(500 if q else 9000)])


def replay(check, d):
    judge(check, [d['scenario']])
