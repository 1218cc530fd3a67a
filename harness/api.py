"""P17: executions with the Python API compared with the ones of the command line (Api.tla), and judged as such (Pipeline.tla);
commands of the API judged as executions from the shell (Commands.tla)"""
import copy
import json
import os
import random
import shutil

import numpy as np

import families
import fields as F
import interp as I
import options as O
import pipeline
import scen
import strategy
import tlc

MISS = scen.MISS
NAN = -1999999998
NUMERIC = ('fmap', 'ext', 'unitTime', 'step')
EXCLUDE = ('./log.txt', './.pyg2p/', './it/', './pyc')


# ---------------------------------------------------------------- executions with the API
def number(x):
    return x if x is None or isinstance(x, (int, float)) else int(x)


def config(cmd, args, how):
    """dictionary of the API for a commands file and arguments; how: where selectors are put"""
    ex = cmd['Execution']
    strip = lambda d: {k.lstrip('@'): (strip(v) if isinstance(v, dict) else v) for k, v in d.items()}
    c = strip({k: v for k, v in ex.items() if k != '@name'})
    c['loggerLevel'] = 'ERROR'
    c.setdefault('Parameter', {})
    it = c['OutMaps']['Interpolation']
    top = dict(start=None, end=None)
    a = list(args)
    names = {'-i': 'inputFile', '-I': 'inputFile2', '-s': 'start', '-e': 'end', '-m': 'perturbationNumber', '-T': 'dataTime', '-D': 'dataDate',
             '-N': 'intertableDir', '-G': 'geopotentialDir', '-n': 'namePrefix', '-o': None, '-c': None, '-l': None, '-F': None}
    flags = {'-B': 'createIntertable', '-X': 'interpolationParallel'}
    seen = dict(createIntertable=False, interpolationParallel=False)
    while a:
        o = a.pop(0)
        if o in flags:
            seen[flags[o]] = True
        else:
            v = a.pop(0)
            if names[o]:
                top[names[o]] = int(v) if o in ('-s', '-e', '-m', '-T', '-D') else v
    top.update(seen)
    p = c['Parameter']
    # the member is only at the top
    m = p.pop('perturbationNumber', None)
    if m is not None and top.get('perturbationNumber') is None:
        top['perturbationNumber'] = int(m)
    for j, t in (('tstart', 'start'), ('tend', 'end'), ('dataTime', 'dataTime'), ('dataDate', 'dataDate')):
        if j in p and (how.get(t) or top.get(t) is not None):
            v = p.pop(j)
            if top.get(t) is None:
                top[t] = int(v)
    if how.get('ints'):
        for j in ('tend', 'tstart', 'dataTime', 'dataDate', 'level'):
            if j in p:
                p[j] = int(p[j])
    if 'forceZeroArray' in c.get('Aggregation', {}):
        c['Aggregation']['forceZeroArray'] = how.get('force', 'True')
    for k in ('intertableDir', 'geopotentialDir'):
        if k in it and not top.get(k):
            top[k] = it.pop(k)
    if how.get('default') and top['interpolationParallel']:
        top.pop('interpolationParallel')
    c.update(top)
    return c


def values_of(x, mv):
    a = np.asarray(x.data if isinstance(x, np.ma.MaskedArray) else x)
    out = []
    for v in a.ravel():
        if v == mv or (mv is not None and np.isnan(mv) and np.isnan(v)):
            out.append(MISS)
        elif np.isnan(v):
            out.append(NAN)
        else:
            out.append(scen.fix(v))
    return out


def clone_mv(path):
    from osgeo import gdal
    if path.endswith('.nc'):
        import netCDF4
        ds = netCDF4.Dataset(path)
        v = [x for x in ds.variables.values() if x.ndim == 2][0]
        mv = v.getncattr('_FillValue') if '_FillValue' in v.ncattrs() else np.nan
        ds.close()
        return mv
    ds = gdal.Open(path)
    mv = ds.GetRasterBand(1).GetNoDataValue()
    ds = None
    return mv


def run_api(conf, twice=False):
    """executes with the API, in the working directory"""
    from pyg2p.exceptions import ApplicationException, NO_MESSAGES
    from pyg2p.main.api import ApiContext, Pyg2pApi
    before = F.snapshot('.', exclude=EXCLUDE)
    out = dict(rc=0, err='', maps=[], empty=False)
    try:
        ctx = ApiContext(copy.deepcopy(conf))
        api = Pyg2pApi(ctx)
        values = api.execute()
        if twice:
            ctx = ApiContext(copy.deepcopy(conf))
            values = Pyg2pApi(ctx).execute()
        clone = conf['OutMaps']['cloneMap']
        if '{' in clone:
            clone = clone.replace('{MAPS}', 'maps')
        mv = clone_mv(clone)
        out['empty'] = not values
        for k, v in values.items():
            out['maps'].append(dict(e=int(k.end_step), cells=values_of(v, mv)))
    except ApplicationException as e:
        out.update(rc=0 if e.code == NO_MESSAGES else 1, err=str(e)[:300])
    except Exception as e:
        import traceback
        traceback.print_exc()
        out.update(rc=1, err='%s: %s' % (type(e).__name__, e))
    after = F.snapshot('.', exclude=EXCLUDE)
    out['wrote'] = sorted(x for x in after if before.get(x) != after[x])
    return out


def run_cli(args, conc):
    rc, err = scen.call(args)
    return dict(rc=rc, err=err, maps=scen.observe(conc))


def flipped(cells, n):
    return [v for j in reversed(range(len(cells) // n)) for v in cells[j * n:(j + 1) * n]]


def execute(kind, sc, conc, how):
    import pyg2p.main.api  # noqa
    if kind == 'pipeline':
        args, geos = scen.prepare(sc, conc)
        for g in geos:
            rc, err = scen.call(['-g', g, '-l', 'ERROR'])
            if rc:
                raise AssertionError('geopotential not added ' + err)
    else:
        args = I.prepare(sc, conc)
        if sc.get('clone') is not None:
            mask_clone(sc)
    if how['parallel']:
        args.append('-X')
    with open('cmd.json') as f:
        cmd = json.load(f)
    om = cmd['Execution']['OutMaps']
    if how['nounit'] and (kind != 'pipeline' or sc['cfg']['unit'] == 24):
        om.pop('@unitTime')
    if how['variable']:
        with open('.pyg2p/maps.conf', 'w') as f:
            f.write('MAPS=maps\n')
        for d, k in ((om, '@cloneMap'), (om['Interpolation'], '@latMap'), (om['Interpolation'], '@lonMap')):
            d[k] = d[k].replace('maps/', '{MAPS}/')
        p = cmd['Execution']['Parameter']
        if '@demMap' in p:
            p['@demMap'] = p['@demMap'].replace('maps/', '{MAPS}/')
    if how['text'] and '@unitTime' in om:
        om['@unitTime'] = int(om['@unitTime'])
    with open('cmd.json', 'w') as f:
        json.dump(cmd, f)
    conf = config(cmd, args, how)
    order = how['order']
    same = order == 'same process'
    run = (lambda fn, *a: fn(*a)) if same else I.isolated
    if order == 'api first':
        api = run(run_api, conf)
        tables = names_of_tables()
        if how['reset']:
            strategy.restore()
        os.makedirs('out', exist_ok=True)
        cli = run(run_cli, args, conc)
    else:
        cli = run(run_cli, args, conc)
        tables = None
        if how['reset']:
            strategy.restore()
        api = run(run_api, conf, how['twice'])
    if how['reset'] and tables is not None and cli['rc'] == 0 and api['rc'] == 0 and tables != names_of_tables():
        api['wrote'].append('tables %s' % tables)
    # rows from north to south, as maps (values returned have the order of coordinates)
    if kind == 'pipeline' and conc.get('target') and conc['target']['up']:
        for m in api['maps']:
            m['cells'] = flipped(m['cells'], scen.NI)
    if kind == 'interp' and sc['tgt']['format'] == 'nc' and conc['format'] == 'pcraster' and sc['tgt']['la'][0][0] < sc['tgt']['la'][-1][0]:
        for m in api['maps']:
            m['cells'] = flipped(m['cells'], len(sc['tgt']['la'][0]))
    return dict(cli=cli, api=api)


def names_of_tables():
    return sorted(x for x in os.listdir('it'))


def mask_clone(sc):
    """missing cells of the clone"""
    n = np.array(sc['tgt']['la']).shape
    m = np.array(sc['clone']).reshape(n)
    if sc['tgt']['format'] == 'nc':
        import netCDF4
        ds = netCDF4.Dataset('maps/target.nc', 'a')
        ds.variables['area'][:] = np.ma.masked_array(np.ones(n), ~m)
        ds.close()
    else:
        F.pcr('maps/clone.map', np.where(m, 1., np.nan))


FAMILIES = ('p01', 'p01', 'p01', 'p02', 'p03', 'p04', 'p05', 'p06', 'p07', 'p08')


def scenario(r, kind):
    how = dict(order=r.choice(['api first', 'api first', 'cli first', 'same process']), reset=r.random() < .7, variable=r.random() < .15,
               nounit=r.random() < .2, text=r.random() < .5, parallel=r.random() < .2, default=r.random() < .5, twice=r.random() < .2,
               ints=r.random() < .5, force=r.choice(['True', 'true', 'yes', '1']),
               **{k: r.random() < .5 for k in ('start', 'end', 'dataTime', 'dataDate')})
    if kind == 'pipeline':
        sc, conc = getattr(families, r.choice(FAMILIES))(r)
        x = r.random()
        if x < .25:
            # tables of both resolutions made by either of them
            sc, conc = families.p08(r) if x < .2 else (sc, conc)
            conc['mode'] = r.choice(['grib_nearest', 'grib_invdist', 'invdist', 'grib_nearest', 'grib_invdist'])
            how['other'] = True
        how['dataTime'] = how['dataTime'] and sc['cfg']['time'] != 0
        if r.random() < .3:
            sc['clone'] = [r.random() > .2 for _ in range(scen.K)]
    else:
        while True:
            sc = I.gen(r)
            if sc['mode'] not in ('grib_nearest', 'grib_invdist') or sc['src']['kind'] == 'regular':
                break
        if sc['mode'] in ('grib_nearest', 'grib_invdist'):
            how.update(parallel=False, default=False)
        conc = dict(format=r.choice(['netcdf', 'netcdf', 'pcraster']), create=r.random() < .93, bitmap=r.random() < .3)
        if r.random() < .3 and sc['mode'] in strategy.SPLIT:
            conc['num_of_splits'] = r.randint(1, 4)
        if sc['mode'] in ('adw', 'cdd') and r.random() < .5:
            conc['use_broadcasting'] = True
        if r.random() < .5:
            sc['clone'] = [r.random() > .2 for _ in range(np.array(sc['tgt']['la']).size)]
    return kind, sc, conc, how


# ---------------------------------------------------------------- commands
METHODS = dict(file='cmdpath', input='inputfile', input2='second_input_file', member='eps', end='tend', start='tstart', time='datatime', date='datadate',
               ext='ext', fmap='fmap', outdir='outdir', prefix='nameprefix', scale='scaleFactor', offset='offset', vmax='validMax', vmin='validMin',
               vformat='valueFormat', loglevel='log_level', format='out_format', units='outputStepUnits', create='create_intertable', parallel='parallel',
               tabledir='intertable_dir')
SHORT = dict(O.SHORT, file='-c', input='-i', input2='-I', loglevel='-l', create='-B', parallel='-X')
LONG = dict(O.LONG, file='--commandsFile', input='--inputFile', input2='--inputFile2', loglevel='--loggerLevel', create='--createIntertable',
            parallel='--interpolationParallel')
MEANING = {v: k for d in (SHORT, LONG) for k, v in d.items()}


def pairs(args):
    out = []
    a = list(args)
    while a:
        w = a.pop(0)
        if w.startswith('--') and '=' in w:
            w, v = w.split('=', 1)
            out.append([w, v])
        elif MEANING[w] in ('create', 'parallel'):
            out.append([w, ''])
        else:
            out.append([w, a.pop(0)])
    return out


def command(r, args, values):
    """text of a command, placeholders, edits, having the effect of args; words of the text"""
    P = pairs(args)
    count = {}
    for o, v in P:
        count[MEANING[o]] = count.get(MEANING[o], 0) + 1
    text, edits = [], []
    p = r.choice([0, .3, .6, 1])
    for o, v in P:
        m = MEANING[o]
        if m in METHODS and count[m] == 1 and r.random() < p and not (m == 'vmin' and False):
            if r.random() < .4:
                # another value, that the edit replaces (spelled as it may be)
                d = r.choice(values.get(m, ['other']))
                if v != '' and (d != v):
                    text.append([r.choice([SHORT[m], o]), d])
                    if r.random() < .4:
                        # in both spellings
                        text.append([LONG[m] if text[-1][0] == SHORT[m] else SHORT[m], r.choice(values.get(m, ['other']))])
            if r.random() < .2 and v != '':
                edits.append([METHODS[m], r.choice(values.get(m, ['other']))])
            edits.append([METHODS[m], v])
        else:
            text.append([o, v])
    r.shuffle(edits) if len(set(e[0] for e in edits)) == len(edits) else None
    words, out, kw = [], [], {}
    root = r.random() < .3
    if r.random() < .4:
        out.append(r.choice(['pyg2p', 'pyg2p', 'pyg2p.py']))
    for n, (o, v) in enumerate(text):
        words += [o] if v == '' else [o, v]
        t = v
        if root and MEANING[o] in ('file', 'input', 'input2', 'outdir') and not os.path.isabs(v) and '{' not in v:
            # the same variable several times
            kw['root'] = '.'
            t = '{root}/' + v
            words[-1] = './' + v
        elif v and r.random() < .15 and '{' not in v:
            k = r.choice(['v%d', 'dir%d', 'P_%d']) % n
            kw[k] = v
            t = '{%s}' % k
            if r.random() < .2 and len(v) > 2:
                kw[k] = v[1:]
                t = v[0] + t
        if v == '':
            out.append(o)
        elif o.startswith('--') and r.random() < .4:
            out.append(o + '=' + t)
        else:
            out += [o, t]
    s = ''
    for w in out:
        s += (r.choice([' ', ' ', '  ']) if s else '') + w
    return dict(text=s if s and s not in ('pyg2p', 'pyg2p.py') or r.random() < .5 else None, kw=kw, words=words, edits=edits, run=r.choice(['method', 'function', 'text']),
                path=r.random() < .3, chain=r.random() < .5)


def build(cmd):
    from pathlib import Path
    from pyg2p.main import api
    kw = {k: Path(v) if cmd['path'] and os.path.normpath(v) == v and not v.startswith('-') else v for k, v in cmd['kw'].items()}
    c = api.command(cmd['text'], **kw) if cmd['text'] is not None else api.command()
    for m, v in cmd['edits']:
        f = getattr(c, 'with_' + m)
        x = f() if v == '' else f(v)
        if cmd['chain']:
            c = x
    return c


def call_command(cmd):
    from pyg2p.main import api
    try:
        c = build(cmd)
        if cmd['run'] == 'method':
            return int(c.run() or 0), ''
        return int(api.run_command(c if cmd['run'] == 'function' else str(c)) or 0), ''
    except SystemExit as e:
        return int(e.code or 0), 'exit'
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 1, '%s: %s' % (type(e).__name__, e)


def execute_command(sc, seed):
    cmd = {}

    def call(args):
        if args[0] == '-g':
            return scen.call(args)
        r = random.Random(seed)
        v = {k: list(x) for k, x in O.VALUES.items()}
        v.update(start=['6', '12', '0'], end=['12', '24', '48'], file=['none.json'], input=['none.grib'], outdir=['none/'], loglevel=['INFO', 'DEBUG'],
                 format=['pcraster', 'netcdf'], time=['0', '1200'], units=['h'])
        cmd.update(command(r, args, v))
        return call_command(cmd)

    x = O.execute(sc, call)
    x.update(words=cmd['words'], edits=[dict(m=m, v=v) for m, v in cmd['edits']], command=cmd)
    x['norm'] = {p: os.path.normpath(v) for o, v, _ in sc['args'] if o == 'outdir' for p in (v, './' + v)}
    x['norm'].update({v: O.number(float(v)) for o in ('scale', 'offset', 'vmin', 'vmax') for v in O.VALUES[o]})
    return x


def execute_pipeline_command(sc, conc, seed):
    args, geos = scen.prepare(sc, conc)
    for g in geos:
        scen.call(['-g', g, '-l', 'ERROR'])
    r = random.Random(seed)
    v = dict(start=['6', '12', '0'], end=['12', '24', '48'], file=['none.json'], input=['none.grib'], input2=['none.grib'], outdir=['none/'], loglevel=['INFO'],
             member=['1'], date=['20010101'], time=['0', '1200'])
    cmd = command(r, args, v)
    rc, err = call_command(cmd)
    return dict(rc=rc, err=err, maps=scen.observe(conc), command=cmd)


# ---------------------------------------------------------------- verdicts
def compared(x, conc):
    strip = lambda L: [dict(e=m['e'], cells=m['cells']) for m in L]
    return dict(cli=dict(rc=x['cli']['rc'], maps=strip(x['cli']['maps'])),
                api=dict(rc=x['api']['rc'], maps=strip(x['api']['maps']), wrote=bool(x['api']['wrote']), empty=x['api']['empty']), tol=2 if conc['format'] == 'netcdf' else 60)


def corrupted(r, rec):
    x = copy.deepcopy(rec)
    m = x['api']['maps']
    k = r.choice(['rc', 'wrote', 'value', 'missing', 'drop', 'order'])
    if k == 'rc' and x['api']['empty']:
        return None
    if k == 'rc':
        x['api']['rc'] = 1 - x['api']['rc']
        x['api']['empty'] = False
    elif k == 'wrote' or not m:
        x['api']['wrote'] = True
    elif k == 'drop':
        m.pop()
    elif k == 'order':
        if len(m) < 2 or x['cli']['maps'][0]['e'] == -1:
            return None
        m.reverse()
    else:
        c = r.choice(m)['cells']
        j = r.randrange(len(c))
        c[j] = (MISS if c[j] != MISS else NAN) if k == 'missing' or c[j] == MISS else c[j] + r.choice([-100, 100])
    return x


def judge(check, S):
    check.note('%d executions of API and command line' % len(S))
    R = check.lab.run([(execute, s) for s in S], timeout=200)
    recs, idx, pipe, pidx = [], [], [], []
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(kind='api', scenario=S[i], error=x))
            continue
        recs.append(compared(x, S[i][2]))
        idx.append(i)
        if S[i][0] == 'pipeline' and 'other' not in S[i][3]:
            pipe.append(dict(sc=scen.abstract(S[i][1]), obs=dict(rc=x['api']['rc'], maps=x['api']['maps']), tol=2))
            pidx.append(i)
    check.cov['evaluations'] += 2 * len(recs)
    check.note('executed')
    good = []
    kinds = check.cov.setdefault('executions', {})
    for i, v, x in zip(idx, check.validate('ApiTrace.tla', recs), recs):
        check.cov['traces_validated_against_impl'] += 2
        k = S[i][0] + ' ' + ('refused' if x['cli']['rc'] else 'maps' if x['cli']['maps'] else 'no maps')
        kinds[k] = kinds.get(k, 0) + 1
        if v:
            check.violation(v, dict(kind='api', scenario=S[i], observed=R[i][1]))
        else:
            good.append(x)
            if x['api']['maps']:
                check.sample(dict(how=S[i][3], steps=[m['e'] for m in x['api']['maps']], first=x['api']['maps'][0]['cells'][:4]))
    for i, v in zip(pidx, check.validate('PipelineTrace.tla', pipe)):
        if v == ['unspecified']:
            check.cov['unspecified'] += 1
        elif set(v) & pipeline.ALL:
            check.violation(v, dict(kind='api', scenario=S[i], observed=R[i][1]))
    bad = [x for x in (corrupted(check.r, x) for x in check.r.sample(good, min(len(good), 100))) if x]
    for v, x in zip(check.validate('ApiTrace.tla', bad), bad):
        if v == []:
            raise tlc.MachineryError('corrupted observation accepted: %s' % json.dumps(x))
    check.cov['corrupted_traces_rejected'] += len(bad)


def judge_commands(check, S):
    check.note('%d commands' % len(S))
    R = check.lab.run([(execute_command, s) for s in S], timeout=90)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(kind='command', scenario=S[i], error=x))
            continue
        recs.append({k: v for k, v in x.items() if k != 'command'})
        idx.append(i)
    check.cov['evaluations'] += len(recs)
    good = []
    for i, v, x in zip(idx, check.validate('CommandTrace.tla', recs), recs):
        check.cov['traces_validated_against_impl'] += 1
        if 'harness' in v:
            raise tlc.MachineryError('arguments of the harness differ from the ones of the specification: %s' % x)
        if v:
            check.violation(v, dict(kind='command', scenario=S[i], observed=x))
        elif x['wrote']:
            good.append(x)
            check.sample(dict(words=x['words'], edits=x['edits']), 8)
    bad = []
    for x in check.r.sample(good, min(len(good), 60)):
        x = copy.deepcopy(x)
        o = check.r.choice(x['obs'])
        o['v'] += '9'
        bad.append(x)
    if any(v == [] for v in check.validate('CommandTrace.tla', bad)):
        raise tlc.MachineryError('corrupted observation accepted')
    check.cov['corrupted_traces_rejected'] += len(bad)


def judge_pipeline_commands(check, S):
    check.note('%d commands, outputs' % len(S))
    R = check.lab.run([(execute_pipeline_command, s) for s in S], timeout=90)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(kind='pipeline command', scenario=S[i], error=x))
            continue
        recs.append(pipeline.record(S[i][0], S[i][1], x))
        idx.append(i)
    check.cov['evaluations'] += len(recs)
    for i, v in zip(idx, check.validate('PipelineTrace.tla', recs)):
        check.cov['traces_validated_against_impl'] += 1
        if v == ['unspecified']:
            check.cov['unspecified'] += 1
        elif set(v) & pipeline.ALL:
            check.violation(v, dict(kind='pipeline command', scenario=S[i], observed=R[i][1]))


def run(check):
    q = check.quick
    t = 'quick' if q else 'thorough'
    check.modelcheck('ApiMC.tla', 'ApiMC_%s.cfg' % t)
    check.mustfail('ApiMC.tla', 'ApiMC_order.cfg', 'Inv')
    check.mustfail('ApiMC.tla', 'ApiMC_mask.cfg', 'Inv')
    check.modelcheck('CommandsMC.tla', 'CommandsMC_%s.cfg' % t)
    check.mustfail('CommandsMC.tla', 'CommandsMC_dash.cfg', 'Effect')
    r = check.r
    n = (240, 80, 130, 40) if q else (6000, 2500, 2500, 1000)
    judge(check, [scenario(r, 'pipeline') for _ in range(n[0])] + [scenario(r, 'interp') for _ in range(n[1])])
    judge_commands(check, [(O.scenario(r), r.randint(0, 10 ** 9)) for _ in range(n[2])])
    judge_pipeline_commands(check, [getattr(families, r.choice(FAMILIES))(r) + (r.randint(0, 10 ** 9),) for _ in range(n[3])])


def replay(check, d):
    k = d['kind']
    S = [tuple(d['scenario'])]
    {'api': judge, 'command': judge_commands, 'pipeline command': judge_pipeline_commands}[k](check, S)
