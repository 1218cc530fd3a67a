"""P19: histories of executions having faults, judged by Failure.tla"""
import copy
import json
import os
import random
import resource
import shutil
import signal

import numpy as np

import api
import families
import fields as F
import interp as I
import pipeline
import scen
import tlc

FAMILIES = ('p02', 'p03', 'p04', 'p05', 'p07') + ('p08',) * 4
EXCLUDE = ('./log.txt', './pyc')


# ---------------------------------------------------------------- faults: name -> (phase, needs, function)
class W:
    """an execution being prepared: arguments and commands file, to be changed by faults"""

    def __init__(self, sc, conc, args, r, grids, tables):
        self.sc, self.conc, self.args, self.r = sc, conc, list(args), r
        self.grids, self.tables = grids, tables
        with open('cmd.json') as f:
            self.cmd = json.load(f)
        self.p = self.cmd['Execution']['Parameter']
        self.om = self.cmd['Execution']['OutMaps']
        self.it = self.om['Interpolation']
        self.limit = None

    def drop(self, opt):
        k = self.args.index(opt)
        del self.args[k:k + 2]

    def put(self, opt, v):
        if opt in self.args:
            self.drop(opt)
        self.args += [opt, v]

    def params(self, fn):
        with open('.pyg2p/parameters.json') as f:
            d = json.load(f)
        d = fn(d) or d
        with open('.pyg2p/parameters.json', 'w') as f:
            json.dump(d, f)


def write(path, data):
    with open(path, 'wb' if isinstance(data, bytes) else 'w') as f:
        f.write(data)


def cut(path, r):
    """within a message, after its beginning"""
    with open(path, 'rb') as f:
        d = f.read()
    k, starts = 0, []
    while k < len(d):
        n = int.from_bytes(d[k + 8:k + 16], 'big') if d[k + 7] == 2 else int.from_bytes(d[k + 4:k + 7], 'big')
        starts.append((k, n))
        k += n
    k, n = r.choice(starts)
    write(path, d[:k + r.randrange(20, n - 1)])


def broken_json(path, r):
    with open(path) as f:
        d = f.read()
    write(path, r.choice([d[:r.randrange(1, max(2, len(d.rstrip()) - 1))], '', d.replace(':', ' ', 1) if ':' in d else '[', 'not json']))


FAULTS = {}


def fault(phase, needs=lambda w: True, api=False):
    def deco(fn):
        FAULTS[fn.__name__] = (phase, needs, fn)
        return fn
    return deco


corr = lambda w: bool(w.sc['cfg']['corr'])
conv = lambda w: bool(w.sc['cfg']['conv'])
two = lambda w: w.sc['cfg']['two']
nc = lambda w: w.conc['format'] == 'netcdf'
pcrt = lambda w: not w.conc.get('target')


@fault('init')
def no_commands_file(w):
    w.drop('-c')


@fault('init')
def missing_commands_file(w):
    w.put('-c', 'none.json')


@fault('init')
def broken_commands_file(w):
    with open('cmd.json', 'w') as f:
        json.dump(w.cmd, f)
    broken_json('cmd.json', w.r)
    w.cmd = None


@fault('init')
def missing_section(w):
    k = w.r.choice(['Execution', 'Parameter', 'OutMaps', 'Interpolation', '@latMap', '@lonMap', '@cloneMap', '@shortName'])
    ex = w.cmd['Execution']
    for d in (w.cmd, ex, w.p, w.om, w.it):
        d.pop(k, None)


@fault('init')
def no_input(w):
    w.drop('-i')


@fault('init')
def missing_input(w):
    w.put('-i', 'none.grib')


@fault('init')
def missing_map(w):
    k = w.r.choice(['@latMap', '@lonMap', '@cloneMap'])
    (w.om if k == '@cloneMap' else w.it)[k] = w.r.choice(['maps/none.map', '{UNDEFINED}/lat.map', '', 'none/lat.map'])


@fault('init', corr)
def missing_dem(w):
    w.p['@demMap'] = w.r.choice(['maps/none.map', '{DEMS}/dem.map'])


@fault('init')
def unknown_mode(w):
    w.it['@mode'] = w.r.choice(['kriging', 'Nearest', 'grib', '', 'nearest '])


@fault('init')
def not_a_level(w):
    w.p['@level'] = w.r.choice(['surface', '-1', '5a', '1.5'])


@fault('init')
def start_after_end(w):
    if w.r.random() < .5:
        w.put('-s', '24')
        w.put('-e', str(w.r.choice([23, 0, 12])))
    else:
        for o in ('-s', '-e'):
            if o in w.args:
                w.drop(o)
        w.p['@tstart'], w.p['@tend'] = w.r.choice([('12', '6'), (9, 3), ('10', '9'), ('1', '0')])


@fault('init')
def unknown_parameter(w):
    w.p['@shortName'] = w.r.choice(['qqq', 'SP', ''])


@fault('init', conv)
def unknown_conversion(w):
    w.p['@applyConversion'] = w.r.choice(['VC', 'k', 'vc2'])


@fault('init')
def bad_argument(w):
    w.args += w.r.choice([['-s', 'abc'], ['-T', '600'], ['-F', 'tiff'], ['--unknown', '3'], ['-m', '1.5'], ['-e', ''], ['-f', 'x']])


@fault('init')
def broken_parameters(w):
    broken_json('.pyg2p/parameters.json', w.r)


@fault('init')
def broken_registry(w):
    x = w.r.choice(['intertables', 'geopotentials'])
    p = '.pyg2p/%s.json' % x
    if not os.path.exists(p):
        write(p, '{}')
    broken_json(p, w.r)


@fault('maps')
def no_folders_configured(w):
    write('.pyg2p/u.conf', w.r.choice(['', 'GEOPOTENTIALS=/none\n']))


@fault('init')
def broken_variables(w):
    write('.pyg2p/u.conf', 'INTERTABLES\n')


@fault('init')
def out_folder_is_a_file(w):
    write('outf', 'text')
    w.put('-o', w.r.choice(['outf', 'outf/sub']))


@fault('init')
def not_a_number(w):
    if w.r.random() < .5:
        w.om['@unitTime'] = 'day'
    else:
        for o in ('-s', '-e'):
            if o in w.args:
                w.drop(o)
        w.p[w.r.choice(['@tstart', '@tend'])] = 'six'


@fault('select')
def no_messages(w):
    k = w.r.choice(['-m', '-D', 'level', '-T'])
    if k == 'level':
        w.p['@level'] = '77'
    elif k == '-T':
        for o in ('-T',):
            if o in w.args:
                w.drop(o)
        w.p['@dataTime'] = '700'
    else:
        w.put(k, '77' if k == '-m' else '19010203')


@fault('select')
def empty_input(w):
    write('empty.grib', b'')
    w.put('-i', 'empty.grib')


@fault('read')
def not_grib(w):
    write('text.grib', w.r.choice(['text\n' * 50, b'GRIB', os.urandom(300)]))
    w.put('-i', 'text.grib')


@fault('read')
def truncated_input(w):
    shutil.copy('in.grib', 'cut.grib')
    cut('cut.grib', w.r)
    w.put('-i', 'cut.grib')


@fault('read', two)
def missing_second_input(w):
    w.put('-I', 'none.grib')


@fault('read', two)
def no_second_messages(w):
    write('empty2.grib', b'')
    w.put('-I', 'empty2.grib')


@fault('convert', conv)
def bad_function(w):
    f = w.r.choice(['x=x*undefined', 'x=x+', 'x=log(', ''])

    def change(d):
        for c in [d[w.sc['cfg']['sn']]['Conversion']]:
            for x in (c if isinstance(c, list) else [c]):
                x['@function'] = f
    w.params(change)


@fault('convert', lambda w: w.sc['cfg']['agg'] != 'none')
def unknown_aggregation(w):
    w.cmd['Execution']['Aggregation']['@type'] = w.r.choice(['sum', 'Average', 'mean'])


@fault('convert', lambda w: w.sc['cfg']['agg'] != 'none' and w.sc['cfg']['st'] == 'accum')
def aggregation_of_accumulated(w):
    """only accumulations are defined for accumulated parameters"""
    w.cmd['Execution']['Aggregation']['@type'] = w.r.choice(['average', 'instantaneous'])


@fault('maps', lambda w: w.it['@latMap'].endswith('.nc') and w.it['@latMap'] == w.it['@lonMap'])
def other_coordinates(w):
    """coordinates of a netCDF target are in one file"""
    shutil.copy(w.it['@latMap'], 'maps/other.nc')
    w.it[w.r.choice(['@latMap', '@lonMap'])] = 'maps/other.nc'


@fault('maps', pcrt)
def broken_map(w):
    k = w.r.choice(['@latMap', '@lonMap', '@cloneMap'])
    d = w.om if k == '@cloneMap' else w.it
    write('maps/broken.map', w.r.choice(['text', b'']))
    d[k] = 'maps/broken.map'


@fault(None)
def no_table(w):
    w.args.remove('-B')


@fault('tables')
def missing_table_folder(w):
    w.put('-N', 'none/tables')


@fault('tables')
def missing_default_folder(w):
    write('.pyg2p/u.conf', 'GEOPOTENTIALS=%s\nINTERTABLES=%s\n' % (os.path.abspath('geo'), os.path.abspath(w.r.choice(['none', 'none/tables', 'cmd.json']))))


def scipy(w, mode, **kw):
    w.it['@mode'] = mode
    w.it.update({'@' + k: v for k, v in kw.items()})


@fault('tables')
def decay_map(w):
    """cdd interpolation without a map of the target having distances, or in a mode that doesn't exist"""
    k = w.r.choice(['missing', 'broken', 'mode', 'mode', 'other', 'other', 'none'])
    mode = w.r.choice(['Hofstra', 'MixHofstraShepard'])
    rows, cols = scen.NJ, scen.NI
    if k == 'other':
        rows, cols = w.r.choice([(rows, cols + 1), (rows + 1, cols), (cols, rows), (rows, cols - 1), (2 * rows, cols), (1, rows * cols)])
    F.pcr('maps/cdd.map', np.full((rows, cols), 300.))
    if k == 'broken':
        write('maps/cdd.map', w.r.choice(['text', b'']))
    scipy(w, 'cdd', cdd_map={'missing': 'maps/none.map', 'none': ''}.get(k, 'maps/cdd.map'),
          cdd_mode=w.r.choice(['', 'hofstra', 'Shepard', 'NewEtal']) if k == 'mode' else mode)


@fault('tables', lambda w: w.tables > 0)
def broken_table(w):
    for x in sorted(os.listdir('it')):
        write('it/' + x, w.r.choice([b'', b'text', b'\x1f\x8b']))


@fault('correct', lambda w: corr(w) and w.conc.get('geo') != 'infile')
def no_geopotential(w):
    """others can be registered"""
    with open('.pyg2p/geopotentials.json') as f:
        d = json.load(f)
    others = {k: v for k, v in d.items() if not v.startswith('geo')}
    if w.r.random() < .7:
        k = sorted(x for x in d if d[x].startswith('geo'))[0].split('$')
        k[2] = str(int(k[2]) + 1)
        others['$'.join(k)] = 'geo0.grib'
    write('.pyg2p/geopotentials.json', json.dumps(others if w.r.random() < .8 else {}))


@fault('correct', lambda w: corr(w) and w.conc.get('geo') != 'infile')
def missing_geopotential_file(w):
    for x in os.listdir('geo'):
        os.unlink('geo/' + x)


@fault('correct2', lambda w: corr(w) and w.grids == 2)
def no_second_geopotential(w):
    """the geopotential of the second grid (the last registered, but for decoys)"""
    with open('.pyg2p/geopotentials.json') as f:
        d = json.load(f)
    write('.pyg2p/geopotentials.json', json.dumps({k: v for k, v in d.items() if v != 'geo1.grib'}))


@fault('correct', corr)
def bad_formula(w):
    k = w.r.choice(['@correctionFormula', '@gem'])
    w.p[k] = w.r.choice(['p*q', 'z+', 'dem*undefined'])


@fault('correct', corr)
def broken_dem(w):
    write('maps/bdem.map', w.r.choice(['text', b'']))
    w.p['@demMap'] = 'maps/bdem.map'


@fault('correct', corr)
def other_dem(w):
    F.pcr('maps/odem.map', np.ones((7, 9)))
    w.p['@demMap'] = 'maps/odem.map'


@fault('write', nc)
def bad_format(w):
    w.om['@valueFormat'] = w.r.choice(['q9', 'float128x', 'x'])


@fault('write', lambda w: w.tables == w.grids)
def disk_full(w):
    w.limit = w.r.choice([0, 100, 300, 1000])


@fault('maps')
def unknown_format(w):
    if '-F' in w.args:
        w.drop('-F')
    w.om['@format'] = w.r.choice(['tiff', 'NetCDF', 'PCRASTER'])


# ---------------------------------------------------------------- executions
def execution(args, limit):
    if limit is not None:
        n = os.open('/dev/null', os.O_WRONLY)
        os.dup2(n, 1)
        os.dup2(n, 2)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return scen.call(args)


PHASES = ('init', 'select', 'read', 'maps', 'convert', 'tables', 'correct', 'correct2', 'write', None)
MAYBE = {'truncated_input': 'read', 'not_grib': 'read', 'no_second_messages': 'read', 'disk_full': 'write'}
NOT_API = {'no_commands_file', 'missing_commands_file', 'broken_commands_file', 'bad_argument', 'out_folder_is_a_file', 'bad_format', 'disk_full', 'unknown_format'}
SIDE = ('cmd.json', '.pyg2p/parameters.json', '.pyg2p/geopotentials.json', '.pyg2p/u.conf')


def isolated(fn, *args):
    try:
        return I.isolated(fn, *args)
    except EOFError:
        return 1, 'died'


def tables():
    """tables created and registered"""
    files = os.listdir('it')
    reg = {}
    if os.path.exists('.pyg2p/intertables.json'):
        with open('.pyg2p/intertables.json') as f:
            reg = json.load(f)
    return len(files) if set(files) <= {x['filename'] for x in reg.values() if isinstance(x, dict)} else -1


def outputs(conc):
    """content of the files of the output folder"""
    out = {}
    for x in sorted(os.listdir('out')) if os.path.isdir('out') else []:
        p = os.path.join('out', x)
        if x.endswith('.aux.xml'):
            continue
        try:
            if conc['format'] == 'netcdf':
                n = F.readnc(p)
                out[x] = [list(n['time'])] + [[scen.fix(y) for y in a.ravel()] for a in n['vars'].values()]
            else:
                out[x] = [[scen.fix(y) for y in F.readpcr(p)[0].ravel()]]
        except Exception:
            out[x] = None
    return out


def near(a, b, tol):
    return len(a) == len(b) and all(len(x) == len(y) and all(u == v or (scen.MISS not in (u, v) and abs(u - v) <= tol) for u, v in zip(x, y)) for x, y in zip(a, b))


def keep():
    d = {}
    for p in SIDE + ('.pyg2p/intertables.json',) + tuple(os.path.join(f, x) for f in ('it', 'geo') for x in os.listdir(f)):
        if os.path.exists(p):
            with open(p, 'rb') as f:
                d[p] = f.read()
    return d


def restore(d, changed):
    """what faults changed"""
    for p in set(d) | set(SIDE):
        if p in d:
            if changed.get(p) != d[p]:
                write(p, d[p])
        elif os.path.exists(p):
            os.unlink(p)


def one(sc, conc, args, r, names, kind, ref, grids, last=False):
    """an execution having the faults named, from the present state of the working directory"""
    saved = keep()
    n0 = tables()
    w = W(sc, conc, args, r, grids, n0)
    if isinstance(names, int):
        # faults that are possible for the scenario, of any phase
        by = {}
        for x in sorted(FAULTS):
            if not (kind == 'api' and x in NOT_API) and FAULTS[x][1](w):
                by.setdefault(str(FAULTS[x][0]), []).append(x)
        names = list({r.choice(by[r.choice(sorted(by) + ['init'] + [p for p in by if p.startswith('correct')])]) for _ in range(names)})
    faults, maybe, done = [], [], []
    order = sorted(names, key=lambda x: (-PHASES.index(FAULTS[x][0]), x == 'broken_commands_file'))
    for n in order:
        ph, needs, fn = FAULTS[n]
        if not needs(w):
            continue
        fn(w)
        done.append(n)
        if n in MAYBE:
            maybe.append(MAYBE[n])
        elif ph:
            faults.append(ph)
    if w.cmd is not None:
        with open('cmd.json', 'w') as f:
            json.dump(w.cmd, f)
    call = None
    if kind == 'api':
        try:
            conf = api.config(w.cmd, w.args, {})
            call = lambda: isolated(api.run_api, conf)
        except (KeyError, ValueError, TypeError, AttributeError):
            kind = 'cli'
    mid = keep()
    before = F.snapshot('.', exclude=EXCLUDE + ('./out/', './it/', './.pyg2p/intertables.json'))
    if r.random() < .5:
        for x in ref['files']:
            if os.path.exists('out/' + x):
                os.unlink('out/' + x)
    out0 = F.snapshot('out')
    names0 = set(outputs(conc))
    it0 = F.snapshot('it')
    if kind == 'api':
        x = call()
        if isinstance(x, tuple):
            x = dict(rc=1, err='died', maps=[])
        rc, err = x['rc'], x['err']
        returned = x['maps']
        ok = near([m['cells'] for m in returned], ref['api'], 2 if conc['format'] == 'netcdf' else 60)
    else:
        rc, err = isolated(execution, w.args, w.limit)
        ok = False
        returned = []
    after = F.snapshot('.', exclude=EXCLUDE + ('./out/', './it/', './.pyg2p/intertables.json'))
    it1 = F.snapshot('it')
    o = outputs(conc)
    complete = ({k: o.get(k) for k in ref['files']} == ref['files'] and set(o) <= names0 | set(ref['files']) and \
            all(F.snapshot('out').get(k) == v for k, v in out0.items() if os.path.basename(k) not in ref['files']))
    same = F.snapshot('out') == out0
    out = 'both' if same and complete else 'same' if same else 'complete' if complete else 'other'
    x = dict(kind=kind, faults=faults, maybe=maybe, create='-B' in w.args, rc=rc, out=out, returned=bool(returned) and ok, extra=bool(returned) and not ok,
             intact=after == before and all(it1.get(k) == v for k, v in it0.items()))
    # side files as they were, tables as they are
    restore(saved, mid)
    if 'broken_registry' in done:
        p = '.pyg2p/intertables.json'
        if p in saved:
            write(p, saved[p])
        elif os.path.exists(p):
            os.unlink(p)
    x['tables'] = tables()
    info = dict(faults=done, args=w.args, err=err, changed=sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)), limit=w.limit)
    return x, info


def config_fault(r):
    k = r.choice(['none.grib', 'text.grib', 'empty.grib', 'nogeo.grib', '-W'])
    write('text.grib', 'text')
    write('empty.grib', b'')
    with open('nogeo.grib', 'wb') as f:
        scen.write_msg(f, scen.message('sp', 0, 3, 'instant', [1] * scen.K), dict(bitmap=False))
    before = F.snapshot('.', exclude=EXCLUDE + ('./.pyg2p/intertables.json',))
    rc, err = isolated(execution, ['-g', k, '-l', 'ERROR'] if k != '-W' else ['-W', 'none', '-l', 'ERROR'], None)
    after = F.snapshot('.', exclude=EXCLUDE + ('./.pyg2p/intertables.json',))
    same = after == before
    return dict(kind='config', faults=['init'], maybe=[], create=False, rc=rc, out='same', returned=False, extra=False, intact=same, tables=tables()), dict(faults=['config ' + k], err=err)


def execute(sc, conc, plan, seed):
    import pyg2p.main.api  # noqa
    r = random.Random(seed)
    args, geos = scen.prepare(sc, conc)
    for g in geos:
        rc, err = isolated(execution, ['-g', g, '-l', 'ERROR'], None)
        if rc:
            raise AssertionError('geopotential not added ' + err)
    rc, err = isolated(execution, args, None)
    ref = dict(files=outputs(conc))
    maps = scen.observe(conc)
    base = dict(rc=rc, err=err, maps=maps)
    if rc or not maps:
        return dict(base=base, rec=None)
    if conc['format'] == 'netcdf':
        ref['api'] = [m['cells'] for m in maps]
    else:
        ref['api'] = [m['cells'] for m in maps]
    if conc.get('target') and conc['target']['up']:
        ref['api'] = [api.flipped(c, scen.NI) for c in ref['api']]
    grids = len(os.listdir('it'))
    shutil.rmtree('out')
    os.makedirs('out')
    for x in plan['junk']:
        write(os.path.join('out', {'mine': 'mine.txt', 'same': sorted(ref['files'])[-1]}[x]), 'junk of the user')
    if not plan['tables']:
        shutil.rmtree('it')
        os.makedirs('it')
        os.unlink('.pyg2p/intertables.json')
    t = tables()
    execs, info = [], []
    for names, kind in plan['execs'] + [[[], 'cli']]:
        x, i = config_fault(r) if kind == 'config' else one(sc, conc, args, r, names, kind, ref, grids)
        execs.append(x)
        info.append(i)
    return dict(base=base, rec=dict(grids=grids, tables=t, execs=execs), info=info)


def scenario(r):
    while True:
        sc, conc = getattr(families, r.choice(FAMILIES))(r)
        plan = {}
        if r.random() < .5:
            plan['other mode'] = True
            conc['mode'] = r.choice(['invdist', 'grib_nearest', 'nearest'])
        n = r.choice([1, 1, 2, 3, 4])
        execs = []
        for _ in range(n):
            k = r.choice(['cli', 'cli', 'cli', 'cli', 'api', 'api', 'config'])
            f = r.choice([0, 1, 1, 1, 1, 2, 3])
            execs.append([f, k])
        return sc, conc, dict(plan, junk=[x for x in ('mine', 'same') if r.random() < .5], tables=r.random() < .6, execs=execs), r.randint(0, 10 ** 9)


def corrupted(r, rec):
    x = copy.deepcopy(rec)
    e = r.choice(x['execs'])
    k = r.choice(['rc', 'out', 'tables', 'intact', 'extra'])
    if k == 'rc':
        if e['maybe'] or 'select' in e['faults']:
            return None
        e['rc'] = 1 - e['rc']
    elif k == 'out':
        if e['kind'] == 'config':
            return None
        e['out'] = 'other'
        if 'write' in e['faults'] + e['maybe'] and e['rc']:
            return None
    elif k == 'tables':
        e['tables'] += 3
    elif k == 'intact':
        e['intact'] = False
    else:
        if e['kind'] != 'api':
            return None
        e['extra'] = True
    return x


def judge(check, S):
    check.note('%d histories' % len(S))
    R = check.lab.run([(execute, s) for s in S], timeout=150)
    recs, idx, base, bidx = [], [], [], []
    cov = check.cov.setdefault('faults', {})
    for i, (st, x) in enumerate(R):
        if st != 'ok':
            check.violation(['execution'], dict(scenario=S[i], error=x))
            continue
        if 'other mode' not in S[i][2]:
            base.append(pipeline.record(S[i][0], S[i][1], x['base']))
            bidx.append(i)
        if x['rec'] is None:
            continue
        recs.append(x['rec'])
        idx.append(i)
        for e, j in zip(x['rec']['execs'], x['info']):
            k = '%s: %s' % (e['kind'], ', '.join(sorted(j['faults'])) if len(j['faults']) < 2 else '%d faults' % len(j['faults']))
            cov[k] = cov.get(k, 0) + 1
            check.cov['evaluations'] += 1
    check.note('executed')
    for i, v in zip(bidx, check.validate('PipelineTrace.tla', base)):
        if v == ['unspecified']:
            check.cov['unspecified'] += 1
        elif set(v) & pipeline.ALL:
            check.violation(v, dict(scenario=S[i], observed=R[i][1]['base']))
    good = []
    for i, v, x in zip(idx, check.validate('FailureTrace.tla', recs), recs):
        check.cov['traces_validated_against_impl'] += 1
        if v:
            check.violation(v, dict(scenario=S[i], observed=x, info=R[i][1]['info']))
        else:
            good.append(x)
            check.sample([dict(faults=j['faults'], rc=e['rc'], out=e['out'], tables=e['tables']) for e, j in zip(x['execs'], R[i][1]['info'])])
    bad = [x for x in (corrupted(check.r, x) for x in check.r.sample(good, min(len(good), 120))) if x]
    for v, x in zip(check.validate('FailureTrace.tla', bad), bad):
        if v == []:
            raise tlc.MachineryError('corrupted observation accepted: %s' % json.dumps(x))
    check.cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    t = 'quick' if check.quick else 'thorough'
    check.modelcheck('FailureMC.tla', 'FailureMC_%s.cfg' % t)
    check.mustfail('FailureMC.tla', 'FailureMC_early.cfg', 'Atomic')
    check.mustfail('FailureMC.tla', 'FailureMC_swallow.cfg', 'Atomic')
    S = [scenario(check.r) for _ in range(480 if check.quick else 9000)]
    judge(check, S)


def replay(check, d):
    judge(check, [tuple(d['scenario'])])
