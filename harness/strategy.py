"""P10: the same interpolation with different strategies"""
import json
import os
import shutil

import numpy as np

import interp as I
import scen
import tlc

SPLIT = ('nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')
BROAD = ('adw', 'cdd')


def runs_of(r, sc):
    """variants: (kind, concretisation, how)"""
    m = sc['mode']
    rows = len(sc['tgt']['la'])
    V = []
    if m in SPLIT:
        n = r.randint(1, rows + 3)
        V.append(('splits', dict(num_of_splits=n), 'new'))
        if r.random() < .5:
            V.append(('splits', dict(num_of_splits=rows), 'new'))
        V.append(('parallel', dict(parallel=True), 'new'))
        if r.random() < .5:
            V.append(('parallel', dict(parallel=True, num_of_splits=r.randint(1, rows)), 'new'))
    elif r.random() < .12:   # (takes several seconds)
        V.append(('parallel', dict(parallel=True), 'new'))
    if m in BROAD:
        V.append(('broadcasting', dict(use_broadcasting=True), 'new'))
        V.append(('broadcasting', dict(use_broadcasting=True, num_of_splits=r.randint(1, rows)), 'new'))
    else:
        V.append(('broadcasting', dict(use_broadcasting=True), 'new'))
    V.append(('reuse', dict(create=False), 'later'))
    V.append(('reuse', dict(create=r.random() < .5), 'same'))
    V.append(('reuse', dict(create=True, parallel=r.random() < .5 and m in SPLIT, format='pcraster'), 'later'))
    V.append(('format', dict(format='pcraster'), 'new'))
    if sc['tgt'].get('lattice'):
        V.append(('coordinates', dict(coords='nc'), 'new'))
    return V


def store(d):
    """tables and registrations, kept in d"""
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('it', d)
    if os.path.exists('.pyg2p/intertables.json'):
        shutil.copy('.pyg2p/intertables.json', d)


def restore(d=None):
    """tables and registrations of d, or none"""
    shutil.rmtree('it', ignore_errors=True)
    if os.path.exists('.pyg2p/intertables.json'):
        os.remove('.pyg2p/intertables.json')
    if d:
        shutil.copytree(d, 'it')
        if os.path.exists('it/intertables.json'):
            os.rename('it/intertables.json', '.pyg2p/intertables.json')
    else:
        os.makedirs('it')


def with_coords(sc, coords):
    s = dict(sc, tgt=dict(sc['tgt'], format=coords, f4=True))
    return s


def one(sc, conc, out='out'):
    shutil.rmtree(out, ignore_errors=True)
    conc = dict(conc)
    sc = with_coords(sc, conc.pop('coords', 'pcr'))
    return I.execute(sc, conc)


def again(sc, conc):
    """twice in the same process: result of the second"""
    one(sc, dict(conc, create=True))
    shutil.rmtree('out', ignore_errors=True)
    sc = with_coords(sc, conc.get('coords', 'pcr'))
    clone = I.command(sc, conc)
    rc, err = scen.call(clone)
    return dict(rc=rc, err=err, maps=I.as_target(sc, conc, I.observe(conc)))


def execute(sc, base, V):
    import pyg2p.main  # noqa  (loaded once, before forking)
    x = I.isolated(one, sc, base)
    store('store')
    x['runs'] = []
    for k, (kind, d, how) in enumerate(V):
        conc = dict(base, **d)
        restore('store' if how == 'later' else None)
        y = I.isolated(again if how == 'same' else one, sc, conc)
        y['kind'] = kind
        x['runs'].append(y)
    return x


def scenario(r):
    m = r.choice(I.MODES)
    while True:
        sc = I.gen(r, (m,))
        if sc['mode'] not in ('grib_nearest', 'grib_invdist') or sc['src']['kind'] == 'regular':
            break
    la, lo = np.array(sc['tgt']['la']), np.array(sc['tgt']['lo'])
    sc['tgt']['lattice'] = bool((la == la[:, :1]).all() and (lo == lo[:1]).all())
    sc['tgt']['format'] = 'pcr'
    return sc, dict(format='netcdf', create=True), runs_of(r, sc)


def record(x):
    return dict(rc=x['rc'], maps=x['maps'], runs=[dict(kind=y['kind'], rc=y['rc'], maps=y['maps']) for y in x['runs']])


def corrupted(r, rec):
    import copy
    x = copy.deepcopy(rec)
    y = r.choice(x['runs'])
    k = r.choice(['value', 'rc', 'missing', 'drop'])
    if k == 'rc':
        y['rc'] = 1
    elif k == 'drop':
        y['maps'] = y['maps'][1:]
    else:
        m = r.choice(y['maps'])
        c = r.randrange(len(m))
        m[c] = (m[c] + r.choice([-2, 2, 500])) if m[c] != I.MISS and k == 'value' else (0 if m[c] == I.MISS else I.MISS)
    return x


def judge(check, S):
    check.note('%d scenarios, %d executions' % (len(S), sum(1 + len(s[2]) for s in S)))
    R = check.lab.run([(execute, x) for x in S], timeout=200)
    recs, idx, lin = [], [], []
    for i, (st, x) in enumerate(R):
        check.cov['evaluations'] += 1 + len(S[i][2])
        if st == 'ok':
            recs.append(record(x))
            idx.append(i)
        else:
            check.violation(['execution'], dict(scenario=S[i], error=x))
    check.note('executed')
    V = check.validate('StrategyTrace.tla', recs)
    good = []
    kinds = check.cov.setdefault('runs', {})
    for i, v, rec in zip(idx, V, recs):
        check.cov['traces_validated_against_impl'] += 1 + len(rec['runs'])
        for y in rec['runs']:
            k = '%s %s' % (S[i][0]['mode'], y['kind'])
            kinds[k] = kinds.get(k, 0) + 1
        d = dict(scenario=S[i], observed=R[i][1])
        v = set(v)
        if S[i][0]['mode'] == 'bilinear_delaunay' and v:
            # known: pairs of triangles depend on the other cells of the subset. Values still are what the method defines
            sp = {'splits', 'parallel'} & v
            ys = [y for y, w in zip(R[i][1]['runs'], S[i][2]) if 'num_of_splits' in w[1]]
            alone = {y['kind'] for y, w in zip(R[i][1]['runs'], S[i][2]) if 'num_of_splits' not in w[1] and
                     not (y['rc'] == R[i][1]['rc'] and same(y['maps'], R[i][1]['maps']))}
            if sp and not (alone & sp):
                lin += [(i, I.record(S[i][0], y)) for y in ys]
                check.violation(sorted(sp), dict(d, known='delaunay-splits'))
                v -= sp
        if 'coordinates' in v:
            # single and double precision coordinates may choose different points at the same distance: judged as an interpolation
            lin += [(i, I.record(S[i][0], y)) for y in R[i][1]['runs'] if y['kind'] == 'coordinates']
            v -= {'coordinates'}
        if v:
            check.violation(sorted(v), d)
        elif rec['maps']:
            good.append(rec)
            check.sample(dict(mode=S[i][0]['mode'], target=S[i][0]['tgt'], runs=[(k, c, h) for k, c, h in S[i][2]], observed=R[i][1]['maps'][0][:6]))
    for (i, rec), v in zip(lin, check.validate('InterpTrace.tla', [x for _, x in lin])):
        if v:
            check.violation(v, dict(scenario=S[i], observed=R[i][1]))
    bad = [corrupted(check.r, rec) for rec in good[:60]]
    V = check.validate('StrategyTrace.tla', bad)
    if any(v == [] for v in V):
        raise tlc.MachineryError('corrupted observation accepted')
    check.cov['corrupted_traces_rejected'] += len(bad)


def same(a, b):
    return len(a) == len(b) and all(len(p) == len(q) and all(abs(x - y) <= 1 for x, y in zip(p, q)) for p, q in zip(a, b))


def run(check):
    t = 'quick' if check.quick else 'thorough'
    check.modelcheck('Strategy.tla', 'Strategy_%s.cfg' % t)
    check.mustfail('Strategy.tla', 'Strategy_completion.cfg', 'Independent')
    check.mustfail('Strategy.tla', 'Strategy_subset.cfg', 'Independent')
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probes', 'delaunay-splits.json')) as f:
        probe = tuple(json.load(f))   # known finding
    judge(check, [scenario(check.r) for _ in range(110 if check.quick else 3000)] + [probe])
    check.assumptions += ['values compared to one hundredth, the precision of PCRaster output']


def replay(check, d):
    judge(check, [tuple(d['scenario'])])
