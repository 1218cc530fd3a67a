"""P21: weights of angular distance and correlation decay methods (Weights.tla)"""
import copy
import os

import numpy as np

import interp as I
import scen
import tlc

MISS = I.MISS
RADIUS = 6371229.
METHODS = ('adw', 'Hofstra', 'MixHofstraShepard', 'NewEtAl')
CLAUSES = {'exitcode', 'count', 'shape', 'lost', 'made', 'values', 'weights', 'execution'}
TOL = 80


def gen_source(r):
    k = r.choice(['regular'] * 5 + ['global', 'reduced'])
    if k == 'regular':
        d = r.choice([50, 100, 200, 30])
        dlon = r.choice([d, d, d + d // 2, d // 2, 70])
        ni, nj = r.randint(5, 8), r.randint(4, 7)
        lat0 = r.choice([5000, 1000, 600, 6000, 7500, 150, -2500])
        if r.random() < .35:
            # rows at the same distance from the equator
            lat0 = d // 2 + d * r.randint(0, 2)
        lon0 = r.choice([0, 1000, -2000, -200, -150, 17700, 35800, 9000, -9000, 25000])
        return I.regular(ni, nj, lat0, lon0, d, dlon, r.random() < .25), False
    if k == 'global':
        d = r.choice([3000, 4500])
        return I.regular(36000 // d, 2 * (9000 - d // 2) // d + 1, 9000 - d // 2, r.choice([0, -18000]), d, d), True
    return I.reduced([8, 12, 16, 16, 16, 16, 12, 8]), True


def gen_target(r, src, glob, lattice):
    la, lo = src['la'], src['lo']
    a0, a1 = int(min(la)), int(max(la))
    o0, o1 = int(min(lo)), int(max(lo))
    pad = 0 if glob else r.choice([0, 0, 100, 400])
    a0, a1 = max(a0 - pad, -8900), min(a1 + pad, 8900)
    o0, o1 = o0 - pad, o1 + pad
    conv = r.choice(['180', '360'])
    nr, nc = r.choice([(3, 4), (4, 4), (2, 6), (5, 3), (4, 3)])
    if lattice:
        dy, dx = max(1, (a1 - a0) // nr), max(1, (o1 - o0) // nc)
        dy, dx = r.randint(max(1, dy // 2), dy), r.randint(max(1, dx // 2), dx)
        ya, xo = r.randint(a0 + (nr - 1) * dy, a1), r.randint(o0, o1 - (nc - 1) * dx)
        A, O = [ya - dy * j for j in range(nr)], [xo + dx * i for i in range(nc)]
        # the lattice is not cut in the convention
        if len(set((I.wrap(o, conv) - o) for o in O)) > 1:
            conv = '360' if conv == '180' else '180'
        if len(set((I.wrap(o, conv) - o) for o in O)) > 1:
            return gen_target(r, src, glob, lattice)
    else:
        A = sorted(r.sample(range(a0, a1 + 1), nr), reverse=True)
        O = sorted(r.sample(range(o0, o1 + 1), nc))
        if a0 < 0 < a1 and not glob and 0 not in A and r.random() < .7:
            # (and targets on it)
            A = sorted(A[1:] + [0], reverse=True)
    tla = [[a for _ in O] for a in A]
    tlo = [[I.wrap(o, conv) for o in O] for _ in A]
    fmt = r.choice(['pcr', 'nc']) if lattice or sorted(tlo[0]) == tlo[0] else 'pcr'
    if not lattice and r.random() < .5:
        fmt = 'pcr'
        tla = [[r.randint(a0, a1) for _ in O] for a in A]
        tlo = [[I.wrap(r.randint(o0, o1), conv) for _ in O] for _ in A]
    if not lattice and fmt == 'pcr' and r.random() < .3:
        p = r.randrange(len(la))
        if la[p] == int(la[p]) and lo[p] == int(lo[p]):
            tla[0][1], tlo[0][1] = int(la[p]), I.wrap(int(lo[p]), conv)
    return dict(la=tla, lo=tlo, format=fmt, names=('lat', 'lon'))


def gen(r, method=None):
    method = method or r.choice(['adw', 'adw', 'adw', 'Hofstra', 'Hofstra', 'MixHofstraShepard', 'MixHofstraShepard', 'MixHofstraShepard', 'NewEtAl', 'NewEtAl'])
    src, glob = gen_source(r)
    tgt = gen_target(r, src, glob, method == 'NewEtAl')
    n, m = len(src['la']), np.array(tgt['la']).size
    vals = []
    for k in range(r.choice([2, 3, 3])):
        c = r.random()
        vals.append([r.choice([0, 200]) if c < .6 else r.randint(0, 200) for _ in range(n)])
    sc = dict(mode='adw' if method == 'adw' else 'cdd', method=method, src=src, tgt=tgt, vals=vals)
    sc['global'] = glob
    if method != 'adw':
        # distances of the nearest points of the targets, in km
        s, t = I.cart(src['la'], src['lo']), I.cart(np.array(tgt['la']).ravel(), np.array(tgt['lo']).ravel())
        D = np.sort(np.linalg.norm(s[None] - t[:, None], axis=2), axis=1) * RADIUS / 1000
        sc['cddmode'] = method
        if method == 'NewEtAl':
            lo, hi = D[:, 0].max() * .8, D[:, 10].max() * 1.5
            v = [round(r.uniform(lo, hi), 1) for _ in range(2)]
            nr, nc = np.array(tgt['la']).shape
            how = r.choice(['one', 'one', 'rows', 'columns'])
            sc['cdd'] = [v[0] if how == 'one' or (how == 'rows' and j < nr // 2) or (how == 'columns' and i < nc // 2) else v[1]
                         for j in range(nr) for i in range(nc)]
        else:
            x = r.random()
            sc['cdd'] = [round(D[c, 1] * .9 if r.random() < .1 else r.uniform(D[c, 0], D[c, 10] * 1.6), 1) for c in range(m)]
            if x < .3:
                sc['cdd'] = [sc['cdd'][0]] * m
        if method == 'MixHofstraShepard' and r.random() < .7:
            sc['cddopt'] = {'m_const': r.choice([2, 4, 6, 8]), 'min_num_of_station': r.choice([2, 3, 4, 5, 7]), 'radius_ratio': r.choice([.25, 1 / 3., .5, .1]),
                            'weights_mode': r.choice(['All', 'OnlyTOP10'])}
            # named options: in any order, and not always all of them
            names = r.sample(sorted(sc['cddopt']), r.choice([4, 4, 4, 3, 2, 1]))
            sc['cddopt'] = {k: sc['cddopt'][k] for k in names}
    return sc


def concretisation(r, sc):
    conc = dict(format=r.choice(['netcdf', 'netcdf', 'pcraster']), parallel=r.random() < .15, create=True)
    if r.random() < .25:
        conc['num_of_splits'] = r.randint(1, 4)
    if r.random() < .4:
        conc['use_broadcasting'] = True
    conc['variable'] = r.random() < .3
    return conc


def read_again(sc, conc, args):
    rc, err = scen.call(args)
    return dict(rc=rc, err=err, maps=I.as_target(sc, conc, I.observe(conc)))


def execute(sc, conc, again):
    args = I.prepare(sc, conc)
    rc, err = scen.call(args)
    x = dict(rc=rc, err=err, maps=I.as_target(sc, conc, I.observe(conc)))
    if again and rc == 0:
        # from the table
        os.rename('out', 'out1')
        os.makedirs('out')
        x['again'] = I.isolated(read_again, sc, conc, args)
    return x


def points(sc):
    """as in interp, with the smallest unit whose squared distances fit 32 bits"""
    s = I.cart(sc['src']['la'], sc['src']['lo'])
    t = I.cart(np.array(sc['tgt']['la']).ravel(), np.array(sc['tgt']['lo']).ravel())
    a = np.concatenate([s, t])
    lo, hi = a.min(0), a.max(0)
    k = 45000 / np.linalg.norm(hi - lo)
    a = np.rint((a - lo) * k).astype(int)
    return a[:len(s)].tolist(), a[len(s):].tolist(), k


def record(sc, obs, maps):
    s, t, k = points(sc)
    src = sc['src']
    tl, to = np.array(sc['tgt']['la']).ravel(), np.array(sc['tgt']['lo']).ravel()
    opt = sc.get('cddopt') or {}
    # (maps are single precision)
    cdd = [int(round(float(np.float32(x)) * 1000 / RADIUS * k)) for x in sc.get('cdd', [])]
    return dict(mode=sc['method'], src=[p + [int(round(a)), int(round(o)) % 36000] for p, a, o in zip(s, src['la'], src['lo'])],
                tgt=[p + [int(a), int(o) % 36000] for p, a, o in zip(t, tl, to)],
                vals=[[int(x * I.SC) for x in v] for v in sc['vals']], rc=obs['rc'], maps=maps, rows=len(sc['tgt']['la']), cdd=cdd, tol=TOL,
                m=int(round(1000 * opt.get('m_const', 4))), stations=opt.get('min_num_of_station', 4), ratio=int(round(1000 * opt.get('radius_ratio', 1 / 3.))))


def corrupted(r, rec):
    x = copy.deepcopy(rec)
    k = r.randrange(len(x['maps']))
    c = [i for i, v in enumerate(x['maps'][k]) if v != MISS]
    if not c:
        return None
    x['maps'][k][r.choice(c)] = r.choice([-500, 25000])
    return x


def judge(check, S):
    """S: (scenario, concretisation, again)"""
    check.note('%d scenarios' % len(S))
    # functions compiled by the methods are compiled once: the first executions are of different kinds
    kinds = {}
    for k, x in enumerate(S):
        kinds.setdefault((x[0]['method'], x[0]['tgt']['format'], bool(x[1].get('num_of_splits')) and x[0]['method'] == 'adw', bool(x[0].get('cddopt'))), k)
    first = sorted(kinds.values()) if len(S) > len(kinds) + 8 else []
    rest = [k for k in range(len(S)) if k not in first]
    R = [None] * len(S)
    for part in (first, rest):
        for k, y in zip(part, check.lab.run([(execute, S[k]) for k in part], timeout=600) if part else []):
            R[k] = y
    check.cov['evaluations'] += len(S)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st == 'ok':
            for y in [x] + ([x['again']] if 'again' in x else []):
                recs.append(record(S[i][0], y, y['maps']))
                idx.append(i)
        else:
            check.violation(['execution'], dict(scenario=S[i][0], concretisation=S[i][1], again=S[i][2], error=x))
    check.note('executed')
    V = check.validate('WeightsTrace.tla', recs)
    good = []
    cov = check.cov
    for i, v, rec in zip(idx, V, recs):
        n = sum(int(x.split()[1]) for x in v if x.startswith('determined'))
        v = [x for x in v if not x.startswith('determined')]
        cov['traces_validated_against_impl'] += 1
        cov['cells'] = cov.get('cells', 0) + len(rec['tgt'])
        cov['cells_determined'] = cov.get('cells_determined', 0) + n
        m = cov.setdefault('methods', {})
        m[rec['mode']] = m.get(rec['mode'], 0) + 1
        if set(v) & CLAUSES:
            check.violation(v, dict(scenario=S[i][0], concretisation=S[i][1], again=S[i][2], observed=R[i][1]))
        elif n:
            good.append(rec)
            check.sample(dict(method=S[i][0]['method'], options=S[i][0].get('cddopt'), target=S[i][0]['tgt'], concretisation=S[i][1], observed=rec['maps'][0][:8]))
    bad = [c for c in (corrupted(check.r, rec) for rec in good[:20]) if c]
    V = check.validate('WeightsTrace.tla', bad)
    if any(not set(v) & CLAUSES for v in V):
        raise tlc.MachineryError('corrupted observation accepted')
    cov['corrupted_traces_rejected'] += len(bad)


def run(check):
    check.modelcheck('WeightsMC.tla', 'WeightsMC_%s.cfg' % ('quick' if check.quick else 'thorough'))
    check.mustfail('WeightsMC.tla', 'WeightsMC_directions.cfg', 'Shielding')
    S = []
    for _ in range(300 if check.quick else 4000):
        sc = gen(check.r)
        S.append((sc, concretisation(check.r, sc), check.r.random() < .2))
    judge(check, S)
    check.assumptions += ['fixed point arithmetic: weights are compared to about one hundredth of the range of the neighbours',
                          'cells where a choice of the method is not determined (ties, distances equal to radiuses, targets on source points) are only bounded']


def replay(check, d):
    judge(check, [(d['scenario'], d['concretisation'], d['again'])])
