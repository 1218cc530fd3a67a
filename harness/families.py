"""Random scenarios of Pipeline.tla, one family for each property. Each returns (scenario, concretisation)."""
import scen
from scen import K, cfg, message

BIG = 150


def field(r, miss=0., lo=-BIG, hi=BIG):
    return [None if r.random() < miss else r.randint(lo, hi) for _ in range(K)]


def cum_fields(r, n, miss=0., monotone=True):
    """cumulated fields (not always increasing: real ones are not, for fluxes)"""
    v = [r.randint(0, 20) for _ in range(K)]
    out = []
    for _ in range(n):
        v = [min(BIG * 4, x + r.randint(0, 30)) if monotone else r.randint(-BIG, BIG) for x in v]
        out.append([None if r.random() < miss else x for x in v])
    return out


def base(**kw):
    s = dict(cfg=cfg(**kw), msgs=[], msgs2=[], clone=[True] * K, dem=[0] * K, geo=[None, None])
    return s


def steps(r, lo=0, hi=48, n=(2, 8), kind=None):
    """end steps available in the input"""
    kind = kind or r.choice(['regular', 'regular', 'regular', 'irregular', 'holes', 'late'])
    d = r.choice([1, 2, 3, 6])
    k = r.randint(*n)
    if kind == 'irregular':
        return sorted(r.sample(range(lo, hi + 1), min(k, hi - lo + 1)))
    first = 0 if kind == 'regular' and r.random() < .5 else d
    if kind == 'late':
        first = d * r.randint(1, 4)
    S = [first + d * i for i in range(k)]
    if kind == 'holes' and len(S) > 3:
        S = [x for i, x in enumerate(S) if i in (0, len(S) - 1) or r.random() < .6]
    return S


def start_of(st, S, i):
    return 0 if st == 'accum' else S[i] if st == 'instant' else (S[i - 1] if i else 0)


def series(r, S, st, sn, fields, **kw):
    return [message(sn, start_of(st, S, i), e, st, fields[i], **kw) for i, e in enumerate(S)]


def shuffle(r, ms, p=.5):
    """changes the order of messages, keeping the resolution of the first one (order of files is kept by resolution)"""
    if r.random() < p:
        r.shuffle(ms)
    return ms


def period(r, c, S, agg_needs=True):
    """requested start and end steps"""
    end = max(S)
    if r.random() < .5:
        c['tend'] = end if r.random() < .5 else r.randint(end // 2, end)
    e = c['tend'] if c['tend'] != -1 else end
    x = r.random()
    if x < .4:
        pass
    elif x < .5:
        c['tstart'] = 0
    else:
        lo = c['step'] if c['agg'] in ('accumulation', 'average') else 0
        if lo <= e:
            c['tstart'] = r.randint(lo, e)
            if r.random() < .6 and lo:
                c['tstart'] = min(e, lo * max(1, c['tstart'] // lo))
    return c


def conc_of(r):
    x = dict(format=r.choice(['netcdf', 'netcdf', 'pcraster']), numeric=r.random() < .5, bitmap=r.random() < .3,
             cli=[k for k in ('tstart', 'tend', 'mem', 'date') if r.random() < .5], mvval=r.choice([9999., 9999., 9999., -9999., 1e6]))
    if r.random() < .2:
        # netCDF target
        x['target'] = dict(up=r.random() < .4, coords=r.random() < .7, names=r.choice([('lat', 'lon'), ('y', 'x')]),
                           fill=r.choice(['nan', 'nan', 'number', 'integer' if x['format'] == 'netcdf' else 'number', 'none']))
    return x


def add_time_cli(c, conc, r):
    if c['time'] in (0, 12) and r.random() < .5:
        conc['cli'] = conc['cli'] + ['time']


def p01(r):
    """selection: several short names, members, levels, dates, times and steps, shuffled"""
    st = r.choice(['instant', 'instant', 'accum', 'avg'])
    sn, other, third = scen.PARAMS[st]
    c = cfg(sn=sn, st=st, agg=r.choice({'instant': ['none', 'none', 'average', 'instantaneous'], 'accum': ['none', 'accumulation'],
                                       'avg': ['none', 'average']}[st]))
    S = steps(r, n=(1, 5))
    if c['agg'] != 'none':
        c['step'] = r.choice([1, 2, 3, 6])
    sel = [k for k in ('mem', 'lvl', 'date', 'time') if r.random() < .4]
    vals = dict(mem=[1, 2, 50, 0], lvl=[0, 0, 5, 1000], date=[20200101, 20191231], time=[0, 12, 6, 18])
    mine = dict(mem=-1, lvl=0, date=20200101, time=0)
    for k in sel:
        mine[k] = r.choice(vals[k])
        c[k] = mine[k]
    period(r, c, S)
    msgs = series(r, S, st, sn, [field(r) for _ in S], **mine)
    if 'lvl' in sel and c['lvl'] == 0:
        pass
    # other messages of the same parameter differing by a requested selector
    for k in sel:
        others = sorted(set(vals[k]) - {mine[k]})
        for alt in r.sample(others, min(len(others), r.choice([0, 1, 1, 2]) if len(others) > 1 else r.randint(0, 1))):
            kw = dict(mine)
            kw[k] = alt
            S2 = r.choice([S, S, steps(r, n=(1, 4))])
            msgs += series(r, S2, st, sn, [field(r) for _ in S2], **kw)
    # other parameters
    for o in (other, third):
        if r.random() < .4:
            S2 = r.choice([S, steps(r, n=(1, 4))])
            msgs += series(r, S2, st, o, [field(r) for _ in S2], **mine)
    if r.random() < .06:
        c['sn'] = third if r.random() < .5 else 'lsp'
    if r.random() < .5:
        r.shuffle(msgs)
    s = base()
    s['cfg'] = c
    s['msgs'] = msgs
    conc = conc_of(r)
    add_time_cli(c, conc, r)
    return s, conc


def p02(r):
    st = 'accum' if r.random() < .85 else 'instant'
    sn = scen.PARAMS[st][0]
    S = steps(r)
    c = cfg(sn=sn, st=st, agg='accumulation', step=r.choice([1, 2, 3, 6, 12, 24]), unit=r.choice([24, 24, 1, 6, 12]), fz=r.random() < .3)
    if c['step'] > max(S):
        c['step'] = r.choice([1, 2, 3])
    period(r, c, S)
    s = base()
    s['cfg'] = c
    s['msgs'] = shuffle(r, series(r, S, st, sn, cum_fields(r, len(S), monotone=r.random() < .6)))
    return s, conc_of(r)


def p03(r):
    st = r.choice(['instant', 'avg', 'avg']) if r.random() < .93 else 'accum'
    sn = scen.PARAMS[st][0]
    S = steps(r)
    c = cfg(sn=sn, st=st, agg='average', step=r.choice([1, 2, 3, 6, 12]), half=r.random() < .4)
    if c['step'] > max(S):
        c['step'] = r.choice([1, 2, 3])
    if c['half'] and len(S) > 1 and r.random() < .8:
        # windows having at least two messages
        d = S[1] - S[0]
        c['step'] = d * r.choice([1, 2, 2, 3])
        S = list(range(r.choice([0, 0, S[0]]), max(S) + 1, d))
    period(r, c, S)
    s = base()
    s['cfg'] = c
    s['msgs'] = shuffle(r, series(r, S, st, sn, [field(r) for _ in S]))
    return s, conc_of(r)


def p04(r):
    agg = r.choice(['none', 'instantaneous', 'instantaneous'])
    st = r.choice(['instant', 'avg'] + (['accum'] if agg == 'none' else []))
    sn = scen.PARAMS[st][0]
    S = steps(r, n=(1, 9))
    c = cfg(sn=sn, st=st, agg=agg, step=r.choice([1, 2, 3, 6, 12]) if agg != 'none' else 0)
    period(r, c, S)
    s = base()
    s['cfg'] = c
    s['msgs'] = shuffle(r, series(r, S, st, sn, [field(r) for _ in S]))
    return s, conc_of(r)


def p05(r):
    st = r.choice(['instant', 'instant', 'accum', 'accum'])
    sn = scen.PARAMS[st][0]
    agg = r.choice({'instant': ['average', 'average', 'instantaneous', 'none'], 'accum': ['accumulation', 'accumulation', 'none']}[st])
    stp = r.choice([1, 2, 3, 6])
    d = r.choice([x for x in (1, 2, 3, 6) if stp % x == 0 or r.random() < .2])
    nsw = r.randint(1, 4)
    start = 0
    c = cfg(sn=sn, st=st, agg=agg, step=0 if agg == 'none' else stp, half=agg == 'average' and r.random() < .3, fz=agg == 'accumulation' and r.random() < .2,
            unit=r.choice([24, 1, 6]))
    if r.random() < .35:
        start = stp * r.randint(1, 2)
        c['tstart'] = start
    change = start + nsw * stp
    S1 = [x for x in range(0, change + 1, d)]
    if change not in S1:
        S1.append(change)
    d2 = r.choice([d, d, stp, 1])
    S2 = [change + d2 * i for i in range(r.randint(1, 5))]
    if r.random() < .3 and 0 in S1 and len(S1) > 1:
        S1.remove(0)
    c['two'] = r.random() < .6
    inorder = not c['two'] or r.random() < .5
    A = series(r, S1, st, sn, cum_fields(r, len(S1)) if st == 'accum' else [field(r) for _ in S1], res=1)
    B = series(r, S2, st, sn, cum_fields(r, len(S2)) if st == 'accum' else [field(r) for _ in S2], res=2)
    if c['two'] and r.random() < .3:
        # the first file continues after the change
        X = [change + d * i for i in range(1, 3)]
        A += series(r, X, st, sn, [field(r) for _ in X], res=1)
    last = max(S2)
    x = r.random()
    if c['two']:
        c['tend'] = last if x < .8 else r.randint(change, last)   # the end step is the one of the first file otherwise
        if c['tend'] < change:
            c['tend'] = last
    elif x < .4:
        c['tend'] = r.randint(change, last)
    if not inorder:
        r.shuffle(A)
        r.shuffle(B)
    s = base()
    s['cfg'] = c
    if c['two']:
        s['msgs'], s['msgs2'] = A, B
    else:
        s['msgs'] = A + B
    return s, conc_of(r)


def p06(r):
    """missing values: pick any other family and add masks"""
    fam = r.choice([p02, p03, p03, p04, p05, p08])
    s, conc = fam(r)
    kind = r.choice(['each', 'each', 'same', 'last', 'first', 'column'])
    ms = s['msgs'] + s['msgs2']
    same = [r.random() < .3 for _ in range(K)]
    for i, m in enumerate(ms):
        for k in range(K):
            hit = {'each': r.random() < .2, 'same': same[k], 'last': i == len(ms) - 1 and same[k], 'first': i == 0 and same[k],
                   'column': same[k] and r.random() < .5}[kind]
            if hit:
                m['v'][k] = None
    if r.random() < .5:
        s['clone'] = [r.random() > .2 for _ in range(K)]
    if not s['cfg']['conv'] and r.random() < .5:
        s['cfg']['conv'] = r.choice([(0, 2, 0), (0, 1, -100), (0, 1, 50), (1, 0, 3), (0, 0, 7)])
        s['cfg']['cut'] = r.random() < .6
    if s['cfg']['corr']:
        # source grids are identified also by the number of values not missing
        n = r.randint(0, 3)
        fields = [m['v'] for m in ms] + s['geo']
        for v in fields:
            if v:
                for k in range(K):
                    if v[k] is None:
                        v[k] = 1
                for k in r.sample(range(K), n):
                    v[k] = None
        s['dem'] = [None if r.random() < .2 else x for x in s['dem']]
    return s, conc


def p07(r):
    fam = r.choice([p02, p03, p04, p04, p05])
    s, conc = fam(r)
    s['cfg']['conv'] = r.choice([(0, 1, 0), (0, 1, -20), (0, 1, 33), (0, 3, 0), (0, -1, 0), (0, 2, -7), (1, -2, 1), (1, 0, 0), (-1, 0, 0)])
    s['cfg']['cut'] = r.random() < .5
    x = r.random()
    conc['singleconv'] = x < .5
    # (booleans can be texts)
    conc['cuttext'] = (x * 64) % 1 < .3
    conc['function'] = r.choice([None, None, 'where', 'equal', 'pieces', 'decimals', 'spaces'])
    for m in s['msgs'] + s['msgs2']:
        m['v'] = [None if r.random() < .05 else x if x is None else max(-50, min(50, x)) for x in m['v']]
    return s, conc


def p08(r):
    if r.random() < .4:
        s, conc = p05(r)
    else:
        s, conc = r.choice([p03, p04, p04])(r)
    for m in s['msgs'] + s['msgs2']:
        m['v'] = [x and max(-60, min(60, x)) for x in m['v']]
    s['cfg']['corr'] = r.choice([(1, 1, -1, 10, 0), (1, 1, -1, 1, 0), (2, 3, 1, 2, 5), (1, -1, 1, 10, 7), (1, 2, 0, 1, 0), (0, 1, 1, 1, 0)])
    s['dem'] = [r.randint(-50, 300) for _ in range(K)]
    s['geo'] = [[r.randint(-300, 900) for _ in range(K)], [r.randint(-300, 900) for _ in range(K)]]
    x = r.random()
    if x < .08:
        s['geo'][0] = None
    elif x < .12:
        s['geo'][1] = None
    if r.random() < .4:
        s['dem'] = [None if r.random() < .2 else x for x in s['dem']]
    conc['geo'] = r.choice(['registered', 'registered', 'infile'])
    if r.random() < .4:
        conc['decoys'] = r.sample(['shift', 'first', 'last', 'ni', 'nj'], r.choice([1, 1, 2, 5]))
        conc['decoys_last'] = r.random() < .5
    if r.random() < .3:
        member_of(r, s)
    return s, conc


def member_of(r, s):
    """messages of an ensemble member, with and without messages of another one"""
    c = s['cfg']
    c['mem'] = r.choice([0, 1, 7, 50])
    for ms in ('msgs', 'msgs2'):
        for m in s[ms]:
            m['mem'] = c['mem']
        if s[ms] and not c['two'] and r.random() < .5:
            s[ms].insert(r.randint(0, len(s[ms])), dict(r.choice(s[ms]), mem=c['mem'] + 1, v=field(r, lo=-60, hi=60)))
