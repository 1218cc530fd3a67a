"""P01-P08: executions validated against Pipeline.tla"""
import copy
import json
import re
import subprocess

import families
import interp
import scen
import tlc

# model checking configurations, number of random scenarios (quick, thorough), clauses that decide the property
ALL = {'exitcode', 'written', 'count', 'labels', 'shape', 'made', 'lost', 'values', 'execution'}
PLAN = {
    'P01': dict(mc=['SelectMC'], sim=['PipelineMC_inst'], n=(700, 9000), clauses=ALL),
    'P02': dict(mc=['PipelineMC_acc'], n=(650, 9000), clauses=ALL),
    'P03': dict(mc=['PipelineMC_avg'], n=(750, 9000), clauses=ALL),
    'P04': dict(mc=['PipelineMC_inst'], n=(700, 9000), clauses=ALL),
    'P05': dict(mc=['PipelineMC_two'], n=(650, 9000), clauses=ALL),
    'P06': dict(mc=['PipelineMC_acc', 'PipelineMC_avg'], n=(450, 8000), clauses={'made', 'lost', 'execution', 'exitcode'}, interp=(130, 3000)),
    'P07': dict(mc=['PipelineMC_conv'], n=(650, 9000), clauses=ALL),
    'P08': dict(mc=['CorrectMC'], n=(550, 8000), clauses=ALL),
}


def record(sc, conc, obs):
    return dict(sc=scen.abstract(sc), obs=dict(rc=obs['rc'], maps=obs['maps']), tol=2 if conc['format'] == 'netcdf' else 20)


def tile(x):
    """the three cells of model checked scenarios, repeated on the target"""
    n = scen.K // len(x)
    return [v for v in x for _ in range(n)]


def from_model(j):
    """scenario printed by PipelineSim -> harness scenario"""
    c = j['cfg']
    st = (j['msgs'] + j['msgs2'])[-1]['st']
    sn = scen.PARAMS[st][0]
    val = lambda r: None if r[1] == 0 else r[0]
    ms = lambda L: [dict(m, sn=sn, date=20200101, v=tile([val(x) for x in m['v']])) for m in L]
    cv = c['conv']
    cf = scen.cfg(sn=sn, st=st, tstart=c['tstart'], tend=c['tend'], agg=c['agg'], step=c['step'] if c['agg'] != 'none' else 0, half=c['half'],
                  fz=c['fz'], unit=c['unit'], conv=(cv['p'], cv['q'], cv['c']) if cv['on'] else None, cut=c['cut'], two=c['two'])
    s = families.base()
    s.update(cfg=cf, msgs=ms(j['msgs']), msgs2=ms(j['msgs2']))
    return s


def simulate(check, configs, n):
    """n scenarios generated by TLC from the model checked configurations"""
    out = []
    for cfgname in configs:
        if not cfgname.startswith('PipelineMC'):
            continue
        import os
        with open(os.path.join(tlc.SPEC, cfgname + '_quick.cfg')) as f:
            t = f.read()
        t = t.replace('SPECIFICATION Spec', 'SPECIFICATION SimSpec')
        t = re.sub(r'INVARIANTS.*\n', '', t)
        path = os.path.join(check.root, 'sim.cfg')
        with open(path, 'w') as f:
            f.write(t)
        rc, o = tlc._java(check.root, ['-noGenerateSpecTE', '-workers', '1', '-simulate', 'num=%d' % n, '-depth', '12', '-seed',
                                       str(check.r.randint(1, 10 ** 6)), '-config', path, 'PipelineSim.tla'], 300, '4g')
        S = [json.loads(json.loads('"%s"' % m.group(1))) for m in re.finditer(r'^"SCENARIO (.*)"$', o, re.M)]
        if not S and n:
            raise tlc.MachineryError('no scenarios from TLC: ' + o[-2000:])
        out += S[:n]
    return out


def corrupted(r, rec):
    """a changed observation: must be rejected"""
    x = copy.deepcopy(rec)
    m = x['obs']['maps']
    k = r.randrange(len(m))
    kind = r.choice(['value', 'drop', 'dup', 'missing', 'label', 'rc'])
    if kind == 'value':
        c = [i for i, v in enumerate(m[k]['cells']) if v != scen.MISS]
        if not c:
            return None
        m[k]['cells'][r.choice(c)] += r.choice([-1, 1]) * r.choice([60, 1000, 77777])
    elif kind == 'drop':
        del m[k]
    elif kind == 'dup':
        m.insert(k, copy.deepcopy(m[k]))
    elif kind == 'missing':
        i = r.randrange(scen.K)
        m[k]['cells'][i] = 5000 if m[k]['cells'][i] == scen.MISS else scen.MISS
    elif kind == 'label':
        if m[k]['e'] == -1:
            return None
        m[k]['e'] += 1
    else:
        x['obs']['rc'] = 1
    return x


def run(check):
    plan = PLAN[check.pid]
    tier = 'quick' if check.quick else 'thorough'
    fam = getattr(families, check.pid.lower())
    for m in plan['mc']:
        check.modelcheck(m.split('_')[0] + '.tla', '%s_%s.cfg' % (m, tier))
    S = [fam(check.r) for _ in range(plan['n'][0 if check.quick else 1])]
    sim = simulate(check, plan.get('sim', plan['mc']), 60 if check.quick else 600)
    fromsim = []
    for j in sim:
        s = from_model(j)
        fromsim.append(len(S))
        conc = families.conc_of(check.r)
        S.append((s, conc))
    check.cov['scenarios_generated_by_tlc'] = len(fromsim)
    judge(check, S, plan['clauses'])
    if plan.get('interp'):
        # sources with missing values interpolated with all the methods
        interp.judge(check, [with_missing(check.r) for _ in range(plan['interp'][0 if check.quick else 1])], INTERP)
    check.assumptions += ['targets lie on source points (nearest interpolation): other interpolations are the subject of P09',
                          'values are small integers, exactly packed in GRIB; tolerance 2e-3 (netCDF), 2e-2 (PCRaster)']


INTERP = {'made', 'lost', 'values', 'execution', 'exitcode'}


def with_missing(r):
    s = interp.gen(r, missing=1.)
    return s, dict(format=r.choice(['netcdf', 'netcdf', 'pcraster']), parallel=r.random() < .1, mvval=r.choice([9999., 9999., -9999., 1e6])), None, []


def judge(check, S, clauses):
    check.note('%d scenarios' % len(S))
    R = check.lab.run([(scen.execute, x) for x in S])
    check.cov['evaluations'] += len(S)
    recs, idx = [], []
    for i, (st, x) in enumerate(R):
        if st == 'ok':
            recs.append(record(*S[i], x))
            idx.append(i)
        else:
            check.violation(['execution'], dict(scenario=S[i][0], concretisation=S[i][1], error=x))
    V = check.validate('PipelineTrace.tla', recs)
    good = []
    for i, v, rec in zip(idx, V, recs):
        if v == ['unspecified']:
            check.cov['unspecified'] += 1
            continue
        check.cov['traces_validated_against_impl'] += 1
        if set(v) & clauses:
            check.violation(v, dict(scenario=S[i][0], concretisation=S[i][1], observed=R[i][1]))
        elif not v and rec['obs']['maps']:
            good.append(rec)
            check.sample(dict(cfg=S[i][0]['cfg'], concretisation=S[i][1], steps=[(m['s'], m['e'], m['res']) for m in S[i][0]['msgs'] + S[i][0]['msgs2']],
                              observed=dict(rc=R[i][1]['rc'], steps=[m['e'] for m in R[i][1]['maps']], first=R[i][1]['maps'][0]['cells'][:4])))
    bad = [c for c in (corrupted(check.r, rec) for rec in good[:60]) if c]
    V = check.validate('PipelineTrace.tla', bad)
    if any(v == [] for v in V):
        raise tlc.MachineryError('corrupted observation accepted')
    check.cov['corrupted_traces_rejected'] += len(bad)


def replay(check, detail):
    if 'scenario2' in detail:
        return interp.judge(check, [(detail['scenario'], detail['concretisation'], detail['scenario2'], detail['perm'])], INTERP)
    S = [(detail['scenario'], detail['concretisation'])]
    judge(check, S, PLAN[check.pid]['clauses'])
