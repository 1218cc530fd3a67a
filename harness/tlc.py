"""TLC: exhaustive model checking and evaluation of recorded executions."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    pass


def _java(root, args, timeout, heap):
    d = tempfile.mkdtemp(prefix='tlc', dir=root)
    e = dict(os.environ)
    jo = ['-Xmx%s' % heap, '-Xss16m', '-Djava.io.tmpdir=%s' % d]
    cmd = ['tlc'] + args
    e['_JAVA_OPTIONS'] = ' '.join(jo)
    try:
        p = subprocess.run(cmd + ['-metadir', os.path.join(d, 'states')], cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p.returncode, p.stdout


def modelcheck(root, module, config, timeout=800, heap='12g', workers=8):
    """exhaustive exploration; returns dict(states, distinct, ok, output)"""
    rc, out = _java(root, ['-noGenerateSpecTE', '-workers', str(workers), '-config', config, module], timeout, heap)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    ok = 'No error has been found' in out and m and m.group(3) == '0'
    inits = re.search(r'Finished computing initial states: (\d+) (?:distinct )?states? generated(?:, with (\d+))?', out)
    return dict(module=module, config=config, ok=bool(ok), transitions=int(m.group(1)) if m else 0, states=int(m.group(2)) if m else 0,
                inits=int((inits.group(2) or inits.group(1))) if inits else 0, broken=re.findall(r'(?:Invariant|property) (\w+) is violated|Action property (\w+)', out), output=out[-6000:])


def validate(root, module, records, timeout=600, heap='8g', workers=8, config=None, env=()):
    """evaluates records (list of dicts) with the trace specification; returns list of verdicts (one for each record)

    Verdicts are printed by TLC as <<"VERDICT", i, <<clauses>> >>; every record must have exactly one."""
    if not records:
        return [], dict(states=0, transitions=0)
    fd, path = tempfile.mkstemp(prefix='trace', suffix='.ndjson', dir=root)
    with os.fdopen(fd, 'w') as f:
        for r in records:
            f.write(json.dumps(r) + '\n')
    os.environ['TRACE'] = path
    try:
        rc, out = _java(root, ['-noGenerateSpecTE', '-workers', str(workers), '-deadlock', '-config', config or module.replace('.tla', '.cfg'), module], timeout, heap)
    finally:
        os.unlink(path)
    res = {}
    for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*(<<.*?>>|\{.*?\}|"\w+")\s*>>', out, re.S):
        i = int(m.group(1))
        cl = re.findall(r'"([^"]*)"', m.group(2))
        res.setdefault(i, set()).add(tuple(sorted(cl)))
    if 'No error has been found' not in out or sorted(res) != list(range(1, len(records) + 1)) or any(len(v) != 1 for v in res.values()):
        raise MachineryError('trace evaluation of %s incomplete: %d verdicts for %d records\n%s' % (module, len(res), len(records), out[-3000:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return [list(next(iter(res[i]))) for i in range(1, len(records) + 1)], dict(states=int(m.group(2)), transitions=int(m.group(1)))
