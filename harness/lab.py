"""Runs functions in forked children, each having its own scratch folder as home and working directory.

Heavy third party libraries are loaded once by the parent; pyg2p never is: every child imports it anew from
/repo/src (or from $PYG2P_SRC), so that each job sees a fresh process of the current working tree.
"""
import os
import sys
import pickle
import select
import shutil
import signal
import tempfile
import time
import traceback

REPO = '/repo'
SRC = os.path.join(REPO, 'src')
for k in ('NUMEXPR_NUM_THREADS', 'NUMEXPR_MAX_THREADS', 'OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['DASK_NUM_WORKERS'] = '2'
os.environ['PYTHONWARNINGS'] = 'ignore'
sys.dont_write_bytecode = True


def preload():
    import warnings
    warnings.simplefilter('ignore')
    import numpy, scipy.spatial, scipy.integrate, scipy.optimize, scipy.interpolate, numexpr, netCDF4, eccodes, ujson, numba  # noqa
    try:
        import dask.bag, dask.array, dask.multiprocessing, fsspec  # noqa
    except ImportError:
        pass
    try:
        import pkg_resources, ftplib, plistlib, pyexpat, xml.parsers.expat, argparse, logging.config, importlib.metadata  # noqa
    except ImportError:
        pass
    from osgeo import gdal
    gdal.UseExceptions()
    warm()
    import gc
    gc.collect()
    gc.freeze()


def warm():
    """first use of ecCodes and GDAL: definitions and drivers are loaded once by the parent"""
    import fields
    import eccodes as ec
    import numpy as np
    d = tempfile.mkdtemp(prefix='vfwarm')
    p = os.path.join(d, 'x.grib')
    try:
        with open(p, 'wb') as f:
            for st in ('instant', 'accum', 'avg'):
                for sn in ('2t', 'sp', 'tp', 'z', 'avg_tprate'):
                    for mem in (None, 1):
                        mv = np.zeros((3, 4), bool)
                        mv[0, 0] = True
                        try:
                            fields.msg(f, np.arange(12.).reshape(3, 4), step='3' if st == 'instant' else '0-3', steptype=st, sn=sn, member=mem, mv=mv)
                        except Exception:
                            pass
        with open(p, 'rb') as f:
            while True:
                g = ec.codes_grib_new_from_file(f)
                if g is None:
                    break
                for k in ('shortName', 'gridType', 'stepType', 'units', 'name', 'stepRange', 'typeOfLevel'):
                    try:
                        ec.codes_get_string(g, k)
                    except Exception:
                        pass
                for k in ('startStep', 'endStep', 'perturbationNumber', 'level', 'dataDate', 'dataTime', 'stepUnits'):
                    try:
                        ec.codes_get_long(g, k)
                    except Exception:
                        pass
                ec.codes_get_values(g)
                ec.codes_get_array(g, 'latitudes')
                ec.codes_get_array(g, 'longitudes')
                ec.codes_release(g)
        i = ec.codes_index_new_from_file(p, ['shortName', 'perturbationNumber'])
        ec.codes_index_release(i)
        fields.pcr(os.path.join(d, 'x.map'), np.zeros((3, 4)))
        fields.readpcr(os.path.join(d, 'x.map'))
        import netCDF4
        ds = netCDF4.Dataset(os.path.join(d, 'x.nc'), 'w')
        ds.createDimension('x', 3)
        ds.createVariable('x', 'f8', ('x',), zlib=True)[:] = np.zeros(3)
        ds.close()
        netCDF4.Dataset(os.path.join(d, 'x.nc')).close()
    finally:
        shutil.rmtree(d, ignore_errors=True)


class JobError(Exception):
    pass


class Lab:
    """scratch: folder of the check, removed at the end"""

    def __init__(self, name, workers=8):
        self.root = tempfile.mkdtemp(prefix='vf_%s_' % name)
        self.workers = workers
        self.numba = os.path.join(self.root, 'numba')
        os.makedirs(self.numba)
        os.environ['NUMBA_CACHE_DIR'] = self.numba
        self.conf = os.path.join(self.root, 'configuration')
        shutil.copytree(os.path.join(REPO, 'configuration'), self.conf)
        self.pyc = os.path.join(self.root, 'pyc')
        self.n = 0
        preload()

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def folder(self, tag='j'):
        self.n += 1
        d = os.path.join(self.root, '%s%d' % (tag, self.n))
        os.makedirs(d)
        return d

    def home(self, d):
        """prepares d as home of a user having a configured installation"""
        for s in ('.pyg2p', 'it', 'geo'):
            os.makedirs(os.path.join(d, s), exist_ok=True)
        with open(os.path.join(d, '.pyg2p', 'u.conf'), 'w') as f:
            f.write('INTERTABLES=%s/it\nGEOPOTENTIALS=%s/geo\n' % (d, d))
        if not os.path.exists(os.path.join(d, 'configuration')):
            shutil.copytree(self.conf, os.path.join(d, 'configuration'))
        return d

    def start(self, fn, d, args=(), cleanup=False):
        """forks a child running fn(*args) in folder d"""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                os.close(r)
                log = os.open(os.path.join(d, 'log.txt'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(log, 1)
                os.dup2(log, 2)
                os.chdir(d)
                os.environ['HOME'] = d
                sys.path.insert(0, SRC)
                sys.setrecursionlimit(3000)
                if self.pyc:
                    sys.dont_write_bytecode = False
                    sys.pycache_prefix = self.pyc
                try:
                    res = ('ok', fn(*args))
                except BaseException as e:
                    res = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))
                data = pickle.dumps(res)
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                try:
                    sys.stdout.flush()
                except BaseException:
                    pass
                os._exit(0)
        os.close(w)
        return pid, r

    def run(self, jobs, timeout=60, cleanup=True):
        """jobs: list of (fn, args) or (fn, args, folder). Returns list of (status, value); status in ok, error, timeout, died"""
        out = [None] * len(jobs)
        run = {}
        k = 0
        while k < len(jobs) or run:
            while k < len(jobs) and len(run) < self.workers:
                fn, args = jobs[k][:2]
                own = len(jobs[k]) < 3
                d = self.folder() if own else jobs[k][2]
                if own:
                    self.home(d)
                pid, r = self.start(fn, d, args)
                run[r] = [k, pid, b'', time.time() + timeout, d, own]
                k += 1
            ready, _, _ = select.select(list(run), [], [], 0.5)
            for r in list(run):
                k_, pid, buf, lim, d, own = run[r]
                if r in ready:
                    chunk = os.read(r, 1 << 16)
                    if chunk:
                        run[r][2] = buf + chunk
                        continue
                    os.close(r)
                    del run[r]
                    self._reap(pid)
                    try:
                        out[k_] = pickle.loads(buf)
                    except Exception:
                        out[k_] = ('died', self.log(d))
                elif time.time() > lim:
                    os.close(r)
                    del run[r]
                    self._reap(pid, True)
                    out[k_] = ('timeout', self.log(d))
                else:
                    continue
                if own and cleanup:
                    shutil.rmtree(d, ignore_errors=True)
        return out

    @staticmethod
    def _reap(pid, kill=True):
        if kill:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass

    @staticmethod
    def log(d):
        try:
            with open(os.path.join(d, 'log.txt'), errors='replace') as f:
                return f.read()[-2000:]
        except OSError:
            return ''
