"""Shared machinery of the drivers (run with /opt/venv/bin/python, JIT off)."""
import os, sys, json, signal, time, traceback, math, io, contextlib, random
os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
REPO = os.environ.get('LOM_REPO', '/repo')
sys.path.insert(0, REPO)
import warnings
warnings.filterwarnings('ignore')
import numpy as np
np.seterr(all='ignore')
import lom                                    # noqa: E402
import lom.auxiliary_functions as aux         # noqa: E402
import lom.machine as lmachine                # noqa: E402
import lom._numba.lambda_updates_numba as lupd  # noqa: E402
import forkrng                                # noqa: E402

assert os.path.realpath(lom.__file__).startswith(os.path.realpath(REPO) + os.sep), lom.__file__

CLANS = ['OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-AND', 'XOR-XOR', 'XOR-NXOR', 'XOR-NAND']
OPS = ['AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR']
ALL36 = [a + '-' + b for a in OPS for b in OPS]
MICRO = 1000000


class Timeout(BaseException):
    pass


class Quiet:
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = self

    def __exit__(self, *a):
        sys.stdout = self.o

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def quiet(fn, *a, **k):
    with Quiet():
        return fn(*a, **k)


def op(model):
    a, b = model.split('-')[:2]
    return {'o': a, 'i': b}


def ints(a):
    """nested list of exact ints; a non-integral entry becomes the marker 99"""
    a = np.asarray(a)
    if a.dtype == object:
        a = a.astype(float)
    if a.dtype.kind == 'f':
        b = np.where(np.isfinite(a) & (a == np.round(a)) & (np.abs(a) < 1e9), a, 99)
        return b.astype(int).tolist()
    return a.astype(int).tolist()


def scaled(a, unit=MICRO, lim=2000000000):
    """float(s) -> nested ints in 1/unit; nan -> lim+1, overflow clipped"""
    a = np.asarray(a, dtype=float)
    b = np.where(np.isnan(a), lim + 1, np.clip(a * unit, -lim, lim))
    return np.round(b).astype(int).tolist()


def pm(rng, *shape):
    return (2 * rng.integers(0, 2, size=shape) - 1).astype(np.int8)


def data(rng, shape, pmiss=0.0):
    x = pm(rng, *shape)
    if pmiss > 0:
        x[rng.random(shape) < pmiss] = 0
    return x


OPF = dict(AND=lambda v: all(v), NAND=lambda v: not all(v), OR=lambda v: any(v), NOR=lambda v: not any(v),
           XOR=lambda v: sum(v) == 1, NXOR=lambda v: sum(v) != 1)
WIDTHS = [9, 17, 33, 65, 129, 257, 258, 260]       # just beyond 8, 16, ... 256 dimensions


def spread(rng, n, k):
    """k positions out of n, the last one among them, others anywhere"""
    return sorted({n - 1} | {int(v) for v in rng.integers(0, n, size=k - 1)})


def hot(rng, model, rows, L, k=3, full=None):
    """factors with many dimensions of which few matter: all dimensions but k are alike in
    all rows and neutral for the outer operator (or, if full, the opposite)"""
    o, i = model.split('-')[:2]
    full = rng.random() < (.4 if 'XOR' in o else .1) if full is None else full
    want = (o in ('NAND', 'AND')) != full
    K = len(rows)
    back = [v for v in np.ndindex(*(2,) * K) if OPF[i](v) == want]
    at = spread(rng, L, min(k, L))
    f = [np.empty((n, L), dtype=np.int8) for n in rows]
    for l in range(L):
        v = back[int(rng.integers(0, len(back)))]
        for j in range(K):
            f[j][:, l] = 2 * v[j] - 1 if l not in at else pm(rng, rows[j])
    return f, at


# ---------------------------------------------------------------- machines
def build(x, model, L, fixed=True):
    m = lom.Machine()
    d = m.add_matrix(val=x, fixed=fixed)
    lay = m.add_layer(latent_size=L, child=d, model=model)
    return m, d, lay


ONE = dict(no_samples=1, burn_in_min=0, burn_in_max=0)


def one_iteration(machine):
    """one sampling iteration of every member that is not fixed"""
    machine.infer(**ONE)


def site_logodds(machine, mat, idx, iterate=None, reset=None):
    """(up, down, same): P(entry becomes 1 | it is -1), P(entry becomes -1 | it is 1) in one
    iteration in which that entry is the only free one (everything else is flagged fixed
    by the caller). `reset` restores what else an iteration may change."""
    base = mat.val.copy()
    res = {}
    it = iterate or (lambda: one_iteration(machine))
    for z in (-1, 1):
        def run():
            v = base.copy()
            v[idx] = z
            mat.val = v.copy()
            if reset:
                reset()
            it()
            out = np.asarray(mat.val)
            if out.shape != v.shape:
                return (99, False)
            w = out.copy()
            w[idx] = z
            return (int(out[idx]), bool(np.array_equal(w, v)))
        try:
            outcomes = forkrng.paths(run, stop=lambda r: not r[1])
        except forkrng.Unsupported:
            outcomes = forkrng.threshold(run)
        tot, ok, flip = 0.0, True, 0.0
        for p, (o, same) in outcomes:
            tot += p
            ok = ok and same
            if o == -z:
                flip += p
            elif o != z:
                ok = False
        if abs(tot - 1) > 1e-9:
            ok = False
        res[z] = (flip, ok)
    mat.val = base
    if reset:
        reset()
    return res[-1][0], res[1][0], res[-1][1] and res[1][1]


def logodds_micro(up, dn):
    if up != up or dn != dn:
        return 2000000001
    if up <= 0 and dn <= 0:
        return 2000000002          # never moves
    if up <= 0:
        return -2000000000
    if dn <= 0:
        return 2000000000
    return int(round((math.log(up) - math.log(dn)) * MICRO))


# ---------------------------------------------------------------- running jobs
def guarded(fn, job, limit=60):
    """events of a job; an exception inside the code under test is itself an event"""
    cut = _deadline is not None and _deadline + 30 - time.time() < limit
    if cut:                      # the run is being brought to an end
        limit = max(5, _deadline + 30 - time.time())

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    ev = []
    try:
        try:
            with Quiet():
                fn(job, ev)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Timeout:
            ev.append(dict(op='skip' if cut else 'err', tag=str(job.get('tag', '-')) if isinstance(job, dict) else '-', what='timeout', job=repr(job)[:600]))
        except (forkrng.TooManyPaths, forkrng.Unsupported) as e:
            ev.append(dict(op='skip', what='%s: %s' % (type(e).__name__, str(e)[:200]), job=repr(job)[:600]))
        except BaseException as e:
            tb = traceback.format_exc().strip().splitlines()
            in_lom = [t.strip() for t in tb if '/lom/' in t]
            ev.append(dict(op='err', tag=str(job.get('tag', '-')) if isinstance(job, dict) else '-',
                           what='%s: %s' % (type(e).__name__, str(e)[:200]),
                           at=(in_lom[-1] if in_lom else '')[:200], job=repr(job)[:600],
                           tb=' | '.join(t.strip() for t in tb[-8:])[:1200]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ev


_fn = None
_limit = 60
_deadline = None


def _work(j):
    if _deadline is not None and time.time() > _deadline:
        return [dict(op='skip', what='out of time', job=repr(j)[:300])]
    np.random.seed(12345)
    random.seed(12345)
    return guarded(_fn, j, _limit)


def run_jobs(fn, jobs, procs=None, limit=60, budget=None):
    """budget: seconds after which no further job is started (what is left is reported as not made)"""
    global _fn, _limit, _deadline
    _fn, _limit = fn, limit
    _deadline = None if budget is None else time.time() + budget
    procs = procs or int(os.environ.get('VERIF_PROCS', '8'))
    if procs <= 1 or len(jobs) <= 1:
        for j in jobs:
            yield from _work(j)
        return
    import multiprocessing as mp
    with mp.get_context('fork').Pool(procs) as pool:
        for ev in pool.imap(_work, jobs, chunksize=max(1, min(16, len(jobs) // (procs * 4)))):
            yield from ev


def rng_for(*key):
    s = 0
    for k in key:
        for ch in repr(k):
            s = (s * 1000003 + ord(ch)) & 0xffffffffffff
    return np.random.default_rng(s)
