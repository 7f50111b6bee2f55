"""Histories generated from spec/LomApi.tla by TLC, replayed on a machine."""
import subprocess
import tempfile
import shutil
from common import *

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'spec')


def histories(num, depth, seed, special=1):
    d = tempfile.mkdtemp(prefix='lomgen_')
    try:
        env = dict(os.environ, DEPTH=str(depth), SPECIAL=str(special), JAVA_TOOL_OPTIONS='-Xss32m')
        p = subprocess.run(['tlc', '-workers', '1', '-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(seed),
                            '-metadir', d + '/meta', '-noGenerateSpecTE', '-config', SPEC + '/LomApiGen.cfg', SPEC + '/LomApiGen.tla'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=d, timeout=1500)
        hs = [json.loads(json.loads(l)[8:]) for l in p.stdout.splitlines() if l.startswith('"HISTORY ')]
        if len(hs) < num:
            raise RuntimeError('only %d histories: %s' % (len(hs), p.stdout[-2000:]))
        return hs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def jobs(tier, seed):
    out = []
    for depth, num, special in ((9, 150, 1), (15, 180, 1), (12, 150, 4)) if tier == 'quick' else \
            ((9, 2000, 1), (15, 3000, 1), (30, 600, 1), (12, 2000, 4), (25, 400, 4)):
        out += [dict(tag='history', h=h, r=r, seed=seed) for r, h in enumerate(histories(num, depth, 1000 * seed + depth, special))]
    return out


def rows(a):
    a = np.asarray(a)
    return ints(a.reshape(a.shape[0], int(np.prod(a.shape[1:]))))


class Replay:
    def __init__(self, rng):
        self.rng = rng
        self.mc = lom.Machine()
        self.mats = []
        self.lays = []

    def mid(self, m):
        for i, x in enumerate(self.mats):
            if x is m:
                return i + 1
        return -1

    def lid(self, l):
        for i, x in enumerate(self.lays):
            if x is l:
                return i + 1
        return 0 if l is None else -1

    def layer(self, a):
        shape = tuple(a['dims'])
        if a['child'] == 0:
            ly = self.mc.add_layer(latent_size=a['L'], shape=shape, model=a['model'])
            self.mats.append(ly.child)
        else:
            ly = self.mc.add_layer(latent_size=a['L'], child=self.mats[a['child'] - 1], model=a['model'])
        self.lays.append(ly)
        self.mats += list(ly.factors)
        if getattr(ly, 'q', None) is not None:
            self.mats.append(ly.q)

    def matrix(self, a):
        shape = tuple(a['dims'])
        mask = (self.rng.random(shape) < .4).astype([np.int8, np.int64, bool][int(self.rng.integers(0, 3))])
        fixed = {'yes': True, 'no': False, 'some': mask}[a['fix']]
        x = data(self.rng, shape, .2)
        a['gmask'] = rows(mask) if a['fix'] == 'some' else rows(np.zeros(shape))
        a['given'] = rows(x)
        if a['how'] == 'shape':
            m = self.mc.add_matrix(shape=shape, fixed=fixed)
        else:
            m = self.mc.add_matrix(val=x.astype({'given': np.int8, 'given64': np.int64, 'float': np.float32}[a['how']]), fixed=fixed)
        self.mats.append(m)
        if self.rng.random() < .5:      # the arrays given stay the caller's, to be used for other things
            mask[...] = 1 - mask.astype(int)

    def do(self, a):
        """the action (with what it was given or returned), and whether it was refused"""
        k = a['a']
        if k == 'matrix':
            self.matrix(a)
        elif k == 'layer':
            self.layer(a)
        elif k == 'fix':
            self.mats[a['m'] - 1].fixed = a['on']
        elif k == 'fixl':
            self.lays[a['l'] - 1].lbda.fixed = a['on']
        elif k == 'mask':
            m = self.mats[a['m'] - 1]
            m.fixed_entries = (self.rng.random(m.val.shape) < .4).astype(np.int8)
        elif k == 'infer':
            self.mc.infer(no_samples=a['n'], convergence_window=2, convergence_eps=1e-2, burn_in_min=a['bmin'],
                          burn_in_max=a['bmax'], print_step=100)
            a['sizes'] = [int(l.size) for l in self.lays]
            a['wide'] = [max(f.trace.shape[2] if hasattr(f, 'trace') else f.val.shape[1] for f in l.factors) for l in self.lays]
        elif k == 'output':
            out = np.asarray(self.lays[a['l'] - 1].output(technique=a['how'], noisy_emission=a['noisy'], lazy=a['lazy'],
                                                          map_to_probabilities=a['prob']), dtype=float)
            a['dims'] = list(out.shape)
            a['out'] = [int(v) if v == v else 99000000 for v in np.round(out.reshape(-1) * MICRO)]
        elif k == 'map':
            m = self.mats[a['m'] - 1]
            if m.model == 'OR-AND-IBP':        # both factors: their sizes go together
                for f in m.layer.factors:
                    f.set_to_map()
            else:
                m.set_to_map()
        elif k == 'auto':
            ly = self.lays[a['l'] - 1]
            ly.auto_clean, ly.auto_reset = a['how'] == 'clean', a['how'] == 'reset'
        elif k == 'refused':
            try:
                if a['what'] == 'nothing':
                    self.mc.add_layer(latent_size=2)
                else:
                    self.mc.add_layer(latent_size=2, child=lom.machine.MachineMatrix(shape=(2, 2)), shape=(2, 2))
            except ValueError:
                return True
        return False

    @staticmethod
    def count(m, tr):
        """how often thresholds had the values 1, .., 5"""
        if m.layer is None or m in m.layer.factors:
            return []
        return [[int(np.sum(tr[:, 0, k] == v)) for v in range(1, 6)] for k in range(tr.shape[2])]

    def shown(self):
        ms = []
        for m in self.mats:
            tr = getattr(m, 'trace', None)
            n = 0 if tr is None else len(tr)
            mean = np.asarray(m.mean(), dtype=float) * max(n, 1)
            near = np.abs(mean - np.round(mean)) < 1e-6
            sib = [self.mid(f) for f in m.siblings] if m.layer is not None else []
            ms.append(dict(dims=[int(v) for v in m.val.shape], lay=self.lid(m.layer), ax=-1 if m.child_axis is None else int(m.child_axis),
                           par=[self.lid(p) for p in m.parents], fix=bool(m.fixed), smp=n, sib=sib, model=str(m.model or 'none').lower() if m.model is None else m.model,
                           val=rows(m()), mask=rows(m.fixed_entries), mean=rows(np.where(near, np.round(mean), 99)),
                           sum=rows(np.sum(tr, axis=0, dtype=int)) if n else [], last=rows(m.sample(n - 1)) if n else [], count=self.count(m, tr) if n else []))
        ls = []
        for l in self.lays:
            tr = getattr(l.lbda, 'trace', None)
            n = 0 if tr is None else len(tr)
            o, _, i = l.model.replace('AND-IBP', 'AND_IBP').partition('-')
            ls.append(dict(child=self.mid(l.child), fac=[self.mid(f) for f in l.factors], iter=[self.mid(f) for f in l],
                           names=[self.mid(getattr(l, 'zuv'[k])) for k in range(min(3, len(l.factors)))],
                           q=self.mid(l.q) if getattr(l, 'q', None) is not None else 0, model=l.model, o=o, i=i, size=[int(l.size), int(l.L)],
                           dim=int(l.dimensionality), repr=repr(l), lfix=bool(l.lbda.fixed), lsmp=n, ns=int(l.no_samples),
                           lam=[int(v) for v in np.atleast_1d(np.round(np.asarray(l.lbda(), dtype=float) * MICRO))],
                           last=[int(v) for v in np.atleast_1d(np.round(np.asarray(l.lbda.sample(n - 1), dtype=float) * MICRO))] if n else [],
                           invd=bool(l.invert_data), invf=bool(l.invert_factors), mach=l.machine is self.mc and l.lbda.layer is l,
                           set='%s %s %s %s %s %s' % (l.auto_clean, l.auto_reset, l.model, l.invert_data, l.invert_factors, l.lbda.beta_prior)))
            ls[-1]['size'] = ls[-1]['size'][0] if len(set(ls[-1]['size'])) == 1 else -1
        return dict(members=[self.mid(m) for m in self.mc.members],
                    lbdas=[next((j + 1 for j, l in enumerate(self.lays) if l.lbda is p), -1) for p in self.mc.lbdas],
                    mats=ms, lays=ls, refused=False)


def observe(job, ev):
    rng = rng_for('C27', job['r'], len(job['h']), job['seed'])
    np.random.seed(int(rng.integers(0, 2**31)))
    rp = Replay(rng)
    hist, shown = [], []
    for a in job['h']:
        a = dict(a)
        r = rp.do(a)
        s = rp.shown()
        s['refused'] = r
        hist.append(a)
        shown.append(s)
    ev.append(dict(op='api', tag='history/%d' % len(hist), hist=hist, shown=shown))
