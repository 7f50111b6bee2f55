"""Records whole inferences (Machine.infer) as behaviours for LomTrace.tla."""
from common import *

EPSU = 1000000000


def following(ly):
    """matrices whose rows are the latent dimensions of a layer"""
    out = []
    todo = [p.factors[1] for f in ly.factors for p in f.parents]
    while todo:
        m = todo.pop(0)
        out.append(m)
        todo += [p.factors[0] for p in m.parents]
    return out


class NotObserved(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


class StopAt:
    """ends what runs at the k-th moment at which the interpreter would notice an interrupt: on
    entering a function of the library and before each further round of a loop"""

    def __init__(self, k):
        self.left = k
        self.where = None
        self.last = {}

    def __enter__(self):
        self.root = os.path.dirname(os.path.abspath(lom.__file__))
        self.old = sys.gettrace()
        sys.settrace(self.call)

    def __exit__(self, *a):
        sys.settrace(self.old)

    def moment(self, frame):
        self.left -= 1
        if self.left < 0:
            self.left = None
            self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            raise Stop()

    def call(self, frame, what, arg):
        if self.left is None or not frame.f_code.co_filename.startswith(self.root):
            return None
        self.moment(frame)
        last = [frame.f_lineno]

        def line(frame, what, arg):
            if what == 'line' and self.left is not None:
                at, last[0] = last[0], frame.f_lineno
                if frame.f_lineno <= at:
                    self.moment(frame)
            return line
        return line


def rows(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return [[int(a)]]
    if a.ndim == 1:
        return [ints(a)]
    return ints(a.reshape(a.shape[0], -1)) if a.size else [[] for _ in range(a.shape[0])]


def lam_ints(v):
    return np.atleast_1d(np.asarray(scaled(np.asarray(v, dtype=float)))).astype(int).tolist()


def expit(x):
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


def half_difference(win, W):
    """difference of the logistic means of the two halves of the last W values (1e-9)"""
    win = win[-W:]
    if len(win) < W or len({len(w) for w in win}) > 1:
        return 2147483647
    h = W // 2
    if h == 0:
        return 2147483647
    d = 0.0
    for j in range(len(win[0])):
        a = sum(w[j] for w in win[:h]) / h
        b = sum(w[j] for w in win[h:]) / (W - h)
        d = max(d, abs(expit(a) - expit(b)))
    return int(round(d * EPSU))


class Recorder:
    def __init__(self, machine):
        self.mc = machine
        self.members = list(machine.members)
        self.lbdas = [l.lbda for l in machine.layers]
        self.ev = []
        self.depth = 0
        self.calls = 0
        self.win = [[] for _ in self.lbdas]

    # ------------------------------------------------------------ state
    def state(self):
        return dict(val=[rows(m.val) for m in self.members],
                    mask=[rows(m.fixed_entries) for m in self.members],
                    lam=[lam_ints(p.val) for p in self.lbdas])

    def sync(self, skip=None):
        """emit a change that happened outside the update of `skip`"""
        s = self.state()
        if skip is not None:
            kind, i = skip
            keep = s[kind][i]
            s[kind][i] = self.known[kind][i]
        if s != self.known:
            self.ev.append(dict(k='C', **s))
            self.known = json.loads(json.dumps(s))
        if skip is not None:
            return keep

    def update(self, kind, i):
        keep = self.sync((kind, i))
        self.known[kind][i] = keep
        if kind == 'val':
            self.ev.append(dict(k='M', m=i + 1, v=keep))
        else:
            self.win[i].append(np.atleast_1d(np.asarray(self.lbdas[i].val, dtype=float)).tolist())
            self.ev.append(dict(k='L', l=i + 1, x=keep, d=half_difference(self.win[i], self.W)))

    def wrap(self, fn, kind, i):
        if fn is None or getattr(fn, '_observed', False):
            return fn
        rec = self

        def observed(*a, **k):
            if rec.depth == 0:
                rec.sync()
            rec.depth += 1
            rec.calls += 1
            try:
                out = fn(*a, **k)
            except Stop:
                rec.depth -= 1
                raise
            except BaseException:
                rec.depth -= 1
                if rec.depth == 0:
                    rec.update(kind, i)
                raise
            rec.depth -= 1
            if rec.depth == 0:
                rec.update(kind, i)
            return out
        observed._observed = True
        observed._plain = fn
        return observed

    # -------------------------------------------------------- observers
    def attach(self):
        self.cls = {}
        for kind, objs in (('val', self.members), ('lam', self.lbdas)):
            for i, o in enumerate(objs):
                self.watch(o, kind, i)

    def watch(self, o, kind, i):
        rec = self
        base = type(o)

        class Observed(base):
            @property
            def sampling_fct(self):
                return self.__dict__.get('_sf')

            @sampling_fct.setter
            def sampling_fct(self, fn):
                self.__dict__['_sf'] = rec.wrap(fn, kind, i)

            if kind == 'lam':
                @property
                def val(self):
                    return self.__dict__['_val']

                @val.setter
                def val(self, v):
                    old = self.__dict__.get('_val')
                    self.__dict__['_val'] = v
                    if rec.live and rec.depth == 0 and rec.mc.anneal and np.shape(v) == np.shape(old):
                        rec.calls += 1
                        rec.update('lam', i)
        Observed.__name__ = base.__name__
        self.cls[id(o)] = base
        d = o.__dict__
        sf = d.pop('sampling_fct', None)
        v = d.pop('val', None) if kind == 'lam' else None
        o.__class__ = Observed
        if kind == 'lam':
            d['_val'] = v
        d['_sf'] = self.wrap(sf, kind, i)

    def detach(self):
        for kind, objs in (('val', self.members), ('lam', self.lbdas)):
            for o in objs:
                if id(o) not in self.cls:
                    continue
                d = o.__dict__
                o.__class__ = self.cls[id(o)]
                sf = d.pop('_sf', None)
                while hasattr(sf, '_plain'):
                    sf = sf._plain
                d['sampling_fct'] = sf
                if kind == 'lam':
                    d['val'] = d.pop('_val')

    # updates that are never stored on the member are seen through the factories
    def by_argument(self, fn):
        if fn is None or getattr(fn, '_observed', False):
            return fn

        def call(x, *a, **k):
            for kind, objs in (('val', self.members), ('lam', self.lbdas)):
                for i, o in enumerate(objs):
                    if o is x:
                        return self.wrap(fn, kind, i)(x, *a, **k)
            return fn(x, *a, **k)
        call._observed = True
        call._plain = fn
        return call

    @contextlib.contextmanager
    def factories(self):
        import lom.matrix_update_wrappers as w1
        import lom.lambda_update_wrappers as w2
        saved = []
        for mod, name in ((w1, 'get_sampling_fct'), (w2, 'get_update_fct')):
            old = getattr(mod, name, None)
            if old is not None:
                saved.append((mod, name, old))
                setattr(mod, name, lambda x, old=old: self.by_argument(old(x)))
        try:
            yield
        finally:
            for mod, name, old in saved:
                setattr(mod, name, old)

    # --------------------------------------------------------------- run
    def declared(self):
        """what is declared about the machine and not to be changed by inference"""
        def tup(x):
            return list(np.shape(x))
        return dict(ms=[[bool(m.fixed), tup(m.val), tup(m.fixed_entries), repr(m.bernoulli_prior), str(m.model)] for m in self.members],
                    ps=[[bool(p.fixed), tup(p.val), repr(p.beta_prior)] for p in self.lbdas],
                    ls=[[str(l.model), bool(l.auto_clean), bool(l.auto_reset), l.size, len(l.factors)] for l in self.mc.layers],
                    mc=[bool(self.mc.anneal), len(self.mc.layers), len(self.mc.members)])

    def infer(self, tag, n, W, eps, bmin, bmax, fix, stop=None, after=False):
        mc = self.mc
        self.W = W
        free = [i for i, m in enumerate(self.members) if not m.fixed]
        freel = [i for i, p in enumerate(self.lbdas) if not p.fixed]
        layers = []
        for ly in mc.layers:
            fac = [self.members.index(f) + 1 for f in ly.factors]
            rws = [self.members.index(m) + 1 for m in following(ly)]
            layers.append(dict(fac=fac, clean=bool(ly.auto_clean), reset=bool(ly.auto_reset),
                               vec=ly.model == 'MAX-AND', rows=rws if ly.auto_clean or ly.auto_reset else []))
        datas = [ly.child for ly in mc.layers]
        qs = [getattr(ly, 'q', None) for ly in mc.layers]
        dom = []
        for m in self.members:
            if any(m is q for q in qs):
                dom.append([1, 2, 3, 4, 5])
            elif m.layer is None:
                dom.append([-1, 0, 1])
            else:
                dom.append([-1, 1])
        self.known = self.state()
        e = dict(op='run', tag=tag, n=n, W=W, eps=int(round(eps * EPSU)), bmin=bmin, bmax=bmax, fix=fix,
                 anneal=bool(mc.anneal), after=after, freeM=[i + 1 for i in free], freeL=[i + 1 for i in freel], dom=dom,
                 layers=layers, **json.loads(json.dumps(self.known)))
        decl = self.declared()
        if hasattr(mc, 'burn_in_iters'):
            del mc.burn_in_iters
        self.live = True
        self.attach()
        raised = None
        stopped = False
        try:
            with self.factories(), StopAt(stop) if stop is not None else contextlib.nullcontext():
                mc.infer(no_samples=n, convergence_window=W, convergence_eps=eps, burn_in_min=bmin,
                         burn_in_max=bmax, print_step=7, fix_lbda_iters=fix)
        except ValueError as ex:
            raised = ex
        except Stop:
            stopped = True
        finally:
            self.live = False
            self.detach()
        if raised is not None:
            e['ev'] = self.ev + [dict(k='R', what=str(raised)[:200], **self.state())]
            e['total'] = 0
            return e
        if stopped:
            same = json.loads(json.dumps(decl)) == json.loads(json.dumps(self.declared()))
            e['ev'] = self.ev + [dict(k='X', decl=same, **self.state())]
            e['total'] = 0
            return e
        if self.calls == 0 and (n > 0 or bmin > 0):
            raise forkrng.Unsupported('no update was observed')
        self.sync()
        end = dict(k='E', **self.state())
        end['biters'] = int(getattr(mc, 'burn_in_iters', -1))
        end['trM'], end['meanM'] = [], []
        for i, m in enumerate(self.members):
            if i not in free:
                end['trM'].append([])
                end['meanM'].append(rows(m.mean()))
                continue
            tr = getattr(m, 'trace', None)
            end['trM'].append([] if tr is None else [rows(t) for t in tr])
            mean = m.mean() if n > 0 else np.zeros(m.val.shape)
            s = np.asarray(mean, dtype=float) * n
            s = np.where(np.abs(s - np.round(s)) < 1e-6 * max(n, 1), np.round(s), 99.5)
            end['meanM'].append(rows(s))
        end['trL'], end['meanL'] = [], []
        for i, p in enumerate(self.lbdas):
            if i not in freel:
                end['trL'].append([])
                end['meanL'].append(lam_ints(p.mean()))
                continue
            tr = getattr(p, 'trace', None)
            end['trL'].append([] if tr is None else [lam_ints(t) for t in tr])
            end['meanL'].append(lam_ints(p.mean() if n > 0 else p.val))
        e['ev'] = self.ev + [end]
        if free:
            e['total'] = sum(1 for x in self.ev if x['k'] == 'M' and x['m'] == free[0] + 1)
        else:
            e['total'] = sum(1 for x in self.ev if x['k'] == 'L' and x['l'] == freel[0] + 1) + min(fix, bmin)
        # a difference this close to the tolerance is decided by rounding
        for x in self.ev:
            if x['k'] == 'L' and abs(x['d'] - e['eps']) <= 2000 and x['d'] > 0:
                raise NotObserved('tie at the tolerance')
        return e


def record(machine, ev, **kw):
    try:
        e = Recorder(machine).infer(**kw)
    except NotObserved as ex:
        ev.append(dict(op='skip', tag=kw['tag'], what=str(ex)))
        return None
    ev.append(e)
    return e


# ------------------------------------------------------------ random machines
KINDS = ['2D', '2D', '3D', 'max', 'qL', 'deep', 'two', 'open', 'chain', 'open2', 'deep2', 'deep3D', 'net']


def machine_of(kind, rng, L=None):
    mc = lom.Machine()
    L = L or int(rng.integers(1, 4))
    model = CLANS[int(rng.integers(0, 8))]
    N, D, M = (int(v) for v in rng.integers(2, 6, size=3))

    def dat(*shape):
        return data(rng, shape, float(rng.choice([0, 0, .2])))
    if kind in ('3D', 'deep3D'):
        d = mc.add_matrix(val=dat(N, D, min(M, 3)), fixed=True)
        l1 = mc.add_layer(latent_size=L, child=d, model=model)
        if kind == 'deep3D':
            mc.add_layer(latent_size=2, child=l1.factors[int(rng.integers(0, 3))],
                         model=CLANS[int(rng.integers(0, 8))])
    elif kind == 'max':
        d = mc.add_matrix(val=dat(N, D), fixed=True)
        mc.add_layer(latent_size=L, child=d, model='MAX-AND')
    elif kind == 'qL':
        d = mc.add_matrix(val=dat(N, D), fixed=True)
        mc.add_layer(latent_size=L, child=d, model='qL-AND')
    else:
        d = mc.add_matrix(val=dat(N, D), fixed=kind not in ('open', 'open2'))
        l1 = mc.add_layer(latent_size=L, child=d, model=model)
        if kind == 'open2':          # data below two layers
            mc.add_layer(latent_size=2, child=d, model=CLANS[int(rng.integers(0, 8))])
        if kind == 'deep2':          # a factor below two layers
            f = l1.factors[int(rng.integers(0, 2))]
            for k in (1, 2):
                mc.add_layer(latent_size=k, child=f, model=CLANS[int(rng.integers(0, 8))])
        if kind == 'net':            # both factors below layers
            for f in l1.factors:
                mc.add_layer(latent_size=int(rng.integers(1, 3)), child=f, model=CLANS[int(rng.integers(0, 8))])
        if kind == 'tree':          # every matrix of the second level below two layers
            for f in mc.add_layer(latent_size=2, child=l1.factors[int(rng.integers(0, 2))],
                                  model=CLANS[int(rng.integers(0, 8))]).factors:
                for k in (1, 2):
                    mc.add_layer(latent_size=k, child=f, model=CLANS[int(rng.integers(0, 8))])
        if kind in ('deep', 'chain'):
            l2 = mc.add_layer(latent_size=2, child=l1.factors[int(rng.integers(0, 2))],
                              model=CLANS[int(rng.integers(0, 8))])
            if kind == 'chain':
                mc.add_layer(latent_size=1, child=l2.factors[int(rng.integers(0, 2))], model='OR-AND')
        if kind == 'two':
            d2 = mc.add_matrix(val=dat(N, 3), fixed=True)
            mc.add_layer(latent_size=2, child=d2, model=CLANS[int(rng.integers(0, 8))])
    for ly in mc.layers:
        if ly.model == 'MAX-AND':
            ly.lbda.val = np.array([float(v) for v in rng.uniform(.2, .95, size=ly.size)] + [.05])
        else:
            ly.lbda.val = float(rng.uniform(.1, 2.5))
    return mc


def perturb(mc, rng, pfix=.2, pmask=.4):
    """random fixed flags and masks; at least one matrix stays free"""
    data_mats = [ly.child for ly in mc.layers if ly.child.layer is None]
    for m in mc.members:
        if m.layer is None and not m.parents:
            continue                # belongs to no layer: nothing to draw it from
        if any(m is d for d in data_mats):
            # data can be free below layers of two factors of the canonical models
            ok = all(ly.model in CLANS and len(ly.factors) == 2 for ly in mc.layers if ly.child is m)
            if ok and rng.random() < .1:
                m.fixed = not m.fixed
        else:
            m.fixed = bool(rng.random() < pfix)
        if rng.random() < pmask:
            m.fixed_entries = (rng.random(m.val.shape) < .35).astype(np.int8)
        if rng.random() < .3:
            m.bernoulli_prior = float(rng.choice([.2, .5, .7]))
    for p in mc.lbdas:
        p.fixed = bool(rng.random() < pfix)
    if all(m.fixed for m in mc.members):
        mc.layers[0].factors[0].fixed = False
