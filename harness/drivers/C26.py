"""What the library says about the 36 models, and its operators on vectors of any length."""
import itertools
from common import *


def need(name):
    f = getattr(aux, name, None)
    if f is None:
        raise forkrng.Unsupported('no %s' % name)
    return f


def jobs(tier, seed):
    out = [dict(tag='class', model=m) for m in ALL36] + [dict(tag='equiv', model=m) for m in ALL36]
    out += [dict(tag='group', mode=m) for m in ('implemented', 'canonical')] + [dict(tag='list')]
    out += [dict(tag='lop', name=n, fn=f, r=r, seed=seed, tier=tier) for n in ('AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR')
            for f in ('get_lop', 'get_fuzzy_lop') for r in range(7)]
    out += [dict(tag='refuse', what=w) for w in
            ('level', 'mode', 'op', 'fuzzy op', 'class', 'lower case')]
    return out


def pair(name):
    p = str(name).split('-')
    return p if len(p) == 2 else ['?', '?']


def refused(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception:
        return True
    return False


def observe(job, ev):
    t = job['tag']
    if t == 'class':
        got = need('get_lom_class')(job['model'])
        c, inv = got
        ev.append(dict(op='class', tag='class/%s' % job['model'], **op(job['model']), c=pair(c), inv=[bool(b) for b in inv]))
    elif t == 'equiv':
        f = need('replace_equivalent_model')
        r = f(job['model'])
        other = ALL36[(ALL36.index(job['model']) + 5) % 36]
        third = ALL36[(ALL36.index(job['model']) + 11) % 36]
        for i, prs in enumerate(([(other, job['model'])], [(job['model'], other)], [(third, other), (other, job['model'])], [])):
            own = f(job['model'], equivalent_pairs=prs)
            ev.append(dict(op='equiv', tag='equiv/%s' % job['model'], **op(job['model']), r=pair(r), rr=pair(f(r)),
                           own=pair(own), pair=i in (0, 2), first=pair(other)))
    elif t == 'group':
        f = need('canonical_loms')
        ev.append(dict(op='group', tag='group/%s' % job['mode'], mode=job['mode'],
                       clans=[pair(m) for m in f('clans', job['mode'])],
                       fams=[pair(m) for m in f(level='families', mode=job['mode'])]))
        if job['mode'] == 'implemented':            # the defaults
            ev.append(dict(op='group', tag='group/default', mode='implemented', clans=[pair(m) for m in f()],
                           fams=[pair(m) for m in f('families')]))
    elif t == 'list':
        ev.append(dict(op='list', tag='list', names=[pair(m) for m in need('implemented_loms')()]))
    elif t == 'lop':
        f = need(job['fn'])(job['name'])
        n = job['r']
        if n < 5:
            rows = list(itertools.product((-1, 1), repeat=n + 1))
        else:
            rng = rng_for('C26', job['name'], job['fn'], n, job['seed'])
            rows = [(2 * (rng.random(int(rng.integers(6, 60))) < p) - 1).tolist()
                    for p in (0, .03, .5, .97, 1) for _ in range(20 if job['tier'] == 'thorough' else 4)]
            rows += [[1 if j == k else -1 for j in range(9)] for k in range(9)] + [[-1 if j == k else 1 for j in range(9)] for k in range(9)]
        for x in rows:
            a = np.array(x)
            for v in ((a, a == 1, (a == 1).astype(float)) if job['fn'] == 'get_lop' else (((a + 1) / 2),)):
                r = f(v)
                ev.append(dict(op='lop', tag='lop/%s/%s' % (job['fn'], job['name']), name=job['name'], x=[int(y) for y in x],
                               r=bool(r) if float(r) in (0., 1.) else 'neither'))
    else:
        w = job['what']
        if w == 'level':
            ok = refused(need('canonical_loms'), 'dynasties')
        elif w == 'mode':
            ok = refused(need('canonical_loms'), 'clans', 'other') and refused(need('canonical_loms'), mode='')
        elif w == 'op':
            ok = refused(need('get_lop'), 'MAX') and refused(need('get_lop'), 'or') and refused(need('get_lop'), '')
        elif w == 'fuzzy op':
            ok = refused(need('get_fuzzy_lop'), 'MAX') and refused(need('get_fuzzy_lop'), 'X')
        else:
            x = np.ones((2, 2), dtype=np.int8)
            bad = 'MAX-AND' if w == 'class' else 'or-and'
            ok = refused(need('lom_generate_data'), [x, x], bad)
        ev.append(dict(op='refuse', tag='refuse/' + w, refused=ok))
