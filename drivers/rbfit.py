"""C09: randomized-benchmarking fitters."""
import itertools
import math
import numpy as np
from harness.drv import make_result, key, bits, micro, micros
from qiskit.ignis.verification.randomized_benchmarking import (
    RBFitter, InterleavedRBFitter, PurityRBFitter, CNOTDihedralRBFitter)


def name(kind, v, li, seed):
    if kind == 'purity':
        pre = 'rb_purity_' + ''.join(v)
    elif kind == 'inter':
        pre = {'a': 'rb', 'b': 'rb_interleaved'}[v]
    elif kind == 'dih':
        pre = {'a': 'rb_cnotdihedral_Z', 'b': 'rb_cnotdihedral_X'}[v]
    else:
        pre = 'rb'
    return '%s_length_%d_seed_%d' % (pre, li, seed)


def result(kind, recs):
    return make_result([(name(kind, r['v'], r['li'], r['seed']),
                         {key(b): n for b, n in r['counts']}) for r in recs])


def rand_counts(rng, pats, decays, lens, li, shots):
    """counts over all bits where pattern p is all zero with its decay's probability"""
    out = {}
    for zero in itertools.product([True, False], repeat=len(pats)):
        w, bs = 1.0, []
        for z, pat, (a, al, b), ln in zip(zero, pats, decays, lens):
            pz = a * al ** ln[li] + b
            w *= pz if z else 1 - pz
            x = 0 if z else rng.randrange(1, 2 ** len(pat))
            bs += [(x >> i) & 1 for i in range(len(pat))]
        n = int(w * shots * 50 * rng.uniform(.97, 1.03))
        if n:
            out[tuple(bs)] = out.get(tuple(bs), 0) + n
    return [[list(b), n] for b, n in sorted(out.items())]


def exact_counts(pats, probs):
    """P(all bits of pattern p zero) = probs[p], of 10^6 shots"""
    ns = [int(round(p * 10**6)) for p in probs]
    cuts = sorted({0, 10**6} | set(ns))
    out = []
    for lo, hi in zip(cuts, cuts[1:]):
        bs = []
        for pat, n in zip(pats, ns):
            bs += ([0] if hi <= n else [1]) + [0] * (len(pat) - 1)
        out.append([bs, hi - lo])
    return out


class View:
    """one half of a fitter made of two, seen through the fitter's own accessors"""

    def __init__(self, f, i):
        self.f, self.i = f, i

    seeds = property(lambda s: s.f.seeds[s.i])
    raw_data = property(lambda s: s.f.raw_data[s.i])
    ydata = property(lambda s: s.f.ydata[s.i])
    fit = property(lambda s: s.f.fit[s.i])
    cliff_lengths = property(lambda s: s.f.cliff_lengths)


def two_patterns(rng):
    if rng.random() < .5:
        return [[0, 1][:rng.choice([1, 2])]]
    a, b = rng.choice([(1, 2), (2, 1), (1, 1)])
    return [[5, 2][:a], [0, 3][:b]]


def watch(ep, fit, v, lens):
    yd = fit.ydata
    nostd = yd[0]['std'] is None
    ep.ev('obs', v=v, seeds=[int(s) for s in fit.seeds], raw=micros(fit.raw_data),
          mean=[micros(y['mean']) for y in yd], nostd=nostd,
          std=[] if nostd else [micros(y['std']) for y in yd],
          lens=[[int(x) for x in r] for r in fit.cliff_lengths])


def alphas(fit):
    return [micro(f['params'][1]) for f in fit]


def errs(fit):
    return [micro(f['params_err'][1], 10**8) for f in fit]


def e8(rows, k):
    return [micro(r[k], 10**8) for r in rows]


def fit_ev(ep, f):
    ep.ev('fit', alpha=alphas(f.fit), epc=[micro(x['epc']) for x in f.fit],
          aerr=errs(f.fit), epcerr=e8(f.fit, 'epc_err'))


def combined(ep, kind, f):
    ee = dict(ae0=errs(f.fit[0]), ae1=errs(f.fit[1]))
    if kind == 'inter':
        g = f.fit_int
        ee.update(ae=e8(g, 'alpha_err'), ace=e8(g, 'alpha_c_err'), esterr=e8(g, 'epc_est_err'))
        ep.ev('interfit', a0=alphas(f.fit[0]), a1=alphas(f.fit[1]),
              alpha=[micro(x['alpha']) for x in g], alphac=[micro(x['alpha_c']) for x in g],
              est=[micro(x['epc_est']) for x in g], sys=[micro(x['systematic_err']) for x in g],
              left=[micro(x['systematic_err_L']) for x in g],
              right=[micro(x['systematic_err_R']) for x in g],
              root=[micro(math.sqrt(max(0, 1 - x['alpha']))) for x in g], **ee)
    else:
        g = f.fit_cnotdihedral
        ee.update(ae=e8(g, 'alpha_err'), epgerr=e8(g, 'epg_est_err'))
        ep.ev('dihfit', a0=alphas(f.fit[0]), a1=alphas(f.fit[1]),
              alpha=[micro(x['alpha']) for x in g], epg=[micro(x['epg_est']) for x in g], **ee)


def noisy(fn):
    try:
        return fn()
    except RuntimeError as e:
        if 'Optimal parameters not found' in str(e):
            return None
        raise


def model_history(rec, eid, beh):
    pats, lens = [[0], [1, 2]], [[1, 5], [1, 5]]
    with rec.episode(eid, kind='rb', pats=pats, lens=lens) as ep:
        f = RBFitter(None, np.array(lens), pats)
        have = set()
        for st in beh['log']:
            f.add_data(result('rb', st['recs']), rerun_fit=False)
            have |= {(r['seed'], r['li']) for r in st['recs']}
            ep.ev('add', recs=st['recs'])
            if st['refit'] and all((s, k) in have for s in {h[0] for h in have} for k in (0, 1)):
                f.calc_data()
                f.calc_statistics()
                watch(ep, f, 'a', lens)


def rand_setup(rng):
    pats, used = [], rng.sample(range(6), 6)
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        k = rng.choice([1, 1, 2])
        pats.append([used.pop() for _ in range(k)])
    base = sorted(rng.sample([1, 2, 3, 5, 8, 12, 20, 30, 45], rng.choice([3, 4, 5])))
    lens = [[x * m for x in base] for m in [rng.choice([1, 1, 2]) for _ in pats]]
    decays = [(1 - 2.0 ** -len(p) - .05, rng.choice([.9, .95, .97]), 2.0 ** -len(p)) for p in pats]
    if rng.random() < .25:      # hardly any decay
        lens = [[x * 40 for x in r] for r in lens]
        decays = [(a, rng.choice([.99999, .999995]), b) for a, _, b in decays]
    return pats, lens, decays


def history(rec, eid, kind):
    rng = rec.rng
    pats, lens, decays = rand_setup(rng)
    default = kind != 'rb' and rng.random() < .2
    if default:
        pats, lens, decays = [[0]], lens[:1], [(.45, .95, .5)]
    seeds = rng.sample([0, 1, 2, 5, 11], rng.choice([1, 2, 3]))
    nl = len(lens[0])
    vs = ['a', 'b'] if kind in ('inter', 'dih') else ['a']
    cls = {'rb': RBFitter, 'inter': InterleavedRBFitter, 'dih': CNOTDihedralRBFitter}[kind]
    xl = np.array(lens)
    args = (xl,) if default else (xl, pats)
    with rec.episode(eid, kind=kind, pats=pats, lens=lens) as ep:
        def chunk(v, ss, dup):
            rs = [dict(v=v, seed=s, li=li, counts=rand_counts(rng, pats, decays, lens, li, 60))
                  for s in ss for li in range(nl) if not dup or rng.random() < .5]
            rng.shuffle(rs)
            return rs or [dict(v=v, seed=ss[0], li=0, counts=rand_counts(rng, pats, decays, lens, 0, 60))]

        def split(rs):
            k = rng.randrange(1, 4)
            parts = [rs[i::k] for i in range(k)]
            return [result(kind, p) for p in parts if p], [r for p in parts for r in p]

        def observe():
            if kind == 'rb':
                watch(ep, f, 'a', lens)
                fit_ev(ep, f)
                return
            sub = (f.rbfit_std, f.rbfit_int) if kind == 'inter' else (f.rbfit_Z, f.rbfit_X)
            if rng.random() < .5:
                sub = (View(f, 0), View(f, 1))
            for v, s in zip(vs, sub):
                watch(ep, s, v, lens)
                fit_ev(ep, s)
            combined(ep, kind, f)

        first = seeds[:1]
        start = rng.random() < .6
        if start:
            parts = {v: split(chunk(v, first, False)) for v in vs}
            for v in vs:
                ep.ev('add', recs=parts[v][1])
            rs = [parts[v][0] for v in vs]
            rs = [r[0] if len(r) == 1 and rng.random() < .5 else r for r in rs]
            f = noisy(lambda: cls(*rs, *args))
            if f is None:       # the optimiser gave up on this noise
                rec.count('unfittable')
                return
            observe()
        else:
            f = cls(*[None for _ in vs], *args)
        todo = ([] if start else [(first, False)]) + [([s], False) for s in seeds[1:]] + \
            [([rng.choice(seeds)], True) for _ in range(rng.randrange(0, 3))]
        fresh = start
        for i, (ss, dup) in enumerate(todo):
            # nothing new for one half, which has nothing deferred
            only = rng.choice(vs) if dup and fresh and rng.random() < .5 else None
            parts = {v: split(chunk(v, ss, dup)) if only in (None, v) else (None, []) for v in vs}
            for v in vs:
                ep.ev('add', recs=parts[v][1])
            refit = i == len(todo) - 1 or rng.random() < .5

            def add():
                if refit and rng.random() < .4:
                    f.add_data(*[parts[v][0] for v in vs], rerun_fit=False)
                    f.calc_data()
                    f.calc_statistics()
                    f.fit_data()
                else:
                    f.add_data(*[parts[v][0] for v in vs], rerun_fit=refit)
                return 1
            fresh = refit
            if noisy(add) is None:
                rec.count('unfittable')
                return
            if refit:
                observe()
        rec.count('histories')


def spread(rec, eid):
    """two seeds whose spread differs a lot between lengths, means off the model"""
    rng = rec.rng
    pats = two_patterns(rng)
    lens = [sorted(rng.sample([1, 4, 9, 16, 25, 40, 60], rng.choice([5, 6])))]
    lens += [[2 * x + 1 for x in lens[0]] for _ in pats[1:]]
    mean, s = [], []
    for p, ln in zip(pats, lens):
        al, b = rng.choice([.9, .95]), 2.0 ** -len(p)
        a = 1 - b - .05
        mean.append([a * al ** m + b + rng.choice([-1, 1]) * rng.uniform(.01, .04) for m in ln])
        s.append([rng.choice([.004, .03, .05]) for _ in ln])
    mode = rng.choice(['spread', 'spread', 'zero', 'single'])
    if mode == 'zero':
        x = rng.choice(s)
        x[rng.randrange(len(x))] = 0
    seeds = [0] if mode == 'single' else [4, 1]
    with rec.episode(eid, kind='rb', pats=pats, lens=lens) as ep:
        recs = [dict(v='a', seed=x, li=i, counts=exact_counts(
            pats, [min(.99, m[i] + sg * d[i]) for m, d in zip(mean, s)]))
                for x, sg in zip(seeds, [1, -1]) for i in range(len(lens[0]))]
        ep.ev('add', recs=recs)
        def build():
            return RBFitter([result('rb', recs)], np.array(lens), pats)
        # with equal weights the data is well conditioned: the fit must succeed
        f = noisy(build) if mode == 'spread' else build()
        if f is None:
            rec.count('unfittable')
            return
        watch(ep, f, 'a', lens)
        fit_ev(ep, f)
        yd = f.ydata
        nostd = yd[0]['std'] is None
        ep.ev('wls', mean=[micros(y['mean']) for y in yd], nostd=nostd,
              std=[] if nostd else [micros(y['std']) for y in yd],
              params=[micros(x['params']) for x in f.fit])
        rec.count('weighted fits')


def exact(rec, eid, kind):
    rng = rec.rng
    pats = two_patterns(rng)
    lens = [[1, 4, 9, 16, 25, 40], [2, 5, 11, 16, 30, 44]][:len(pats)]
    vs = ['a', 'b'] if kind in ('inter', 'dih') else ['a']
    al = {v: [rng.choice([.85, .9, .93, .96]) for _ in pats] for v in vs}
    if kind == 'inter' and rng.random() < .5:      # hardly any reference decay
        al['a'][0] = rng.choice([.9999999, .999998, .99999])
    a = [rng.choice([.4, .45, 1 - 2.0 ** -len(p) - .02]) for p in pats]
    b = [2.0 ** -len(p) + rng.choice([0, 0, .03, -.03]) for p in pats]
    a = [min(x, .98 - y) for x, y in zip(a, b)]
    cls = {'rb': RBFitter, 'inter': InterleavedRBFitter, 'dih': CNOTDihedralRBFitter}[kind]
    with rec.episode(eid, kind=kind, pats=pats, lens=lens) as ep:
        rs = []
        for v in vs:
            recs = [dict(v=v, seed=0, li=i, counts=exact_counts(
                pats, [x * y ** m[i] + z for x, y, z, m in zip(a, al[v], b, lens)]))
                    for i in range(len(lens[0]))]
            ep.ev('add', recs=recs)
            rs.append([result(kind, recs)])
        f = cls(*rs, np.array(lens), pats)
        subs = [f] if kind == 'rb' else (
            [f.rbfit_std, f.rbfit_int] if kind == 'inter' else [f.rbfit_Z, f.rbfit_X])
        for v, s in zip(vs, subs):
            ep.ev('exact', v=v, a=micros(a), b=micros(b), al=micros(al[v]), alpha=alphas(s.fit))
            fit_ev(ep, s)
        if kind != 'rb':
            combined(ep, kind, f)
        # refit one pattern from another guess
        for k in range(2):
            i, h = rng.randrange(len(pats)), rng.randrange(len(vs))
            guess = (a[i] * .9, min(.99999, al[vs[h]][i] + .01), b[i])
            if kind == 'rb':
                f.fit_data_pattern(i, guess)
            else:
                f.fit_data_pattern(i, guess, fit_index=h)
            for v, s in zip(vs, [f] if kind == 'rb' else [View(f, 0), View(f, 1)]):
                ep.ev('exact', v=v, a=micros(a), b=micros(b), al=micros(al[v]), alpha=alphas(s.fit))
                fit_ev(ep, s)
        for x in (0, 3, 17):
            ep.ev('curve', a=micro(a[0]), al=micro(al['a'][0]), b=micro(b[0]), x=x,
                  y=micro(f.rb_fit_fun(x, a[0], al['a'][0], b[0])))


def purity(rec, eid, is_exact, big=False):
    rng = rec.rng
    k = 3 if big else rng.choice([1, 1, 2])
    pats = [[3, 0, 1][:k]] if big or is_exact or rng.random() < .5 else [[0, 1][:k], [2, 3][:k]]
    base = [1, 4, 9, 16, 25] if is_exact else sorted(rng.sample(range(1, 20), 4))
    lens = [list(base) for _ in pats]
    labs = [list(x) for x in itertools.product('XYZ', repeat=k)]
    rng.shuffle(labs)
    seeds = [0] if is_exact else rng.sample([0, 1, 4], rng.choice([1, 2]))
    p = rng.choice([.9, .95, .97])
    with rec.episode(eid, kind='purity', pats=pats, lens=lens) as ep:
        recs = []
        for s in seeds:
            for lab in labs:
                for li, m in enumerate(base):
                    if is_exact:
                        # depolarised ground state: Z...Z-type correlators p^m, others 0
                        pm = p ** m
                        probs = {}
                        for x in range(2 ** k):
                            bs = [(x >> i) & 1 for i in range(k)]
                            q = 1 / 2 ** k
                            zs = [i for i in range(k) if lab[i] == 'Z']
                            if zs:
                                allz = all(bs[i] == 0 for i in zs)
                                q = pm * (allz / 2 ** (k - len(zs))) + (1 - pm) / 2 ** k
                            probs[tuple(bs)] = q
                        n = {b: int(round(q * 10**6)) for b, q in probs.items()}
                        cts = [[list(b), v] for b, v in n.items() if v]
                    else:
                        tot = sum(map(len, pats))
                        cts = {}
                        for _ in range(5):
                            b = tuple(int(rng.random() < .3) for _ in range(tot))
                            cts[b] = cts.get(b, 0) + rng.randrange(1, 40)
                        # decaying Z signal so that the fit is well posed
                        if 'Z' in lab:
                            z = tuple([0] * tot)
                            cts[z] = cts.get(z, 0) + int(400 * p ** m)
                        cts = [[list(b), v] for b, v in sorted(cts.items())]
                    recs.append(dict(v=lab, seed=s, li=li, counts=cts))
        order = rng.choice(['seed', 'label', 'one'])
        if order == 'one':
            groups = [recs]
        elif order == 'seed':
            groups = [[r for r in recs if r['seed'] == s and r['v'] == lab] for s in seeds for lab in labs]
        else:
            groups = [[r for r in recs if r['v'] == lab and r['seed'] == s] for lab in labs for s in seeds]
        extra = None
        if not is_exact and rng.random() < .5:
            extra = [dict(r, counts=[[list(r['counts'][0][0]), 17]]) for r in rng.sample(recs, 3)]
        for g in groups:
            ep.ev('add', recs=g)
        if rng.random() < .5:
            f = PurityRBFitter([result('purity', g) for g in groups], 3 ** k, np.array(lens), pats)
        else:
            f = PurityRBFitter(None, 3 ** k, np.array(lens), pats)
            for g in groups:
                f.add_data(result('purity', g), rerun_fit=False)
            f.calc_data()
            f.calc_statistics()
            f.fit_data()

        def observe():
            ep.ev('purobs', seeds=[int(s) for s in f.seeds], raw=micros(f.raw_data),
                  mean=[micros(y['mean']) for y in f.ydata],
                  lens=[[int(x) for x in r] for r in f.cliff_lengths])
            ep.ev('purfit', alpha=alphas(f.fit), pepc=[micro(x['pepc']) for x in f.fit],
                  aerr=errs(f.fit), pepcerr=e8(f.fit, 'pepc_err'))
        observe()
        if extra:
            ep.ev('add', recs=extra)
            f.add_data([result('purity', extra)])
            observe()
        if is_exact:
            ep.ev('exact', v='x', a=[micro(1 - 2.0 ** -k)], b=[micro(2.0 ** -k)], al=[micro(p)],
                  alpha=alphas(f.fit))


def run(rec):
    for i, b in enumerate(rec.behs if not rec.quick else rec.rng.sample(rec.behs, min(60, len(rec.behs)))):
        model_history(rec, 'model%d' % i, b)
    for i in range(12 if rec.quick else 80):
        for kind in ('rb', 'inter', 'dih'):
            history(rec, '%s%d' % (kind, i), kind)
    for i in range(4 if rec.quick else 25):
        for kind in ('rb', 'inter', 'dih'):
            exact(rec, 'exact-%s%d' % (kind, i), kind)
        purity(rec, 'exact-pur%d' % i, True)
    for i in range(16 if rec.quick else 80):
        spread(rec, 'spread%d' % i)
    for i in range(1 if rec.quick else 6):
        purity(rec, 'pur3q%d' % i, i % 2 == 1, big=True)
    for i in range(6 if rec.quick else 40):
        purity(rec, 'pur%d' % i, False)
