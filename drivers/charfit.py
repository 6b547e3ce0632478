"""C17: characterization fitters."""
import itertools
import numpy as np
from qiskit.ignis.characterization.coherence import T1Fitter, T2Fitter, T2StarFitter
from qiskit.ignis.characterization.hamiltonian import ZZFitter
from qiskit.ignis.characterization.gates import AmpCalFitter, AngleCalFitter, AmpCalCXFitter, AngleCalCXFitter
from harness.drv import make_result, micro, micros, key, counts

CAL = {'ampcal1Q': AmpCalFitter, 'anglecal1Q': AngleCalFitter, 'ampcalcx': AmpCalCXFitter,
       'anglecalcx': AngleCalCXFitter}
KINDS = ['t1', 't2', 't2star', 'zz'] + list(CAL)
EXPECT = {'t1': 1, 't2': 0, 't2star': 0, 'zz': 0}


def fun(kind, x, p):
    if kind in ('t1', 't2'):
        return p[0] * np.exp(-x / p[1]) + p[2]
    if kind == 't2star':
        return p[0] * np.exp(-x / p[1]) * np.cos(2 * np.pi * p[2] * x + p[3]) + p[4]
    if kind == 'zz':
        return p[0] * np.cos(2 * np.pi * p[1] * x + p[2]) + p[3]
    if kind in ('ampcal1Q', 'anglecal1Q'):
        return -.5 * np.cos((np.pi / 2 + p[0]) * x + np.pi / 2 + p[0]) + p[1]
    return -.5 * np.cos((np.pi + p[0]) * x + np.pi / 2) + p[1]


def truth(rng, kind, T):
    u = rng.uniform
    if kind in ('t1', 't2'):
        a = u(.4, .9)
        return [a, T * u(.25, .6), u(.02, 1 - a - .02)]
    if kind == 't2star':
        a = u(.3, .45)
        return [a, T * u(.4, 1), u(3, 5) / T, u(-.5, .5), .5]
    if kind == 'zz':
        a = u(.3, .45)
        return [a, u(3, 5) / T, u(-.5, .5), .5]
    return [u(-.06, .06), .5]


def start(rng, kind, t):
    p = [v * rng.uniform(.93, 1.07) for v in t]
    if kind in ('t2star', 'zz'):
        j = 2 if kind == 't2star' else 1
        p[j] = t[j] * rng.uniform(.98, 1.02)
    if kind in CAL:
        p = [0.001, .5]
    return p


def bounds(kind):
    if kind in ('t1', 't2'):
        return ([0, 0, -1], [2, 500, 2])
    if kind == 't2star':
        return ([0, 0, 0, -3, -1], [2, 900, 50, 3, 2])
    if kind == 'zz':
        return ([0, 0, -3, -1], [2, 50, 3, 2])
    return ([-.5, -1], [.5, 2])


class H:
    def __init__(self, rec, ep, kind, nq, x, p0, base='t2'):
        self.ep, self.kind, self.nq, self.x, self.base = ep, kind, nq, x, base
        self.series = [0, 1] if kind == 'zz' else [0]
        self.p0 = p0
        self.store = []
        self.f = None

    def name(self, s, i):
        k = self.base if self.kind == 't2' else self.kind
        return '%scircuit_%d_%d' % (k, i - 1, s)

    def make(self, results):
        if self.kind == 't1':
            return T1Fitter(results, self.x, self.qubits, self.p0, bounds(self.kind))
        if self.kind == 't2':
            kw = {} if self.base == 't2' else {'circbasename': self.base}
            return T2Fitter(results, self.x, self.qubits, self.p0, bounds(self.kind), **kw)
        if self.kind == 't2star':
            return T2StarFitter(results, self.x, self.qubits, self.p0, bounds(self.kind))
        if self.kind == 'zz':
            return ZZFitter(results, self.x, self.qubits, [q + 10 for q in self.qubits], self.p0, bounds(self.kind))
        return CAL[self.kind](results, self.x, self.qubits, self.p0, bounds(self.kind))

    def results(self, recs):
        return [make_result([(self.name(e['s'], e['i']), e['c']) for e in r]) for r in recs]

    def add(self, recs, recalc=True, refit=False, init=False, single=False):
        """recs: list of results, each a list of dict(s, i, c)"""
        rs = self.results(recs)
        arg = rs[0] if single and len(rs) == 1 else rs
        try:
            if init:
                self.f = self.make(arg)
            else:
                if self.f is None:
                    self.f = self.make(None)
                if recalc and refit and single:
                    self.f.add_data(arg)
                else:
                    self.f.add_data(arg, recalc=recalc, refit=refit)
            got = 'ok'
        except Exception as e:          # noqa: BLE001
            got = type(e).__name__ + str(e)[:80]
        if recalc or init:
            self.store = getattr(self, 'pending', self.store) + recs
            self.pending = self.store
        else:
            self.pending = getattr(self, 'pending', self.store) + recs
        self.ep.ev('add', recalc=bool(recalc or init), got=got,
                   res=[[dict(s=e['s'], i=e['i'], t=counts(e['c'])) for e in r] for r in recs])
        return got

    def look(self):
        n = {}
        for r in self.store:
            for e in r:
                k = (e['s'], e['i'])
                n[k] = n.get(k, 0) + sum(e['c'].values())
        y = self.f.ydata
        self.ep.ev('y', y=[[[dict(mean=micro(m), std=micro(d), n=n[(s, i + 1)], stdn=micro(d * np.sqrt(n[(s, i + 1)])))
                             for i, (m, d) in enumerate(zip(y[str(s)][q]['mean'], y[str(s)][q]['std']))]
                            for q in range(self.nq)] for s in self.series])

    def params(self, err=False):
        p = self.f.params_err if err else self.f.params
        return [[micros(list(p[str(s)][q])) for q in range(self.nq)] for s in self.series]

    def fit(self, tr, exact):
        f = self.f
        if self.kind == 'zz':
            d, da, de = [f.ZZ_rate(q) for q in range(self.nq)], f.ZZ_rate(), []
        elif self.kind in CAL:
            d, da, de = [f.angle_err(q) for q in range(self.nq)], f.angle_err(), []
        else:
            d, da = [f.time(q) for q in range(self.nq)], f.time()
            de = [f.time_err(q) for q in range(self.nq)] + list(f.time_err())
        self.ep.ev('fit', exact=exact, truth=[[micros(t) for t in s] for s in tr], params=self.params(),
                   perr=self.params(True), derived=micros(d), derivedall=micros(list(da)), derr=micros(de))


def product(ps, shots):
    """counts of independent bits with probabilities ps of one"""
    out = {}
    for bs in itertools.product([0, 1], repeat=len(ps)):
        w = np.prod([p if b else 1 - p for p, b in zip(ps, bs)])
        n = int(round(w * shots))
        if n:
            out[key(bs)] = n
    return out


def randcounts(rng, nq, big=False):
    d = {}
    for _ in range(rng.randrange(1, 5)):
        k = key([rng.randrange(2) for _ in range(nq)])
        d[k] = d.get(k, 0) + rng.randrange(1, 900)
    return d


def xs(rng, kind, n=None):
    if kind in CAL:
        n = n or rng.randrange(5, 11)
        return (np.arange(n) * (2 if kind.endswith('1Q') else 1)).astype(float)
    n = n or (rng.randrange(8, 14) if kind in ('t1', 't2') else rng.randrange(24, 34))
    return np.linspace(rng.choice([0, .5]), rng.choice([3., 8., 20.]), n)


def history(rec, eid, log=None):
    rng = rec.rng
    kind = rng.choice(KINDS)
    nq = rng.randrange(1, 4) if log is None else 2
    n = rng.randrange(2, 5) if log is None else 2
    x = xs(rng, kind, n)
    series = [0, 1] if kind == 'zz' else [0]
    with rec.episode(eid, kind=kind, nq=nq, n=n, series=series, x=micros(list(x))) as ep:
        h = H(rec, ep, kind, nq, list(x) if rng.random() < .3 else x, [.5] * len(bounds(kind)[0]), rng.choice(['t2', 'cpmg']))
        h.qubits = rng.sample(range(8), nq)

        def mk(full):
            pts = [(s, i) for s in series for i in range(1, n + 1)]
            if not full:
                pts = rng.sample(pts, rng.randrange(1, len(pts) + 1))
            rng.shuffle(pts)
            return [dict(s=s, i=i, c=randcounts(rng, nq)) for s, i in pts]
        if log is None:
            h.add([mk(True)] + [mk(False) for _ in range(rng.randrange(0, 3))])
            h.look()
            for _ in range(rng.randrange(0, 4)):
                h.add([mk(False) for _ in range(rng.randrange(1, 3))], recalc=rng.random() < .6,
                      single=rng.random() < .5)
                h.look()
        else:
            for o in log:
                pts = {1: (1, 2), 2: (1,), 3: (2,)}[o['k']]
                h.add([[dict(s=s, i=i, c=randcounts(rng, nq)) for s in series for i in pts]], recalc=o['re'])
                if o['re'] or h.store:
                    h.look()


def fitted(rec, eid):
    rng = rec.rng
    kind = rng.choice(KINDS)
    nq = rng.randrange(1, 4)
    x = xs(rng, kind)
    series = [0, 1] if kind == 'zz' else [0]
    base = truth(rng, kind, x[-1])

    def near():
        t = truth(rng, kind, x[-1])
        if kind in CAL:
            return t
        out = [b * rng.uniform(.92, 1.08) for b in base]
        if kind in ('t2star', 'zz'):
            j = 2 if kind == 't2star' else 1
            out[j] = base[j] * rng.uniform(.97, 1.03)
        if kind in ('t1', 't2'):
            out[2] = min(out[2], .99 - out[0]) if out[0] < .97 else .01
            out[0] = min(out[0], .98)
        return out
    tr = [[near() for _ in range(nq)] for _ in series]
    if any(np.min(fun(kind, x, t)) < .001 or np.max(fun(kind, x, t)) > .999 for s in tr for t in s):
        return False
    with rec.episode(eid, kind=kind, nq=nq, n=len(x), series=series, x=micros(list(x))) as ep:
        h = H(rec, ep, kind, nq, x, start(rng, kind, base), rng.choice(['t2', 'cpmg']))
        h.qubits = rng.sample(range(8), nq)
        ex = EXPECT.get(kind, 1)

        def result(tr, part=None):
            out = []
            shots = rng.choice([100000, 300000])
            for si, s in enumerate(series):
                for i in range(len(x)):
                    ps = [float(fun(kind, x[i], t)) for t in tr[si]]
                    out.append(dict(s=s, i=i + 1, c=product([p if ex else 1 - p for p in ps], shots)))
            return out
        style = rng.randrange(3)
        if style == 0:
            got = h.add([result(tr)], init=True, single=True)
        elif style == 1:
            r = result(tr)
            k = rng.randrange(1, len(r))
            got = h.add([r[:k], r[k:]], init=True)
        else:
            h.add([result(tr)], recalc=rng.random() < .5)
            got = h.add([result(tr)], refit=True, single=rng.random() < .5)
        if got != 'ok':
            return True
        h.look()
        h.fit(tr, True)
        if rng.random() < .4:
            # new data without a refit, then refit one qubit
            tr2 = [[near() for _ in range(nq)] for _ in series]
            if any(np.min(fun(kind, x, t)) < .001 or np.max(fun(kind, x, t)) > .999 for s in tr2 for t in s):
                return True
            q = rng.randrange(nq)
            si = rng.randrange(len(series))
            h3 = h.make(None)
            h3.add_data(h.results([result(tr2)]), refit=False)
            pb = [[micros(list(h3.params[str(s)][j])) for j in range(nq)] for s in series]
            h3.fit_data(qid=q, series=str(series[si]), p0=start(rng, kind, tr2[si][q]))
            pa = [[micros(list(h3.params[str(s)][j])) for j in range(nq)] for s in series]
            ep.ev('refit', q=q + 1, k=si + 1, before=pb, after=pa, truth=micros(tr2[si][q]))
    return True


def binom(rng, p, n):
    return sum(rng.random() < p for _ in range(n)) if n < 300 else int(round(n * p + rng.gauss(0, 1) * np.sqrt(n * p * (1 - p))))


def noisy(rec, eid):
    """sampled data with different numbers of shots per point: the weighted optimum and its error bars"""
    rng = rec.rng
    kind = rng.choice(KINDS)
    x = xs(rng, kind)
    series = [0, 1] if kind == 'zz' else [0]
    tr = [[truth(rng, kind, x[-1])] for _ in series]
    if kind == 'zz':
        tr[1] = [list(tr[0][0])]
        tr[1][0][1] *= rng.uniform(.98, 1.02)
    if any(np.min(fun(kind, x, t)) < .03 or np.max(fun(kind, x, t)) > .97 for s in tr for t in s):
        return False
    ex = EXPECT.get(kind, 1)
    recs = []
    for si, s in enumerate(series):
        for i in range(len(x)):
            n = rng.choice([300, 1000, 20000])
            k = binom(rng, float(fun(kind, x[i], tr[si][0])), n)
            k = min(max(k, 1), n - 1)
            recs.append(dict(s=s, i=i + 1, c={str(ex): k, str(1 - ex): n - k}))
    with rec.episode(eid, kind=kind, nq=1, n=len(x), series=series, x=micros(list(x))) as ep:
        h = H(rec, ep, kind, 1, x, start(rng, kind, tr[0][0]), 't2')
        h.qubits = [rng.randrange(5)]
        h.add([recs], recalc=True)
        h.look()
        try:
            h.f.fit_data()
        except RuntimeError:
            return True
        y = h.f.ydata
        ep.ev('opt', mean=[micros(list(y[str(s)][0]['mean'])) for s in series],
              std=[micros(list(y[str(s)][0]['std'])) for s in series],
              params=[q[0] for q in h.params()], perr=[q[0] for q in h.params(True)])
    return True


def options(rec, eid):
    """start values and bounds given to the fit, and guesses"""
    rng = rec.rng
    kind = rng.choice(['t1', 't2', 't2star', 'zz', 'ampcal1Q', 'anglecalcx', 't2star', 'ampcal1Q'])
    nq = rng.randrange(1, 4)
    x = xs(rng, kind)
    series = [0, 1] if kind == 'zz' else [0]
    tr = [[truth(rng, kind, x[-1]) for _ in range(nq)] for _ in series]
    if kind in ('t2star', 'zz'):
        j = 2 if kind == 't2star' else 1
        for s in tr:
            for t in s:
                t[j] = tr[0][0][j] * rng.uniform(.98, 1.02)
    if any(np.min(fun(kind, x, t)) < .001 or np.max(fun(kind, x, t)) > .999 for s in tr for t in s):
        return False
    with rec.episode(eid, kind=kind, nq=nq, n=len(x), series=series, x=micros(list(x))) as ep:
        h = H(rec, ep, kind, nq, x, start(rng, kind, tr[0][0]), 't2')
        h.qubits = rng.sample(range(8), nq)
        ex = EXPECT.get(kind, 1)
        recs = []
        for si, s in enumerate(series):
            for i in range(len(x)):
                ps = [float(fun(kind, x[i], t)) for t in tr[si]]
                recs.append(dict(s=s, i=i + 1, c=product([p if ex else 1 - p for p in ps], 200000)))
        h.add([recs], recalc=True)
        f = h.f
        if kind in ('t2star', 'zz'):
            # the mirror image of the model (negative frequency) is reached from a mirrored start
            j = 2 if kind == 't2star' else 1

            def mirror(p):
                return [-v if k in (j, j + 1) else v for k, v in enumerate(p)]
            lo, hi = bounds(kind)
            lo = list(lo)
            lo[j] = -hi[j]
            f.fit_data(p0=mirror(start(rng, kind, tr[0][0])), bounds=(lo, hi))
            ep.ev('opts', what='start_values', params=h.params(), truth=[[micros(mirror(t)) for t in s] for s in tr])
        else:
            # bounds around a point off the model
            q = rng.randrange(-1, nq)
            f.fit_data()
            before = h.params()
            t = tr[0][max(q, 0)]
            lo = [v + .02 for v in t]
            hi = [v + .05 for v in t]
            f.fit_data(qid=q, p0=[v + .03 for v in t], bounds=(lo, hi))
            ep.ev('bound', q=q + 1, lo=micros(lo), hi=micros(hi), params=h.params(), before=before)
        if hasattr(f, 'guess_params'):
            own = []
            for q in range(nq):
                h1 = H(rec, ep, kind, 1, x, h.p0, 't2')
                h1.qubits = [h.qubits[q]]
                one = []
                for e in recs:
                    c = {}
                    for k, v in e['c'].items():
                        c[k[nq - 1 - q]] = c.get(k[nq - 1 - q], 0) + v
                    one.append(dict(e, c=c))
                f1 = h1.make(None)
                f1.add_data(h1.results([one]), refit=False)
                own.append(micros(list(f1.guess_params())))
            ep.ev('guess', own=own, got=[micros(list(f.guess_params(q))) for q in range(nq)],
                  truth=[micros(t) for t in tr[0]])
    return True


def several(rec, fn, name, n):
    k = 0
    for i in range(40 * n):
        if k >= n:
            break
        k += bool(fn(rec, '%s-%d' % (name, i)))


def run(rec):
    rng, q = rec.rng, rec.quick
    for i, b in enumerate(rec.behs):
        history(rec, 'model-%d' % i, b['log'])
    for i in range(60 if q else 800):
        history(rec, 'hist-%d' % i)
    several(rec, fitted, 'fit', 60 if q else 700)
    several(rec, noisy, 'noisy', 40 if q else 500)
    several(rec, options, 'options', 24 if q else 300)
