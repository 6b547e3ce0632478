"""C23: CTMP mitigator."""
import itertools
import numpy as np
import scipy.linalg as la
from qiskit.result import Counts
from qiskit.ignis.mitigation import (CTMPExpvalMeasMitigator, ExpvalMeasMitigatorFitter,
                                     expval_meas_mitigator_circuits, expectation_value)
from qiskit.ignis.mitigation.expval.ctmp_fitter import fit_ctmp_meas_mitigator
from qiskit.ignis.mitigation.expval.ctmp_generator_set import standard_generator_set
from harness.drv import micro, micros, bits, key, make_result, outcome


def glog(g):
    b, a, c = g
    return dict(b=[int(x) for x in b], a=[int(x) for x in a], c=[int(x) for x in c])


def gtup(g):
    return (''.join(str(x) for x in g['b']), ''.join(str(x) for x in g['a']), tuple(g['c']))


def gmat(gens, rates, n):
    """reference generator matrix used to make the calibration data"""
    G = np.zeros((2 ** n, 2 ** n))
    for (b, a, c), r in zip(gens, rates):
        for x in range(2 ** n):
            if all((x >> q) & 1 == int(s) for q, s in zip(c, a)):
                y = x
                for q, s in zip(c, b):
                    y = (y & ~(1 << q)) | (int(s) << q)
                G[y, x] += r
                G[x, x] -= r
    return G


def zdiag(n):
    return [(-1) ** bin(v).count('1') for v in range(2 ** n)]


def use(ep, rec, m, n, lists, vals):
    rng = rec.rng
    for qs in lists:
        asc = sorted(qs)
        arg = None if asc == list(range(n)) and rng.random() < .4 else list(qs)
        ep.ev('gen', qs=asc, mat=micros(m.generator_matrix(arg).toarray()), strength=micro(m.noise_strength(arg)))
        ep.ev('assign', qs=asc, a=micros(np.asarray(m.assignment_matrix(arg))),
              inv=micros(np.asarray(m.mitigation_matrix(arg))), fid=micro(m.assignment_fidelity(arg)))
    shots = rng.choice([1, 4, 9, 25])
    ep.ev('over', overhead=int(m.mitigation_overhead()), bound=micro(m.stddev_upper_bound(shots)),
          root=int(round(shots ** .5)), req=int(m.required_shots(.1)))
    for _ in range(vals):
        qs = rng.choice(lists)
        k = len(qs)
        width = k + rng.choice([0, 0, 1])
        cl = rng.sample(range(width), k)
        root = rng.choice([60, 150, 200])
        ks = rng.sample(range(2 ** width), rng.randrange(1, 2 ** width + 1))
        w = [rng.random() + .05 for _ in ks]
        cnt = {}
        for v, x in zip(ks, w):
            cnt[format(v, '0%db' % width)] = int(root * root * x / sum(w))
        first = format(ks[0], '0%db' % width)
        cnt[first] += root * root - sum(cnt.values())
        cnt = {a: b for a, b in cnt.items() if b}
        isdef = rng.random() < .4
        diag = zdiag(k) if isdef else [rng.randint(-3, 3) for _ in range(2 ** k)]
        if not any(diag):
            diag[0] = 1
        kw = {}
        if cl != list(range(width)) or rng.random() < .3:
            kw['clbits'] = list(cl)
        if not isdef:
            kw['diagonal'] = rng.choice([list(diag), np.array(diag, dtype=float)])
        if list(qs) != list(range(n)) or rng.random() < .5:
            kw['qubits'] = list(qs)
        m.seed(rng.randrange(10 ** 6))
        c = rng.choice([dict, Counts])(cnt)
        v, e = (m.expectation_value(c, **kw) if rng.random() < .5 else expectation_value(c, meas_mitigator=m, **kw))
        ep.ev('value', qs=list(qs), cl=cl, diag=diag, tab=[[bits(a), b] for a, b in sorted(cnt.items())],
              val=micro(v), err=micro(e))


def lists_of(rng, n):
    out = [list(range(n))]
    for k in range(1, n + 1):
        out.append(rng.sample(range(n), k))
    return out


def direct(rec, eid, n, gens, rates, vals):
    with rec.episode(eid, n=n, gens=[glog(g) for g in gens], rates=micros(rates), cal=[], locals=[]) as ep:
        nmax = 1 + max(max(g[2]) for g in gens)
        kw = {} if nmax == n and rec.rng.random() < .5 else dict(num_qubits=n)
        m = CTMPExpvalMeasMitigator(list(gens), list(rates), **kw)
        use(ep, rec, m, n, lists_of(rec.rng, n), vals)


def calibrated(rec, eid, n, true, vals, full, how, sub=None, holes=False):
    """noise of the given rates on the standard generators"""
    rng = rec.rng
    std = standard_generator_set(n)
    rates = [true.get(g, 0) for g in std]
    A = la.expm(gmat(std, rates, n))
    N = 1000000 if n <= 2 else 200000
    labels = list(range(2 ** n)) if full else sorted({0, 2 ** n - 1} | {1 << i for i in range(n)})
    order = rng.sample(labels, len(labels))
    cal, ex = [], []
    for x in order:
        col = [int(round(N * A[y, x])) for y in range(2 ** n)]
        if holes:
            # readout that no continuous-time noise explains: logarithms with negative entries
            for y in range(2 ** n):
                if y != x and rng.random() < .5:
                    col[y] = 0
        col[x] += N - sum(col)
        cal.append([x, [[y, c] for y, c in enumerate(col) if c]])
    gens = std if sub is None else sub
    two = [g for g in gens if len(g[2]) == 2]
    if any(len(g[2]) == 1 for g in gens):
        loc = [list(c) for c in itertools.permutations(range(n), 2)] if n > 1 else [[0]]
    else:
        loc = [list(c) for c in sorted({g[2] for g in two})]
    with rec.episode(eid, n=n, gens=[glog(g) for g in gens], rates=[], cal=cal, locals=loc) as ep:
        data = {x: {y: c for y, c in col} for x, col in cal}
        if how == 'direct':
            m = fit_ctmp_meas_mitigator(data, n, generators=list(gens)) if sub is not None or rng.random() < .3 \
                else fit_ctmp_meas_mitigator(data, n)
        else:
            labs = [format(x, '0%db' % n) for x in order]
            qcs, meta = expval_meas_mitigator_circuits(n, labels=labs) if how == 'labels' or full else \
                expval_meas_mitigator_circuits(n, method='CTMP')
            res = make_result([(qc.name, {format(y, '0%db' % n): c for y, c in data[int(md['cal'], 2)].items()})
                               for qc, md in zip(qcs, meta)])
            f = ExpvalMeasMitigatorFitter(res, meta)
            m = f.fit(method=rng.choice(['CTMP', 'ctmp']), **({'generators': list(gens)} if sub is not None else {}))
        nm = 1 + max(max(g[2]) for g in gens)
        if sub is None and not holes:
            ep.ev('truth', rates=micros(rates))
        lists = lists_of(rng, n) if nm == n else [sorted(rng.sample(range(n), k)) for k in range(1, nm)] + [list(range(nm))]
        lists = [q for q in lists if max(q) < nm]
        if nm == n:
            use(ep, rec, m, n, lists, vals)


def run(rec):
    rng, q = rec.rng, rec.quick
    for i, b in enumerate(rng.sample(rec.behs, min(len(rec.behs), 40 if q else 400))):
        gens, rates = [gtup(g) for g in b['gens']], [r / 1e6 for r in b['rates']]
        if i % 2:
            direct(rec, 'model-%d' % i, b['n'], gens, rates, 1)
        else:
            calibrated(rec, 'mcal-%d' % i, b['n'], dict(zip(gens, rates)), 1, rng.random() < .5,
                       rng.choice(['direct', 'labels', 'fitter']))
    for i in range(30 if q else 300):
        n = rng.choice([1, 2, 2, 3, 3])
        std = standard_generator_set(n)
        gens = rng.sample(std, rng.randrange(1, len(std) + 1))
        # generators in any qubit order, also the exchange written the other way round
        gens = [g if rng.random() < .7 or len(g[2]) == 1 else (g[0][::-1], g[1][::-1], g[2][::-1]) for g in gens]
        direct(rec, 'rand-%d' % i, n, gens, [rng.choice([0, rng.uniform(.0002, .001), rng.uniform(.005, .08 / n), rng.uniform(.005, .08 / n)]) for _ in gens], 2)
    for i in range(24 if q else 240):
        n = rng.choice([1, 2, 2, 3, 3, 3] + ([] if q else [4]))
        std = standard_generator_set(n)
        true = {g: rng.uniform(.002, .06 if len(g[2]) == 1 else .05 / n) for g in std}
        sub = None
        if n > 1 and rng.random() < .3:
            sub = [g for g in std if len(g[2]) == 2]
            sub = rng.sample(sub, rng.randrange(1, len(sub) + 1))
        calibrated(rec, 'cal-%d' % i, n, true, 1, rng.random() < .4, rng.choice(['direct', 'labels', 'fitter']), sub, i % 4 == 1)
    for i in range(8 if q else 60):
        # strong correlated noise, single flips often never seen
        n = 2 if i % 2 else 3
        true = {g: rng.uniform(.01, .03) if len(g[2]) == 1 else rng.uniform(.04, .09) / (n - 1)
                for g in standard_generator_set(n)}
        calibrated(rec, 'holes-%d' % i, n, true, 1, rng.random() < .6, rng.choice(['direct', 'labels', 'fitter']), None, True)
    for i in range(1 if q else 6):
        std = standard_generator_set(3)
        rates = [rng.uniform(.005, .02) for _ in std]
        with rec.episode('perm-%d' % i, n=3, gens=[glog(g) for g in std], rates=micros(rates), cal=[], locals=[]) as ep:
            m = CTMPExpvalMeasMitigator(list(std), list(rates))
            for qs in itertools.permutations(range(3)):
                use(ep, rec, m, 3, [list(qs)], 3)
    with rec.episode('misc', n=1, gens=[], rates=[1], cal=[], locals=[]) as ep:
        for n in range(1, 6):
            ep.ev('set', n=n, gens=[glog(g) for g in standard_generator_set(n)])
        for what, fn in (('no_qubits', lambda: standard_generator_set(0)),
                         ('not_a_number', lambda: standard_generator_set('2')),
                         ('calibration_missing', lambda: fit_ctmp_meas_mitigator({0: {0: 10}, 3: {3: 10}}, 2)),
                         ('not_a_count', lambda: fit_ctmp_meas_mitigator({0: {0: 10}}, 1.5))):
            ep.ev('reject', what=what, got=outcome(fn)[0])
