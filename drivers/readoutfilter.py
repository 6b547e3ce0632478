"""C03: readout mitigation filters."""
import copy
import numpy as np
from harness.drv import micro, bits, key, make_result, outcome
from qiskit.result import Result
from qiskit.ignis.mitigation.measurement import (MeasurementFilter, TensoredFilter,
                                                 CompleteMeasFitter, TensoredMeasFitter)

METHODS = {'pinv': 'pseudo_inverse', 'ls': 'least_squares'}


def labels_of(n):
    return [[(v >> k) & 1 for k in range(n)] for v in range(2 ** n)]


def tab(d):
    return sorted([bits(k), int(v)] for k, v in d.items())


def out_tab(d):
    return sorted([bits(k), micro(v)] for k, v in d.items())


def mat(rng, n, strong=0.5):
    """column-stochastic, entries multiples of 1/1000, well conditioned"""
    d = 2 ** n
    a = np.zeros((d, d), dtype=int)
    for c in range(d):
        left = 1000
        stay = rng.randint(int(1000 * (1 - strong)), 1000)
        w = [rng.random() for _ in range(d)]
        for r in range(d):
            if r != c:
                v = int((1000 - stay) * w[r] / sum(w))
                a[r, c] = v
                left -= v
        a[c, c] = left
    return a


def rand_counts(rng, n):
    tot = rng.choice([30, 50, 120, 180])
    out = {}
    ls = rng.sample(labels_of(n), rng.randint(1, 2 ** n))
    for _ in range(tot):
        k = key(rng.choice(ls))
        out[k] = out.get(k, 0) + 1
    return out


def exact(a, labels, rng):
    """counts that are the image of a physical vector (integer)"""
    x = np.array([rng.choice([0, 0, 1, 2]) * 1000 // 10 for _ in labels])
    return None if not x.any() else x


def check_complete(rec, eid, n, a, labels, counts_list, via_fitter=False):
    rng = rec.rng
    names = [key(x) for x in labels]
    with rec.episode(eid, labs=[labels], mats=[(a * 1000).tolist()]) as ep:
        am = a / 1000.0
        if via_fitter:
            f0 = CompleteMeasFitter(None, list(names))
            f0.cal_matrix = am
            filt = f0.filter
        else:
            filt = MeasurementFilter(am, list(names))
        for m, meth in METHODS.items():
            c = dict(counts_list[0])
            before = tab(c)
            r = filt.apply(c, method=meth)
            ep.ev('shape', ok=isinstance(r, dict))
            ep.ev('apply', method=m, data=before, after=tab(c), out=out_tab(r))
            # list form
            v = [int(counts_list[0].get(k, 0)) for k in names]
            vv = list(v)
            r = filt.apply(vv, method=meth)
            ep.ev('shape', ok=len(r) == len(names))
            ep.ev('apply', method=m, data=sorted([b, x] for b, x in zip(labels, v)),
                  after=sorted([b, int(x)] for b, x in zip(labels, vv)),
                  out=[[b, micro(x)] for b, x in zip(labels, r)])
            # stacked list form
            big, want = [], []
            for cc in counts_list:
                v = [int(cc.get(k, 0)) for k in names]
                big += v
                want.append(v)
            if len(counts_list) > 1:
                bb = list(big)
                r = filt.apply(bb, method=meth)
                ep.ev('shape', ok=len(r) == len(big))
                for i, v in enumerate(want):
                    s = slice(i * len(names), (i + 1) * len(names))
                    ep.ev('apply', method=m,
                          data=sorted([b, x] for b, x in zip(labels, v)),
                          after=sorted([b, int(x)] for b, x in zip(labels, bb[s])),
                          out=[[b, micro(x)] for b, x in zip(labels, r[s])])
            result_form(ep, filt, m, meth, counts_list, n)
        # invalid inputs
        for bad in ([1] * (len(names) + 1), {'2' * n: 3}, {'0' * (n + 1): 3},
                    {key(labels[0]): 2, '1' * (n + 2): 1}, (1, 2), 'x', {'0' * n + ' ': 1}):
            st, _ = outcome(filt.apply, bad, method='pseudo_inverse')
            ep.ev('reject' if st == 'err' else 'accept', valid=False)
        st, _ = outcome(filt.apply, dict(counts_list[0]), method='no such method')
        ep.ev('reject' if st == 'err' else 'accept', valid=False)


def result_form(ep, filt, m, meth, counts_list, n):
    res = make_result([('e%d' % i, c, {'creg_sizes': [['c', n]]})
                       for i, c in enumerate(counts_list)])
    before = [tab(res.get_counts(i)) for i in range(len(counts_list))]
    r = filt.apply(res, method=meth)
    ep.ev('shape', ok=isinstance(r, Result) and len(r.results) == len(counts_list)
          and all(r.results[i].header.name == 'e%d' % i for i in range(len(counts_list))))
    for i in range(len(counts_list)):
        ep.ev('apply', method=m, data=before[i], after=tab(res.get_counts(i)),
              out=out_tab(r.get_counts(i)))


def check_tensored(rec, eid, mats, labs, counts_list, via_fitter=False, methods=('pinv', 'ls')):
    n = sum(len(x[0]) for x in labs)
    with rec.episode(eid, labs=labs, mats=[(a * 1000).tolist() for a in mats]) as ep:
        names = [[key(x) for x in ls] for ls in labs]
        am = [a / 1000.0 for a in mats]
        if via_fitter:
            pat, k = [], 0
            for ls in labs:
                pat.append(list(range(k, k + len(ls[0]))))
                k += len(ls[0])
            f0 = TensoredMeasFitter(None, pat, names)
            f0.cal_matrices = am
            filt = f0.filter
        else:
            filt = TensoredFilter(am, names)
        for m in methods:
            meth = METHODS[m]
            c = dict(counts_list[0])
            before = tab(c)
            r = filt.apply(c, method=meth)
            ep.ev('shape', ok=isinstance(r, dict))
            ep.ev('apply', method=m, data=before, after=tab(c), out=out_tab(r))
            result_form(ep, filt, m, meth, counts_list, n)
        for bad in ({'0' * n + '1': 3, '1' * (n + 1): 2}, {'1' + '0' * n: 5},
                    {'x' * n: 1}, (3, 4), [1, 2, 3], {'1' * (n - 1): 4} if n > 1 else {'': 4}):
            st, _ = outcome(filt.apply, bad, method='pseudo_inverse')
            ep.ev('reject' if st == 'err' else 'accept', valid=False)
        st, _ = outcome(filt.apply, dict(counts_list[0]), method='no such method')
        ep.ev('reject' if st == 'err' else 'accept', valid=False)


def run(rec):
    rng = rec.rng
    L1 = labels_of(1)
    behs = list(rec.behs)
    if rec.quick:
        rng.shuffle(behs)
        behs = behs[:150]
    for k, b in enumerate(behs):
        mats = [np.array(m) // 1000 for m in b['a']]
        c = {key(x): 40 * v for x, v in zip(labels_of(2), b['b']) if v}
        check_tensored(rec, 'b%d' % k, mats, [L1, L1], [c], via_fitter=k % 2 == 0,
                       methods=('pinv',) if k % 3 else ('pinv', 'ls'))
        kron = np.kron(mats[1], mats[0])
        if (kron % 1000 == 0).all():
            check_complete(rec, 'bk%d' % k, 2, kron // 1000, labels_of(2), [c])
    for j in range(60 if rec.quick else 350):
        n = rng.randint(1, 3)
        labels = labels_of(n)
        if rng.random() < 0.6:
            rng.shuffle(labels)
        check_complete(rec, 'c%d' % j, n, mat(rng, n), labels,
                       [rand_counts(rng, n) for _ in range(rng.randint(1, 3))],
                       via_fitter=rng.random() < 0.5)
    for j in range(40 if rec.quick else 250):
        sizes = rng.choice([[1], [2], [1, 1], [1, 2], [2, 1], [1, 1, 1], [3]])
        labs = [labels_of(s) for s in sizes]
        if rng.random() < 0.6:
            for ls in labs:
                rng.shuffle(ls)
        n = sum(sizes)
        check_tensored(rec, 't%d' % j, [mat(rng, s) for s in sizes], labs,
                       [rand_counts(rng, n) for _ in range(rng.randint(1, 3))],
                       via_fitter=rng.random() < 0.5,
                       methods=('pinv', 'ls') if n < 3 or j % 4 == 0 else ('pinv',))
