"""C04: expectation-value mitigators (complete, tensored)."""
import numpy as np
from harness.drv import micro, micros, bits, key, make_result, gates, outcome
from qiskit.exceptions import QiskitError
from qiskit.result import Counts
import qiskit.ignis.mitigation as mit
from qiskit.ignis.mitigation.expval import utils as _u  # noqa: F401
from qiskit.ignis.mitigation import (CompleteExpvalMeasMitigator,
                                     TensoredExpvalMeasMitigator,
                                     ExpvalMeasMitigatorFitter,
                                     expval_meas_mitigator_circuits, expectation_value)
from drivers.readoutfilter import mat, labels_of


def tab(d):
    return sorted([bits(k), int(v)] for k, v in d.items())


def zdiag(n):
    return [(-1) ** bin(v).count('1') for v in range(2 ** n)]


def rcounts(rng, n, lo=1):
    out = {}
    ls = rng.sample(labels_of(n), rng.randint(1, 2 ** n))
    for _ in range(rng.choice([lo, 20, 100, 180])):
        k = key(rng.choice(ls))
        out[k] = out.get(k, 0) + 1
    return out


def use(ep, rng, m, n, lists, counts_per=2, diag0=None):
    """matrices and expectation values of mitigator m on qubit lists"""
    for qs in lists:
        k = len(qs)
        arg = list(qs)
        if qs == list(range(n)) and rng.random() < 0.5:
            arg = None
        one = qs[0] if k == 1 and rng.random() < 0.5 else arg
        ep.ev('assign', qs=qs, mat=micros(np.asarray(m.assignment_matrix(one))),
              fid=micro(m.assignment_fidelity(one)))
        ep.ev('mit', qs=qs, mat=micros(np.asarray(m.mitigation_matrix(arg))))
        shots = rng.choice([1, 4, 25])
        ep.ev('over', qs=qs, overhead=m.mitigation_overhead(arg), shots=shots,
              bound=micro(m.stddev_upper_bound(shots, arg)), inv=5, req=m.required_shots(0.2, arg))
        for _ in range(counts_per):
            extra = rng.choice([0, 0, 1, 2])
            width = k + extra
            cl = rng.sample(range(width), k)
            c = rcounts(rng, width)
            before = tab(c)
            if rng.random() < 0.4:
                diag, isdef = zdiag(k), True
            elif diag0 is not None and len(diag0) == 2 ** k:
                diag, isdef = diag0, False
            else:
                diag, isdef = [rng.randint(-3, 3) for _ in range(2 ** k)], False
            kw = {}
            if cl != list(range(width)) or rng.random() < 0.3:
                kw['clbits'] = list(cl)
            given = None if isdef else rng.choice([list(diag), np.array(diag, dtype=float)])
            mitigated = rng.random() < 0.75
            obj = Counts(c) if rng.random() < 0.3 else c
            if mitigated:
                q = None if arg is None and k == n else list(qs)
                if rng.random() < 0.5:
                    v, s = m.expectation_value(obj, diagonal=given, qubits=q, **kw)
                else:
                    v, s = expectation_value(obj, diagonal=given, qubits=q,
                                             meas_mitigator=m, **kw)
            else:
                v, s = expectation_value(obj, diagonal=given, **kw)
            ep.ev('expval', qs=qs, mitigated=mitigated, diag=diag, isdefault=isdef,
                  tab=before, after=tab(c), cl=cl, val=micro(v), dev=micro(s))


def lists_for(rng, n, k):
    out = [list(range(n))]
    for _ in range(k):
        out.append(rng.sample(range(n), rng.randint(1, n)))
    rng.shuffle(out)
    # revisit a permutation of an earlier list: cached matrices must not leak
    out.append(list(reversed(out[0])))
    return out


def run(rec):
    rng = rec.rng
    for j in range(6 if rec.quick else 30):
        for method in ('complete', 'tensored', 'CTMP'):
            n = rng.randint(1, 4)
            with rec.episode('circ%d%s' % (j, method), kind='circuits', n=n) as ep:
                custom = rng.random() < 0.4
                want = [rng.randrange(2 ** n) for _ in range(rng.randint(1, 5))]
                kw = {'labels': [format(v, '0%db' % n) for v in want]} if custom else {}
                cs, meta = expval_meas_mitigator_circuits(n, method=method, **kw)
                ep.ev('circuits', method=method, custom=custom, want=want,
                      labels=[int(m['cal'], 2) if len(m['cal']) == n else -1 for m in meta],
                      methods=[m['method'] for m in meta])
                for c, m in zip(cs, meta):
                    ep.ev('circuit', val=int(m['cal'], 2), gates=gates(c))
    for j in range(60 if rec.quick else 400):
        n = rng.randint(1, 3)
        method = rng.choice(['complete', 'tensored'])
        recorded = rng.choice([method, 'complete', 'tensored', 'CTMP'])
        with rec.episode('fit%d' % j, kind='fit', n=n) as ep:
            full = np.ones((1, 1), dtype=int)
            labels = [rng.randrange(2 ** n) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.8:
                if method == 'complete' or rng.random() < 0.3:
                    labels = list(range(2 ** n)) + labels
                else:
                    labels = [0, 2 ** n - 1] + labels
                rng.shuffle(labels)
            exps, meta, cal = [], [], []
            for i, v in enumerate(labels):
                if rng.random() < 0.2:
                    exps.append(('other%d' % i, rcounts(rng, n), {'creg_sizes': [['c', n]]}))
                    meta.append({'experiment': 'else', 'cal': format(v, '0%db' % n)})
                # mostly correct readout so that the matrices are invertible
                c = rcounts(rng, n, lo=5)
                lab = format(v, '0%db' % n)
                c[lab] = c.get(lab, 0) + 2 * sum(c.values()) + 20
                exps.append(('e%d' % i, c, {'creg_sizes': [['meas', n]]}))
                meta.append({'experiment': 'meas_mit', 'cal': lab, 'method': recorded})
                cal.append([v, tab(c)])
            res = make_result(exps)
            fitter = ExpvalMeasMitigatorFitter(res, meta)
            use_method = method if recorded != method or rng.random() < 0.5 else None
            ep.ev('unfitted', got=outcome(lambda: fitter.mitigator)[0])
            if rng.random() < 0.3:
                outcome(lambda: fitter.fit(method='tensored'))
            try:
                m = fitter.fit(method=use_method)
            except QiskitError:
                ep.ev('fit_err', method=method, cal=cal)
                continue
            ep.ev('fit', method=method, cal=cal)
            ep.ev('assign', qs=list(range(n)), mat=micros(np.asarray(m.assignment_matrix())),
                  fid=micro(m.assignment_fidelity()))
            use(ep, rng, fitter.mitigator, n, lists_for(rng, n, 1), 1)
    for k, b in enumerate(rec.behs):
        if rec.quick and k % 3 != rec.seed % 3:
            continue
        n = len(b['as'])
        mats = [np.array(a) / 1e6 for a in b['as']]
        with rec.episode('bt%d' % k, kind='tensored', n=n, mats=b['as']) as ep:
            use(ep, rng, TensoredExpvalMeasMitigator(mats), n, [b['qs']], 1, b['dg'])
        full = np.ones((1, 1))
        for a in mats:
            full = np.kron(a, full)
        with rec.episode('bc%d' % k, kind='complete', n=n, mats=micros(full)) as ep:
            use(ep, rng, CompleteExpvalMeasMitigator(full), n, [b['qs']], 1, b['dg'])
    for j in range(60 if rec.quick else 400):
        n = rng.randint(1, 3)
        a = mat(rng, n, 0.4)
        with rec.episode('c%d' % j, kind='complete', n=n, mats=(a * 1000).tolist()) as ep:
            use(ep, rng, CompleteExpvalMeasMitigator(a / 1000.0), n, lists_for(rng, n, 2))
        n = rng.randint(1, 4)
        mats = [mat(rng, 1, 0.4) for _ in range(n)]
        with rec.episode('t%d' % j, kind='tensored', n=n,
                         mats=[(x * 1000).tolist() for x in mats]) as ep:
            use(ep, rng, TensoredExpvalMeasMitigator([x / 1000.0 for x in mats]), n,
                lists_for(rng, n, 2))
