"""C02: calibration matrices as accumulated statistics."""
from harness.drv import micros, micro, key, bits, make_result
from qiskit.exceptions import QiskitError
from qiskit.ignis.mitigation.measurement import (CompleteMeasFitter,
                                                 TensoredMeasFitter)
import numpy as np


def labels_of(n):
    return [[(v >> k) & 1 for k in range(n)] for v in range(2 ** n)]


def result(exps, prefix, other=0):
    """exps: list of [prep bits, [[bits, n], ...]]"""
    out = [(prefix + 'cal_' + key(p), {key(b): n for b, n in tab if n})
           for p, tab in exps]
    if other & 1:
        out.insert(0, ('unrelated', {'0' * len(exps[0][0]): 17}))
    if other & 2:
        out.append(('rb_seq_1', {'1' * len(exps[0][0]): 23}))
    if other & 4 and prefix:
        out.append(('cal_' + key(exps[0][0]), {'1' * len(exps[0][0]): 31}))
    return make_result(out)


def observe(ep, fit, complete, rng, sizes, labels, qubits, deep=True):
    m = (
        (fit.cal_matrix if fit_has(fit) else None) if complete else fit.cal_matrices)
    if m is None:
        ep.ev('mats', unset=True, mats=[])
    else:
        ep.ev('mats', unset=False, mats=[micros(x) for x in ([m] if complete else m)])
    if not deep:
        return
    g = rng.randrange(len(sizes))
    grp = []
    if rng.random() < 0.6:
        ls = [list(x) for x in labels[g]]
        rng.shuffle(ls)
        for _ in range(rng.randint(1, 3)):
            grp.append(rng.sample(ls, rng.randint(1, len(ls))))
    arg = [[key(x) for x in gg] for gg in grp] or None
    try:
        v = fit.readout_fidelity(arg) if complete else fit.readout_fidelity(g, arg)
        ep.ev('fid', g=g + 1, groups=grp, value=micro(v))
    except QiskitError:
        ep.ev('fid_err')
    if complete:
        pool = list(qubits) + ([max(qubits) + 3] if rng.random() < 0.15 else [])
        sub = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        try:
            s = fit.subset_fitter(sub)
            ep.ev('subset', sub=sub, labels=[bits(x) for x in s.state_labels],
                  mat=micros(s.cal_matrix))
        except QiskitError:
            ep.ev('subset_err', sub=sub)


def fit_has(fit):
    try:
        return fit.cal_matrix is not None
    except TypeError:            # nothing added yet: no matrix to index
        return False


def history(rec, eid, complete, sizes, calls, labels=None, qubits=None, prefix='',
            ctor=0):
    """calls: list of (list of results, rebuild); result = list of experiments."""
    rng = rec.rng
    std = labels is None
    labels = labels or [labels_of(s) for s in sizes]
    qubits = qubits or list(range(sum(sizes)))
    pat, k = [], 0
    for s in sizes:
        pat.append(qubits[k:k + s])
        k += s
    with rec.episode(eid, sizes=sizes, labels=labels, qubits=qubits) as ep:
        first = None
        if ctor and calls:
            first = calls[0]
            calls = calls[1:]
        def obj(results, single):
            rs = [result(r, prefix, rng.randrange(8)) for r in results]
            return rs[0] if single and len(rs) == 1 else rs
        init = obj(first[0], rng.random() < 0.5) if first and first[0] else None
        if complete:
            fit = CompleteMeasFitter(init, [key(x) for x in labels[0]],
                                     qubit_list=qubits if rng.random() < 0.8 or
                                     qubits != list(range(len(qubits))) else None,
                                     circlabel=prefix)
        else:
            fit = TensoredMeasFitter(init, pat, None if std else
                                     [[key(x) for x in ls] for ls in labels], prefix)
        if first is not None:
            ep.ev('add', results=first[0], none=not first[0], rebuild=True)
        observe(ep, fit, complete, rng, sizes, labels, qubits)
        last = None
        for results, rebuild in calls:
            if results and last is not None and rng.random() < 0.15:
                # the very same result objects once more
                fit.add_data(last[1], bool(rebuild))
                ep.ev('add', results=last[0], none=False, rebuild=bool(rebuild))
            elif results and rng.random() < 0.4:
                last = (results, obj(results, rng.random() < 0.5))
                fit.add_data(last[1], bool(rebuild))
                ep.ev('add', results=results, none=False, rebuild=bool(rebuild))
            elif not results and rng.random() < 0.5:
                fit.add_data([], bool(rebuild))
                ep.ev('add', results=[], none=False, rebuild=bool(rebuild))
            elif results:
                fit.add_data(obj(results, rng.random() < 0.5), bool(rebuild))
                ep.ev('add', results=results, none=False, rebuild=bool(rebuild))
            else:
                fit.add_data(None, bool(rebuild))
                ep.ev('add', results=[], none=True, rebuild=bool(rebuild))
            observe(ep, fit, complete, rng, sizes, labels, qubits,
                    deep=rng.random() < 0.7)
        if rng.random() < 0.3:
            # matrices set by the caller are kept as given, also when the caller's arrays change
            mats = [np.array([[rng.randrange(1000) / 1000 for _ in range(2 ** s)] for _ in range(2 ** s)]) for s in sizes]
            want = [micros(x) for x in mats]
            if complete:
                fit.cal_matrix = mats[0]
            else:
                fit.cal_matrices = mats
            for x in mats:
                x[:] = 0
            got = [fit.cal_matrix] if complete else fit.cal_matrices
            ep.ev('set', want=want, got=[micros(x) for x in got])
            fit.add_data([], True)
            ep.ev('add', results=[], none=False, rebuild=True)
        observe(ep, fit, complete, rng, sizes, labels, qubits)


def run(rec):
    rng = rec.rng
    k = 0
    for b in rec.behs:
        k += 1
        calls = [([b['pool'][i - 1] for i in c], rb) for c, rb in b['hist']]
        if b['sizes'] == [2]:
            history(rec, 'b%d' % k, True, [2], calls, qubits=[3, 1] if k % 2 else None,
                    prefix=['', 'w_'][k % 2], ctor=(k % 3 == 0 and calls[0][1]))
        history(rec, 'bt%d' % k, False, b['sizes'], calls, prefix=['', 'w_'][k % 2])
    for j in range(120 if rec.quick else 800):
        complete = rng.random() < 0.5
        n = rng.randint(1, 3)
        sizes = [n] if complete else []
        while not complete and sum(sizes) < n:
            sizes.append(rng.randint(1, n - sum(sizes)))
        tot = sum(sizes)
        labels = None
        if rng.random() < 0.6:
            labels = [labels_of(s) for s in sizes]
            for ls in labels:
                rng.shuffle(ls)
        calls = []
        for _ in range(rng.randint(1, 4)):
            rs = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                preps = rng.sample(labels_of(tot), rng.randint(1, 2 ** tot))
                exps = []
                for p in preps:
                    outs = rng.sample(labels_of(tot), rng.randint(1, min(4, 2 ** tot)))
                    exps.append([p, [[o, rng.randint(1, 60)] for o in outs]])
                rs.append(exps)
            calls.append((rs, rng.random() < 0.6))
        qubits = rng.sample(range(7), tot) if rng.random() < 0.7 else None
        history(rec, 'r%d' % j, complete, sizes, calls, labels, qubits,
                prefix=rng.choice(['', 'w_', 'test']), ctor=rng.random() < 0.5)
