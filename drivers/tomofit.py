"""C06: tomography data handling and fits."""
import itertools as it
import numpy as np
from harness.drv import bits, key, counts as ctab, cmicros, make_result, outcome, gates
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.ignis.verification.tomography import (
    StateTomographyFitter, ProcessTomographyFitter, TomographyFitter,
    state_tomography_circuits, process_tomography_circuits,
    marginal_counts, combine_counts, expectation_counts, count_keys)

# -------------------------------------------------- independent data generator
SQ = 1 / np.sqrt(2)
MATS = {'h': np.array([[1, 1], [1, -1]]) * SQ, 's': np.diag([1, 1j]),
        'sdg': np.diag([1, -1j]), 't': np.diag([1, np.exp(.25j * np.pi)]),
        'x': np.array([[0, 1], [1, 0]]),
        'k0': np.array([[1, 0], [0, 0]]), 'k1': np.array([[0, 1], [0, 0]])}     # a reset
_s = np.sqrt(3)
STATES = {'Zp': [1, 0], 'Zm': [0, 1], 'Xp': [SQ, SQ], 'Xm': [SQ, -SQ],
          'Yp': [SQ, 1j * SQ], 'Ym': [SQ, -1j * SQ], 'S0': [1, 0],
          'S1': [1 / _s, np.sqrt(2) / _s],
          'S2': [1 / _s, np.sqrt(2) / _s * np.exp(-2j * np.pi / 3)],
          'S3': [1 / _s, np.sqrt(2) / _s * np.exp(2j * np.pi / 3)]}
STATES = {k: np.array(v, dtype=complex) for k, v in STATES.items()}


def word_unitary(n, word):
    u = np.eye(2 ** n, dtype=complex)
    for g in word:
        m = np.zeros_like(u)
        for x in range(2 ** n):
            if g[0] == 'cx':
                y = x ^ (((x >> g[1]) & 1) << g[2])
                m[y, x] = 1
            else:
                b = (x >> g[1]) & 1
                for o in (0, 1):
                    y = (x & ~(1 << g[1])) | (o << g[1])
                    m[y, x] += MATS[g[0]][o, b]
        u = m @ u
    return u


def product(labels):
    v = np.array([1], dtype=complex)
    for lab in labels:
        v = np.kron(STATES[lab], v)
    return v


def probs(n, mix, pl, ml):
    psi0 = product(pl) if pl else product(['Zp'] * n)
    out = np.zeros(2 ** n)
    for p, w in mix:
        psi = word_unitary(n, w) @ psi0
        for o in range(2 ** n):
            lab = [a + ('pm'[(o >> i) & 1]) for i, a in enumerate(ml)]
            out[o] += p / 100 * abs(np.vdot(product(lab), psi)) ** 2
    return out


def exact_counts(p, n, shots=1000000):
    c = [int(round(x * shots)) for x in p]
    return {key([(v >> i) & 1 for i in range(n)]): x for v, x in enumerate(c) if x}


def rword(rng, n, length):
    w = []
    for _ in range(length):
        if n == 2 and rng.random() < .35:
            a, b = rng.sample([0, 1], 2)
            w.append(('cx', a, b))
        else:
            w.append((rng.choice(['h', 's', 't', 'x', 'h']), rng.randrange(n)))
    return w


def word_gates(n, w):
    out = []
    for g in w:
        if g[0] in ('k0', 'k1'):
            out.append({'g': 'U', 'q': [g[1]],
                        'u': [0, 0, -1, -1, -1] if g[0] == 'k0' else [0, -1, 0, -1, -1]})
            continue
        qc = QuantumCircuit(n)
        getattr(qc, g[0])(*g[1:])
        out += gates(qc)
    return out


def src_of(n, mix):
    return [{'p': p, 'word': word_gates(n, w)} for p, w in mix]


def rmix(rng, n):
    w = rword(rng, n, rng.randint(0, 6))
    if rng.random() < .3:
        # a qubit is reset with some probability (not unital)
        p, q = rng.choice([20, 50, 100]), rng.randrange(n)
        tail = rword(rng, n, rng.randint(0, 3))
        out = [(p, w + [('k0', q)] + tail), (p, w + [('k1', q)] + tail)]
        return out + ([(100 - p, w)] if p < 100 else [])
    if rng.random() < .5:
        return [(100, w)]
    p = rng.choice([10, 25, 50, 70])
    return [(p, w), (100 - p, rword(rng, n, rng.randint(0, 5)))]


# ------------------------------------------------------------------- results
def widen(rng, cts, own):
    """add the caller's own registers (to the left) to tomography counts"""
    out = {}
    for k, v in cts.items():
        parts = [v]
        if v > 1 and rng.random() < .6:
            a = rng.randint(0, v)
            parts = [x for x in (a, v - a) if x]
        for x in parts:
            left = ''.join(rng.choice('01') for _ in range(sum(own)))
            kk = left + k
            out[kk] = out.get(kk, 0) + x
    return out


def creg_of(n, own):
    return [['tomo', n]] + [['own%d' % i, s] for i, s in enumerate(own)]


def name(pl, ml):
    return str(tuple(ml)) if not pl else str((tuple(pl), tuple(ml)))


def result_of(rng, exps, own):
    rows, log = [], []
    for pl, ml, cts in exps:
        c = widen(rng, cts, own) if own else cts
        rows.append((name(pl, ml), c, {'creg_sizes': creg_of(len(ml), own)}))
        log.append({'pl': list(pl), 'ml': list(ml), 'tab': ctab(c)})
    return make_result(rows), log


def circ_of(pl, ml, own):
    q = QuantumRegister(len(ml), 'q')
    qc = QuantumCircuit(q, ClassicalRegister(len(ml), 'tomo'),
                        *[ClassicalRegister(s, 'own%d' % i) for i, s in enumerate(own)])
    qc.name = name(pl, ml)
    return qc


def store(fitter):
    out = []
    for t, c in fitter.data.items():
        if t and isinstance(t[0], tuple):
            pl, ml = list(t[0]), list(t[1])
        else:
            pl, ml = [], list(t)
        out.append({'pl': pl, 'ml': ml, 'tab': ctab(c)})
    return out


def as_circs(rng, labs, own):
    if rng.random() < .5:
        return [name(*x) for x in labs]
    return [circ_of(x[0], x[1], own) for x in labs]


def add(ep, rng, fit, results, logs, labs, own, cls=None):
    asked = [{'pl': list(p), 'ml': list(m)} for p, m in labs]
    before = [str(r.to_dict()) for r in results]
    circs = as_circs(rng, labs, own)
    try:
        if fit is None:
            arg = results[0] if len(results) == 1 and rng.random() < .5 else list(results)
            fit = cls(arg, circs)
        else:
            fit.add_data(list(results), circs)
    except Exception as e:      # noqa: BLE001
        ep.ev('add_err', asked=asked, results=logs, kind=type(e).__name__, msg=str(e)[:200])
        return None
    ep.ev('add', asked=asked, results=logs, data=store(fit),
          same=before == [str(r.to_dict()) for r in results])
    return fit


def split(rng, exps, m):
    """distribute experiments over m results, each appearing at least once"""
    groups = [[] for _ in range(m)]
    for e in exps:
        for g in {rng.randrange(m)} | ({rng.randrange(m)} if rng.random() < .2 else set()):
            groups[g].append(e)
    for g in groups:
        rng.shuffle(g)
    return [g for g in groups if g]


def fits(ep, rec, fit, n, kind, exact, cvx):
    ev = 'statefit' if kind == 'state' else 'procfit'
    if kind == 'state':
        for weighted in ([True, False] if not exact else [rec.rng.random() < .5]):
            m = fit.fit(method='lstsq', standard_weights=weighted)
            ep.ev(ev, n=n, mat=cmicros(m), psd=True, weighted=weighted, exact=exact,
                  method='lstsq', tol=1500 if exact else 60)
        if cvx:
            # with weights the solver is badly conditioned on near-deterministic data
            for w, tol in ((False, 8000), (True, 150000)):
                how = rec.rng.choice(['cvx', 'cvx', 'auto'])
                m = fit.fit(method=how, standard_weights=w)
                ep.ev(ev, n=n, mat=cmicros(m), psd=True, weighted=w or how == 'auto', exact=exact,
                      method=how, tol=tol if exact else 8000, kkt=1500)
    else:
        weighted = rec.rng.random() < .5
        m = fit.fit(method='lstsq', standard_weights=weighted)
        ep.ev(ev, n=n, mat=cmicros(m.data), psd=True, weighted=weighted, exact=exact,
              method='lstsq', tol=3000 if exact else 60)
        if cvx:
            for w, tol in ((False, 10000), (True, 150000)):
                how = rec.rng.choice(['cvx', 'cvx', 'auto'])     # auto: whichever solver is there
                m = fit.fit(method=how, standard_weights=w)
                ep.ev(ev, n=n, mat=cmicros(m.data), psd=True, weighted=True, exact=exact,
                      method=how, tol=tol if exact else 10000)


def settings(n):
    return [tuple(x) for x in it.product('XYZ', repeat=n)]


def run(rec):
    rng = rec.rng
    # (a) specification histories: tomography bit 0, one own bit
    nb = 60 if rec.quick else 1500
    for bi, b in enumerate(rng.sample(rec.behs, min(nb, len(rec.behs)))):
        with rec.episode('beh%d' % bi) as ep:
            fit = None
            for h in b['hist']:
                results, logs = [], []
                for r in h['results']:
                    rows = []
                    for e in r:
                        c = {}
                        for bb, x in e['tab']:
                            if x:
                                c[key(bb)] = c.get(key(bb), 0) + x
                        rows.append((name(e['pl'], e['ml']), c, {'creg_sizes': [['t', 1], ['o', 1]]}))
                    results.append(make_result(rows))
                    logs.append([{'pl': e['pl'], 'ml': e['ml'],
                                  'tab': ctab(row[1])} for e, row in zip(r, rows)])
                labs = [(a['pl'], a['ml']) for a in h['asked']]
                fit = add(ep, rng, fit, results, logs, labs, [1], StateTomographyFitter)
                if fit is None:
                    break
    # (b) random data histories, one to three qubits
    for i in range(40 if rec.quick else 400):
        n = rng.choice([1, 2, 2, 3])
        own = rng.choice([[], [], [1], [2, 1]])
        proc = rng.random() < .4
        labs = []
        for _ in range(rng.randint(1, 4)):
            ml = tuple(rng.choice('XYZ') for _ in range(n))
            pl = tuple(rng.choice(['Zp', 'Zm', 'Xp', 'Yp']) for _ in range(n)) if proc else ()
            if (pl, ml) not in labs:
                labs.append((pl, ml))
        with rec.episode('hist%d' % i) as ep:
            fit = None
            for _ in range(rng.randint(1, 3)):
                sub = rng.sample(labs, rng.randint(1, len(labs)))
                exps = []
                for pl, ml in sub:
                    c = {}
                    for _ in range(rng.randint(1, 30)):
                        k = key([rng.randint(0, 1) for _ in range(n)])
                        c[k] = c.get(k, 0) + 1
                    exps.append((pl, ml, c))
                results, logs = [], []
                for g in split(rng, exps, rng.choice([1, 1, 2, 3])):
                    r, lg = result_of(rng, g, own)
                    results.append(r)
                    logs.append(lg)
                ask = list(sub)
                if rng.random() < .15:
                    ask = labs
                rng.shuffle(ask)
                fit = add(ep, rng, fit, results, logs, ask, own,
                          ProcessTomographyFitter if proc else StateTomographyFitter)
                if fit is None:
                    break
    # (c) state fits, exact data
    for i in range(24 if rec.quick else 300):
        n = rng.choice([1, 2])
        mix = rmix(rng, n)
        own = rng.choice([[], [1]])
        labs = [((), s) for s in settings(n)]
        rng.shuffle(labs)
        with rec.episode('state%d' % i, src=src_of(n, mix)) as ep:
            exps = [(pl, ml, exact_counts(probs(n, mix, pl, ml), n)) for pl, ml in labs]
            gs = split(rng, exps, rng.choice([1, 2])) if not own else [exps]
            pairs = [result_of(rng, g, own) for g in gs]
            fit = add(ep, rng, None, [p[0] for p in pairs], [p[1] for p in pairs], labs, own,
                      StateTomographyFitter)
            if fit is not None:
                fits(ep, rec, fit, n, 'state', True, i % 6 == 0)
    # (d) state fits, noisy data: closed form and optimality
    for i in range(28 if rec.quick else 200):
        n = rng.choice([1, 2, 2]) if i % 4 else 1
        labs = [((), s) for s in settings(n)]
        with rec.episode('noisy%d' % i) as ep:
            exps = []
            for pl, ml in labs:
                c = {}
                fav = key([rng.randint(0, 1) for _ in range(n)])
                for _ in range(rng.choice([10, 40, 100])):
                    k = fav if rng.random() < .6 else key([rng.randint(0, 1) for _ in range(n)])
                    c[k] = c.get(k, 0) + 1
                exps.append((pl, ml, c))
            r, lg = result_of(rng, exps, [])
            fit = add(ep, rng, None, [r], [lg], labs, [], TomographyFitter if i % 2 else StateTomographyFitter)
            if fit is None:
                continue
            if i % 2:
                for w in (True, False):
                    beta = rng.choice([None, None, .5, 2, 0, 0])
                    kw = {} if beta is None else {'beta': beta}
                    m = fit.fit(method='lstsq', standard_weights=w, psd=False, **kw)
                    ep.ev('statefit', n=n, mat=cmicros(m), psd=False, weighted=w, exact=False,
                          beta2=1 if beta is None else int(2 * beta), method='lstsq', tol=100 if not w else 300000)
            else:
                fits(ep, rec, fit, n, 'state', False, True)
    # (d2) noisy data near the mixed state or channel: the constrained fit is the unconstrained one, rescaled
    for i in range(20 if rec.quick else 160):
        proc = i % 2
        n = 1 if proc or i % 10 == 0 else 2
        labs = [(p, m) for p in ([(q,) for q in ['Zp', 'Zm', 'Xp', 'Xm', 'Yp', 'Ym']] if proc else [()]) for m in settings(n)]
        with rec.episode('mild%d' % i) as ep:
            exps = []
            for pl, ml in labs:
                c = {}
                for _ in range(rng.choice([8, 12, 60] if proc else [30, 60, 120])):
                    k = key([rng.randint(0, 1) for _ in range(n)])
                    c[k] = c.get(k, 0) + 1
                exps.append((pl, ml, c))
            r, lg = result_of(rng, exps, [])
            circs = as_circs(rng, labs, [])
            w = rng.random() < .8
            beta = rng.choice([None, None, .5, 1, 2, 0])
            kw = {} if w and rng.random() < .5 else {'standard_weights': w}
            if beta is not None:
                kw['beta'] = beta
            fit = (ProcessTomographyFitter if proc else StateTomographyFitter)(r, circs)
            m = fit.fit(method='lstsq', **kw)
            gen = TomographyFitter(r, circs, 'Pauli', 'Pauli')
            raw = gen.fit(method='lstsq', psd=False, standard_weights=w, beta=.5 if beta is None else beta)
            ep.ev('rescaled', mat=cmicros(m.data if proc else m), raw=cmicros(raw), trace=2000000 if proc else 1000000)
    # (e) process fits
    for i in range(14 if rec.quick else 120):
        n = 2 if i % 7 == 0 else 1
        basis = rng.choice(['Pauli', 'Pauli', 'SIC'])
        one = ['Zp', 'Zm', 'Xp', 'Yp'] if basis == 'Pauli' else ['S0', 'S1', 'S2', 'S3']
        mix = rmix(rng, n)
        labs = [(p, m) for p in it.product(one, repeat=n) for m in settings(n)]
        rng.shuffle(labs)
        own = rng.choice([[], [1]])
        with rec.episode('proc%d' % i, src=src_of(n, mix)) as ep:
            exps = [(pl, ml, exact_counts(probs(n, mix, pl, ml), n)) for pl, ml in labs]
            r, lg = result_of(rng, exps, own)
            circs = as_circs(rng, labs, own)
            fit = ProcessTomographyFitter(r, circs, prep_basis=basis)
            if n == 1:
                ep.ev('add', asked=[{'pl': list(p), 'ml': list(m)} for p, m in labs],
                      results=[lg], data=store(fit), same=True)
            fits(ep, rec, fit, n, 'proc', True, n == 1 and i % 2 == 1)
    for i in range(6 if rec.quick else 60):
        labs = [((p,), (m,)) for p in ['Zp', 'Zm', 'Xp', 'Yp'] for m in 'XYZ']
        with rec.episode('procnoisy%d' % i) as ep:
            exps = []
            for pl, ml in labs:
                a = rng.randint(0, 20)
                exps.append((pl, ml, {k: v for k, v in (('0', a), ('1', 20 - a)) if v}))
            r, lg = result_of(rng, exps, [])
            fit = ProcessTomographyFitter(r, as_circs(rng, labs, []))
            fits(ep, rec, fit, 1, 'proc', False, i % 3 == 0)
    # (e2) larger noisy data: fits are states and channels
    for i in range(2 if rec.quick else 12):
        proc = i % 2
        n = 2 if proc else 3
        one = ['Zp', 'Zm', 'Xp', 'Yp']
        labs = [(p, m) for p in (it.product(one, repeat=n) if proc else [()]) for m in settings(n)]
        with rec.episode('large%d' % i) as ep:
            exps = []
            for pl, ml in labs:
                c = {}
                fav = key([rng.randint(0, 1) for _ in range(n)])
                for _ in range(20):
                    k = fav if rng.random() < .6 else key([rng.randint(0, 1) for _ in range(n)])
                    c[k] = c.get(k, 0) + 1
                exps.append((pl, ml, c))
            r, lg = result_of(rng, exps, [])
            fit = (ProcessTomographyFitter if proc else StateTomographyFitter)(r, as_circs(rng, labs, []))
            m = fit.fit(method='lstsq')
            ep.ev('procfit' if proc else 'statefit', n=n, mat=cmicros(m.data if proc else m), psd=True,
                  weighted=True, exact=False, method='lstsq', tol=60)
    # (f) counts helpers
    for i in range(60 if rec.quick else 800):
        n = rng.choice([1, 2, 3, 4, 5])
        regs = rng.random() < .4 and n > 1
        cut = rng.randint(1, n - 1) if regs else 0
        c = {}
        every = rng.random() < .2
        for v in range(2 ** n if every else rng.randint(1, 25)):
            k = key([(v >> j) & 1 if every else rng.randint(0, 1) for j in range(n)])
            k = k[:cut] + ' ' + k[cut:] if regs else k
            c[k] = c.get(k, 0) + rng.randint(1, 9)
        d = dict(c)
        with rec.episode('counts%d' % i) as ep:
            cl = sorted(rng.sample(range(n), rng.randint(1, n)))
            allq = len(cl) == n and rng.random() < .5
            pad = rng.random() < .5
            form = True if allq else rng.choice([list, tuple])(rng.sample(cl, len(cl)))
            out = marginal_counts(c, form, pad) if pad else marginal_counts(c, form)
            ep.ev('marginal', tab=ctab(d), cl=cl, pad=pad, out=ctab(out), same=c == d)
            c2 = {}
            for _ in range(rng.randint(0, 6)):
                k = rng.choice(list(c)) if rng.random() < .5 else key([rng.randint(0, 1) for _ in range(n)])
                if regs and ' ' not in k:
                    k = k[:cut] + ' ' + k[cut:]
                c2[k] = c2.get(k, 0) + rng.randint(1, 9)
            d2 = dict(c2)
            out = combine_counts(c, c2)
            ep.ev('combine', a=ctab(d), b=ctab(d2), out=ctab(out), same=c == d and c2 == d2)
            c = dict(d)
            out = expectation_counts(c)
            ep.ev('expect', tab=ctab(d), n=n, out=ctab(out), same=c == d)
            ep.ev('count_keys', n=n, out=[bits(k) for k in count_keys(n)])
    with rec.episode('invalid') as ep:
        r, _ = result_of(rng, [((), ('X',), {'0': 3})], [])
        ep.ev('reject', what='none', got=outcome(lambda: StateTomographyFitter(r, []))[0])
        f = StateTomographyFitter(r, ["('X',)"])
        ep.ev('reject', what='method', got=outcome(lambda: f.fit(method='nope'))[0])
        ep.ev('reject', what='beta', got=outcome(lambda: f.fit(method='lstsq', beta=-1))[0])
        ep.ev('reject', what='measbasis', got=outcome(
            lambda: StateTomographyFitter(r, ["('X',)"], meas_basis='SIC'))[0])
