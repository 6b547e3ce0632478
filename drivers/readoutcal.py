"""C01: readout calibration circuits."""
from harness.drv import gates, bits
from qiskit import QuantumRegister, ClassicalRegister
from qiskit.exceptions import QiskitError
from qiskit.ignis.mitigation.measurement import (complete_meas_cal,
                                                 tensored_meas_cal)


def codes(s):
    return [ord(c) for c in s]


def one(rec, eid, pat, form, prefix='', regs='none', extra=(0, 0)):
    """form: 'complete' (single group) or 'tensored'."""
    flat = [q for g in pat for q in g]
    nq = (max(flat) + 1 if flat else 2) + extra[0]
    nc = len(flat) + extra[1]
    wq, wc = max(flat) + 1 if flat else nq, len(flat)
    kw = {}
    if regs == 'int':
        kw = {'qr': nq, 'cr': nc}
        wq, wc = nq, nc
    elif regs == 'reg':
        kw = {'qr': QuantumRegister(nq, 'dev'), 'cr': ClassicalRegister(nc, 'out')}
        wq, wc = nq, nc
    elif regs == 'qr':
        kw = {'qr': nq}
        wq = nq
    elif regs == 'default':          # no list: the whole register
        kw = {'qr': nq}
        wq, wc = nq, nq
        pat = [list(range(nq))]
    given = None if regs == 'default' else (pat[0] if form == 'complete'
                                            else [list(g) for g in pat])
    if prefix:
        kw['circlabel'] = prefix
    with rec.episode(eid, pat=pat, prefix=codes(prefix)) as ep:
        try:
            if form == 'complete':
                circs, labels = complete_meas_cal(given, **kw)
            else:
                circs, back = tensored_meas_cal(given, **kw)
        except QiskitError:
            ep.ev('rejected')
            return
        if form == 'complete':
            ep.ev('labels', labels=[bits(x) for x in labels])
            ep.ev('pattern', out=pat, ncirc=len(circs))
        else:
            ep.ev('pattern', out=[list(g) for g in back], ncirc=len(circs))
        for i, c in enumerate(circs):
            ep.ev('circuit', i=i, name=codes(c.name), gates=gates(c),
                  nq=len(c.qubits), nc=len(c.clbits), wantq=wq, wantc=wc)


def run(rec):
    k = 0
    forms = ['none', 'int', 'reg', 'qr']
    for pat in rec.behs:
        k += 1
        one(rec, 'b%d' % k, pat, 'tensored', prefix=['', 'a', 'test_'][k % 3],
            regs=forms[k % 4], extra=(k % 2, k % 3))
        if len(pat) == 1 and len(set(pat[0])) == len(pat[0]):
            one(rec, 'bc%d' % k, pat, 'complete', prefix=['', 'q'][k % 2],
                regs=forms[(k + 1) % 4], extra=(k % 2, k % 2))
    for n in range(1, 5):
        one(rec, 'dc%d' % n, [list(range(n))], 'complete', regs='default')
        one(rec, 'dt%d' % n, [list(range(n))], 'tensored', regs='default')
        one(rec, 'dd%d' % n, [[0] * (n + 1)], 'complete')
    for form, fn in (('complete', complete_meas_cal), ('tensored', tensored_meas_cal)):
        with rec.episode('none-' + form, pat=[], prefix=[]) as ep:
            try:
                fn()
                ep.ev('accepted_nothing')
            except QiskitError:
                ep.ev('rejected')
    for j in range(40 if rec.quick else 250):
        tot = rec.rng.randint(2, 5 if rec.quick else 6)
        qs = rec.rng.sample(range(9), tot)
        pat = []
        while qs:
            s = rec.rng.randint(1, len(qs))
            pat.append(qs[:s])
            qs = qs[s:]
        one(rec, 'r%d' % j, pat, 'tensored', prefix=rec.rng.choice(['', 'x', 'cal_', 'L_']),
            regs=rec.rng.choice(forms), extra=(rec.rng.randint(0, 2), rec.rng.randint(0, 2)))
        qs = rec.rng.sample(range(8), rec.rng.randint(1, 4))
        one(rec, 'rc%d' % j, [qs], 'complete', prefix=rec.rng.choice(['', 'x']),
            regs=rec.rng.choice(forms), extra=(rec.rng.randint(0, 2), rec.rng.randint(0, 2)))
