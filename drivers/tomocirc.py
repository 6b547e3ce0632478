"""C05: tomography circuit generators."""
import ast
import numpy as np
from harness.drv import gates, micro, outcome
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.ignis.verification.tomography import (state_tomography_circuits,
                                                  process_tomography_circuits)
from qiskit.ignis.verification.tomography.basis import PauliBasis, SICBasis
from qiskit.ignis.verification.tomography.basis.circuits import _tomography_circuits

G1 = ['h', 's', 't', 'x', 'sdg', 'tdg', 'y', 'z']
PREP = ['Zp', 'Zm', 'Xp', 'Xm', 'Yp', 'Ym']


def apply_word(qc, word, u2n):
    for g in word:
        if g['g'] == 'CX':
            qc.cx(*g['q'])
        else:
            getattr(qc, u2n[tuple(g['u'])])(g['q'][0])


def rand_body(rng, qc, n, length, others):
    for _ in range(length):
        if n > 1 and rng.random() < 0.35:
            a, b = rng.sample(range(n), 2)
            rng.choice([qc.cx, qc.cx, qc.cz])(a, b)
        elif rng.random() < 0.05:
            qc.barrier()
        else:
            getattr(qc, rng.choice(G1))(rng.randrange(n))


def obs(circ, user, cregs_user):
    qi = {b: i for i, b in enumerate(user.qubits)}
    new = [r for r in circ.cregs if r not in cregs_user]
    ci = {b: 100 + i for i, b in enumerate(user.clbits)}
    k = 0
    for r in new:
        for b in r:
            ci[b] = k
            k += 1
    return gates(circ, qi=qi, ci=ci, general=True)


def as_req(labels, default):
    if labels is None:
        return {'kind': 'none', 'v': []}
    if isinstance(labels, str):
        return {'kind': 'single', 'v': list(default)}
    if isinstance(labels, tuple):
        return {'kind': 'single', 'v': list(labels)}
    return {'kind': 'tuples', 'v': [list(x) for x in labels]}


def episode(rec, eid, user, mq, pq, ml, pl, mform, pform, pbasis, keep=None):
    rng = rec.rng
    k = len(mq)
    cregs_user = list(user.cregs)
    uci = {b: 100 + i for i, b in enumerate(user.clbits)}
    ug = gates(user, general=True, ci=uci)
    name = user.name
    state = pl is None
    with rec.episode(eid, kind='circ', n=user.num_qubits, user=ug, mq=mq,
                     pq=pq if not state else [], ml=as_req(ml, ('X', 'Y', 'Z')),
                     pl=as_req(pl, ('S0', 'S1', 'S2', 'S3') if pl == 'SIC'
                               else ('Zp', 'Zm', 'Xp', 'Yp'))) as ep:
        if state:
            circs = state_tomography_circuits(user, mform, meas_labels=ml)
        else:
            kw = {}
            if pform is not None:
                kw['prepared_qubits'] = pform
            circs = process_tomography_circuits(user, mform, meas_labels=ml,
                                                prep_labels=pl, prep_basis=pbasis, **kw)
        labs = []
        for c in circs:
            t = ast.literal_eval(c.name)
            labs.append([[], list(t)] if state else [list(t[0]), list(t[1])])
        ep.ev('labels', labels=labs, user=gates(user, general=True, ci=uci),
              same=bool(user.name == name and list(user.cregs) == cregs_user))
        idx = list(range(len(circs)))
        if keep and len(idx) > keep:
            idx = sorted(rng.sample(idx, keep))
        for i in idx:
            new = [b for r in circs[i].cregs if r not in cregs_user for b in r]
            ep.ev('circuit', pl=labs[i][0], ml=labs[i][1], gates=obs(circs[i], user, cregs_user),
                  pos=[circs[i].clbits.index(b) for b in new])
            rec.count('circuits')


def forms(rng, user, qs):
    """the same ordered qubit list in the accepted argument forms"""
    opts = ['ints', 'qubits']
    if len(qs) == 1:
        opts.append('one')
    for r in user.qregs:
        if [user.qubits[q] for q in qs] == list(r):
            opts += ['reg', 'reg']
    if len(user.qregs) == 2:
        a, b = user.qregs
        allq = list(user.qubits)
        if [allq[q] for q in qs] == list(b) + list(a):
            opts += ['regs_ba'] * 3
    o = rng.choice(opts)
    if o == 'ints':
        return list(qs)
    if o == 'qubits':
        return [user.qubits[q] for q in qs]
    if o == 'one':
        return user.qubits[qs[0]]
    if o == 'reg':
        return next(r for r in user.qregs if [user.qubits[q] for q in qs] == list(r))
    return [user.qregs[1], user.qregs[0]]


def mk_user(rng, sizes, own):
    regs = [QuantumRegister(s, 'q%s' % chr(97 + i)) for i, s in enumerate(sizes)]
    rng.random()
    cr = [ClassicalRegister(s, 'own%d' % i) for i, s in enumerate(own)]
    return QuantumCircuit(*regs, *cr, name='usr')


def run(rec):
    rng = rec.rng
    u2n = {}
    for g in ['h', 't', 's', 'x']:
        q = QuantumCircuit(1)
        getattr(q, g)(0)
        u2n[tuple(gates(q)[0]['u'])] = g
    behs = rec.behs
    n = 60 if rec.quick else 800
    for bi, b in enumerate(rng.sample(behs, min(n, len(behs)))):
        user = QuantumCircuit(2)
        apply_word(user, b['word'], u2n)
        mq, pq = b['mq'], b['pq']
        if bi % 4 == 0:
            episode(rec, 'beh%d' % bi, user, mq, pq, [tuple(b['ml'])], None,
                    forms(rng, user, mq), None, 'Pauli')
        else:
            pf = forms(rng, user, pq) if pq != mq or rng.random() < .5 else None
            episode(rec, 'beh%d' % bi, user, mq, pq, [tuple(b['ml'])], [tuple(b['pl'])],
                    forms(rng, user, mq), pf, 'Pauli')
    for i in range(110 if rec.quick else 1500):
        sizes = rng.choice([[1], [2], [3], [1, 1], [1, 2], [2, 1], [2, 2], [1, 1, 1], [1, 2, 1]])
        own = rng.choice([[], [], [1], [2], [1, 2]])
        user = mk_user(rng, sizes, own)
        nq = user.num_qubits
        k = rng.choice([1, 2, 2, 3]) if nq > 2 else rng.choice([1, nq, nq])
        k = min(k, nq)
        mq = rng.sample(range(nq), k)
        if len(sizes) == 2 and rng.random() < .3:
            mq = list(range(sizes[0], nq)) + list(range(sizes[0]))
            k = nq
        if k > 3:
            mq, k = mq[:3], 3
        rand_body(rng, user, nq, rng.randint(0, 8), None)
        free = [q for q in range(nq) if q not in mq]
        if own and free and rng.random() < .7:
            user.measure(rng.choice(free), rng.randrange(user.num_clbits))
        mode = rng.choice(['state', 'proc', 'proc', 'sic'])
        ml = rng.choice(['Pauli', 'Pauli', ('Z', 'X'), ('Y',), [tuple(rng.choice('XYZ') for _ in range(k))]])
        if mode == 'state':
            episode(rec, 'r%d' % i, user, mq, [], ml, None, forms(rng, user, mq), None, None,
                    keep=12)
            continue
        pq = rng.sample(range(nq), k) if rng.random() < .6 else list(mq)
        pf = forms(rng, user, pq) if pq != mq or rng.random() < .5 else None
        if mode == 'sic':
            pl = rng.choice(['SIC', [tuple(rng.choice(['S0', 'S1', 'S2', 'S3']) for _ in range(k))]])
            if k > 2:
                pl = [tuple(rng.choice(['S0', 'S1', 'S2', 'S3']) for _ in range(k))]
        else:
            two = tuple(rng.sample(PREP, 2))
            lst = sorted({tuple(rng.choice(PREP) for _ in range(k)) for _ in range(3)})
            pl = rng.choice(['Pauli', two, lst])
            if k > 2 and pl == 'Pauli':
                pl = two
        episode(rec, 'r%d' % i, user, mq, pq, ml, pl, forms(rng, user, mq), pf,
                'SIC' if mode == 'sic' else 'Pauli', keep=10)
    with rec.episode('invalid', kind='misc') as ep:
        u = QuantumCircuit(3)
        bad = {
            'len': lambda: process_tomography_circuits(u, [0, 1], prepared_qubits=[2]),
            'len2': lambda: process_tomography_circuits(u, [0], prepared_qubits=[2, 1]),
            'dup': lambda: state_tomography_circuits(u, [1, 1]),
            'dup_prep': lambda: process_tomography_circuits(u, [0, 1], prepared_qubits=[2, 2]),
            'sicmeas': lambda: _tomography_circuits(u, [0], None, meas_basis='SIC'),
            'label': lambda: state_tomography_circuits(u, [0], meas_labels=('W',)),
            'plabel': lambda: process_tomography_circuits(u, [0], prep_labels=('S1',)),
            'basis': lambda: state_tomography_circuits(u, [0], meas_basis='Nope'),
            'empty': lambda: state_tomography_circuits(u, []),
            'mm': lambda: PauliBasis.measurement_matrix('X', 2),
            'ml': lambda: PauliBasis.measurement_matrix('Xp', 0),
            'pm': lambda: PauliBasis.preparation_matrix('X'),
            'sm': lambda: SICBasis.measurement_matrix('S0', 0),
        }
        for what, f in bad.items():
            ep.ev('reject', what=what, got=outcome(f)[0])
    with rec.episode('matrices', kind='misc') as ep:
        q = QuantumRegister(1, 'q')
        for basis, labs in ((PauliBasis, PREP), (SICBasis, ['S0', 'S1', 'S2', 'S3'])):
            for lab in labs:
                m = np.asarray(basis.preparation_matrix(lab)).reshape(4)
                c = basis.preparation_circuit(lab, q[0])
                ep.ev('prepmat', label=lab, gates=gates(c, general=True),
                      m=[[micro(z.real), micro(z.imag)] for z in m])
        for lab in 'XYZ':
            for o in (0, 1, '0', '1'):
                m = np.asarray(PauliBasis.measurement_matrix(lab, o)).reshape(4)
                ep.ev('measmat', label=lab, outcome=int(o),
                      m=[[micro(z.real), micro(z.imag)] for z in m])
