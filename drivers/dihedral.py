"""C08: CNOT-dihedral elements."""
import cmath
import itertools
import math
import numpy as np
from numpy.random import RandomState
from harness.drv import gates, outcome
from qiskit import QuantumCircuit
from qiskit.circuit.library import U1Gate
from qiskit.quantum_info import Pauli, Operator
from qiskit.quantum_info.operators.scalar_op import ScalarOp
from qiskit.ignis.verification.randomized_benchmarking.dihedral import (
    CNOTDihedral, random_cnotdihedral, make_dict_0, make_dict_next)

ONE = ['x', 'y', 'z', 't', 's', 'tdg', 'sdg', 'id']


def w2op(w):
    if w[0] == 'flip':
        return {'op': 'flip', 'x': w[1], 'y': 0}
    return {'op': w[0], 'x': w[1], 'y': w[2]}


def apply(e, w):
    if w['op'] == 'flip':
        e.flip(w['x'])
    else:
        getattr(e, w['op'])(w['x'], w['y'])


def mono(m):
    """columns as [row, phase], phases relative"""
    out = []
    ref = None
    for j in range(m.shape[1]):
        r = int(np.argmax(abs(m[:, j])))
        z = m[r, j]
        if abs(abs(z) - 1) > 1e-6 or np.sum(abs(m[:, j]) > 1e-6) != 1:
            return [[0, 0]] * m.shape[1]
        if ref is None:
            ref = z
        a = cmath.phase(z / ref) / (math.pi / 4)
        if abs(a - round(a)) > 1e-5:
            return [[0, 0]] * m.shape[1]
        out.append([r, int(round(a)) % 8])
    return out


def rand_circ(rng, n, length):
    qc = QuantumCircuit(n)
    for _ in range(length):
        r = rng.random()
        if n > 1 and r < .45:
            a, b = rng.sample(range(n), 2)
            rng.choice([qc.cx, qc.cx, qc.cx, qc.cz, qc.swap])(a, b)
        elif r < .6:
            qc.append(U1Gate(rng.randrange(-9, 18) * math.pi / 4), [rng.randrange(n)])
        elif r < .65:
            qc.p(rng.randrange(8) * math.pi / 4, rng.randrange(n))
        elif r < .7:
            sub = QuantumCircuit(n)
            sub.x(0)
            if n > 1:
                sub.cx(n - 1, 0)
            sub.t(n - 1)
            qc.append(sub.to_gate(), rng.sample(range(n), n))
        else:
            getattr(qc, rng.choice(ONE))(rng.randrange(n))
    return qc


def obs(ep, heap, i):
    e = heap[i]
    ep.ev('obs', a=i + 1, gates=gates(e.to_circuit()), valid=bool(e.is_cnotdihedral()))


def affine(e):
    n = e.num_qubits
    ph, f = [], []
    for x in range(2 ** n):
        xs = [(x >> k) & 1 for k in range(n)]
        ph.append(int(e.poly.evaluate(xs)))
        y = [(sum(int(e.linear[i][j]) * xs[j] for j in range(n)) + int(e.shift[i])) % 2
             for i in range(n)]
        f.append(sum(b << k for k, b in enumerate(y)))
    return ph, f


def parts(e):
    return {'w0': int(e.poly.weight_0), 'w1': [int(x) for x in e.poly.weight_1],
            'w2': [int(x) for x in e.poly.weight_2], 'w3': [int(x) for x in e.poly.weight_3],
            'lin': [[int(x) for x in r] for r in e.linear], 'sh': [int(x) for x in e.shift]}


def history(rec, eid, n, steps):
    rng = rec.rng
    with rec.episode(eid, n=n) as ep:
        heap = []

        def do(r, fn, **kw):
            got = outcome(fn)
            ep.ev('do', r=r + 1, got=got[0] if got[0] == 'ok' else got[1], **kw)
            if got[0] != 'ok':
                raise RuntimeError('operation failed: %r %s' % (kw, got[1]))
            if r < len(heap):
                heap[r] = got[1]
            else:
                heap.append(got[1])

        qc = rand_circ(rng, n, rng.randrange(0, 7))
        do(0, lambda: CNOTDihedral(qc), op='circuit', n=n, src=gates(qc))
        e = random_cnotdihedral(n, seed=rng.randrange(1, 10**6))
        heap.append(e)
        ep.ev('random', r=2, n=n, gates=gates(e.to_circuit()), valid=bool(e.is_cnotdihedral()))
        for _ in range(steps):
            a, b = rng.randrange(len(heap)), rng.randrange(len(heap))
            r = rng.choice([len(heap), rng.randrange(len(heap))]) if len(heap) < 4 \
                else rng.randrange(len(heap))
            op = rng.choice(['id', 'circuit', 'copy', 'cnot', 'phase', 'flip', 'compose',
                             'compose', 'dot', 'adjoint', 'conjugate', 'transpose', 'power',
                             'front', 'matmul', 'append', 'ctor'])
            A, B = heap[a], heap[b]
            if op == 'id':
                form = rng.randrange(3)
                do(r, lambda: CNOTDihedral(n if form else ScalarOp(2 ** n)), op='id', n=n)
            elif op == 'circuit':
                qc = rand_circ(rng, n, rng.randrange(0, 8))
                src = qc if rng.random() < .5 else qc.to_gate()
                do(r, lambda: CNOTDihedral(src), op='circuit', n=n, src=gates(qc))
            elif op == 'append':
                qc = rand_circ(rng, n, 2)
                do(r, lambda: A.from_circuit(qc), op='circuit', n=n, src=gates(qc))
            elif op == 'ctor':
                do(r, lambda: CNOTDihedral(A).copy(), op='copy', a=a + 1)
            elif op == 'copy':
                do(r, A.copy, op='copy', a=a + 1)
            elif op in ('cnot', 'phase', 'flip'):
                if op == 'cnot' and n == 1:
                    continue
                if op == 'cnot':
                    x, y = rng.sample(range(n), 2)
                elif op == 'phase':
                    x, y = rng.randrange(8), rng.randrange(n)
                else:
                    x, y = rng.randrange(n), 0
                args = (x,) if op == 'flip' else (x, y)
                do(a, lambda: (getattr(A, op)(*args), A)[1], op=op, a=a + 1, x=x, y=y)
            elif op == 'compose':
                do(r, lambda: A.compose(B), op='compose', a=a + 1, b=b + 1)
            elif op == 'matmul':
                do(r, lambda: A @ B, op='compose', a=a + 1, b=b + 1)
            elif op == 'front':
                do(r, lambda: A.compose(B, front=True), op='dot', a=a + 1, b=b + 1)
            elif op == 'dot':
                do(r, lambda: A.dot(B), op='dot', a=a + 1, b=b + 1)
            elif op == 'power':
                k = rng.choice([1, 2, 3])
                do(r, lambda: A.power(k).copy(), op='power', a=a + 1, x=k)
            else:
                do(r, getattr(A, op), op=op, a=a + 1)
            for i in range(len(heap)):
                obs(ep, heap, i)
            i, j = rng.randrange(len(heap)), rng.randrange(len(heap))
            ep.ev('equal', a=i + 1, b=j + 1, eq=bool(heap[i] == heap[j]))
            rec.count('operations')
        i = rng.randrange(len(heap))
        ep.ev('mat', a=i + 1, m=mono(np.asarray(heap[i].to_matrix())))
        ph, f = affine(heap[i])
        ep.ev('poly', a=i + 1, ph=ph, f=f)
        # an element equal by construction, built another way
        k = len(heap)
        do(k, lambda: heap[0].compose(heap[1]), op='compose', a=1, b=2)
        do(k + 1, lambda: heap[1].adjoint().compose(heap[0].adjoint()).adjoint(), op='copy', a=k + 1)
        ep.ev('equal', a=k + 1, b=k + 2, eq=bool(heap[k] == heap[k + 1]))


def term(qc, qs):
    """exp of i pi x_a x_b x_c resp. i pi/2 x_a x_b as cx and t gates"""
    for q in qs:
        qc.t(q)
    for i, a in enumerate(qs):
        for b in qs[i + 1:]:
            qc.cx(a, b)
            qc.tdg(b)
            qc.cx(a, b)
    if len(qs) == 3:
        a, b, c = qs
        qc.cx(a, c)
        qc.cx(b, c)
        qc.t(c)
        qc.cx(b, c)
        qc.cx(a, c)


def neighbours(rec, eid, n):
    """elements one elementary factor away: every part of an element decides equality"""
    rng = rec.rng
    with rec.episode(eid, n=n) as ep:
        heap = []

        def put(qc):
            heap.append(CNOTDihedral(qc))
            ep.ev('do', r=len(heap), got='ok', op='circuit', n=n, src=gates(qc))
        base = rand_circ(rng, n, rng.randrange(0, 8))
        put(base)
        alts = [lambda c, q=q: c.x(q) for q in range(n)]
        alts += [lambda c, q=q: c.p(rng.randrange(1, 8) * math.pi / 4, q) for q in range(n)]
        alts += [lambda c, q=q: term(c, q) for k in (2, 3) for q in itertools.combinations(range(n), k)]
        alts += [lambda c, q=q: c.cx(*q) for q in itertools.permutations(range(n), 2)]
        if len(alts) > 24:
            alts = rng.sample(alts, 24)
        for f in alts:
            qc = base.copy()
            f(qc)
            put(qc)
        for i in range(1, len(heap)):
            ep.ev('equal', a=1, b=i + 1, eq=bool(heap[0] == heap[i]))
            j = rng.randrange(1, len(heap))
            ep.ev('equal', a=j + 1, b=i + 1, eq=bool(heap[j] == heap[i]))
        # and the factor taken back again
        qc = base.copy()
        term(qc, list(range(min(n, 3))))
        twice = CNOTDihedral(qc)
        k = len(heap)
        heap.append(twice)
        ep.ev('do', r=k + 1, got='ok', op='circuit', n=n, src=gates(qc))
        inv = QuantumCircuit(n)
        term(inv, list(range(min(n, 3))))
        heap.append(CNOTDihedral(inv).adjoint())
        ep.ev('do', r=k + 2, got='ok', op='circuit', n=n, src=gates(inv.inverse()))
        heap.append(heap[k].compose(heap[k + 1]))
        ep.ev('do', r=k + 3, got='ok', op='compose', a=k + 1, b=k + 2)
        ep.ev('equal', a=1, b=k + 3, eq=bool(heap[0] == heap[k + 2]))
        ep.ev('equal', a=1, b=k + 1, eq=bool(heap[0] == heap[k]))


def tensors(rec, eid, na, nb):
    rng = rec.rng
    with rec.episode(eid, n=na + nb) as ep:
        heap = []
        for k, n in enumerate((na, nb)):
            e = random_cnotdihedral(n, seed=rng.randrange(1, 10**6))
            heap.append(e)
            ep.ev('random', r=k + 1, n=n, gates=gates(e.to_circuit()), valid=bool(e.is_cnotdihedral()))
        for r, op in ((3, 'tensor'), (4, 'expand')):
            heap.append(getattr(heap[0], op)(heap[1]))
            ep.ev('do', r=r, got='ok', op=op, a=1, b=2)
        for i in range(4):
            obs(ep, heap, i)


def run(rec):
    rng = rec.rng
    behs = list(rec.behs)
    if rec.quick:
        one = [b for b in behs if b['n'] == 1]
        two = [b for b in behs if b['n'] == 2]
        behs = one + rng.sample(two, min(len(two), 900))
    for i in range(0, len(behs), 50):
        with rec.episode('words%d' % i, n=2) as ep:
            for b in behs[i:i + 50]:
                e = CNOTDihedral(b['n'])
                ws = [w2op(w) for w in b['word']]
                for w in ws:
                    apply(e, w)
                qc = e.to_circuit()
                ep.ev('word', n=b['n'], word=ws, gates=gates(qc), valid=bool(e.is_cnotdihedral()),
                      rebuilt=bool(CNOTDihedral(qc) == e))
                rec.count('words')
    for i in range(40 if rec.quick else 300):
        history(rec, 'hist%d' % i, rng.choice([1, 2, 2, 3, 3, 4]), 10)
    for i, (a, b) in enumerate([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] * (1 if rec.quick else 5)):
        tensors(rec, 'tens%d' % i, a, b)
    for i in range(12 if rec.quick else 60):
        n = rng.choice([1, 2, 3, 4])
        with rec.episode('random%d' % i, n=n) as ep:
            s = rng.randrange(1, 10**6)
            a, b, c = random_cnotdihedral(n, seed=s), random_cnotdihedral(n, seed=s), \
                random_cnotdihedral(n, seed=RandomState(s))
            ep.ev('random', r=1, n=n, gates=gates(a.to_circuit()), valid=bool(a.is_cnotdihedral()))
            ep.ev('repro', same=bool(a == b) and bool(a == c))
            d = random_cnotdihedral(n)
            ep.ev('random', r=1, n=n, gates=gates(d.to_circuit()), valid=bool(d.is_cnotdihedral()))
    # many random elements: the whole group is reached, every one is invertible
    for n in (1, 2, 3, 4, 5):
        with rec.episode('coverage%d' % n, n=n) as ep:
            seed0 = rng.randrange(1, 10**6)
            es = [random_cnotdihedral(n, seed=seed0 + k) for k in range(400 if n < 3 or n == 5 else 150)]
            ep.ev('coverage', n=n, es=[parts(e) for e in es])
    # elements put together by hand: validation accepts exactly the group
    with rec.episode('validate', n=2) as ep:
        for i in range(80 if rec.quick else 600):
            n = rng.choice([1, 2, 2, 3, 3])
            e = random_cnotdihedral(n, seed=rng.randrange(1, 10**6))
            e = e.copy()
            for _ in range(rng.choice([0, 1, 1, 2])):
                what = rng.choice(['w1', 'w2', 'w3', 'lin', 'shift', 'w0'])
                if what == 'w0':
                    e.poly.weight_0 = rng.choice([0, 1, 4])
                elif what == 'lin':
                    a = np.array(e.linear)
                    a[rng.randrange(n)][rng.randrange(n)] ^= 1
                    e.linear = a
                elif what == 'shift':
                    a = np.array(e.shift)
                    a[rng.randrange(n)] = rng.choice([0, 1, 2])
                    e.shift = a
                else:
                    w = np.array(getattr(e.poly, 'weight_' + what[1]))
                    if len(w):
                        w[rng.randrange(len(w))] = rng.randrange(10)
                        setattr(e.poly, 'weight_' + what[1], w)
            ep.ev('validate', n=n, e=parts(e), valid=bool(e.is_cnotdihedral()),
                  ctor=outcome(CNOTDihedral, e)[0])
    for i in range(12 if rec.quick else 80):
        neighbours(rec, 'near%d' % i, rng.choice([2, 3, 3, 4]) if i > 2 else i + 2)
    for i in range(10 if rec.quick else 60):
        n = {0: 6, 1: 5}.get(i, 4)
        with rec.episode('pair%d' % i, n=n) as ep:
            heap = [random_cnotdihedral(n, seed=rng.randrange(1, 10**6)) for _ in range(2)]
            for k, e in enumerate(heap):
                ep.ev('random', r=k + 1, n=n, gates=gates(e.to_circuit()), valid=bool(e.is_cnotdihedral()))
            heap.append(heap[0].compose(heap[1]))
            ep.ev('do', r=3, got='ok', op='compose', a=1, b=2)
            heap.append(heap[0].dot(heap[1]))
            ep.ev('do', r=4, got='ok', op='dot', a=1, b=2)
            for k in range(4):
                obs(ep, heap, k)
    for i in range(4 if rec.quick else 40):
        history(rec, 'wide%d' % i, 4 if i % 4 else 5, 4)
    for i, lab in enumerate(['X', 'ZY', 'IXZ', 'YI']):
        with rec.episode('pauli%d' % i, n=len(lab)) as ep:
            qc = QuantumCircuit(len(lab))
            for k, c in enumerate(reversed(lab)):
                if c != 'I':
                    getattr(qc, c.lower())(k)
            e = CNOTDihedral(Pauli(lab))
            ep.ev('do', r=1, got='ok', op='circuit', n=len(lab), src=gates(qc))
            obs(ep, [e], 0)
    with rec.episode('reject', n=1) as ep:
        def bad(f, n=2):
            qc = QuantumCircuit(n, 1)
            f(qc)
            ep.ev('reject', what=str(qc.count_ops()), got=outcome(CNOTDihedral, qc)[0])
        bad(lambda c: c.h(0))
        bad(lambda c: c.ch(0, 1))
        bad(lambda c: c.ccx(0, 1, 2), 3)
        bad(lambda c: c.measure(0, 0))
        bad(lambda c: c.reset(0))
        bad(lambda c: c.append(U1Gate(math.pi / 8), [0]))
        bad(lambda c: c.append(U1Gate(0.1), [1]))
        bad(lambda c: c.append(U1Gate(math.pi / 3), [1]))
        bad(lambda c: c.rx(math.pi / 2, 0))
        bad(lambda c: (c.x(0), c.t(1), c.h(1)))
        a2, a1 = random_cnotdihedral(2, seed=3), random_cnotdihedral(1, seed=3)
        ep.ev('reject', what='compose sizes', got=outcome(a2.compose, a1)[0])
        ep.ev('reject', what='dot sizes', got=outcome(a1.dot, a2)[0])
        ep.ev('reject', what='cnot range', got=outcome(a2.cnot, 0, 2)[0])
        ep.ev('reject', what='phase range', got=outcome(a2.phase, 1, -1)[0])
        ep.ev('reject', what='flip range', got=outcome(a2.flip, 2)[0])
        ep.ev('reject', what='tensor type', got=outcome(a2.tensor, Operator(np.eye(2)))[0])
    with rec.episode('dicts', n=2) as ep:
        d0 = make_dict_0(2)
        d1 = make_dict_next(2, [d0])
        d2 = make_dict_next(2, [d0, d1])
        d3 = make_dict_next(2, [d0, d1, d2])
        for d, want in ((d0, 256), (make_dict_0(1), 16)):
            ep.ev('dict', n=1, size=len(d), want=want, items=[])
        ep.ev('dict', n=2, size=sum(map(len, (d0, d1, d2, d3))), want=6144, items=[])
        items = list(d0.values()) + list(d1.values()) + list(d2.values()) + list(d3.values())
        out = []
        for e, circ in rng.sample(items, min(len(items), 60)):
            ws = []
            for g in circ:
                if g[0] == 'x':
                    ws.append({'op': 'flip', 'x': g[1], 'y': 0})
                else:
                    ws.append({'op': 'cnot' if g[0] == 'cx' else 'phase', 'x': g[1], 'y': g[2]})
            out.append({'word': ws, 'gates': gates(e.to_circuit())})
        ep.ev('dict', n=2, size=0, want=0, items=out)
