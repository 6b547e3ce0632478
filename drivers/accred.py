"""C14: accreditation circuits and one-time pads."""
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.ignis.verification.accreditation import AccreditationCircuits, QOTP, QOTPCorrectCounts
from harness.drv import gates, outcome, counts, key, flatten


def shape(qc):
    """instructions on more than one qubit and measurements, segment by segment"""
    segs, cur = [], []
    for name, _, qs, cs in flatten(qc):
        if name == 'barrier':
            segs.append(sorted(cur))
            segs.append([['barrier'] + sorted(qs)])
            cur = []
        elif len(qs) > 1 or cs:
            cur.append([name, qs, cs])
    segs.append(sorted(cur))
    return segs


def post(p):
    """string element 0 belongs to the leftmost (highest) classical bit"""
    return [int(b) for b in reversed([int(x) for x in p])]


def log(ep, qc, p, target):
    ep.ev('circ', gs=gates(qc, general=True), n=qc.num_qubits, nc=qc.num_clbits,
          postp=post(p), target=target)


def orig(ep, qc):
    ep.ev('orig', gs=gates(qc, general=True), n=qc.num_qubits, nc=qc.num_clbits)


def from_word(word, n=2):
    qc = QuantumCircuit(QuantumRegister(n, 'q'), ClassicalRegister(n, 'c'))
    for lay in word:
        for q, u in enumerate(lay['u']):
            if u != 'i':
                getattr(qc, u)(q)
        if lay['d']:
            qc.cx(*lay['d'])
    return qc


def random_target(rng, n, nc=None, depth=None):
    nc = nc or n
    qc = QuantumCircuit(QuantumRegister(n, rng.choice(['q', 'qr'])), ClassicalRegister(nc, rng.choice(['c', 's'])))
    for _ in range(depth or rng.randrange(2, 12)):
        g = rng.choice(['h', 't', 's', 'x', 'u3', 'rx', 'cx', 'cx', 'cx', 'cz', 'cp', 'swap', 'barrier', 'bar1', 'y'])
        if g in ('cx', 'cz', 'swap', 'cp'):
            if n > 1:
                a, b = rng.sample(range(n), 2)
                if g == 'cp':
                    qc.cp(rng.uniform(-3, 3), a, b)
                else:
                    getattr(qc, g)(a, b)
        elif g == 'barrier':
            qc.barrier()
        elif g == 'bar1':
            qc.barrier(*rng.sample(range(n), rng.randrange(1, n + 1)))
        elif g == 'u3':
            qc.u(rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-3, 3), rng.randrange(n))
        elif g == 'rx':
            qc.rx(rng.uniform(-3, 3), rng.randrange(n))
        else:
            getattr(qc, g)(rng.randrange(n))
    return qc


def measure(rng, qc):
    n, nc = qc.num_qubits, qc.num_clbits
    style = rng.choice(['all', 'all', 'perm', 'part', 'sub'])
    if style == 'all' and n == nc:
        qc.measure(range(n), range(n))
    else:
        k = min(n, nc) if style != 'part' else rng.randrange(1, min(n, nc) + 1)
        qs = rng.sample(range(n), k)
        cs = rng.sample(range(nc), k)
        if style == 'sub':
            cs = sorted(cs)
        if rng.random() < .3:
            qc.barrier()
        bar = rng.random() < .3
        for q, c in zip(qs, cs):
            qc.measure(q, c)
            if bar and rng.random() < .5:
                qc.barrier()
    return qc


def coupling(rng, n):
    if n < 2:
        return None
    return rng.choice([None, None, None] + (
        [[[i, i + 1] for i in range(n - 1)] + [[i + 1, i] for i in range(n - 1)]]
        + [[x for i in range(1, n) for x in ([0, i], [i, 0])]]
        + ([[[0, 1], [1, 0], [1, 2], [2, 1], [2, 3], [3, 2]]] if n == 3 else [])))


def cmargs(two, cm):
    kw = {}
    if two != 'cx' or cm is not None:
        kw['two_qubit_gate'] = two
    if cm is not None:
        kw['coupling_map'] = cm
    return kw


def batch(rec, eid, qc, two, cm, traps, seed):
    with rec.episode(eid, two=two.upper(), coupling=cm or []) as ep:
        orig(ep, qc)
        a = AccreditationCircuits(qc, seed=seed, **cmargs(two, cm))
        for _ in range(rec.rng.choice([1, 1, 2])):
            cs, ps, v = a.generate_circuits(traps)
            ep.ev('batch', len=len(cs), lenp=len(ps), traps=traps, v=v, shapes=[shape(x) for x in cs])
            for i, (x, p) in enumerate(zip(cs, ps)):
                log(ep, x, p, i == v)


def pads(rec, eid, qc, two, cm, num, seed):
    with rec.episode(eid, two=two.upper(), coupling=cm or []) as ep:
        orig(ep, qc)
        cs, ps = QOTP(qc, num, seed=seed, **cmargs(two, cm))
        ep.ev('batch', len=len(cs), lenp=len(ps), traps=num - 1, v=0, shapes=[shape(x) for x in cs])
        for x, p in zip(cs, ps):
            log(ep, x, p, True)
        nc = qc.num_clbits
        d = {key([rec.rng.randrange(2) for _ in range(nc)]): rec.rng.randrange(1, 999) for _ in range(4)}
        ep.ev('correct', inp=counts(d), out=counts(QOTPCorrectCounts(dict(d), ps[0])), postp=post(ps[0]))


def stat(rec, eid):
    rng = rec.rng
    n = rng.choice([2, 3])
    qc = random_target(rng, n, depth=8)
    qc.measure(range(n), range(n))
    traps = rng.choice([3, 4])
    seed = rng.randrange(10**6)
    with rec.episode(eid, two='CX', coupling=[]) as ep:
        a = AccreditationCircuits(qc, seed=seed)
        b = AccreditationCircuits(qc, seed=seed)
        vs, bs, fp = [], [], set()
        same = True
        for i in range(60):
            cs, ps, v = a.generate_circuits(traps)
            if i < 3:
                cs2, ps2, v2 = b.generate_circuits(traps)
                same = same and v == v2 and cs == cs2 and all(list(x) == list(y) for x, y in zip(ps, ps2))
            vs.append(v)
            bs += [[int(j == v), post(p)] for j, p in enumerate(ps)]
            fp.add(str(gates(cs[v], general=True)))
        ep.ev('stat', vs=vs, bits=bs, traps=traps, nc=n, same=same, distinct=len(fp))


def layer_ops(qc):
    """per stretch between barriers, the one-qubit operation on each qubit up to phase"""
    n = qc.num_qubits
    segs, cur = [], [np.eye(2, dtype=complex) for _ in range(n)]
    for name, inst, qs, cs in flatten(qc):
        if name == 'barrier':
            segs.append(cur)
            cur = [np.eye(2, dtype=complex) for _ in range(n)]
        elif len(qs) == 1 and not cs:
            cur[qs[0]] = inst.to_matrix() @ cur[qs[0]]
    segs.append(cur)

    def canon(u):
        z = u[0, 0] if abs(u[0, 0]) > 1e-6 else u[0, 1]
        u = u * (abs(z) / z)
        return str([int(round(x * 1000)) for y in u.flatten() for x in (y.real, y.imag)])
    return [[canon(u) for u in s] for s in segs]


def pad_ranges(rec, eid):
    rng = rec.rng
    # every qubit takes part in both layers: a qubit which sits one out has nothing between its two pads there
    n = rng.choice([2, 4])
    two = rng.choice(['cx', 'cz'])
    qc = QuantumCircuit(QuantumRegister(n, 'q'), ClassicalRegister(n, 'c'))

    def generic():
        for q in range(n):
            qc.u(rng.uniform(.5, 1.2), rng.uniform(.3, .6), rng.uniform(.8, 1.1), q)
    generic()
    for q in range(0, n, 2):
        qc.cx(q, q + 1)
    generic()
    for q in range(0, n, 2):
        qc.cx((q + 2) % n, q + 1) if n > 2 else qc.cx(1, 0)
    generic()
    qc.measure(range(n), range(n))
    with rec.episode(eid, two=two.upper(), coupling=[]) as ep:
        a = AccreditationCircuits(qc, two_qubit_gate=two, seed=rng.randrange(10**6))
        first, mid = [set() for _ in range(n)], [set() for _ in range(n)]
        for _ in range(100):
            cs, _, v = a.generate_circuits(1)
            ops = layer_ops(cs[v])
            for q in range(n):
                first[q].add(ops[0][q])
                mid[q].add(ops[2][q])
        un = set()
        for _ in range(8):
            cs, ps, v = AccreditationCircuits(qc, two_qubit_gate=two).generate_circuits(3)
            un.add(str((v, [post(p) for p in ps], gates(cs[0], general=True))))
        ep.ev('pads', first=[len(x) for x in first], mid=[len(x) for x in mid], unseeded=len(un))


def detection(rec, eid):
    rng = rec.rng
    n = rng.choice([2, 3, 3])
    two = rng.choice(['cx', 'cz'])
    qc = QuantumCircuit(QuantumRegister(n, 'q'), ClassicalRegister(n, 'c'))
    for _ in range(rng.choice([1, 2, 3])):
        pair = rng.sample(range(n), 2)
        qc.cx(*pair)
        qc.h(pair[0])
        qc.t(pair[1])
        qc.h(pair[1])
    qc.measure(range(n), range(n))
    with rec.episode(eid, two=two.upper(), coupling=[]) as ep:
        a = AccreditationCircuits(qc, two_qubit_gate=two, seed=rng.randrange(10**6))
        ts = []
        for _ in range(12):
            if len(ts) >= 24:
                break
            cs, ps, v = a.generate_circuits(8)
            ts += [dict(gs=gates(x, general=True), postp=post(p)) for i, (x, p) in enumerate(zip(cs, ps)) if i != v]
        ep.ev('detect', n=n, ts=ts)


def parallel(rng):
    """two-qubit gates side by side, one-qubit gates on all of them in between"""
    qc = QuantumCircuit(QuantumRegister(4, 'q'), ClassicalRegister(4, 'c'))
    for _ in range(rng.choice([1, 2])):
        for q in range(4):
            getattr(qc, rng.choice(['h', 't', 's', 'x']))(q)
            qc.ry(rng.uniform(.3, 2), q)
        p = rng.sample(range(4), 4)
        qc.cx(p[0], p[1])
        qc.cx(p[2], p[3])
        if rng.random() < .5:
            qc.h(p[rng.randrange(4)])
            qc.cx(p[1], p[2])
    for q in range(4):
        qc.rx(rng.uniform(.3, 2), q)
    return qc


def rejections(rec, eid):
    rng = rec.rng
    with rec.episode(eid, two='CX', coupling=[]) as ep:
        for what in ('reset', 'mid_measurement', 'mid_measurement', 'conditional', 'conditional_measurement',
                     'two_quantum_registers', 'unknown_gate'):
            n = rng.choice([2, 3])
            qc = random_target(rng, n, depth=5)
            kw = {}
            first = 0
            if what == 'reset':
                qc.u(.3, .2, .1, 0)
                qc.cx(0, 1)
                qc.u(.3, .2, .1, 0)
                qc.reset(0)
                qc.cx(0, 1)
            elif what == 'mid_measurement':
                qc.h(0)
                qc.measure(0, 0)
                rng.choice([lambda: qc.h(0), lambda: qc.cx(0, 1), lambda: qc.cx(1, 0), lambda: qc.t(0),
                            lambda: qc.rz(.3, 0), lambda: qc.x(0)])()
                first = rng.choice([0, 1])
            elif what == 'conditional':
                qc.h(0)
                qc.measure(0, 0)
                qc.h(1)
                qc.u(0.3, .2, .1, 1).c_if(qc.cregs[0], 1)
            elif what == 'conditional_measurement':
                qc.h(0)
                qc.measure(0, 0)
                qc.h(1)
                qc.measure(1, 1).c_if(qc.cregs[0], 1)
                kw = {'two_qubit_gate': rng.choice(['cx', 'cz'])}
            elif what == 'two_quantum_registers':
                qc.add_register(QuantumRegister(1, 'other'))
                qc.h(n)
                qc.cx(n, 0)
            else:
                for _ in range(2):    # cannot cancel against anything
                    qc.u(.3, .2, .1, 0)
                    qc.u(.4, .2, .1, 1)
                    qc.cx(0, 1)
                kw = {'two_qubit_gate': rng.choice(['cy', 'swap', 'CX', 'ecr'])}
            if what != 'conditional_measurement':
                for i in range(first, n):
                    qc.measure(i, i)
            if rng.random() < .5:
                s, _ = outcome(lambda: AccreditationCircuits(qc, seed=1, **kw).generate_circuits(3))
            else:
                s, _ = outcome(lambda: QOTP(qc, 2, seed=1, **kw))
            ep.ev('reject', what=what, got=s)


def run(rec):
    rng, q = rec.rng, rec.quick
    behs = rec.behs
    pick = behs if not q else rng.sample(behs, min(len(behs), 40))
    for i, b in enumerate(pick):
        qc = measure(rng, from_word(b['word']))
        if i % 3:
            batch(rec, 'model-%d' % i, qc, b['kind'], None, 1 if q else 2, rng.randrange(10**6))
        else:
            pads(rec, 'modelpad-%d' % i, qc, b['kind'], None, 2, rng.randrange(10**6))
    for i in range(30 if q else 300):
        n = rng.choice([1, 2, 3, 3])
        qc = measure(rng, random_target(rng, n, nc=rng.choice([n, n, n + 1])))
        f = batch if i % 3 else pads
        f(rec, 'rand-%d' % i, qc, rng.choice(['cx', 'cz']), coupling(rng, n), rng.choice([2, 3]), rng.randrange(10**6))
    for i in range(6 if q else 60):
        qc = measure(rng, parallel(rng))
        f = batch if i % 2 else pads
        f(rec, 'par-%d' % i, qc, rng.choice(['cx', 'cz']), None, 2, rng.randrange(10**6))
    for i in range(2 if q else 10):
        pad_ranges(rec, 'ranges-%d' % i)
    for i in range(4 if q else 30):
        detection(rec, 'detect-%d' % i)
    for i in range(2 if q else 8):
        stat(rec, 'stat-%d' % i)
    for i in range(3 if q else 20):
        rejections(rec, 'rej-%d' % i)
