"""C21: gate-set tomography."""
import ast
import numpy as np
from qiskit.circuit.library import (HGate, SGate, TGate, XGate, YGate, ZGate, U3Gate, RXGate, RYGate,
                                    RZGate, IGate, SXGate)
from qiskit.quantum_info import PTM, Operator, SuperOp, Choi
from qiskit.ignis.verification.tomography import GatesetTomographyFitter, gateset_tomography_circuits
from qiskit.ignis.verification.tomography.basis import default_gateset_basis
from qiskit.ignis.verification.tomography.basis.gatesetbasis import GateSetBasis
from harness.drv import flatten, cmat1, micro, micros, outcome, make_result

PAULI = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1., -1.])]


def vec(op):
    return np.array([np.trace(op @ p).real for p in PAULI]) / np.sqrt(2)


def ptm(kraus):
    return np.array([[sum(np.trace(a @ k @ b @ k.conj().T) for k in kraus).real / 2 for b in PAULI]
                     for a in PAULI])


def mats(m):
    return [micros(list(r)) for r in np.real(np.array(m))]


# named unitaries the model chooses from
def table():
    return {'Id': (np.eye(2), lambda c, q: None),
            'X90': (RXGate(np.pi / 2).to_matrix(), RXGate(np.pi / 2)),
            'Y90': (RYGate(np.pi / 2).to_matrix(), lambda c, q: c.ry(np.pi / 2, q)),
            'Z90': (SGate().to_matrix(), SGate()),
            'H': (HGate().to_matrix(), lambda c, q: c.h(q)),
            'T': (TGate().to_matrix(), TGate()),
            'X': (XGate().to_matrix(), XGate())}


def rand_gate(rng):
    k = rng.randrange(6)
    if k == 0:
        g = rng.choice([HGate, SGate, TGate, XGate, YGate, ZGate, IGate, SXGate])()
        return g.to_matrix(), g
    if k == 1:
        a = rng.uniform(-3, 3)
        return RYGate(a).to_matrix(), (lambda c, q, a=a: c.ry(a, q))
    if k == 2:
        a = rng.uniform(-3, 3)
        return HGate().to_matrix() @ RXGate(a).to_matrix(), (lambda c, q, a=a: (c.rx(a, q), c.h(q)))
    t = [rng.uniform(-3, 3) for _ in range(3)]
    g = U3Gate(*t)
    return g.to_matrix(), g


def noise(rng, level):
    """Kraus operators of a channel close to the identity."""
    p, g = rng.uniform(0, level), rng.uniform(0, level)
    a = rng.uniform(-level, level)
    u = rng.choice([RXGate, RYGate, RZGate])(a).to_matrix()
    ks = [np.sqrt(1 - p) * np.eye(2)] + [np.sqrt(p / 3) * x for x in PAULI[1:]]
    ad = [np.array([[1, 0], [0, np.sqrt(1 - g)]]), np.array([[0, np.sqrt(g)], [0, 0]])]
    return [x @ k @ u for x in ad for k in ks]


class Truth:
    def __init__(self, rng, uni, level):
        self.G = {n: ptm([k @ u for k in noise(rng, level)]) if level else ptm([u]) for n, u in uni.items()}
        x = np.diag([1 - rng.uniform(0, level), 0]).astype(complex)
        x[1, 1] = 1 - x[0, 0]
        coh = lambda top: rng.uniform(.3, .8) * np.sqrt(top) * np.exp(1j * rng.uniform(-3.14, 3.14))
        x[0, 1] = coh((x[0, 0] * x[1, 1]).real)
        x[1, 0] = x[0, 1].conjugate()
        self.rho = vec(x)
        y = np.diag([1 - rng.uniform(0, level), rng.uniform(0, level)]).astype(complex)
        y[0, 1] = coh(min(y[0, 0] * y[1, 1], (1 - y[0, 0]) * (1 - y[1, 1]), key=abs).real)
        y[1, 0] = y[0, 1].conjugate()
        self.E = vec(y)

    def prob(self, seq):
        v = self.rho
        for g in seq:
            v = self.G[g] @ v
        return float(self.E @ v)


def instrs(qc):
    out = []
    for name, inst, qs, cs in flatten(qc):
        if name == 'barrier':
            out.append(dict(g='B', q=qs))
        elif name == 'measure':
            out.append(dict(g='M', q=qs, c=cs))
        elif len(qs) == 1 and hasattr(inst, 'to_matrix'):
            out.append(dict(g='V', q=qs, m=cmat1(inst.to_matrix())))
        else:
            out.append(dict(g='?' + name, q=qs))
    return out


def seq_of(name, spam):
    t = ast.literal_eval(name)
    if len(t) == 1:
        return list(spam[t[0]])
    if len(t) == 2:
        return list(spam[t[0]]) + list(spam[t[1]])
    return list(spam[t[0]]) + [t[1]] + list(spam[t[2]])


def dataof(ex):
    return [[list(ast.literal_eval(n)), micro(c.get('0', 0) / sum(c.values()))] for n, c in ex]


def gateset(r, labels, vecs):
    return dict(G={g: mats(r[g].data) for g in labels}, E=micros(list(vecs[0])), rho=micros(list(vecs[1])))


def exact(T, cs, spam, N=1000000):
    ex = []
    for c in cs:
        n = int(round(T.prob(seq_of(c.name, spam)) * N))
        ex.append((c.name, {'0': n, '1': N - n} if 0 < n < N else {'0': n} if n else {'1': N}))
    return ex


def one(rec, eid, b, uni, q, level, fit, ncirc, default=False):
    rng = rec.rng
    labels = list(uni)
    spam = {k: list(v) for k, v in b.spam_spec.items()}
    with rec.episode(eid, gates=labels, spam=spam, us={n: cmat1(u) for n, u in uni.items()}, q=q) as ep:
        cs = gateset_tomography_circuits(*([[q]] if q or rng.random() < .5 else []), gateset_basis=b)
        ep.ev('circuits', labels=[list(ast.literal_eval(c.name)) for c in cs])
        for c in rng.sample(cs, min(ncirc, len(cs))):
            ep.ev('circ', label=list(ast.literal_eval(c.name)), gs=instrs(c), nc=len(c.clbits))
        ep.ev('mats', gate={g: mats(m) for g, m in b.gate_matrices.items()},
              meas={g: mats(b.measurement_matrix(g)) for g in labels},
              prep={g: mats(b.preparation_matrix(g)) for g in labels},
              spam={f: mats(b.spam_matrix(f)) for f in spam}, labels=list(b.gate_labels), spams=list(b.spam_labels), default=default)
        T = Truth(rng, uni, level)
        gr = np.array([[T.prob(b.spam_spec[j] + b.spam_spec[i]) for j in spam] for i in spam])
        if len(spam) != 4 or np.linalg.cond(gr) > 60:
            return
        ex = exact(T, cs, b.spam_spec)
        rng.shuffle(ex)
        ep.ev('truth', G={g: mats(m) for g, m in T.G.items()}, rho=micros(list(T.rho)), E=micros(list(T.E)),
              data=dataof(ex))
        asked = cs if rng.random() < .6 else [c.name for c in cs]
        f = GatesetTomographyFitter(make_result(ex), asked, b)
        ep.ev('probs', data=[[list(k), micro(v)] for k, v in f.probs.items()])
        r = f.linear_inversion()
        ws = [[rng.choice(labels) for _ in range(rng.randrange(0, 5))] for _ in range(6)]
        ep.ev('linear', spams=list(b.spam_labels), words=ws,
              **gateset(r, labels, (np.array(r['E']).flatten(), np.array(r['rho']).flatten())))
        if fit:
            r = f.fit()
            ep.ev('fit', noisy=level > 0,
                  **gateset(r, labels, (vec(np.array(r['E'].data)), vec(np.array(r['rho'].data)))))


def default_with(rng, extra):
    b = default_gateset_basis()
    uni = {'Id': np.eye(2), 'X_Rot_90': RXGate(np.pi / 2).to_matrix(), 'Y_Rot_90': RYGate(-np.pi / 2).to_matrix()}
    for i in range(extra):
        u, g = rand_gate(rng)
        name = 'g%d' % i
        if rng.random() < .4 and hasattr(g, 'name') and g.name not in uni:
            name = g.name
            b.add_gate(g)
        else:
            b.add_gate(g, name)
        uni[name] = u
    return b, uni


def random_set(rng):
    while True:
        gs, uni = {}, {}
        for i in range(rng.randrange(2, 5)):
            u, g = rand_gate(rng)
            n = rng.choice('cba') + str(i)
            gs[n], uni[n] = g, u
        ideal = Truth(rng, uni, 0)
        for _ in range(60):
            names = rng.sample(['F0', 'F1', 'F2', 'F3', 'Fa', 'G9'], 4)
            spam = {f: tuple(rng.choice(list(gs)) for _ in range(rng.randrange(1, 4))) for f in names}
            gr = np.array([[ideal.prob(spam[j] + spam[i]) for j in spam] for i in spam])
            if np.linalg.cond(gr) < 40:
                return GateSetBasis('x', gs, spam), uni


def run(rec):
    rng, q = rec.rng, rec.quick
    tab = table()
    behs = rec.behs if not q else rng.sample(rec.behs, min(12, len(rec.behs)))
    for i, x in enumerate(behs):
        order = rng.sample(x['gates'], len(x['gates']))
        b = GateSetBasis('m', {g: tab[g][1] for g in order},
                         {'F%d' % k: tuple(w) for k, w in enumerate(x['spam'])})
        one(rec, 'model-%d' % i, b, {g: tab[g][0] for g in order}, rng.choice([0, 0, 1, 2]),
            rng.choice([0, .05, .1]), i < (3 if q else 60), 6 if q else 20)
    for i in range(8 if q else 120):
        b, uni = default_with(rng, (0, 1, 2, 0, 1, 2, 1)[i % 7])
        one(rec, 'default-%d' % i, b, uni, rng.choice([0, 0, 1, 3]), (0, .05, .1, .1, .05)[i % 5],
            i < (5 if q else 80), 10, True)
    for i in range(14 if q else 200):
        b, uni = random_set(rng)
        one(rec, 'rand-%d' % i, b, uni, rng.choice([0, 0, 1, 3]), rng.choice([0, .05, .1]),
            i < (4 if q else 80), 12)
    with rec.episode('misc', gates=[], spam={}, us={}, q=0) as ep:
        b = default_gateset_basis()
        for what, fn in (('two_qubits', lambda: gateset_tomography_circuits([0, 1])),
                         ('nameless_function', lambda: b.add_gate(lambda c, x: c.h(x)))):
            ep.ev('reject', what=what, got=outcome(fn)[0])
        from qiskit import QuantumCircuit
        c = QuantumCircuit(1)
        ep.ev('reject', what='unknown_gate', got=outcome(lambda: b.add_gate_to_circuit(c, c.qubits[0], 'nope'))[0])
        ep.ev('reject', what='unknown_spam', got=outcome(lambda: b.add_spam_to_circuit(c, c.qubits[0], 'Id'))[0])
