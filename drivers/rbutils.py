"""C10: gate counts per Clifford and error conversions."""
import numpy as np
from harness.drv import micro, outcome
from qiskit import QuantumCircuit, QuantumRegister, transpile, assemble
from qiskit.ignis.verification import randomized_benchmarking as rb
from qiskit.ignis.verification.randomized_benchmarking import rb_utils as u

PAR = {'u1': 1, 'u2': 2, 'u3': 3, 'rz': 1}


def build(gs, n):
    qc = QuantumCircuit(n)
    for g, qs in gs:
        getattr(qc, g)(*([.3] * PAR.get(g, 0)), *qs)
    return qc


def listing(qc):
    ix = {b: i for i, b in enumerate(qc.qubits)}
    return [[i.name, [ix[b] for b in q]] for i, q, _ in qc.data]


def gpc(ep, circs, lens, basis, qubits, qobj=False):
    arg = [assemble(c) for c in circs] if qobj else circs
    r = u.gates_per_clifford(arg, lens, basis, qubits)
    ep.ev('gpc', seeds=[[listing(c) for c in s] for s in circs], lens=[int(x) for x in lens],
          basis=basis, qubits=qubits,
          tab=[dict(q=int(q), g=[[k, micro(v)] for k, v in t.items()]) for q, t in r.items()])
    return r


def tab(d):
    return [[k, micro(v)] for k, v in d.items()]


def real_rb(rec, eid):
    rng = rec.rng
    pat = rng.choice([[[0, 1]], [[2], [0, 1]], [[1]], [[0], [2]], [[3, 1]]])
    lens = sorted(rng.sample([1, 2, 3, 4, 6], 3))
    mult = [rng.choice([1, 2]) for _ in pat]
    basis = rng.choice([['u1', 'u2', 'u3', 'cx'], ['rz', 'sx', 'x', 'cx'], ['u3', 'cx']])
    with rec.episode(eid, kind='rb') as ep:
        circs, xdata = rb.randomized_benchmarking_seq(
            nseeds=rng.choice([1, 2, 3]), length_vector=lens, rb_pattern=pat,
            length_multiplier=mult, rand_seed=rng.randrange(1, 1000))
        tr = [transpile(c, basis_gates=basis, optimization_level=rng.choice([0, 1])) for c in circs]
        for p in range(len(pat)):
            gpc(ep, tr, np.array(xdata[p]) if rng.random() < .5 else list(xdata[p]), basis, pat[p],
                qobj=rng.random() < .2)


def arbitrary(rec, eid):
    rng = rec.rng
    with rec.episode(eid, kind='arb') as ep:
        n = rng.choice([2, 3, 4])
        lens = [rng.randrange(0, 9) for _ in range(rng.choice([1, 2, 3]))]
        names = ['u1', 'u2', 'u3', 'cx', 'h', 'x', 'sx', 'ccx', 'cz', 'swap']
        circs = []
        for _ in range(rng.choice([1, 2, 3])):
            row = []
            for _ in lens:
                gs = []
                for _ in range(rng.randrange(0, 25)):
                    g = rng.choice(names)
                    k = {'ccx': 3, 'cx': 2, 'cz': 2, 'swap': 2}.get(g, 1)
                    if k <= n:
                        gs.append((g, rng.sample(range(n), k)))
                qc = build(gs, n)
                if rng.random() < .3:       # several registers, all qubits numbered through
                    a = rng.randrange(1, n)
                    big = QuantumCircuit(QuantumRegister(a, 'a'), QuantumRegister(n - a, 'b'))
                    for i, q, _ in qc.data:
                        big.append(i, [big.qubits[qc.qubits.index(b)] for b in q])
                    qc = big
                if rng.random() < .3:
                    qc.barrier()
                    qc.measure_all()
                row.append(qc)
            circs.append(row)
        basis = rng.sample(names, rng.randrange(1, len(names) + 1))
        qubits = rng.sample(range(n + 1), rng.randrange(1, n + 1))
        gpc(ep, circs, lens, basis, qubits)
        qob = assemble(circs[0])
        ep.ev('count', circs=[listing(c) for c in circs[0]], basis=basis, qubits=qubits,
              n=u.count_gates(qob, basis, qubits).tolist())


def rmix(rng, two):
    d = {'u1': rng.choice([0, .25, .4]), 'u2': round(rng.uniform(0, 1.2), 2),
         'u3': round(rng.uniform(.05, 1.2), 2)}
    if two is not None:
        d[two] = rng.choice([1, 1.5, 1.49, round(rng.uniform(.3, 3), 2)])
    if rng.random() < .3:
        d['x'] = .5
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def rerr(rng):
    d = {'u1': rng.choice([0, .001]), 'u2': round(rng.uniform(0, .04), 4),
         'u3': round(rng.uniform(0, .08), 4)}
    if rng.random() < .2:
        del d[rng.choice(list(d))]
    if rng.random() < .2:
        d['x'] = .02
    if rng.random() < .2:
        d['absent'] = .3
    return d


def formulas(rec, eid):
    rng = rec.rng
    with rec.episode(eid, kind='formula') as ep:
        qs = rng.sample(range(7), 3)
        one = {q: rmix(rng, None) for q in qs}
        for q in qs:
            if rng.random() < .5:
                one[q]['cx'] = 0
        epc = round(rng.uniform(0.0005, .06), 4)
        ep.ev('epg1', mix=tab(one[qs[0]]), epc=micro(epc),
              epg=tab(u.calculate_1q_epg(one, epc, qs[0])))
        er = rerr(rng)
        ep.ev('epc1', mix=tab(one[qs[1]]), errs=tab(er), epc=micro(u.calculate_1q_epc(one, er, qs[1])))
        name = rng.choice(['cx', 'cx', 'cz', 'ecr'])
        n2 = rng.choice([1, 1.5, 1.49, .7, 2.3])
        two = {q: rmix(rng, name) for q in qs}
        for q in qs:
            two[q][name] = n2
        pair = rng.sample(qs, 2)
        kw = {} if name == 'cx' and rng.random() < .5 else {'two_qubit_name': name}
        e0, e1 = rerr(rng), rerr(rng)
        es = rng.choice([[e0, e1], [e0, e1], [], None])
        epc2 = round(rng.uniform(.01, .2), 4)
        args = dict(list_epgs_1q=es, **kw) if es is not None else kw
        x0, x1 = (tab(e0), tab(e1)) if es else ([], [])
        ep.ev('epg2', mix0=tab(two[pair[0]]), mix1=tab(two[pair[1]]), e0=x0, e1=x1, epc=micro(epc2),
              name=name, epg=micro(u.calculate_2q_epg(two, epc2, pair, **args)))
        epg2 = round(rng.uniform(0, .08), 4)
        es = es or []
        v = u.calculate_2q_epc(two, epg2, pair, es, **kw)
        back = u.calculate_2q_epg(two, v, pair, es, **kw)
        ep.ev('epc2', mix0=tab(two[pair[0]]), mix1=tab(two[pair[1]]), e0=x0, e1=x1, epg=micro(epg2),
              name=name, epc=micro(v), back=micro(back))
        # deprecated entry point: errors listed per gate, qubit index 0/1/-1
        lo, hi = sorted(pair)
        ng = {hi: dict(two[hi], cx=n2), lo: dict(two[lo], cx=n2)}
        errs = [round(rng.uniform(0, .05), 4) for _ in range(6)] + [epg2]
        w = u.twoQ_clifford_error(ng, [0, 0, 0, 1, 1, 1, -1], errs)
        nm = ['u1', 'u2', 'u3']
        ep.ev('twoq', mix0=tab(ng[lo]), mix1=tab(ng[hi]), e0=[[a, micro(b)] for a, b in zip(nm, errs[:3])],
              e1=[[a, micro(b)] for a, b in zip(nm, errs[3:6])], epg=micro(epg2), epc=micro(w))


def coherence(rec, eid):
    rng = rec.rng
    with rec.episode(eid, kind='coh') as ep:
        for _ in range(4):
            nq = rng.choice([1, 2, 2])
            t1 = [rng.choice([10., 25., 40., 80.]) for _ in range(nq)]
            t2 = [round(rng.uniform(.2, 2) * x, 1) for x in t1] if rng.random() < .7 else None
            gl = rng.choice([.1, 1, 5, 12])
            v = u.coherence_limit(nq, t1, t2, gl)
            tt = t2 or [2 * x for x in t1]
            ep.ev('coh', r1=[micro(gl / x) for x in t1], r2=[micro(gl / x) for x in tt], v=micro(v))


def rejections(rec, eid):
    rng = rec.rng
    mix1 = {'u1': .1, 'u2': .3, 'u3': .5}
    mix2 = dict(mix1, cx=1.5)
    er = {'u2': .001, 'u3': .002}

    def rej(what, fn, *a, **k):
        st, v = outcome(fn, *a, **k)
        ep.ev('reject', what=what, got=v if st == 'err' else 'accepted')
    with rec.episode(eid, kind='reject') as ep:
        q = rng.randrange(5)
        rej('epg1_missing_qubit', u.calculate_1q_epg, {q: mix1}, .01, q + 1)
        rej('epg1_two_qubit_gate', u.calculate_1q_epg, {q: mix2}, .01, q)
        rej('epg1_two_qubit_gate', u.calculate_1q_epg, {q: dict(mix1, cx=rng.choice([.05, .5, 1]))}, .01, q)
        for drop in ('u2', 'u3'):
            m = {k: v for k, v in mix1.items() if k != drop}
            rej('epg1_missing_gate', u.calculate_1q_epg, {q: m}, .01, q)
        rej('epc1_missing_qubit', u.calculate_1q_epc, {q: mix1}, er, q + 1)
        for fn, a in ((u.calculate_2q_epg, .02), (u.calculate_2q_epc, .02)):
            nm = fn.__name__[-3:]
            rej(nm + '2_not_a_pair', fn, {q: mix2, q + 1: mix2}, a, [q], [er, er])
            rej(nm + '2_three_qubits', fn, {q: mix2, q + 1: mix2}, a, [q, q + 1, q + 2], [er, er])
            rej(nm + '2_no_two_qubit_gate', fn, {q: mix1, q + 1: mix1}, a, [q, q + 1], [er, er])
            rej(nm + '2_other_gate_name', fn, {q: mix2, q + 1: mix2}, a, [q, q + 1], [er, er],
                two_qubit_name='cz')
            rej(nm + '2_first_qubit_missing', fn, {q: mix2}, a, [q + 1, q], [er, er])
            rej(nm + '2_second_qubit_missing', fn, {q: mix2}, a, [q, q + 1], [er, er])
            rej(nm + '2_first_qubit_missing_no_epgs', fn, {q: mix2}, a, [q + 1, q], [])
            rej(nm + '2_second_qubit_missing_no_epgs', fn, {q: mix2}, a, [q, q + 1], [])
        rej('twoq_one_qubit', u.twoQ_clifford_error, {q: mix2}, [0, 0, 0, 1, 1, 1, -1], [.01] * 7)
        rej('gpc_not_circuits', u.gates_per_clifford, [['x']], [1], ['u1'], [0])
        rej('coherence_three_qubits', u.coherence_limit, 3, [1., 1., 1.], [1., 1., 1.], .1)
        rej('coherence_t1_length', u.coherence_limit, 2, [1.], None, .1)
        rej('coherence_t2_length', u.coherence_limit, 2, [1., 2.], [1.], .1)


def run(rec):
    q = rec.quick
    for i, b in enumerate(rec.behs):
        with rec.episode('model-%d' % i, kind='model') as ep:
            gpc(ep, [[build(c, 3) for c in s] for s in b['seeds']], b['lens'],
                ['u1', 'u2', 'u3', 'cx'], [0, 1, 2])
    for i in range(12 if q else 80):
        real_rb(rec, 'rb-%d' % i)
    for i in range(60 if q else 500):
        arbitrary(rec, 'arb-%d' % i)
    for i in range(120 if q else 1500):
        formulas(rec, 'formula-%d' % i)
    for i in range(30 if q else 300):
        coherence(rec, 'coh-%d' % i)
    for i in range(3):
        rejections(rec, 'rej-%d' % i)
