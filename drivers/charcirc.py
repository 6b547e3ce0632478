"""C16: characterization circuits."""
import numpy as np
from qiskit import transpile
from qiskit.ignis.characterization.coherence import t1_circuits, t2_circuits, t2star_circuits
from qiskit.ignis.characterization.hamiltonian import zz_circuits
from qiskit.ignis.characterization.gates import (ampcal_1Q_circuits, anglecal_1Q_circuits,
                                                 ampcal_cx_circuits, anglecal_cx_circuits)
from qiskit.ignis.characterization.characterization_utils import time_to_ngates
from harness.drv import flatten, cmat1, micro, micros, outcome


def instrs(qc):
    out = []
    for name, inst, qs, cs in flatten(qc):
        if name == 'barrier':
            out.append(dict(g='B', q=qs))
        elif name == 'measure':
            out.append(dict(g='M', q=qs, c=cs))
        elif name in ('id', 'iden'):
            out.append(dict(g='I', q=qs))
        elif name == 'cx':
            out.append(dict(g='CX', q=qs))
        elif len(qs) == 1 and hasattr(inst, 'to_matrix'):
            out.append(dict(g='V', q=qs, m=cmat1(inst.to_matrix())))
        else:
            out.append(dict(g='?' + name, q=qs))
    return out


def survive(qc, qubits):
    """numbers of delay, controlled and other gates per listed qubit after the transpiler's optimization"""
    t = transpile(qc, basis_gates=['u1', 'u2', 'u3', 'cx', 'id'], optimization_level=1)
    n = {q: [0, 0, 0] for q in qubits}
    for name, _, qs, _ in flatten(t):
        if name in ('barrier', 'measure'):
            continue
        k = {'id': 0, 'cx': 1}.get(name, 2)
        for q in qs if name != 'cx' else qs[1:]:
            if q in n:
                n[q][k] += 1
    return [n[q] for q in qubits]


def split(name):
    a, i, s = name.rsplit('_', 2)
    return [a, int(i), int(s)]


def call(p):
    k, ns, qs = p['kind'], p['ns'], p['qubits']
    if p.get('arr'):
        ns = np.array(ns)
    if k == 't1':
        return t1_circuits(ns, p['gtime'], qs) + (0,)
    if k == 't2':
        if p['echos'] == 1 and not p['alt']:
            return t2_circuits(ns, p['gtime'], qs) + (0,)
        return t2_circuits(ns, p['gtime'], qs, n_echos=p['echos'], phase_alt_echo=p['alt']) + (0,)
    if k == 't2star':
        return t2star_circuits(ns, p['gtime'], qs, nosc=p['nosc']) if p['nosc'] else t2star_circuits(ns, p['gtime'], qs)
    if k == 'zz':
        return zz_circuits(ns, p['gtime'], qs, p['others'], nosc=p['nosc'])
    if k == 'ampcal1Q':
        return ampcal_1Q_circuits(p['reps'], qs) + (0,)
    if k == 'anglecal1Q':
        return anglecal_1Q_circuits(p['reps'], qs, *([p['angle']] if p['angle'] else [])) + (0,)
    if k == 'ampcalcx':
        return ampcal_cx_circuits(p['reps'], qs, p['others']) + (0,)
    return anglecal_cx_circuits(p['reps'], qs, p['others'], *([p['angle']] if p['angle'] else [])) + (0,)


def one(rec, eid, p):
    coh = p['kind'] in ('t1', 't2', 't2star', 'zz')
    log = {k: v for k, v in p.items() if k not in ('gtime', 'angle', 'arr')}
    with rec.episode(eid, gt=micro(p['gtime']) if coh else 1000000,
                     angleerr=micro(p['angle']), turns=micro(p['angle'] / (2 * np.pi)), **log) as ep:
        cs, x, osc = call(p)
        ep.ev('meta', names=[split(c.name) for c in cs], x=micros(list(x)), osc=micro(osc))
        for c in cs:
            _, i, s = split(c.name)
            ep.ev('circ', i=i + 1, s=s, gs=instrs(c))
        for c in cs[-1:]:
            _, i, s = split(c.name)
            ep.ev('opt', i=i + 1, s=s, n=survive(c, p['qubits']))


KINDS = ['t1', 't2', 't2star', 'zz', 'ampcal1Q', 'anglecal1Q', 'ampcalcx', 'anglecalcx']


def rand(rng, q):
    n = rng.randrange(1, 5)
    pool = rng.sample(range(9), 8)
    qs = pool[:n]
    others = pool[n:2 * n]
    if rng.random() < .3:
        others = [rng.choice(others[:2]) for _ in qs]           # shared spectator or control
    ns = sorted(rng.sample(range(0, 20), rng.randrange(1, 6)))
    long = rng.random() < .12
    if long:
        n, qs, others = 1, qs[:1], others[:1]
        ns = sorted(rng.sample(range(0, 20), rng.randrange(11, 15)))
    if ns[-1] == 0:
        ns = [0, 4]
    return dict(kind=rng.choice(KINDS), qubits=qs, others=others, ns=ns, echos=rng.randrange(1, 6),
                alt=rng.random() < .5, nosc=rng.choice([0, 1, 3, 5]), reps=rng.randrange(11, 15) if long else rng.randrange(1, 7),
                gtime=rng.choice([.1, .5, 1, 2, 0.035]), angle=rng.choice([0, .1, -.05, .23]),
                arr=rng.random() < .5)


def run(rec):
    rng, q = rec.rng, rec.quick
    behs = rec.behs if not q else rng.sample(rec.behs, min(len(rec.behs), 120))
    for i, b in enumerate(behs):
        one(rec, 'model-%d' % i, dict(b, gtime=rng.choice([.1, 1.5, 2]), angle=0, arr=rng.random() < .5))
    for i in range(120 if q else 1500):
        one(rec, 'rand-%d' % i, rand(rng, q))
    with rec.episode('misc', kind='t1') as ep:
        for _ in range(20):
            gt = rng.choice([.1, .25, .5, 2, 3])
            ts = [round(rng.uniform(0, 60), 3) for _ in range(rng.randrange(1, 6))]
            if rng.random() < .5:
                ts = [gt * rng.randrange(0, 40) for _ in ts]
            ep.ev('ngates', times=micros(ts, 1000), gt=micro(gt, 1000), got=[int(v) for v in time_to_ngates(ts, gt)])
        for what, f in (('no_echo', lambda: t2_circuits([1, 2], 1., [0], n_echos=0)),
                        ('negative_echos', lambda: t2_circuits([1, 2], 1., [0], n_echos=-rng.randrange(1, 4))),
                        ('spectator_number', lambda: zz_circuits(np.array([1, 2]), 1., [0, 1], [2])),
                        ('spectator_is_qubit', lambda: zz_circuits(np.array([1, 2]), 1., [0, 1], [2, 0]))):
            ep.ev('reject', what=what, got=outcome(f)[0])
