"""C07: randomized-benchmarking sequences."""
import copy
import numpy as np
from numpy.random import RandomState
from harness.drv import gates, outcome
from qiskit import QuantumCircuit
from qiskit.circuit.library.standard_gates import XGate, CXGate, ZGate, YGate, HGate, SGate
from qiskit.quantum_info import Clifford
import qiskit.ignis.verification.randomized_benchmarking as rb
from qiskit.ignis.verification.randomized_benchmarking.dihedral import CNOTDihedral

CLIFF = [None, '0', 'Clifford', 'clifford']
DIHED = ['1', 'Non-Clifford', 'NonClifford', 'CNOTDihedral', 'CNOT-Dihedral']


def obs(c):
    return {'name': c.name, 'gates': gates(c, barriers=True)}


def inter_elem(rng, k, dihedral):
    """(value passed to the generator, its gate list)"""
    qc = QuantumCircuit(k)
    if k == 1:
        g = rng.choice(['x', 'z', 'y'] if dihedral else ['x', 'h', 's', 'y', 'sdg'])
        getattr(qc, g)(0)
        if rng.random() < .4:
            qc.x(0)
    else:
        a, b = rng.sample(range(k), 2)
        qc.cx(a, b)
        if rng.random() < .5:
            qc.z(a) if dihedral else qc.h(a)
        if k == 2 and rng.random() < .4:
            qc.cx(b, a)
    ref = gates(qc)
    form = rng.choice(['qc', 'qc', 'elem', 'gate'])
    if form == 'elem':
        val = CNOTDihedral(qc) if dihedral else Clifford(qc)
    elif form == 'gate' and len(qc.data) == 1 and k <= 2:
        inst, qa, _ = qc.data[0]
        if k == 2 and [b.index for b in qa] != [0, 1]:
            val = qc
        else:
            val = inst
    else:
        val = qc
    return val, ref


def same(f1, f2):
    return all(gates(a, barriers=True) == gates(b, barriers=True)
               for x, y in zip(f1, f2) for a, b in zip(x, y))


def episode(rec, eid, cfg):
    rng = rec.rng
    pats, lens = cfg['pats'], cfg['lens']
    mult = cfg['mult']
    dihedral = cfg['dihedral']
    group = rng.choice(DIHED if dihedral else CLIFF)
    seeds, offset = cfg.get('nseeds', 1), cfg.get('offset', 0)
    inter = cfg.get('inter', False)
    elems, vals = [[]], None
    if inter:
        pr = [inter_elem(rng, len(p), dihedral) for p in pats]
        vals, elems = [p[0] for p in pr], [p[1] for p in pr]
    purity = cfg.get('purity', False)
    rs = cfg.get('rand_seed')
    arg = dict(nseeds=seeds, length_vector=list(lens), rb_pattern=copy.deepcopy(pats),
               align_cliffs=cfg['align'], group_gates=group, is_purity=purity)
    for k in ('align_cliffs', 'is_purity'):
        if not arg[k] and rng.random() < .5:
            del arg[k]
    if group == '0' and rng.random() < .5:
        del arg['group_gates']
    if offset:
        arg['seed_offset'] = offset
    if vals is not None:
        arg['interleaved_elem'] = vals
    if not purity:
        arg['length_multiplier'] = mult if (len(set(mult)) > 1 or rng.random() < .7) else mult[0]
    elif rng.random() < .5:
        arg['length_multiplier'] = None
    if rs is not None:
        arg['rand_seed'] = RandomState(rs) if cfg.get('state') else rs
    with rec.episode(eid, pats=pats, lens=lens, mult=mult, align=cfg['align'], nseeds=seeds,
                     offset=offset, group=int(dihedral), elems=elems, purity=purity,
                     rand=str(rs), groupname=str(group)) as ep:
        out = rb.randomized_benchmarking_seq(**arg)
        circs, xdata = out[0], out[1]
        ep.ev('shape', nseeds=len(circs), xdata=[[int(v) for v in r] for r in xdata])
        if purity:
            npur = out[2]
            dim = len(pats[0])
            for s in range(seeds):
                for li in range(len(lens)):
                    cs = []
                    for d in range(npur):
                        c = circs[s][d][li]
                        o = obs(c)
                        o['lab'] = list(c.name.split('_purity_')[1][:dim])
                        cs.append(o)
                    ep.ev('purity', seed=s, li=li, npurity=int(npur), circs=cs)
            return
        x = ix = it = None
        if inter and dihedral:
            x, it, ix = out[2], out[3], out[4]
        elif inter:
            it = out[2]
        elif dihedral:
            x = out[2]
        for s in range(seeds):
            ref = [obs(c) for c in circs[s]]
            ep.ev('family', seed=s, ref=ref)
            if it is not None:
                io = [obs(c) for c in it[s]]
                ep.ev('inter', seed=s, ref=ref, inter=io)
                if ix is not None:
                    ep.ev('x', seed=s, variant='interx', z=io, x=[obs(c) for c in ix[s]])
            if x is not None:
                ep.ev('x', seed=s, variant='x', z=ref, x=[obs(c) for c in x[s]])
        if rs is not None and max(len(p) for p in pats) > 1:
            arg['rand_seed'] = RandomState(rs) if cfg.get('state') else rs
            again = rb.randomized_benchmarking_seq(**arg)
            arg['rand_seed'] = RandomState(rs + 977) if cfg.get('state') else rs + 977
            oth = rb.randomized_benchmarking_seq(**arg)
            ep.ev('repro', same=same(circs, again[0]), other=not same(circs, oth[0]))
        rec.count('sequences', seeds * len(lens))


def rand_pats(rng, big):
    total = rng.choice([1, 2, 2, 3, 3, 4, 5])
    qs = rng.sample(range(rng.choice([total, total + 2])), total)
    pats = []
    while qs:
        k = min(len(qs), rng.choice([1, 1, 2, 2, 3 if big else 2]))
        pats.append(qs[:k])
        qs = qs[k:]
    return pats


def run(rec):
    rng = rec.rng
    seen, behs = set(), []
    for b in rec.behs:
        k = repr((b['pats'], b['mult'], b['align'], b['lens']))
        if k not in seen:
            seen.add(k)
            behs.append(b)
    n = 0
    for b in behs:
        for dihedral in (False, True):
            n += 1
            episode(rec, 'model%d' % n, dict(
                pats=[list(p) for p in b['pats']], lens=list(b['lens']), mult=list(b['mult']),
                align=b['align'], dihedral=dihedral, inter=n % 3 == 0,
                rand_seed=rng.choice([None, 0, rng.randrange(1, 10**6)])))
    for i in range(18 if rec.quick else 120):
        pats = rand_pats(rng, i % 6 == 0)
        lens = sorted(rng.sample(range(1, 6), rng.choice([1, 2, 3])))
        mult = [rng.choice([1, 1, 2, 3]) for _ in pats]
        if max(len(p) for p in pats) == 3:
            lens, mult = lens[:2], [1] * len(pats)
        episode(rec, 'rand%d' % i, dict(
            pats=pats, lens=lens, mult=mult, align=rng.random() < .3,
            dihedral=i % 2 == 0, inter=rng.random() < .5, nseeds=rng.choice([1, 2]),
            offset=rng.choice([0, 0, 3]), state=rng.random() < .3,
            rand_seed=rng.choice([None, 0, rng.randrange(1, 10**6)])))
    for i, pats in enumerate([[[0]], [[2], [0]], [[1, 0]], [[0, 2], [3, 1]]] +
                             ([] if rec.quick else [[[0, 1, 2]], [[4], [1], [2]]])):
        episode(rec, 'purity%d' % i, dict(
            pats=pats, lens=[1, 3] if len(pats) == 1 else [2], mult=[1] * len(pats), align=False,
            dihedral=False, purity=True, nseeds=1, offset=i % 2, rand_seed=5 + i))
    # groups of three qubits in any order
    big = [([[2, 0, 1]], False, True), ([[1, 2, 0]], True, True), ([[3], [2, 0, 1]], True, False),
           ([[0, 1, 2]], False, False)]
    for i, (pats, dih, inter) in enumerate(big * (1 if rec.quick else 4)):
        episode(rec, 'big%d' % i, dict(
            pats=pats, lens=[1, 2], mult=[1] * len(pats), align=i % 3 == 2, dihedral=dih,
            inter=inter, rand_seed=rng.randrange(1, 10**6)))
    if rec.quick:
        episode(rec, 'purity_big', dict(
            pats=[[2, 0, 1]], lens=[1], mult=[1], align=False, dihedral=False, purity=True,
            rand_seed=rng.randrange(1, 10**6)))
    # groups and seeds of one request are drawn independently
    for i, (pats, lens) in enumerate([([[0, 1], [2, 3]], [3]), ([[1], [0], [2]], [8]),
                                      ([[3, 0], [1, 2]], [1, 2])]):
        for dih in (False, True):
            episode(rec, 'indep%d%d' % (i, dih), dict(
                pats=pats, lens=lens, mult=[1] * len(pats), align=False, dihedral=dih, nseeds=3,
                rand_seed=rng.choice([None, rng.randrange(1, 10**6)])))
    # requests that must be refused, and the documented group names
    f = rb.randomized_benchmarking_seq
    bad = [dict(rb_pattern=[[0, 1], [1]]), dict(rb_pattern=[[0], [1, 2], [0]]), dict(rb_pattern=[[0, 0]]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1]),
           dict(rb_pattern=[[0]], length_multiplier=[0]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1, -2]),
           dict(rb_pattern=[[0], [1]], length_multiplier=[1, 1.5]),
           dict(rb_pattern=[[0]], group_gates='Pauli'),
           dict(rb_pattern=[[0]], group_gates='2'),
           dict(rb_pattern=[[0], [1, 2]], is_purity=True),
           dict(rb_pattern=[[0], [1]], is_purity=True, length_multiplier=[1, 2]),
           dict(rb_pattern=[[0, 1]], interleaved_elem=[XGate()]),
           dict(rb_pattern=[[0], [1]], interleaved_elem=[XGate()]),
           dict(rb_pattern=[[0, 1], [2]], interleaved_elem=[XGate(), CXGate()]),
           dict(rb_pattern=[[0, 1], [2]], interleaved_elem=[CXGate()]),
           dict(rb_pattern=[[0], [1]], interleaved_elem=[CXGate()]),
           dict(rb_pattern=[[0]], interleaved_elem=[HGate()], group_gates='1'),
           dict(rb_pattern=[[0]], interleaved_elem=[Clifford(XGate())], group_gates='1'),
           dict(rb_pattern=[[0]], interleaved_elem=[CNOTDihedral(1)])]
    with rec.episode('reject', pats=[[0]], purity=False, group=0, offset=0) as ep:
        for b in bad:
            ep.ev('reject', what=repr(b)[:120], got=outcome(f, 1, [1, 2], **b)[0])
        for g, kind in [(x, 'rb') for x in CLIFF] + [(x, 'rb_cnotdihedral_Z') for x in DIHED]:
            o = outcome(f, 1, [1], rb_pattern=[[0]], group_gates=g)
            nm = o[1][0][0][0].name if o[0] == 'ok' else o[1]
            ep.ev('accept', what=str(g), got=o[0], names=nm, want=kind + '_length_0_seed_0')
