"""C11: quantum volume circuits and fitter."""
import math
import numpy as np
from harness.drv import make_result, key, bits, micro, micros, outcome
from qiskit import QuantumCircuit
from qiskit.quantum_info import Statevector
from qiskit.result import Result
from qiskit.ignis.verification.quantum_volume import qv_circuits, QVFitter


def name(d, t):
    return 'qv_depth_%d_trial_%d' % (d, t)


def sv_result(recs, rng):
    res = []
    for r in recs:
        tot = sum(r['w'])
        vec = np.array([math.sqrt(w / tot) * rng.choice([1, -1, 1j, -1j]) for w in r['w']], dtype=complex)
        res.append(dict(shots=1, success=True, data=dict(statevector=vec),
                        header=dict(name=name(r['d'], r['t']), n_qubits=r['d'], memory_slots=0,
                                    creg_sizes=[])))
    return Result.from_dict(dict(backend_name='sv', backend_version='1', qobj_id='q', job_id='j',
                                 success=True, results=res))


def data_result(recs):
    return make_result([(name(r['d'], r['t']), {key(b): n for b, n in r['counts']},
                         dict(creg_sizes=[['measure', r['d']]])) for r in recs])


def dt(n):
    p = n.split('_')
    return int(p[2]), int(p[4])


def heavy(ep, f):
    ep.ev('heavy', h=[dict(d=dt(n)[0], t=dt(n)[1], outs=[bits(x) for x in v],
                           p=micro(f.heavy_output_prob_ideal[n])) for n, v in f.heavy_outputs.items()])


def obs(ep, f):
    ep.ev('obs', hc=[dict(d=dt(n)[0], t=dt(n)[1], n=int(v)) for n, v in f.heavy_output_counts.items()],
          y=micros(f.ydata), succ=[dict(ok=bool(s[0]), conf=micro(s[1])) for s in f.qv_success()],
          qv=[int(x) for x in f.quantum_volume()])


def trials(ep, f, depths):
    """the probabilities per trial, and their running means, as the accumulation plot shows them"""
    from matplotlib.figure import Figure
    ts = []
    for d in depths:
        ax = Figure().add_subplot()
        f.plot_hop_accumulative(d, ax=ax)
        pts = [c.get_offsets() for c in ax.collections if c.get_label() == 'Individual HOP']
        run = [x.get_ydata() for x in ax.lines if x.get_label() == 'Cumulative HOP']
        if len(pts) == 1 and len(run) == 1:
            ts.append(dict(d=d, each=micros(np.array(pts[0])[:, 1]), run=micros(run[0])))
    ep.ev('trials', ts=ts, depths=[int(d) for d in f.depths], lists=[list(x) for x in f.qubit_lists],
          nres=len(f.results))


class Hist:
    """one fitter and what may be asked of it"""
    def __init__(self, ep, f, depths, rng):
        self.ep, self.f, self.depths, self.rng = ep, f, depths, rng
        self.ideal, self.have = set(), set()

    def add_ideal(self, recs, aslist):
        groups = aslist or [recs]
        rs = [sv_result(g, self.rng) for g in groups]
        st, v = outcome(self.f.add_statevectors, rs if aslist else rs[0])
        if st == 'ok':
            self.ideal |= {(r['d'], r['t']) for r in recs}
        self.ep.ev('addideal', recs=recs, got='ok' if st == 'ok' else v)

    def complete(self, extra=()):
        have = self.have | set(extra)
        n = max([t for _, t in have], default=-1) + 1
        return n > 0 and all((d, t) in have for d in self.depths for t in range(n))

    def add_data(self, recs, groups=None):
        new = {(r['d'], r['t']) for r in recs}
        ok = new <= self.ideal
        refit = self.complete(new) and self.rng.random() < .8
        rs = [data_result(g) for g in groups] if groups else data_result(recs)
        st, v = outcome(self.f.add_data, rs, **({} if refit else dict(rerun_fit=False)))
        self.ep.ev('adddata', recs=recs, got='ok' if st == 'ok' else v)
        if st == 'ok':
            self.have |= new

    def look(self):
        heavy(self.ep, self.f)
        if self.complete():
            self.f.calc_data()
            self.f.calc_statistics()
            obs(self.ep, self.f)


def model(rec, eid, beh):
    with rec.episode(eid, depths=[1, 2]) as ep:
        f = QVFitter(qubit_lists=[[0], [0, 1]])
        h = Hist(ep, f, [1, 2], rec.rng)
        for st in beh['log']:
            if st['op'] == 'ideal':
                h.add_ideal(st['recs'], None)
            else:
                h.add_data(st['recs'])
            h.look()


def rand_counts(rng, d, w, bias):
    out = {}
    ws = [x ** bias + .01 for x in w]
    for _ in range(rng.choice([3, 20, 200])):
        v = rng.choices(range(2 ** d), ws)[0]
        b = tuple((v >> i) & 1 for i in range(d))
        out[b] = out.get(b, 0) + 1
    return [[list(b), n] for b, n in sorted(out.items())]


def split(rng, xs):
    """partition into 1..3 consecutive groups"""
    k = rng.randrange(1, min(3, len(xs)) + 1)
    cut = sorted(rng.sample(range(1, len(xs)), k - 1))
    return [xs[a:b] for a, b in zip([0] + cut, cut + [len(xs)])]


def history(rec, eid):
    rng = rec.rng
    depths = rng.sample([1, 2, 3, 4], rng.choice([1, 2, 2, 3]))
    nt = rng.choice([1, 2, 3, 5, 12])
    lists = [rng.sample(range(7), d) for d in depths]
    bias = rng.choice([0, 1, 2, 4, 8])
    w = {(d, t): [rng.choice([1, 2, 3, 5, 8, 13, 1, 0]) for _ in range(2 ** d)] for d in depths for t in range(nt)}
    for v in w.values():
        if sum(v) == 0:
            v[0] = 1
        if rng.random() < .2:
            v[:] = [1] * len(v)
    with rec.episode(eid, depths=depths, lists=lists) as ep:
        cs = list(w)
        irec = [dict(d=d, t=t, w=w[d, t]) for d, t in cs]
        rng.shuffle(irec)

        def drec(c):
            return dict(d=c[0], t=c[1], counts=rand_counts(rng, c[0], w[c], bias))
        drecs = [drec(c) for c in cs]
        rng.shuffle(drecs)
        if rng.random() < .2:                       # everything in the constructor
            gi, gd = split(rng, irec), split(rng, drecs)
            f = QVFitter([data_result(g) for g in gd], [sv_result(g, rng) for g in gi], lists)
            h = Hist(ep, f, depths, rng)
            h.ideal = h.have = set(cs)
            ep.ev('addideal', recs=irec, got='ok')
            ep.ev('adddata', recs=drecs, got='ok')
            h.look()
        else:
            f = QVFitter(qubit_lists=lists)
            h = Hist(ep, f, depths, rng)
            todo = [('i', g) for g in split(rng, irec)] + [('d', g) for g in split(rng, drecs)]
            if rng.random() < .7:
                todo.sort(key=lambda x: x[0] != 'i')
            else:
                rng.shuffle(todo)
            for k, g in todo:
                if k == 'i':
                    g = [r for r in g if (r['d'], r['t']) not in h.ideal]
                    if not g:
                        continue
                    h.add_ideal(g, split(rng, g) if rng.random() < .4 else None)
                else:
                    if not {(r['d'], r['t']) for r in g} <= h.ideal and rng.random() < .5:
                        h.add_data(g)
                    miss = [r for r in irec if (r['d'], r['t']) in {(x['d'], x['t']) for x in g} - h.ideal]
                    if miss and rng.random() < .8:
                        h.add_ideal(miss, None)
                    h.add_data(g, split(rng, g) if rng.random() < .4 else None)
            miss = [r for r in irec if (r['d'], r['t']) not in h.ideal]
            if miss:
                h.add_ideal(miss, None)
            h.add_data(drecs)
            h.look()
        if rng.random() < .4:                       # a second ideal result is refused
            h.add_ideal([irec[0]], None)
            h.look()
        for _ in range(rng.randrange(0, 3)):        # the same circuits run again
            h.add_data([drec(c) for c in rng.sample(cs, rng.randrange(1, len(cs) + 1))])
            h.look()
        if rng.random() < .3 and h.complete():
            trials(ep, f, depths)


def boundary(rec, eid):
    """heavy-output fractions on either side of two sigma above two thirds, or certain"""
    rng = rec.rng
    depths = rng.sample([1, 2, 3], rng.choice([1, 2]))
    while True:
        nt = rng.randrange(4, 30)
        hs = [h for h in range(670, 1000)
              if 4e-3 < abs((h / 1000 - 2 / 3) / math.sqrt(h / 1000 * (1 - h / 1000) / nt) - 2) < .045]
        if hs:
            break
    with rec.episode(eid, depths=depths) as ep:
        f = QVFitter(qubit_lists=[list(range(d)) for d in depths])
        h = Hist(ep, f, depths, rng)
        cs = [(d, t) for t in range(nt) for d in depths]
        w = {c: [1] + [0] * (2 ** c[0] - 2) + [9] for c in cs}
        h.add_ideal([dict(d=d, t=t, w=w[d, t]) for d, t in cs], None)
        want = {d: 1000 if rng.random() < .2 else rng.choice(hs) for d in depths}

        def data(d):
            n, x = want[d], [[[1] * d, want[d]]]
            hv = {v for v in range(2 ** d) if 2 * w[d, 0][v] > sorted(w[d, 0])[2 ** (d - 1) - 1] + sorted(w[d, 0])[2 ** (d - 1)]}
            lo = next(v for v in range(2 ** d) if v not in hv)
            if n < 1000:
                x.append([[(lo >> i) & 1 for i in range(d)], 1000 - n])
            return x
        h.add_data([dict(d=d, t=t, counts=data(d)) for d, t in cs])
        h.look()


def plain(qc):
    """circuit without its measurements, measure map, touched qubits, measurements last?"""
    qi = {b: i for i, b in enumerate(qc.qubits)}
    ci = {b: i for i, b in enumerate(qc.clbits)}
    out = QuantumCircuit(len(qc.qubits))
    meas, touched, last = [], set(), True
    for inst, qa, ca in qc.data:
        qs = [qi[b] for b in qa]
        if inst.name == 'measure':
            meas.append([qs[0], ci[ca[0]]])
        elif inst.name != 'barrier':
            last = last and not meas
            touched |= set(qs)
            out.append(inst, qs)
    return out, meas, sorted(touched), last


def su4_layers(qc):
    """(number of two-qubit blocks per qubit pairs layer) -> depth of two-qubit unitaries"""
    c = qc
    for _ in range(4):
        if any(i.name == 'unitary' for i, _, _ in c.data):
            break
        if not c.data or all(i.definition is None for i, _, _ in c.data):
            return None
        c = c.decompose()
    n = sum(1 for i, q, _ in c.data if i.name == 'unitary' and len(q) == 2)
    return n


def fingerprint(qc):
    p, meas, _, _ = plain(qc)
    return (micros(np.abs(Statevector.from_instruction(p).data) ** 2, 10**5), meas)


def circuits(rec, eid):
    rng = rec.rng
    ks = sorted(rng.sample([1, 2, 3, 4], rng.choice([1, 2])))
    style = rng.choice(['range', 'off', 'perm', 'sorted'])
    lists = []
    for k in ks:
        if style == 'range':
            lists.append(list(range(k)))
        elif style == 'off':
            a = rng.randrange(0, 3)
            lists.append(list(range(a, a + k)))
        else:
            x = rng.sample(range(6 if k > 2 else k + 1), k)
            lists.append(sorted(x) if style == 'sorted' else x)
    nt = rng.choice([1, 2, 3, 3])
    seed = rng.choice([None, 0, 1, rng.randrange(1000)])
    with rec.episode(eid, kind='circ') as ep:
        kw = {} if seed is None else {'seed': seed}
        ms, ids = qv_circuits(lists, nt, **kw)
        same = True
        if seed is not None:
            m2, i2 = qv_circuits(lists, nt, **kw)
            same = all(fingerprint(a) == fingerprint(b) for x, y in ((ms, m2), (ids, i2))
                       for r, s in zip(x, y) for a, b in zip(r, s))
        big = [i for i, k in enumerate(ks) if k > 1]
        distinct = len({str(fingerprint(r[big[0]])) for r in ids}) if big else 2
        ep.ev('list', ntrials=nt, nlists=len(lists), shape=[len(r) for r in ms],
              ishape=[len(r) for r in ids], seeded=seed is not None, same=same, distinct=distinct)
        for t in range(nt):
            for j, lst in enumerate(lists):
                qc, ic = ms[t][j], ids[t][j]
                p, meas, touched, last = plain(qc)
                pi, im, _, _ = plain(ic)
                full = np.abs(Statevector.from_instruction(p).data) ** 2
                ideal = np.abs(Statevector.from_instruction(pi).data) ** 2
                n = su4_layers(ic)
                k = len(lst)
                depth = k if n is None else (n / (k // 2) if k > 1 else (k if n == 0 else 99))
                ep.ev('circ', list=lst, k=k, full=micros(full), ideal=micros(ideal), meas=meas,
                      touched=touched, last=last, idealmeas=len(im), name=qc.name, iname=ic.name,
                      want=name(k, t), depth=depth, width=ic.num_qubits)


def run(rec):
    q = rec.quick
    for i, b in enumerate(rec.behs):
        model(rec, 'model-%d' % i, b)
    for i in range(40 if q else 300):
        circuits(rec, 'circ-%d' % i)
    for i in range(25 if q else 250):
        boundary(rec, 'edge-%d' % i)
    for i in range(80 if q else 900):
        history(rec, 'hist-%d' % i)
