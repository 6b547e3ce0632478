"""C19: GHZ / MQC / parity oscillation circuits and their analysis."""
import contextlib
import io
import numpy as np
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt            # noqa: E402
from qiskit.providers.models.backendproperties import BackendProperties  # noqa: E402
from qiskit.test.mock.utils.configurable_backend import ConfigurableFakeBackend  # noqa: E402
from qiskit.ignis.verification.entanglement import linear, analysis          # noqa: E402
from qiskit.ignis.verification.entanglement.parallelize import BConfig       # noqa: E402
from harness.drv import gates, micro, micros, key                             # noqa: E402


def backend(nv, cm, errs):
    b = ConfigurableFakeBackend('m', nv, coupling_map=[list(e) for e in cm])
    if errs:
        d = b.properties().to_dict()
        for g in d['gates']:
            if len(g['qubits']) == 2:
                for a, c, e in errs:
                    if {a, c} == set(g['qubits']):
                        g['parameters'][0]['value'] = e / 1e6
        b._properties = BackendProperties.from_dict(d)
        if b.properties() is not b._properties:
            b.properties = lambda: b._properties
    return b


def dirs(rng, cm):
    """orient the edges at random; some in both directions, in random order"""
    out = []
    for a, b in cm:
        if rng.random() < .5:
            a, b = b, a
        out.append([a, b])
        if rng.random() < .25:
            out.append([b, a])
    rng.shuffle(out)
    return out


def layout(lay, n):
    ps = [None] * len(lay)
    for q, p in lay.items():
        ps[q.index] = p
    return [int(p) for p in ps]


def onto(qc, lay):
    """gate list of an untranspiled circuit with its qubits at their device positions"""
    return gates(qc, qi={b: lay[i] for i, b in enumerate(qc.qubits)}, general=True)


def device(rec, eid, nv, cm, full):
    rng = rec.rng
    cmd = dirs(rng, cm)
    errs = [[a, b, rng.choice([3000, 9000, 15000, rng.randrange(1000, 50000)])] for a, b in cm]
    use = rng.random() < .7
    with rec.episode(eid, nv=nv, cm=cmd) as ep:
        b = backend(nv, cmd, errs)
        bc = BConfig(b) if use else BConfig(b, indicator=False)
        td = bc.get_tier_dict()
        ep.ev('tiers', keys=[int(k) for k in td], tiers=[[list(map(int, e)) for e in td[k]] for k in td],
              sorted=use, errs=errs)
        rec.count('graphs')
        if not full:
            return
        top = len({v for e in cm for v in e}) + 1
        n = rng.randrange(2, top)
        circ, lay = bc.get_ghz_layout(n, transpiled=False, barriered=rng.random() < .5)
        lp = layout(lay, n)
        ep.ev('prepare', n=n, lay=lp, directed=False, gates=onto(circ, lp))
        if full < 0:
            return
        n = rng.randrange(2, top)
        circ, lay = bc.get_ghz_layout(n)
        ep.ev('prepare', n=n, lay=layout(lay, n), directed=True, gates=gates(circ))
        for what in rng.sample(['cat', 'mqc', 'mqcp', 'po', 'pop'], full):
            n = rng.randrange(2, top)
            turn = rng.choice([0, 125000, rng.randrange(1000000), rng.randrange(1000000)])
            d = 2 * np.pi * turn / 1e6
            fm = rng.random() < .7
            if what == 'cat':
                circ, _, lay = bc.get_ghz_simple(n, fm)
            elif what == 'mqc':
                circ, lay = bc.get_ghz_mqc(n, d, fm)
            elif what == 'mqcp':
                circ, p, lay = bc.get_ghz_mqc_para(n, fm)
                circ = circ.bind_parameters({p: d})
            elif what == 'po':
                fm = True
                circ, lay = bc.get_ghz_po(n, d)
            else:
                fm = True
                circ, p, lay = bc.get_ghz_po_para(n)
                circ = circ.bind_parameters({p[0]: d, p[1]: -d})
            ep.ev('experiment', kind={'cat': 'cat', 'mqc': 'mqc', 'mqcp': 'mqc'}.get(what, 'po'), n=n, turn=turn,
                  full=fm, lay=layout(lay, n), directed=True, ncl=len(circ.clbits), gates=gates(circ, general=True))
            rec.count('device_experiments')


def chain(rec, eid, n):
    rng = rec.rng
    cm = [[i, i + 1] for i in range(n - 1)] or [[0, 0]]
    with rec.episode(eid, nv=n, cm=cm) as ep:
        lay = list(range(n))
        circ = linear.get_ghz_simple(n, measure=False)
        ep.ev('prepare', n=n, lay=lay, directed=False, gates=gates(circ))
        for what in ['cat', 'mqc', 'mqcp', 'po', 'pop']:
            turn = rng.choice([0, 125000, rng.randrange(1000000), rng.randrange(1000000)])
            d = 2 * np.pi * turn / 1e6
            fm = rng.random() < .6
            if what == 'cat':
                circ = linear.get_ghz_simple(n, True, fm)
            elif what == 'mqc':
                circ = linear.get_ghz_mqc(n, d, fm)
            elif what == 'mqcp':
                circ, p = linear.get_ghz_mqc_para(n, fm)
                circ = circ.bind_parameters({p: d})
            elif what == 'po':
                fm = True
                circ = linear.get_ghz_po(n, d)
            else:
                fm = True
                circ, p = linear.get_ghz_po_para(n)
                circ = circ.bind_parameters({p[0]: d, p[1]: -d})
            kind = {'cat': 'cat', 'mqc': 'mqc', 'mqcp': 'mqc'}.get(what, 'po')
            ep.ev('experiment', kind=kind, n=n, turn=turn, full=fm, lay=lay, directed=False, ncl=len(circ.clbits),
                  gates=gates(circ, general=True))


def analyse(rec, eid):
    rng = rec.rng
    with rec.episode(eid, nv=1, cm=[[0, 0]]) as ep:
        n = rng.randrange(1, 6)
        tab = {}
        for _ in range(rng.randrange(1, 9)):
            tab[key([rng.randrange(2) for _ in range(n)])] = rng.randrange(1, 2000)
        o = analysis.ordered_list_generator(dict(tab), n)
        ep.ev('counts', n=n, tab=[[[int(x) for x in reversed(k)], v] for k, v in tab.items()],
              ordered=[int(round(float(v))) for v in o], pz=np.asarray(analysis.composite_pauli_z(n)).tolist(),
              exp=int(round(float(analysis.composite_pauli_z_expvalue(dict(tab), n)))))
        m = 2 ** rng.randrange(1, 4)
        r = rng.random
        rho = np.array([[complex(r() - .5, r() - .5) for _ in range(m)] for _ in range(m)])
        if rng.random() < .7:
            rho = rho @ rho.conj().T
            rho = rho / np.trace(rho)
        f = analysis.rho_to_fidelity(rho)

        def c(z):
            return [micro(z.real), micro(z.imag)]
        ep.ev('fidelity', rho=[c(rho[0, 0]), c(rho[-1, -1]), c(rho[0, -1]), c(rho[-1, 0])], x=micro(abs(rho[0, -1])),
              y=micro(abs(rho[-1, 0])), f=micro(f))
        label = rng.choice(['mqc', 'po'])
        N = rng.randrange(max(2 * n + 1, 6), 21)
        xs = np.linspace(0, 2 * np.pi, N, endpoint=False)
        ph = rng.uniform(0, 3)
        y = .5 + rng.uniform(.3, .5) * np.cos(n * xs + ph) + np.array([rng.uniform(-.05, .05) for _ in xs])
        ym = .5 + rng.uniform(.3, .5) * np.cos(n * xs + ph) + np.array([rng.uniform(-.05, .05) for _ in xs])
        P = [rng.uniform(.1, .5) for _ in range(4)]
        pl = analysis.Plotter(label)
        with contextlib.redirect_stdout(io.StringIO()):
            out = pl.get_fourier_info(n, xs, y, ym, {'P0': P[0], 'P1': P[1], 'P0_m': P[2], 'P1_m': P[3]})
        plt.close('all')
        extra = dict(I0=[0, 0], I0m=[0, 0], LB=0, UB=0, LBm=0, UBm=0)
        if label == 'mqc':
            extra = dict(I0=c(out['I0']), I0m=c(out['I0_m']), LB=micro(out['LB']), UB=micro(out['UB']),
                         LBm=micro(out['LB_m']), UBm=micro(out['UB_m']))
        ep.ev('fourier', label=label, n=n, y=micros(list(y)), ym=micros(list(ym)), P=micros(P), In=c(out['In']),
              Inm=c(out['In_m']), F=micro(out['F']), Fm=micro(out['F_m']), **extra)
        rec.count('analyses')


def bigger(rng, nv):
    """random connected graph"""
    es = set()
    order = rng.sample(range(nv), nv)
    for i in range(1, nv):
        es.add(tuple(sorted((order[i], order[rng.randrange(i)]))))
    for _ in range(rng.randrange(0, nv)):
        a, b = rng.sample(range(nv), 2)
        es.add(tuple(sorted((a, b))))
    return sorted(es)


def deep(rng):
    """couplings of a long device: line, ring, comb or ladder"""
    nv = rng.randrange(24, 34)
    k = rng.randrange(4)
    if k == 0:
        es = [(i, i + 1) for i in range(nv - 1)]
    elif k == 1:
        es = [(i, (i + 1) % nv) for i in range(nv)]
    elif k == 2:
        h = nv // 2
        nv = 2 * h
        es = [(i, i + 1) for i in range(h - 1)] + [(i, h + i) for i in range(h)]
    else:
        h = nv // 2
        nv = 2 * h
        es = [(i, i + 1) for i in range(h - 1)] + [(h + i, h + i + 1) for i in range(h - 1)] + \
             [(i, h + i) for i in range(0, h, 3)]
    names = rng.sample(range(nv), nv)
    return nv, sorted(tuple(sorted((names[a], names[b]))) for a, b in es)


def sparse(rng, nv, cm):
    """the same couplings on a larger device, where some qubits have none"""
    big = nv + rng.randrange(1, 3)
    names = sorted(rng.sample(range(big), nv))
    return big, [(names[a], names[b]) for a, b in cm]


def run(rec):
    rng = rec.rng
    q = rec.quick
    for i, b in enumerate(rec.behs):
        device(rec, 'graph%d' % i, b['n'], b['cm'], (1 if rng.random() < .4 else 0) if q else 2 if rng.random() < .3 else 0)
    for i in range(12 if q else 150):
        nv = rng.randrange(5, 7)
        device(rec, 'big%d' % i, nv, bigger(rng, nv), 2)
    for i in range(20 if q else 300):
        nv = rng.randrange(6, 11)
        device(rec, 'tier%d' % i, nv, bigger(rng, nv), 0)
    for i in range(4 if q else 40):
        nv, cm = deep(rng)
        device(rec, 'deep%d' % i, nv, cm, 0)
    for i in range(6 if q else 60):
        nv = rng.randrange(3, 6)
        nv, cm = sparse(rng, nv, bigger(rng, nv))
        device(rec, 'sparse%d' % i, nv, cm, -1)       # the transpiler refuses such devices
    for n in range(1, 6 if q else 7):
        for i in range(3 if q else 20):
            chain(rec, 'chain%d_%d' % (n, i), n)
    for i in range(80 if q else 1500):
        analyse(rec, 'an%d' % i)
