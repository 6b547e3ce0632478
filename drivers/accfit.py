"""C15: accreditation fitters."""
import numpy as np
from qiskit.ignis.verification.accreditation import AccreditationFitter
from harness.drv import make_result, micro, key, bits, counts

NF = 3


class H:
    def __init__(self, ep):
        self.ep = ep
        self.f = [AccreditationFitter() for _ in range(NF)]

    def run(self, i, circ, v, style=0):
        """circ: list of (counts dict, postp bits (clbit order))"""
        res = make_result([('c%d' % k, c) for k, (c, _) in enumerate(circ)])
        pl = [list(reversed(p)) for _, p in circ]
        if style == 1:
            pl = [np.array(p) for p in pl]
        elif style == 2:
            pl = np.array(pl)
        try:
            self.f[i].single_protocol_run(res, pl, v)
            got = 'ok'
        except Exception as e:          # noqa: BLE001
            got = type(e).__name__
        self.ep.ev('run', f=i + 1, v=v, got=got, flag=str(self.f[i].flag),
                   circ=[dict(raw=counts(c), postp=p) for c, p in circ])
        self.obs()

    def bound(self, i, theta, exact=False):
        f = self.f[i]
        try:
            f.bound_variation_distance(theta)
            got = 'ok'
        except Exception as e:          # noqa: BLE001
            got = type(e).__name__
        self.ep.ev('bound', f=i + 1, theta=micro(theta), g=micro(f.g_num), got=got, exact=exact,
                   bound=micro(f.bound), conf=micro(f.confidence))
        self.obs()

    def obs(self):
        self.ep.ev('obs', s=[dict(runs=f.num_runs, acc=f.N_acc, traps=f.num_traps,
                                  out=[bits(o) for o in f.outputs]) for f in self.f])


def circ_of(rng, traps, v, n, kind):
    out = []
    bad = set()
    others = [i for i in range(traps + 1) if i != v]
    if kind == 'bad':
        bad = set(rng.sample(others, rng.choice([1, 1, len(others)])))
    for i in range(traps + 1):
        p = [rng.randrange(2) for _ in range(n)]
        e = [0] * n
        if i == v:
            e = [rng.randrange(2) for _ in range(n)]
        elif i in bad:
            e = [0] * n
            e[rng.randrange(n)] = 1
            if rng.random() < .3:
                e = [1] * n
        k = key([a ^ b for a, b in zip(p, e)])
        out.append([{k: 1}, p])
    if kind == 'multi':
        j = rng.randrange(traps + 1)
        k = list(out[j][0])[0]
        if rng.random() < .5:
            out[j][0] = {k: rng.randrange(2, 9)}
        else:
            k2 = key([1 - b for b in bits(k)])
            out[j][0] = {k: 1, k2: 1}
    return [tuple(x) for x in out]


def run(rec):
    rng, q = rec.rng, rec.quick
    behs = rec.behs if not q else rng.sample(rec.behs, min(len(rec.behs), 250))
    for i, b in enumerate(behs):
        with rec.episode('model-%d' % i) as ep:
            h = H(ep)
            for o in b['log']:
                if o['op'] == 'run':
                    h.run(o['f'] - 1, circ_of(rng, o['t'], o['v'], rng.choice([1, 2]), o['kind']
                          if o['kind'] != 'target' else 'good'), o['v'])
                else:
                    h.bound(o['f'] - 1, o['theta'] / 1e6, exact=True)
    for i in range(100 if q else 1500):
        with rec.episode('rand-%d' % i) as ep:
            h = H(ep)
            traps = [rng.randrange(3, 11) for _ in range(NF)]
            n = [rng.randrange(1, 5) for _ in range(NF)]
            pb = rng.choice([.1, .3, .6])
            for _ in range(rng.randrange(3, 16)):
                f = rng.randrange(NF)
                x = rng.random()
                t, kind = traps[f], 'bad' if rng.random() < pb else 'good'
                if x < .1:
                    t = rng.choice([t + 1, t - 1, 2, 1, 0])
                elif x < .17:
                    kind = 'multi'
                if x < .7:
                    v = rng.randrange(t + 1) if not .17 < x < .22 else rng.choice([-1, -2, t + 1])
                    if t == 0 and kind == 'bad':
                        kind = 'good'
                    h.run(f, circ_of(rng, t, v, n[f], kind), v, rng.choice([0, 0, 1, 2]))
                else:
                    if rng.random() < .15:
                        h.f[f].g_num = rng.choice([.9, .99, 1])
                    h.bound(f, rng.choice([.05, .1, .25, .5, .75, rng.uniform(.01, .95)]))
