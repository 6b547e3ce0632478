"""C13: graph decoder of the repetition code."""
import copy
import itertools
import networkx as nx
from harness.drv import micro, outcome
from drivers.repcode import bit_gates, parse, raw_string, build, std_ops
from qiskit.ignis.verification.topological_codes import (
    RepetitionCode, GraphDecoder, lookuptable_decoding, postselection_decoding)


def simulate(gs, nq, nc, faults):
    """classical run of a bit circuit; faults: (gate index from 1, qubit) or (0, clbit)"""
    q, c = [0] * nq, [0] * nc
    for i, g in enumerate(gs, 1):
        if g['g'] != 'B':
            for x in g['q']:
                if (i, x) in faults:
                    q[x] ^= 1
        if g['g'] == 'X':
            q[g['q'][0]] ^= 1
        elif g['g'] == 'CX':
            q[g['q'][1]] ^= q[g['q'][0]]
        elif g['g'] == 'R':
            q[g['q'][0]] = 0
        elif g['g'] == 'M':
            b = g['c'][0]
            c[b] = q[g['q'][0]] ^ ((0, b) in faults)
    return c


class Dec:
    cache = {}

    def __init__(self, d, T, ops=None, rng=None, shared=False):
        self.d, self.T = d, T
        self.code = RepetitionCode(d, T) if ops is None else build(d, ops, rng)
        self.gs = {log: bit_gates(self.code.circuit[log]) for log in '01'}
        self.dec = GraphDecoder(self.code)
        if shared:      # a premade graph
            self.dec = GraphDecoder(self.code, S=self.dec.S)
        self.nq, self.nc = 2 * d - 1, T * (d - 1) + d

    def raw(self, log, faults):
        c = simulate(self.gs[log], self.nq, self.nc, faults)
        d, T = self.d, self.T
        return raw_string(c[T * (d - 1):], [c[t * (d - 1):(t + 1) * (d - 1)] for t in range(T)])

    def string(self, log, faults):
        out = self.code.process_results({log: {self.raw(log, faults): 1}})[log]
        return list(out)[0]

    def sites(self):
        return [(i, x) for i, g in enumerate(self.gs['0'], 1) if g['g'] != 'B' for x in g['q']] + \
            [(0, b) for b in range(self.nc)]

    def sites1(self, f):
        """the same place in the circuit for a stored 1 (which starts with d flips)"""
        extra = len(self.gs['1']) - len(self.gs['0'])
        return (f[0] + extra, f[1]) if f[0] else f


def sval(s):
    p = parse(s)
    return dict(log=p[0], ch=p[1])


def graph(ep, D):
    S = D.dec.S
    es = list(S.edges)
    ep.ev('graph', gs=D.gs['0'], nodes=[list(n) for n in S.nodes], edges=[[list(a), list(b)] for a, b in es],
          w=[micro(S[a][b]['distance']) for a, b in es])


def decode(ep, D, log, faults, s=None, valid=False):
    inj = s is None
    if inj:
        fs = {f if log == '0' else D.sites1(f) for f in faults}
        s = D.string(log, fs)
    out = D.dec.matching(s)
    ep.ev('decode', log=log, faults=[list(f) for f in faults], inj=inj, valid=valid, str=sval(s),
          out=[int(x) if x in '01' else 9 for x in out.split(' ')])
    return s


def errgraph(ep, D, s):
    E = D.dec.make_error_graph(s)['0']
    es = list(E.edges)
    ep.ev('errgraph', str=sval(s), nodes=[list(n) for n in E.nodes], edges=[[list(a), list(b)] for a, b in es],
          w=[int(E[a][b]['weight']) for a, b in es])


def rand_string(rng, D):
    """any string a device could report"""
    d, T = D.d, D.T
    p = rng.choice([.05, .2, .5])
    code = [int(rng.random() < p) for _ in range(d)]
    ls = [[int(rng.random() < p) for _ in range(d - 1)] for _ in range(T)]
    return list(D.code.process_results({'0': {raw_string(code, ls): 1}})['0'])[0]


def tables(rng, D, n, logs):
    res = {}
    for log in logs:
        res[log] = {}
        for _ in range(n):
            k = rng.choice([0, 0, 1, 1, 2, 3])
            s = D.string(log, set(rng.sample(D.sites(), k)))
            res[log][s] = res[log].get(s, 0) + rng.randrange(1, 40)
    return res


def probs(ep, D, rng, n):
    logs = rng.choice([['0', '1'], ['0'], ['1'], ['1', '0']])
    res = tables(rng, D, n, logs)
    keep = copy.deepcopy(res)
    ids = {}

    def sid(s):
        return ids.setdefault(s, len(ids))
    p = D.dec.get_logical_prob(res) if rng.random() < .5 else D.dec.get_logical_prob(res, algorithm='matching')
    ep.ev('prob', p=[[k, micro(v)] for k, v in p.items()],
          tabs=[dict(log=g, tab=[dict(out=int(D.dec.matching(s).split(' ')[0]), n=k) for s, k in t.items()])
                for g, t in keep.items()])
    zero = ' '.join(['0' * (D.d - 1)] * (D.T + 1))
    for g in res:
        for v in '01':
            s = '%s %s  %s' % (v, v, zero)
            res[g][s] = res[g].get(s, 0) + rng.randrange(1, 30)
    p = postselection_decoding(res)
    ep.ev('post', p=[[k, micro(v)] for k, v in p.items()],
          tabs=[dict(log=g, tab=[dict(sval(s), n=k) for s, k in t.items()]) for g, t in res.items()])
    train = tables(rng, D, n, ['0', '1'])
    for g in '01':
        for s in rng.sample(list(res[logs[0]]), 2):
            train[g][s] = train[g].get(s, 0) + rng.randrange(1, 9)
    p = lookuptable_decoding(train, res)
    ep.ev('lookup', p=[[k, micro(v)] for k, v in p.items()],
          train=[dict(log=g, id=sid(s), n=k) for g, t in train.items() for s, k in t.items()],
          tabs=[dict(log=g, tab=[dict(id=sid(s), n=k) for s, k in t.items()]) for g, t in res.items()])


def weigh(ep, D, tab):
    D.dec.weight_syndrome_graph({'0': tab, '1': {}})
    es = list(D.dec.S.edges)
    ep.ev('weights', edges=[[list(a), list(b)] for a, b in es], w=[micro(D.dec.S[a][b]['distance']) for a, b in es],
          tab=[dict(sval(s), n=k) for s, k in tab.items()])


def skewed(rng, D):
    """tables in which some events are far more frequent than their neighbours"""
    d, T = D.d, D.T
    ps = [[rng.choice([.1, .5, .9]) for _ in range(d - 1)] for _ in range(T + 1)]
    lp = [rng.choice([.1, .5, .9]) for _ in range(2)]
    tab = {}
    for _ in range(120):
        s = '%d %d  ' % tuple(rng.random() < p for p in lp) + \
            ' '.join(''.join(str(int(rng.random() < p)) for p in row) for row in ps)
        tab[s] = tab.get(s, 0) + 1
    return tab


def weights(ep, D, rng):
    """every single fault and pairs of them are seen a few times, so that all ratios exist"""
    for _ in range(2):
        weigh(ep, D, skewed(rng, D))
    tab = {}
    sites = D.sites()
    for f in sites:
        tab[D.string('0', {f})] = rng.choice([1, 1, rng.randrange(1, 200)])
    for _ in range(60):
        s = D.string('0', set(rng.sample(sites, rng.choice([2, 3, 4]))))
        tab[s] = tab.get(s, 0) + rng.choice([1, 1, rng.randrange(1, 200)])
    s = D.string('0', set())
    tab[s] = tab.get(s, 0) + 3000
    weigh(ep, D, tab)
    if all(D.dec.S[a][b]['distance'] >= 0 for a, b in D.dec.S.edges):
        for _ in range(12):
            s = rng.choice([lambda: rand_string(rng, D),
                            lambda: D.string('0', set(rng.sample(sites, rng.choice([1, 2, 3]))))])()
            E = D.dec.make_error_graph(s)['0']
            es = list(E.edges)
            ep.ev('wdecode', str=sval(s), edges=[[list(a), list(b)] for a, b in es],
                  w=[micro(E[a][b]['weight']) for a, b in es],
                  out=[int(x) if x in '01' else 9 for x in D.dec.matching(s).split(' ')])


def run(rec):
    rng, q = rec.rng, rec.quick
    codes = [(2, 1), (3, 1), (3, 2), (4, 1), (5, 1)] + ([] if q else [(3, 3), (4, 2), (5, 2), (5, 3), (6, 1), (7, 1)])
    by = {}
    for b in rec.behs:
        by.setdefault((b['d'], b['T']), []).append(b)
    for d, T in codes:
        D = None
        with rec.episode('code-%d-%d' % (d, T), d=d, T=T) as ep:
            D = Dec(d, T, shared=rng.random() < .3)
            graph(ep, D)
            for b in by.get((d, T), []):
                decode(ep, D, b['log'], [tuple(f) for f in b['faults']])
            sites = D.sites()
            k = (d - 1) // 2
            sets = [()]
            if k >= 1:
                sets += [(f,) for f in sites]
            if k >= 2:
                prs = list(itertools.combinations(sites, 2))
                sets += prs if not q else rng.sample(prs, 150)
            if k >= 3:
                sets += [tuple(rng.sample(sites, 3)) for _ in range(300)]
            if len(sets) > 1500:
                sets = rng.sample(sets, 1500)
            for fs in sets:
                decode(ep, D, rng.choice('01'), fs)
            for _ in range(25):
                s = decode(ep, D, rng.choice('01'), rng.sample(sites, min(len(sites), k + rng.choice([1, 2, 3]))))
                errgraph(ep, D, s)
                decode(ep, D, '0', [], s=rand_string(rng, D), valid=True)
            for _ in range(3):
                probs(ep, D, rng, 12)
            weights(ep, D, rng)
    for i in range(3 if q else 20):
        d, T = rng.choice([(3, 1), (3, 2), (2, 2), (4, 1)])
        ops = [dict(op='round', reset=True) for _ in range(T)] + [dict(op='readout')]
        with rec.episode('hist-%d' % i, d=d, T=T) as ep:
            D = Dec(d, T, ops, rng)
            graph(ep, D)
            for _ in range(20):
                decode(ep, D, rng.choice('01'), rng.sample(D.sites(), rng.choice([1, 2])))
