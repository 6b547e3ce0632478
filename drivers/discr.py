"""C18: discriminators and discrimination filters."""
import copy
import json
import numpy as np
from harness.drv import outcome
from qiskit.exceptions import QiskitError
from qiskit.pulse import PulseError, Schedule
from qiskit.result import Result
from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter
from qiskit.ignis.measurement.discriminator.iq_discriminators import (
    LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator)


class Recorder:
    """classifier that remembers what it was trained on; predicts the nearest row's label"""

    def __init__(self):
        self.rows = []

    def fit(self, x, y):
        x, y = list(x), list(y)
        self.rows = [[[int(round(v)) for v in r], dg(t)] for r, t in zip(x, y)]
        if len(x) != len(y):
            self.rows.append([[999999], [len(x), len(y)]])
        self.x, self.y = np.array(x), y

    def predict(self, x):
        return [self.y[int(np.argmin(((self.x - np.array(r)) ** 2).sum(axis=1)))] for r in x]


def dg(s):
    return [int(ch) if ch.isdigit() else 99 for ch in str(s)]


def result(exps):
    """exps: [name, lvl, avg, shots]"""
    res = []
    for e in exps:
        if e['lvl'] == 1:
            mem = e['shots'][0] if e['avg'] else e['shots']
            data = {'memory': mem}
        else:
            data = {'counts': {'0x0': 3, '0x1': 2}}
        res.append({'shots': e['nshots'], 'success': True, 'meas_level': e['lvl'],
                    'meas_return': 'avg' if e['avg'] else 'single', 'data': data,
                    'header': {'name': e['name'], 'memory_slots': e['slots'],
                               'creg_sizes': [['c', e['slots']]]}})
    return Result.from_dict({'backend_name': 'm', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j',
                             'success': True, 'results': res})


def snap(r):
    return json.dumps(r.to_dict(), sort_keys=True, default=str)


def log_res(exps):
    return [dict(name=e['name'], lvl=e['lvl'], cal=e['cal'], own=e['own'],
                 shots=e['shots'] if e['lvl'] == 1 else []) for e in exps]


class World:
    """clouds of one device: a centre per label"""

    def __init__(self, rng, nq, mask, base, spread=6):
        self.rng, self.nq, self.mask, self.spread = rng, nq, mask, spread
        n = base ** len(mask)
        labels = ['']
        for _ in mask:
            labels = [a + str(d) for a in labels for d in range(base)]
        k = min(n, rng.randrange(2, 5))
        self.labels = rng.sample(labels, k)
        self.pos = {}
        for m in range(len(mask)):
            ang = rng.uniform(0, 6.28)
            for d in range(base):
                a = ang + 6.283 * d / base
                self.pos[m, d] = [int(80 * np.cos(a)), int(80 * np.sin(a))]

    def shot(self, label):
        r = self.rng
        s = [[r.randrange(-150, 151), r.randrange(-150, 151)] for _ in range(self.nq)]
        for m, q in enumerate(self.mask):
            c = self.pos[m, int(label[m])]
            s[q] = [c[0] + r.randrange(-self.spread, self.spread + 1), c[1] + r.randrange(-self.spread, self.spread + 1)]
        return s

    def exp(self, name, cal, own, label, n, avg=False, lvl=1):
        return dict(name=name, lvl=lvl, cal=cal, own=dg(own), avg=avg, slots=self.nq,
                    nshots=(self.rng.randrange(2, 900) if avg else n),
                    shots=[self.shot(label) for _ in range(1 if avg else n)])


class H:
    def __init__(self, rec, ep, kind, mask, std=False):
        self.rec, self.ep, self.kind, self.mask, self.std = rec, ep, kind, mask, std
        self.d = None
        self.clf = Recorder()
        self.given = []         # every list handed over so far, and what it held

    def op(self, pool, islist, scheds, states, refit=True, objs=False):
        """pool: list of experiment lists; scheds/states: None or lists of names/labels"""
        rs = [result(e) for e in pool]
        before = [snap(r) for r in rs]
        sc = None if scheds is None else [Schedule(name=s) if objs else s for s in scheds]
        st = None if states is None else list(states)
        sc0, st0 = copy.copy(sc), copy.copy(st)
        arg = rs if islist else rs[0]
        self.given += [(x, copy.copy(x)) for x in (sc, st, arg) if isinstance(x, list)]
        mask0 = list(self.mask)
        ctor = self.d is None
        try:
            if ctor:
                mask = list(self.mask)
                if self.kind == 'rec':
                    self.d = SklearnIQDiscriminator(self.clf, arg, mask, st, self.std, sc)
                elif self.kind == 'lda':
                    par = self.rec.rng.choice([None, {}, {'solver': 'lsqr', 'shrinkage': .05},
                                               {'solver': 'eigen', 'shrinkage': 'auto'}, {'store_covariance': True}])
                    self.d = LinearIQDiscriminator(arg, mask, st, self.std, sc, *([par] if par is not None else []))
                else:
                    par = self.rec.rng.choice([None, {'store_covariance': True}, {'tol': 1e-5}])
                    self.d = QuadraticIQDiscriminator(arg, mask, st, self.std, sc, *([par] if par is not None else []))
                self.m = mask
            else:
                self.d.add_data(arg, st, refit=refit, schedules=sc)
            got = 'ok'
        except (QiskitError, PulseError) as e:
            got = type(e).__name__
        same = [snap(r) for r in rs] == before and sc == sc0 and st == st0 and (
            self.d is None or self.m == mask0) and (not islist or len(arg) == len(before))
        same = same and all(len(x) == len(y) and all(a is b for a, b in zip(x, y)) for x, y in self.given)
        ex, fit = [], False
        if self.d is not None:
            ex = [[str(k), dg(v)] for k, v in sorted(self.d.expected_states.items())]
            fit = bool(self.d.fitted)
        self.ep.ev('op', res=[log_res(e) for e in pool], allscheds=scheds is None, scheds=scheds or [],
                   own=states is None, states=[dg(s) for s in states or []], refit=bool(refit or ctor), got=got,
                   same=bool(same), alive=self.d is not None, rows=self.clf.rows, expected=ex, fitted=fit)
        return got

    def final(self):
        if self.kind == 'rec' and self.d is not None:
            self.d.fit()
            self.ep.ev('final', rows=self.clf.rows)

    def classify(self, exps):
        x = self.d.get_xdata(result(exps), 2)
        y = self.d.discriminate(x)
        self.ep.ev('classify', shots=[s for e in exps for s in e['shots']], labels=[dg(v) for v in y])

    def select(self, exps, typ):
        """what a discriminator reads out of a result, by kind of experiment"""
        got, rows = outcome(lambda: [[int(round(v)) for v in r] for r in self.d.get_xdata(result(exps), typ)])
        self.ep.ev('select', res=[log_res(exps)], typ=typ, got=got, rows=rows if got == 'ok' else [])

    def filter(self, exps, base=None):
        f = DiscriminationFilter(self.d, base) if base else DiscriminationFilter(self.d)
        r = result(exps)
        b = snap(r)
        out = f.apply(r)
        o = []
        for e in out.results:
            o.append(dict(name=e.header.name, lvl=e.meas_level, memory=[dg(v) for v in e.data.memory],
                          counts=[[int(k, 16), int(v)] for k, v in sorted(e.data.counts.items())]))
        self.ep.ev('filter', res=log_res(exps), base=base or 0, out=o, same=snap(r) == b)


NOTCAL = ['exp', 'cal_', 'xcal_0', 'cal_0x', 'Cal_1', 'cal_1_', 'my_cal_0', 'rabi_3', 'cal0']


def replay(rec, eid, b):
    """behaviour of the specification: names and pool as in MCDiscr"""
    rng = rec.rng
    with rec.episode(eid, mask=[1, 0], rec=True) as ep:
        w = World(rng, 2, [1, 0], 3, spread=30)
        w.labels = ['00', '11', '22']
        L = {'cal_0': '00', 'cal_1': '11', 'cal_2': '22', 'exp': '00'}

        def e(n, k, avg=False):
            cal = n.startswith('cal_')
            return w.exp(n, cal, n[4:] if cal else 'x', L[n], k, avg)
        pool = [[e('cal_0', 2), e('cal_1', 2), e('exp', 1)], [e('cal_1', 1), e('cal_2', 1, True)], [e('exp', 1)]]
        sch = {'none': None, 'one': ['cal_1'], 'mix': ['exp', 'cal_1'], 'ex': ['exp']}
        h = H(rec, ep, 'rec', [1, 0])
        for k, o in enumerate(b['log']):
            rs = [pool[i - 1] for i in o['ri']]
            scheds = sch[o['sc']]
            names = scheds if scheds is not None else [x['name'] for r in rs for x in r if x['cal']]
            if o['st'] == 'own':
                states = None
                if 'exp' in names:
                    # the specification labels it <<7>>; the name itself is the label in the code
                    states = ['7' if n == 'exp' else n[4:] for n in names]
            elif o['st'] == 'given':
                states = [str((0 if n == 'exp' else 1) + k) for n in names]
            else:
                states = ['0'] * (len(names) + 1)
            h.op(rs, o['isl'], scheds, states, o['refit'], objs=rng.random() < .3 and scheds is not None)
            if h.d is None:
                break
        h.final()
        rec.count('spec_histories')


def history(rec, eid):
    rng = rec.rng
    nq = rng.randrange(1, 5)
    mask = rng.sample(range(nq), rng.randrange(1, nq + 1))
    base = rng.choice([2, 2, 3])
    kind = rng.choice(['rec', 'rec', 'lda', 'qda'])
    std = kind != 'rec' and rng.random() < .4
    with rec.episode(eid, mask=mask, rec=kind == 'rec', kind=kind, std=std) as ep:
        w = World(rng, nq, mask, base, spread=6 if kind != 'rec' else rng.choice([6, 60]))
        h = H(rec, ep, kind, mask, std)
        n = (lambda: rng.randrange(1, 7)) if kind == 'rec' else (lambda: rng.randrange(14, 24))
        dig = len(mask)

        def calset(labels, extra=True):
            es = []
            for lb in labels:
                es.append(w.exp('cal_' + lb, True, lb, lb, n(), kind == 'rec' and rng.random() < .15))
            if extra and rng.random() < .5:
                nm = rng.choice(NOTCAL)
                es.append(w.exp(nm, False, '9' * dig, rng.choice(w.labels), n()))
            rng.shuffle(es)
            return es
        labels = w.labels
        nres = rng.choice([1, 1, 2, 3])
        pool = [calset(labels if i == 0 or rng.random() < .4 else rng.sample(labels, rng.randrange(1, len(labels) + 1)))
                for i in range(nres)]
        mode = rng.randrange(4)
        names = [e['name'] for r in pool for e in r if e['cal']]
        lab = {e['name']: key_(e) for r in pool for e in r}
        if mode == 0:
            h.op(pool, nres > 1 or rng.random() < .4, None, None)
        elif mode == 1:
            h.op(pool, nres > 1 or rng.random() < .4, None, [lab[m] for m in names])
        else:
            allcal = sorted(set(names))
            sub = rng.sample(allcal, rng.randrange(min(2, len(allcal)), len(allcal) + 1))
            st = None if mode == 2 else [lab[m] for m in sub]
            isl = nres > 1 or rng.random() < .4
            if rng.random() < .15:
                if rng.random() < .5:
                    sub = sub + ['cal_77']
                st = [lab.get(m, '0' * dig) for m in sub] + (['0' * dig] if 'cal_77' not in sub else [])
            h.op(pool, isl, sub, st, objs=rng.random() < .5)
        for _ in range(rng.randrange(0, 3) if h.d else 0):
            newl = rng.sample(labels, rng.randrange(1, len(labels) + 1))
            res = calset(newl)
            names = [e['name'] for e in res if e['cal']]
            z = rng.random()
            if z < .15:
                h.op([res], False, None, [n_[4:] for n_ in names] + ['0' * dig], objs=False)
            elif z < .3:
                h.op([res], False, names + ['cal_7777'], [n_[4:] for n_ in names] + ['0' * dig])
            elif z < .6:
                sub = rng.sample(names, rng.randrange(1, len(names) + 1))
                h.op([res], False, sub, [n_[4:] for n_ in sub], refit=rng.random() < .7, objs=rng.random() < .4)
            else:
                h.op([res], False, None, [n_[4:] for n_ in names], refit=rng.random() < .7)
        if h.d is None or not h.d.fitted:
            return
        use = sorted(set(h.d.expected_states.values()))
        if kind != 'rec':
            # labels the last fit has seen
            use = sorted(set(str(v) for v in (h.d._lda if kind == 'lda' else h.d._qda).classes_))
        for _ in range(rng.randrange(1, 3)):
            ex = []
            for i in range(rng.randrange(1, 4)):
                lb = rng.choice(use)
                k = rng.randrange(1, 6)
                avg = rng.random() < .25
                e = w.exp('exp%d' % i if rng.random() < .7 else 'cal_%d' % i, False, '0' * dig, lb, k, avg)
                if not avg:
                    for j in range(k):
                        e['shots'][j] = w.shot(rng.choice(use))
                if rng.random() < .2:
                    e['lvl'] = 2
                ex.append(e)
            l1 = [e for e in ex if e['lvl'] == 1]
            if not l1:
                continue
            if rng.random() < .4:
                h.classify(l1)
            else:
                h.filter(ex, rng.choice([None, None, 4]))
        h.final()
        if not std:
            ex = calset(labels, False) + [w.exp(nm, False, '9' * dig, rng.choice(labels), n(), rng.random() < .2)
                                          for nm in rng.sample(NOTCAL, rng.randrange(1, 4))]
            rng.shuffle(ex)
            for typ in range(4):
                h.select(ex, typ)
        rec.count('kind_' + kind)


def key_(e):
    return ''.join(str(d) for d in e['own'])


def run(rec):
    rng = rec.rng
    behs = rec.behs if not rec.quick else rng.sample(rec.behs, min(len(rec.behs), 350))
    if len(behs) > 6000:
        behs = rng.sample(behs, 6000)
    for i, b in enumerate(behs):
        replay(rec, 'beh%d' % i, b)
    for i in range(250 if rec.quick else 5000):
        history(rec, 'hist%d' % i)
