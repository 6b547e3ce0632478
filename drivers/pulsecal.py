"""C22: pulse-calibration schedules and IQ fitters."""
import copy
import numpy as np
from qiskit import pulse
from qiskit.result import Result
from qiskit.pulse import (InstructionScheduleMap, Schedule, Play, Acquire, DriveChannel, MeasureChannel,
                          AcquireChannel, MemorySlot, ControlChannel, ShiftPhase)
from qiskit.pulse.library import Waveform, drag
from qiskit.pulse.schedule import ParameterizedSchedule
from qiskit.ignis.characterization.calibrations import (rabi_schedules, drag_schedules, RabiFitter, DragFitter,
                                                        get_single_q_pulse, update_u_gates)
from harness.drv import micro, micros, outcome

KIND = {DriveChannel: 'd', MeasureChannel: 'm', AcquireChannel: 'a', ControlChannel: 'u'}


def device(n, grp, lag, rng):
    """instruction map and measurement map of a device; acquisition starts lag after the stimulus"""
    if grp == 'single':
        mm = [[i] for i in range(n)]
    elif grp == 'joint':
        mm = [list(range(n))]
    else:
        mm = [list(range(i, min(i + 2, n))) for i in range(0, n, 2)]
    im = InstructionScheduleMap()
    for g in mm:
        s = Schedule(name='measure')
        for q in g:
            s = s.insert(0, Play(Waveform([.1] * 6, name='m%d' % q), MeasureChannel(q)))
            s = s.insert(lag, Acquire(5, AcquireChannel(q), MemorySlot(q)))
        im.add('measure', g, s)
    return im, mm


def samples(pl):
    if not isinstance(pl, Waveform):
        pl = pl.get_waveform() if hasattr(pl, 'get_waveform') else pl.get_sample_pulse()
    return [[micro(z.real), micro(z.imag)] for z in pl.samples]


def instrs(s):
    out = []
    for t, i in s.instructions:
        if isinstance(i, Play):
            out.append(dict(k='play', t=int(t), ch=KIND.get(type(i.channel), '?'), idx=i.channel.index,
                            smp=samples(i.pulse) if isinstance(i.channel, DriveChannel) else []))
        elif isinstance(i, Acquire):
            out.append(dict(k='acq', t=int(t), ch='a', idx=i.channel.index,
                            slot=i.mem_slot.index if i.mem_slot else -1))
        else:
            out.append(dict(k='other', t=int(t), ch='?', idx=-1))
    return out


def split(name):
    a, i, s = name.rsplit('_', 2)
    return [a, int(i), int(s)]


def schedules(rec, eid, p):
    rng = rec.rng
    n = max(p['qubits']) + 1 + rng.randrange(2)
    lag = rng.choice([0, 0, 3])
    im, mm = device(n, p['grp'], lag, rng)
    ratio = None
    sigma = p['sigma'] / 1e6
    kw = {}
    if p.get('ratio'):
        sigma = p['w'] / p['ratio']
        if p['ratio'] != 4 or rng.random() < .5:
            kw['width_sigma_ratio'] = p['ratio']
    else:
        kw['pulse_sigma'] = sigma
    x = [v / 1e6 for v in p['x']]
    if rng.random() < .5:
        x = np.array(x)
    drives = [DriveChannel(i) for i in range(n)]
    with rec.episode(eid, kind=p['kind'], qubits=p['qubits'], x=p['x'], w=p['w'], sigma=micro(sigma),
                     amps=p['amps'], lag=lag) as ep:
        before = repr([(q, im.get('measure', g)) for g in mm for q in g])
        if p['kind'] == 'rabi':
            ss, xd = rabi_schedules(x, p['qubits'], p['w'], drives=drives, inst_map=im, meas_map=mm, **kw)
        else:
            ss, xd = drag_schedules(x, p['qubits'], [a / 1e6 for a in p['amps']], p['w'], drives=drives,
                                    inst_map=im, meas_map=mm, **kw)
        after = repr([(q, im.get('measure', g)) for g in mm for q in g])
        ep.ev('names', names=[split(s.name) for s in ss], x=micros(list(xd)), same=before == after)
        for s in ss:
            ep.ev('sched', i=split(s.name)[1] + 1, ins=instrs(s))


def result(exps, avg):
    res = []
    for e in exps:
        mem = [[[z.real, z.imag] for z in s] for s in e['mem']]
        res.append({'shots': e['shots'], 'success': True, 'meas_level': 1,
                    'meas_return': 'avg' if avg else 'single', 'data': {'memory': mem[0] if avg else mem},
                    'header': {'name': e['name'], 'memory_slots': len(mem[0])}})
    return Result.from_dict({'backend_name': 'm', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j',
                             'success': True, 'results': res})


def logres(exps, avg):
    out = []
    for e in exps:
        for s in e['mem']:
            out.append(dict(i=split(e['name'])[1] + 1, shots=e['shots'] if avg else 1,
                            v=[[micro(z.real), micro(z.imag)] for z in s]))
    return out


class Lines:
    """IQ data of every slot lie on a line of its own."""
    def __init__(self, rng, slots, forward=False):
        self.rng = rng
        self.o = [complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(slots)]
        self.u = [rng.uniform(.5, 1.5) * np.exp(1j * rng.choice(
            [rng.uniform(-3.1, 3.1), 0, np.pi / 2, np.pi / 4, -np.pi / 4, 3 * np.pi / 4])) for _ in range(slots)]
        if forward:            # signal grows with the real part
            self.u = [u if u.real > .05 else -u if u.real < -.05 else abs(u) for u in self.u]

    def z(self, t):
        """t[slot] -> complex values"""
        return [complex(o + u * v) for o, u, v in zip(self.o, self.u, t)]


def ylog(f):
    return [micros(list(q['mean'])) for q in f.ydata['0']], [micros(list(np.real(q['std']))) for q in f.ydata['0']]


def history(rec, eid, kind, qubits, slots, n, ops, avg, values):
    """ops: list of (list of results (each a list of points), recalc)"""
    rng = rec.rng
    L = Lines(rng, slots)
    fit = {'rabi': RabiFitter, 'drag': DragFitter}[kind]
    p0 = [1, 1, 0, 0] if kind == 'rabi' else [1, 0, 0]
    with rec.episode(eid, kind=kind, qubits=qubits, n=n, x=micros(range(n)), truth=[], avg=avg) as ep:
        f = fit(None, list(range(n)), qubits, p0)
        y = []
        for op, re in ops:
            rs, log = [], []
            for points in op:
                ex = []
                for i in points:
                    shots = rng.randrange(1, 30) if avg else rng.randrange(1, 6)
                    mem = [L.z([values(i, s) for s in range(slots)]) for _ in range(1 if avg else shots)]
                    ex.append(dict(name='%ssched_%d_0' % (kind, i), shots=shots, mem=mem))
                rs.append(result(ex, avg))
                log.append(logres(ex, avg))
            f.add_data(rs[0] if len(rs) == 1 and rng.random() < .5 else rs, recalc=re, refit=False)
            std = []
            if re:
                y, std = ylog(f)
            elif hasattr(f, '_ydata'):
                y, std = ylog(f)
            ep.ev('add', res=log, re=re, y=y, std=std)


def recovery(rec, eid, kind, avg):
    rng = rec.rng
    nq = rng.randrange(1, 4)
    slots = rng.randrange(max(2, nq), 6)
    qubits = rng.sample(range(slots), nq)
    n = rng.randrange(12, 30)
    lo = rng.choice([0, -1])
    x = list(np.linspace(lo, 1, n))
    L = Lines(rng, slots, True)
    if kind == 'rabi':
        f0 = rng.uniform(.8, 2.5)
        ff = [f0 * rng.uniform(.97, 1.03) for _ in range(slots)]
        ph = [rng.uniform(-.2, .2) for _ in range(slots)]
        g = lambda s, v: .5 * np.cos(2 * np.pi * ff[s] * v + ph[s])
        truth = [ff[q] for q in qubits]
    else:
        x0 = [rng.uniform(-.3, .6) for _ in range(slots)]
        a = [rng.uniform(.3, 1.) for _ in range(slots)]
        g = lambda s, v: a[s] * (v - x0[s]) ** 2
        truth = [x0[q] for q in qubits]
    with rec.episode(eid, kind=kind, qubits=qubits, n=n, x=micros(x), truth=micros(truth), avg=avg) as ep:
        parts = [list(range(n))] if rng.random() < .5 else [list(range(0, n, 2)), list(range(1, n, 2))]
        if rng.random() < .5:
            parts.append(list(range(n)))
        rs, log = [], []
        for pts in parts:
            ex = []
            for i in pts:
                if avg:
                    shots = rng.randrange(1, 30)
                    mem = [L.z([g(s, x[i]) for s in range(slots)])]
                else:              # pairs of shots on both sides of the mean
                    mem = []
                    for _ in range(rng.randrange(1, 3)):
                        d = [rng.choice([.05, .08]) * rng.choice([1, -1]) for s in range(slots)]
                        mem += [L.z([g(s, x[i]) + w * d[s] for s in range(slots)]) for w in (1, -1)]
                    shots = len(mem)
                ex.append(dict(name='%ssched_%d_0' % (kind, i), shots=shots, mem=mem))
            rng.shuffle(ex)
            rs.append(result(ex, avg))
            log.append(logres(ex, avg))
        cls = RabiFitter if kind == 'rabi' else DragFitter
        p0 = [.5, f0, 0, 0] if kind == 'rabi' else [.5, .1, 0]
        xin = np.array(x) if rng.random() < .5 else x
        f = cls(rs if len(rs) > 1 or rng.random() < .5 else rs[0], xin, qubits, p0)
        y, std = ylog(f)
        ep.ev('add', res=log, re=True, y=y, std=std)
        prm = [micros(list(f.params['0'][j])) for j in range(nq)]
        if kind == 'rabi':
            ep.ev('fit', prm=prm, y=y, pi=micros(f.pi_amplitude()), pi2=micros(f.pi2_amplitude()),
                  pi1=[micro(f.pi_amplitude(j)) for j in range(nq)], pi21=[micro(f.pi2_amplitude(j)) for j in range(nq)],
                  guess=[micros(list(f.guess_params(j))) for j in range(nq)])
        else:
            ep.ev('fit', prm=prm, y=y, drag=micros(f.drag_amplitude()),
                  drag1=[micro(f.drag_amplitude(j)) for j in range(nq)],
                  guess=[micros(list(f.guess_params(j))) for j in range(nq)])


def turns(a):
    return micro(((a / (2 * np.pi)) % 1.0))


def udevice(rng, n, pulses):
    """a device whose u2, u3 play -i times the given pulse and shift the frames of some control channels too"""
    im = InstructionScheduleMap()
    groups = []
    for q in range(n):
        ch = [DriveChannel(q)] + [ControlChannel(k) for k in rng.sample(range(3 * q, 3 * q + 3), rng.randrange(0, 3))]
        rng.shuffle(ch)
        groups.append(ch)
        w = Waveform(drag(**pulses[q]).samples * -1j)
        dur = pulses[q]['duration']

        def fc(name, phi, c, t):
            return lambda **kw: ShiftPhase(phase=-kw[name] + phi, channel=c).shift(t)
        other = [Schedule((0, ShiftPhase(.7, ControlChannel(20 + q))))] if rng.random() < .5 else []
        im.add('u2', q, ParameterizedSchedule(
            *other, *[fc('P1', 0, c, 0) for c in ch], Schedule((0, Play(w, DriveChannel(q)))),
            *[fc('P0', 0, c, dur) for c in ch], parameters=['P0', 'P1'], name='u2'))
        im.add('u3', q, ParameterizedSchedule(
            *other, *[fc('P2', 0, c, 0) for c in ch], Schedule((0, Play(w, DriveChannel(q)))),
            *[fc('P0', np.pi, c, dur) for c in ch], Schedule((dur, Play(w, DriveChannel(q)))),
            *[fc('P1', np.pi, c, 2 * dur) for c in ch], parameters=['P0', 'P1', 'P2'], name='u3'))
        im.add('u1', q, ParameterizedSchedule(*[fc('P0', 0, c, 0) for c in ch], parameters=['P0'], name='u1'))
    return im, groups


def gate_ops(s):
    out = {}
    for t, i in s.instructions:
        c = i.channel
        if isinstance(i, ShiftPhase):
            e = dict(k='fc', t=int(t), f=turns(i.phase), smp=[])
        elif isinstance(i, Play):
            e = dict(k='play', t=int(t), f=0, smp=samples(i.pulse))
        else:
            e = dict(k='other', t=int(t), f=0, smp=[])
        out.setdefault(KIND.get(type(c), '?') + str(c.index), []).append(e)
    return out


def fingerprint(im, names):
    return repr([gate_ops(im.get(g, q, **{p: .3 + .2 * k for k, p in enumerate(im.get_parameters(g, q))}))
                 for g, q in names])


def ugates(rec, eid, x=None):
    rng = rec.rng
    n = rng.randrange(1, 4)
    par = lambda: dict(duration=rng.choice([12, 16, 21]), amp=round(rng.uniform(.05, .4), 6),
                       sigma=round(rng.uniform(3, 5.5), 6), beta=round(rng.uniform(-1, 1), 6))
    old, new = [par() for _ in range(n)], [par() for _ in range(n)]
    qs = rng.sample(range(n), rng.randrange(1, n + 1))
    im, groups = udevice(rng, n, old)
    mic = lambda d: dict(duration=d['duration'], amp=micro(d['amp']), sigma=micro(d['sigma']), beta=micro(d['beta']))
    with rec.episode(eid, kind='gates', qubits=qs, n=n, x=[], truth=[], avg=False) as ep:
        if rng.random() < .7:
            order = rng.sample(range(n), rng.randrange(1, n + 1))
            ep.ev('pulses', want=[mic(old[k]) for k in order], got=[mic(d) for d in get_single_q_pulse(im, order)])
        rest = [('u1', k) for k in range(n)] + [(g, k) for g in ('u2', 'u3') for k in range(n) if k not in qs]
        drives = [DriveChannel(k) for k in range(n + 1)]
        for rnd in range(rng.randrange(1, 3)):
            if rnd:
                new = [par() for _ in range(n)]
            before = fingerprint(im, rest)
            if rng.random() < .5:
                update_u_gates(new, qubits=qs, inst_map=im, drives=drives)
            else:
                ps = [Schedule((0, Play(drag(**d), DriveChannel(k)))) for k, d in enumerate(new)]
                update_u_gates(old if rng.random() < .5 else None, ps, qs, im, drives)
            ep.ev('untouched', same=before == fingerprint(im, rest))
            for k in qs:
                grp = ['%s%d' % (KIND[type(c)], c.index) for c in groups[k]]
                ang = [rng.choice([0, np.pi / 2, np.pi, rng.uniform(-3, 3), rng.uniform(-7, 7)]) for _ in range(3)]
                if x:
                    ang = [2 * np.pi * v / 8 for v in x]
                ep.ev('gate', name='u2', pr=[turns(a) for a in ang], d='d%d' % k, grp=grp, pulse=mic(new[k]),
                      ops=gate_ops(im.get('u2', k, P0=ang[0], P1=ang[1])))
                ep.ev('gate', name='u3', pr=[turns(a) for a in ang], d='d%d' % k, grp=grp, pulse=mic(new[k]),
                      ops=gate_ops(im.get('u3', k, P0=ang[0], P1=ang[1], P2=ang[2])))


def run(rec):
    rng, q = rec.rng, rec.quick
    sb = [b['p'] for b in rec.behs if b['p']['mode'] == 'sched']
    hb = [b for b in rec.behs if b['p']['mode'] == 'hist']
    for i, p in enumerate(rng.sample(sb, min(len(sb), 80)) if q else sb):
        schedules(rec, 'model-%d' % i, p)
    for i in range(40 if q else 500):
        nq = rng.randrange(1, 4)
        qs = rng.sample(range(5), nq)
        schedules(rec, 'sched-%d' % i, dict(
            kind=rng.choice(['rabi', 'drag']), qubits=qs, x=[rng.randrange(-700000, 700000) for _ in range(rng.choice([1, 2, 3, 5, 10, 14]))],
            w=rng.choice([4, 9, 16, 20]), sigma=rng.randrange(1500000, 5000000), grp=rng.choice(['single', 'joint', 'pairs']),
            ratio=rng.choice([None, 4, 4, 5, 3]), amps=[rng.randrange(-600000, 600000) for _ in qs]))
    pts = {1: [0, 1], 2: [1], 3: [0]}
    for i, b in enumerate(rng.sample(hb, min(len(hb), 60)) if q else rng.sample(hb, min(len(hb), 1500))):
        ops = [([pts[o['k']]], o['re']) for o in b['log']]
        history(rec, 'hist-%d' % i, rng.choice(['rabi', 'drag']), b['p']['qubits'], 2, 2, ops, b['p']['avg'],
                lambda a, s: rng.uniform(-1, 1))
    for i in range(40 if q else 400):
        slots = rng.randrange(1, 6)
        n = rng.randrange(2, 7)
        ops = [([list(range(n))], True)] + [
            ([rng.sample(range(n), rng.randrange(1, n + 1)) for _ in range(rng.randrange(1, 3))], rng.random() < .6)
            for _ in range(rng.randrange(0, 4))]
        history(rec, 'rhist-%d' % i, rng.choice(['rabi', 'drag']),
                rng.sample(range(slots), rng.randrange(1, slots + 1)), slots, n, ops, rng.random() < .5,
                lambda a, s: rng.uniform(-1, 1))
    for i in range(24 if q else 300):
        recovery(rec, 'fit-%d' % i, rng.choice(['rabi', 'drag']), rng.random() < .6)
    gb = [b for b in rec.behs if b['p']['mode'] == 'gate']
    for i, b in enumerate(rng.sample(gb, min(len(gb), 12)) if q else gb):
        ugates(rec, 'gate-%d' % i, b['pr'])
    for i in range(16 if q else 200):
        ugates(rec, 'ugate-%d' % i)
    with rec.episode('misc', kind='rabi', qubits=[0], n=1, x=[0], truth=[], avg=True) as ep:
        im, mm = device(2, 'joint', 0, rng)
        dr = [DriveChannel(0), DriveChannel(1)]
        one = lambda avg, lvl=1: Result.from_dict({
            'backend_name': 'm', 'backend_version': '1', 'qobj_id': 'q', 'job_id': 'j', 'success': True,
            'results': [{'shots': 2, 'success': True, 'meas_level': lvl, 'meas_return': 'avg' if avg else 'single',
                         'data': {'memory': [[.1, .2]] if avg else [[[.1, .2]], [[.2, .1]]]} if lvl == 1 else {'counts': {'0x0': 2}},
                         'header': {'name': 'rabisched_%d_0' % k, 'memory_slots': 1}} for k in range(2)]})

        def raw():
            x = one(True).to_dict()
            for e in x['results']:
                e['meas_level'] = 0
                e['data']['memory'] = [[[.1, .2]]]
            return Result.from_dict(x)

        def mixed(*rs):
            f = RabiFitter(None, [0, 1], [0], [1, 1, 0, 0])
            f.add_data(list(rs), refit=False)
        for what, fn in (('no_instruction_map', lambda: rabi_schedules([.1], [0], 4, drives=dr, meas_map=mm)),
                         ('no_measurement_map', lambda: rabi_schedules([.1], [0], 4, drives=dr, inst_map=im)),
                         ('drag_no_instruction_map', lambda: drag_schedules([.1], [0], [.1], 4, drives=dr, meas_map=mm)),
                         ('drag_no_measurement_map', lambda: drag_schedules([.1], [0], [.1], 4, drives=dr, inst_map=im)),
                         ('mixed_averaging', lambda: mixed(one(True), one(False))),
                         ('mixed_averaging_shots_first', lambda: mixed(one(False), one(True))),
                         ('mixed_averaging_twice', lambda: mixed(one(False), one(False), one(True))),
                         ('raw_data', lambda: mixed(raw())),
                         ('counts', lambda: mixed(one(True, 2)))):
            ep.ev('reject', what=what, got=outcome(fn)[0])
