"""C12: repetition code circuits and processing of their readout."""
import itertools
from harness.drv import flatten, gate1, outcome
from qiskit.ignis.verification.topological_codes import RepetitionCode


def bit_gates(qc):
    out = []
    for name, inst, qs, cs in flatten(qc):
        if name == 'barrier':
            out.append(dict(g='B', q=qs))
        elif name == 'measure':
            out.append(dict(g='M', q=qs, c=cs))
        elif name == 'reset':
            out.append(dict(g='R', q=qs))
        elif name == 'cx':
            out.append(dict(g='CX', q=qs))
        elif len(qs) == 1 and hasattr(inst, 'to_matrix'):
            u = gate1(inst.to_matrix())
            if u and u[0] == 0 and u[1] == -1:
                out.append(dict(g='X', q=qs))
            elif u and u[0] == 0 and u[2] == -1 and u[1] == u[4]:
                continue                        # identity
            else:
                out.append(dict(g='?' + name, q=qs))
        else:
            out.append(dict(g='?' + name, q=qs))
    return out


def build(d, ops, rng=None):
    """a code made by the history ops, and the ops"""
    code = RepetitionCode(d)
    for o in ops:
        bar = bool(rng and rng.random() < .3)
        if o['op'] == 'x':
            if o['logs'] == ['0', '1'] and rng and rng.random() < .5:
                code.x(barrier=bar)
            else:
                code.x(o['logs'], barrier=bar)
        elif o['op'] == 'round':
            if o['reset'] and rng and rng.random() < .5:
                code.syndrome_measurement(barrier=bar)
            else:
                code.syndrome_measurement(reset=o['reset'], barrier=bar)
        else:
            code.readout()
    return code


def std_ops(T):
    if T == 0:
        return []
    return [dict(op='round', reset=True)] * (T - 1) + [dict(op='round', reset=False), dict(op='readout')]


def circ_events(ep, code, d, ops):
    lst = code.get_circuit_list()
    for i, log in enumerate(['0', '1']):
        qc = lst[i]
        ep.ev('circ', d=d, ops=ops, log=log, name=qc.name, gs=bit_gates(qc), nq=len(qc.qubits),
              cregs=[r.size for r in qc.cregs])


def raw_string(code, links):
    return ' '.join([''.join(map(str, reversed(code)))] + [''.join(map(str, reversed(r)))
                                                          for r in reversed(links)])


def parse(s):
    """documented form: 'l l  rounds of changes'"""
    parts = s.split('  ')
    if len(parts) != 2:
        return None
    try:
        log = [int(x) for x in parts[0].split(' ')]
        ch = [[int(x) for x in r] for r in parts[1].split(' ')]
    except ValueError:
        return None
    return log, ch


def proc_events(ep, code, d, T, raws, rng):
    """raws: {log: [(code, links)]}; every shot gets its own number of counts so that it can be followed"""
    n = itertools.count(1)
    inp, lst = {}, []
    for log, rs in raws.items():
        inp[log] = {}
        for c, ls in rs:
            k = next(n)
            inp[log][raw_string(c, ls)] = k
            lst.append(dict(of=log, n=k, code=c, links=ls))
    res = code.process_results(inp)
    outs = []
    for log, tab in res.items():
        for s, k in tab.items():
            p = parse(s)
            ok = p is not None and len(p[0]) == 2
            outs.append(dict(of=str(log), n=int(k), ok=ok, log=p[0] if ok else [], ch=p[1] if ok else []))
    ep.ev('proc', d=d, T=T, raws=lst, outs=outs)


def rand_raws(rng, d, T, k):
    seen, out = set(), []
    for _ in range(k):
        c = [rng.randrange(2) for _ in range(d)]
        ls = [[rng.randrange(2) for _ in range(d - 1)] for _ in range(T)]
        if str((c, ls)) not in seen:
            seen.add(str((c, ls)))
            out.append((c, ls))
    return out


def all_raws(d, T):
    n = d + T * (d - 1)
    for v in range(2 ** n):
        b = [(v >> i) & 1 for i in range(n)]
        yield b[:d], [b[d + t * (d - 1): d + (t + 1) * (d - 1)] for t in range(T)]


def run(rec):
    rng, q = rec.rng, rec.quick
    for i, b in enumerate(rec.behs):
        with rec.episode('model-%d' % i, kind='model') as ep:
            code = build(b['d'], b['ops'], rng)
            circ_events(ep, code, b['d'], b['ops'])
            T = sum(o['op'] == 'round' for o in b['ops'])
            ks = rng.choice([['0', '1'], ['0'], ['1', '0']])
            proc_events(ep, code, b['d'], T, {k: rand_raws(rng, b['d'], T, 6) for k in ks}, rng)
    # the constructor's own circuits
    for d in range(2, 6 if q else 8):
        for T in range(0, 6 if q else 9):
            with rec.episode('std-%d-%d' % (d, T), kind='std') as ep:
                code = RepetitionCode(d, T) if T or rng.random() < .5 else RepetitionCode(d)
                circ_events(ep, code, d, std_ops(T))
                if T == 0:
                    code.readout()
                    circ_events(ep, code, d, [dict(op='readout')])
                if d + T * (d - 1) <= (7 if q else 10):
                    rs = list(all_raws(d, T))
                    for a in range(0, len(rs), 64):
                        proc_events(ep, code, d, T, {'0': rs[a:a + 64]}, rng)
                else:
                    proc_events(ep, code, d, T, {k: rand_raws(rng, d, T, 20) for k in '01'}, rng)
    for i in range(15 if q else 150):
        d = rng.choice([2, 3, 4, 5])
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 7, 9])):
            ops.append(rng.choice([dict(op='x', logs=rng.choice([['0'], ['1'], ['0', '1']])),
                                   dict(op='round', reset=rng.random() < .8),
                                   dict(op='round', reset=True)]))
        ops.append(dict(op='readout'))
        with rec.episode('hist-%d' % i, kind='hist') as ep:
            code = build(d, ops, rng)
            circ_events(ep, code, d, ops)
            T = sum(o['op'] == 'round' for o in ops)
            proc_events(ep, code, d, T, {'1': rand_raws(rng, d, T, 12), '0': rand_raws(rng, d, T, 12)}, rng)
