"""Driver side library: records what the real code does as NDJSON episodes."""
import importlib
import json
import math
import os
import random
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import numpy as np  # noqa: E402

BAD = -2000000000          # sentinel for NaN / non-numeric / out of range


def micro(x, scale=1000000):
    """Float -> integer multiple of 1/scale (sentinel when not a real)."""
    try:
        if isinstance(x, complex) or np.iscomplexobj(x):
            if abs(complex(x).imag) > 1e-7:
                return BAD
            x = complex(x).real
        x = float(x)
    except Exception:
        return BAD
    if math.isnan(x) or math.isinf(x) or abs(x) * scale >= 2e9:
        return BAD
    return int(round(x * scale))


def micros(arr, scale=1000000):
    """Nested arrays of reals -> nested lists of integers."""
    if isinstance(arr, np.ndarray):
        arr = arr.tolist()
    if isinstance(arr, (list, tuple)):
        return [micros(a, scale) for a in arr]
    return micro(arr, scale)


def cmicros(arr, scale=1000000):
    """Complex matrix -> nested [re, im] integers."""
    arr = np.asarray(arr)
    return [[[micro(v.real, scale), micro(v.imag, scale)] for v in row]
            for row in arr]


def bits(key):
    """Count key -> list of bits, element k is classical bit k."""
    s = str(key).replace(' ', '')
    if any(c not in '0123456789' for c in s):
        return [9]
    return [int(c) for c in reversed(s)]


def counts(d, scale=None):
    """Counts dict -> [[bits, n], ...] in a canonical order."""
    out = []
    for k in sorted(d, key=str):
        v = d[k]
        n = micro(v, scale) if scale else (
            int(v) if float(v) == int(v) else BAD)
        out.append([bits(k), n])
    return out


def key(bs):
    """Inverse of bits."""
    return ''.join(str(b) for b in reversed(bs))


def make_result(exps, backend='model'):
    """exps: list of (name, {bitstring: n}) or (name, counts, header_extra)."""
    from qiskit.result import Result
    res = []
    for e in exps:
        name, cts = e[0], e[1]
        extra = e[2] if len(e) > 2 else {}
        ks = list(cts)
        if 'creg_sizes' in extra:
            creg = extra['creg_sizes']
        else:
            creg = [['c', len(ks[0].replace(' ', ''))]]
        n = sum(c[1] for c in creg)
        hdr = {'name': name, 'memory_slots': n, 'creg_sizes': creg,
               'clbit_labels': [[c[0], i] for c in creg for i in range(c[1])]}
        hdr.update({k: v for k, v in extra.items() if k != 'creg_sizes'})
        data = {}
        for k, v in cts.items():
            h = hex(int(k.replace(' ', ''), 2))
            data[h] = data.get(h, 0) + v
        res.append({'shots': int(sum(cts.values())), 'success': True,
                    'meas_level': 2, 'data': {'counts': data}, 'header': hdr})
    return Result.from_dict({
        'backend_name': backend, 'backend_version': '1', 'qobj_id': 'q',
        'job_id': 'j', 'success': True, 'results': res})


class Episode:
    def __init__(self, rec, _eid, params):
        self.rec = rec
        self.lines = [dict(ev='begin', **dict(params, id=_eid))]

    def ev(self, _ev, **kw):
        self.lines.append(dict(ev=_ev, **kw))

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if e is not None:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                return False
            last = traceback.extract_tb(tb)[-1]
            self.lines.append(dict(ev='exc', type=et.__name__,
                                   msg=str(e)[:300],
                                   at='%s:%d' % (last.filename, last.lineno)))
            self.rec.exceptions.append(''.join(
                traceback.format_exception(et, e, tb))[-1500:])
        self.rec.write(self.lines)
        return True


class Rec:
    def __init__(self, path, behs, tier, seed):
        self.f = open(path, 'w')
        self.behs = behs
        self.tier = tier
        self.quick = tier == 'quick'
        self.seed = seed
        self.rng = random.Random(seed * 7919 + 13)
        self.np = np.random.RandomState(seed)
        self.n = 0
        self.stats = {}
        self.exceptions = []

    def episode(self, _eid, **params):
        return Episode(self, _eid, params)

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def write(self, lines):
        for ln in lines:
            self.f.write(json.dumps(clean(ln)) + '\n')
        self.f.flush()
        self.n += 1


def clean(v):
    """JSON-able value TLC can read (no null, no float, 32-bit ints)."""
    if isinstance(v, dict):
        return {str(k): clean(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    if isinstance(v, np.ndarray):
        return clean(v.tolist())
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if abs(v) < 2**31 - 1 else BAD
    if isinstance(v, (float, np.floating)):
        return int(v) if float(v).is_integer() and abs(v) < 2e9 else BAD
    if v is None:
        return 'None'
    return str(v)


def outcome(fn, *a, **k):
    """('ok', value) or ('err', exception type name)."""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:          # noqa: BLE001
        return 'err', type(e).__name__


# ---------------------------------------------------------------- circuits
def _phase8(z):
    """Phase of z as a multiple of pi/4 or None."""
    a = math.atan2(z.imag, z.real) / (math.pi / 4)
    r = round(a)
    return None if abs(a - r) > 1e-6 else r % 8


def gate1(mat):
    """1-qubit unitary -> [h, p00, p01, p10, p11] over Z[e^{i pi/4}], up to a
    global phase; None when it is not of that form."""
    m = np.array(mat, dtype=complex).reshape(2, 2)
    fl = [m[0, 0], m[0, 1], m[1, 0], m[1, 1]]
    first = next(z for z in fl if abs(z) > 1e-7)
    fl = [z * abs(first) / first for z in fl]
    mags = [abs(z) for z in fl]
    if all(min(abs(x), abs(x - 1)) < 1e-7 for x in mags):
        h = 0
    elif all(abs(x - math.sqrt(0.5)) < 1e-7 for x in mags):
        h = 1
    else:
        return None
    out = [h]
    for z in fl:
        if abs(z) < 1e-7:
            out.append(-1)
        else:
            p = _phase8(z)
            if p is None:
                return None
            out.append(p)
    return out


def flatten(qc, qi=None, ci=None):
    """Flat list of (name, instruction, qubit indices, clbit indices)."""
    out = []
    qi = qi or {b: i for i, b in enumerate(qc.qubits)}
    ci = ci or {b: i for i, b in enumerate(qc.clbits)}

    def rec(inst, qs, cs, depth):
        if inst.name in ('barrier', 'measure', 'reset', 'snapshot', 'delay'):
            out.append((inst.name, inst, qs, cs))
            return
        if len(qs) == 1 and hasattr(inst, 'to_matrix'):
            try:
                inst.to_matrix()
                out.append((inst.name, inst, qs, cs))
                return
            except Exception:
                pass
        if inst.name in ('cx', 'cz', 'swap', 'cy', 'ccx'):
            out.append((inst.name, inst, qs, cs))
            return
        d = inst.definition
        if d is None or depth > 20:
            out.append((inst.name, inst, qs, cs))
            return
        if hasattr(d, 'qubits'):
            dq = {b: i for i, b in enumerate(d.qubits)}
            dc = {b: i for i, b in enumerate(d.clbits)}
            data = d.data
        for sub, sq, sc in data:
            rec(sub, [qs[dq[b]] for b in sq], [cs[dc[b]] for b in sc],
                depth + 1)

    for inst, qa, ca in qc.data:
        rec(inst, [qi[b] for b in qa], [ci[b] for b in ca], 0)
    return out


def cmat1(mat):
    """1-qubit matrix -> 4 complex micros, phase of the first entry removed"""
    m = np.array(mat, dtype=complex).reshape(4)
    first = next(z for z in m if abs(z) > 1e-7)
    m = m * abs(first) / first
    return [[micro(z.real), micro(z.imag)] for z in m]


def gates(qc, barriers=False, qi=None, ci=None, general=False):
    """Circuit -> gate list for the TLA+ simulators (0-based indices).
    general: gates outside Clifford+T are logged with a numeric matrix."""
    out = []
    for name, inst, qs, cs in flatten(qc, qi, ci):
        if name == 'barrier':
            if barriers:
                out.append({'g': 'B', 'q': qs})
        elif name == 'measure':
            out.append({'g': 'M', 'q': qs, 'c': cs})
        elif name == 'reset':
            out.append({'g': 'R', 'q': qs})
        elif name == 'cx':
            out.append({'g': 'CX', 'q': qs})
        elif name == 'cz':
            out.append({'g': 'CZ', 'q': qs})
        elif name == 'swap':
            out.append({'g': 'SW', 'q': qs})
        elif len(qs) == 1 and hasattr(inst, 'to_matrix'):
            u = gate1(inst.to_matrix())
            if u is None and general:
                out.append({'g': 'V', 'q': qs, 'm': cmat1(inst.to_matrix())})
            elif u is None:
                out.append({'g': '?' + name, 'q': qs})
            else:
                out.append({'g': 'U', 'q': qs, 'u': u})
        else:
            out.append({'g': '?' + name, 'q': qs})
    return out


def main():
    mod, tpath, bpath, spath, tier, seed = sys.argv[1:7]
    behs = []
    with open(bpath) as f:
        behs = [json.loads(x) for x in f if x.strip()]
    rec = Rec(tpath, behs, tier, int(seed))
    np.random.seed(int(seed))
    random.seed(int(seed))
    try:
        m = importlib.import_module('drivers.' + mod)
    except Exception:
        with rec.episode('import'):
            raise
    else:
        try:
            m.run(rec)
        except Exception as e:      # the code failed while setting up an episode
            rec.write([dict(ev='begin', id='driver'),
                       dict(ev='exc', type=type(e).__name__, msg=str(e)[:300],
                            at=traceback.format_exc()[-400:])])
            rec.exceptions.append(traceback.format_exc()[-1500:])
    rec.f.close()
    rec.stats['episodes'] = rec.n
    rec.stats['behaviours_in'] = len(behs)
    if rec.exceptions:
        rec.stats['exceptions'] = rec.exceptions[:5]
        print(rec.exceptions[0])
    with open(spath, 'w') as f:
        json.dump(rec.stats, f)


if __name__ == '__main__':
    sys.modules['harness.drv'] = sys.modules['__main__']
    main()
