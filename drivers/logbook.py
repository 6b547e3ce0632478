"""C20: file logging and reading back."""
import contextlib
import io
import logging
import os
import re
import shutil
import sys
import tempfile
import time
import datetime
import numpy as np
from qiskit.ignis.logging import IgnisLogging, IgnisLogReader

REAL = time.time
BASE = 1577880000
START = re.compile(r'^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ignis_logging', re.M)
FILES = ['ignis.log', 'Ignis.log', 'logs/My Log.LOG', 'run:1.log', 'a+b(1)[x].log', 'T1_Data.txt', 'x.log.2019']


class Broken:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class Clock:
    now = 0


def fake():
    return BASE + Clock.now + .3


def stamp(t, fmt='%Y/%m/%d %H:%M:%S'):
    return time.strftime(fmt, time.localtime(BASE + t))


def value(rng, quick=False):
    k = rng.randrange(12)
    if k == 0:
        return rng.randrange(1000)
    if k == 1:
        return round(rng.random(), 4)
    if k == 2:
        return [rng.randrange(9) for _ in range(rng.randrange(0, 4))]
    if k == 3:
        return {'q': rng.randrange(5), 'name': 'x y'}
    if k == 4:
        return np.array([[rng.randrange(9), 2], [3, 4]])
    if k == 5:
        return "it's " + str(rng.randrange(9))
    if k == 6:
        return 'a:b %s 100%' + str(rng.randrange(9))
    if k == 7:
        return ''
    if k == 8:
        return ['a', 'b c']
    if k == 9:
        return (1, None, True)
    if k == 10:
        return ' lead and trail '
    return 'v%d' % rng.randrange(99)


KEYS = ['t1', 't2', 'qubits', 'k', 'K', 'K_1', 'label']
SER = [0]


class H:
    def __init__(self, rec, ep, d, conf):
        self.rec, self.ep, self.d, self.conf = rec, ep, d, conf
        self.loggers = {}
        self.names = {}
        self.err = io.StringIO()

    def path(self):
        return os.path.join(self.d, self.conf['path'])

    def start(self):
        for n in self.names.values():
            IgnisLogging._reset_to_defaults(n)
        IgnisLogging._reset_to_defaults('ignis_unused')
        self.loggers, self.names = {}, {}
        if self.conf['home']:
            ig = IgnisLogging()
        else:
            ig = IgnisLogging(os.path.join(self.d, 'conf.yaml'))
        got = ig.get_log_file()
        self.ep.ev('start', path=os.path.relpath(os.path.abspath(got), self.d))

    def get(self, x):
        if x not in self.names:
            SER[0] += 1
            self.names[x] = 'vlog_%s_%d' % (x, SER[0])
        with self.console():
            self.loggers[x] = IgnisLogging().get_logger(self.names[x])
        self.ep.ev('get', x=x)

    def set(self, x, v):
        if v == 'on':
            self.loggers[x].enable_file_logging()
        else:
            self.loggers[x].disable_file_logging()
        self.ep.ev('set', x=x, v=v)

    @contextlib.contextmanager
    def console(self):
        old = sys.stderr
        sys.stderr = self.err
        try:
            yield
        finally:
            sys.stderr = old

    def chain(self):
        """files of the chain, oldest first, and the number of other files"""
        out, stray = [], 0
        base = self.path()
        for r, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(r, f)
                if p == base:
                    out.append((0, p))
                elif p.startswith(base + '.') and p[len(base) + 1:].isdigit():
                    out.append((int(p[len(base) + 1:]), p))
                elif f not in ('conf.yaml', 'logging.yaml') and f not in DECOYS:
                    stray += 1
        res = []
        for _, p in sorted(out, reverse=True):
            with open(p) as f:
                res.append(dict(n=len(START.findall(f.read())), bytes=os.path.getsize(p)))
        return res, stray

    def snap(self):
        s = {}
        for r, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as fh:
                    s[p] = fh.read()
        return s

    def log(self, x, kv):
        b = self.snap()
        pos = len(self.err.getvalue())
        with self.console():
            self.loggers[x].log_to_file(**kv)
        shown = self.err.getvalue()[pos:]
        files, stray = self.chain()
        self.ep.ev('log', x=x, t=Clock.now, kv=[[k, '{}'.format(v)] for k, v in kv.items()], files=files, stray=stray,
                   changed=self.snap() != b, leak=any("'%s':'" % k in shown for k in kv))

    def fail(self, x):
        b = self.snap()
        raised = False
        with self.console():
            try:
                self.loggers[x].log_to_file(good=1, bad=Broken())
            except ValueError:
                raised = True
        # the (empty) file itself may already have been created
        a = self.snap()
        self.ep.ev('fail', x=x, raised=raised, changed=any(a[p] != b.get(p, b'') for p in a) or any(p not in a for p in b))

    def plain(self, x):
        b = self.snap()
        pos = len(self.err.getvalue())
        msg = 'hello %d' % self.rec.rng.randrange(10 ** 6)
        with self.console():
            getattr(self.loggers[x], self.rec.rng.choice(['warning', 'error', 'critical']))(msg)
        self.ep.ev('plain', x=x, lines=self.err.getvalue()[pos:].count(msg), changed=self.snap() != b)

    def read(self):
        rng = self.rec.rng
        keys = None if rng.random() < .5 else rng.sample(KEYS, rng.randrange(0, 4))
        fr = None if rng.random() < .6 else rng.randrange(0, Clock.now + 3)
        to = None if rng.random() < .6 else rng.randrange(0, Clock.now + 3)
        kw = {}
        if keys is not None:
            kw['keys'] = keys

        def when(t, which):
            z = rng.randrange(3)
            if z == 0:
                kw[which] = stamp(t)
            elif z == 1:
                kw[which] = stamp(t, '%d.%m.%Y at %H-%M-%S')
                kw[which + '_format'] = '%d.%m.%Y at %H-%M-%S'
            else:
                kw[which] = datetime.datetime.strptime(stamp(t), '%Y/%m/%d %H:%M:%S')
        if fr is not None:
            when(fr, 'from_datetime')
        if to is not None:
            when(to, 'to_datetime')
        rd = IgnisLogReader()
        listed = rd.get_log_files()
        sel = list(range(len(listed)))
        if listed and rng.random() < .3:
            sel = rng.sample(sel, rng.randrange(1, len(sel) + 1))
            kw['log_files'] = [listed[i] for i in sel] if len(sel) != 1 or rng.random() < .3 else listed[sel[0]]
        rows = rd.read_values(**kw)
        base = self.path()
        ls = []
        for p in listed:
            if p == base:
                ls.append(0)
            elif p.startswith(base + '.') and p[len(base) + 1:].isdigit():
                ls.append(int(p[len(base) + 1:]))
            else:
                ls.append(-1)
        out = []
        for r in rows:
            t = -1
            try:
                t = int(round(time.mktime(time.strptime(r[0] + ' ' + r[1], '%Y/%m/%d %H:%M:%S')))) - BASE
            except Exception:       # noqa: BLE001
                pass
            kv = []
            for e in r[2:]:
                a, _, b = e.partition("':'")
                kv.append([a[1:] if a[:1] == "'" else '?' + a, b[:-1] if b[-1:] == "'" else b + '?'])
            out.append(dict(t=t, kv=kv))
        self.ep.ev('read', keys=dict(all=keys is None, ks=keys or []), w=dict([('from', -1 if fr is None else fr), ('to', -1 if to is None else to)]),
                   rows=out, listed=ls, sel=[i + 1 for i in sel])
        self.rec.count('reads')


DECOYS = ['ignis.log.bak', 'ignis.logX1', 'ignis_log', 'other.log', 'ignis.log.1.gz']


def scenario(rec, eid, conf, ops):
    rng = rec.rng
    d = os.path.realpath(tempfile.mkdtemp(prefix='vlog'))
    cwd, home = os.getcwd(), os.environ.get('HOME')
    Clock.now = 0
    try:
        os.makedirs(os.path.join(d, '.qiskit'))
        os.makedirs(os.path.join(d, os.path.dirname(conf['path'])), exist_ok=True)
        os.chdir(d)
        os.environ['HOME'] = d
        if rng.random() < .3:
            for f in DECOYS:
                with open(os.path.join(d, f), 'w') as fh:
                    fh.write("2020/01/01 10:00:00 ignis_logging 't1':'decoy'\n")
        cfg = ['file_logging: %s' % rng.choice(['true', 'True', 'TRUE']) if conf['on'] else rng.choice(
            ['file_logging: false', 'file_logging: tru', '# file_logging: true', 'file_loging: true'])]
        if conf['path'] != 'ignis.log' or rng.random() < .3:
            cfg.append('log_file: %s' % conf['path'])
        if conf['max']:
            cfg.append('max_size: %d' % conf['max'])
        if conf['rot']:
            cfg.append('%s: %d   # files' % (rng.choice(['max_rotations', 'Max_Rotations']), conf['rot']))
        rng.shuffle(cfg)
        with open(os.path.join(d, '.qiskit/logging.yaml' if conf['home'] else 'conf.yaml'), 'w') as fh:
            fh.write('\n'.join(cfg) + rng.choice(['', '\n']))
        time.time = fake
        with rec.episode(eid, **{k: conf[k] for k in ('on', 'max', 'rot', 'path')}) as ep:
            h = H(rec, ep, d, conf)
            h.start()
            try:
                ops(h)
            finally:
                for n in h.names.values():
                    IgnisLogging._reset_to_defaults(n)
    finally:
        time.time = REAL
        IgnisLogging._reset_to_defaults('ignis_unused')
        os.chdir(cwd)
        if home is not None:
            os.environ['HOME'] = home
        shutil.rmtree(d, ignore_errors=True)


def kvs(rng, n=None):
    n = n if n is not None else rng.randrange(0, 4)
    return {k: value(rng) for k in rng.sample(KEYS, n)}


def behaviour(rec, eid, b):
    rng = rec.rng
    conf = dict(on=b['conf']['on'], max=b['conf']['max'] * 40, rot=b['conf']['rot'], path=rng.choice(FILES),
                home=rng.random() < .5)

    def ops(h):
        for o in b['log']:
            Clock.now += rng.choice([0, 1, 60])
            if o['op'] == 'get':
                h.get(o['x'])
            elif o['op'] in ('on', 'off'):
                h.set(o['x'], o['op'])
            elif o['op'] in ('log1', 'log2'):
                h.log(o['x'], kvs(rng, int(o['op'][3])))
            elif o['op'] == 'fail':
                h.fail(o['x'])
            elif o['op'] == 'plain':
                h.plain(o['x'])
            else:
                h.start()
        h.read()
    scenario(rec, eid, conf, ops)
    rec.count('spec_histories')


def rotations(rec, eid):
    """more than ten rotated files"""
    rng = rec.rng
    conf = dict(on=True, max=rng.choice([60, 80]), rot=rng.randrange(10, 14), path=rng.choice(FILES), home=rng.random() < .5)

    def ops(h):
        h.get('a')
        for _ in range(rng.randrange(11, 20)):
            Clock.now += rng.choice([0, 1, 60])
            h.log('a', kvs(rng, 2))
        h.read()
        h.read()
    scenario(rec, eid, conf, ops)


def history(rec, eid):
    rng = rec.rng
    mx = rng.choice([0, 0, 60, 150, 400])
    conf = dict(on=rng.random() < .6, max=mx, rot=rng.choice([0, 1, 2, 3, 12]) if mx else 0, path=rng.choice(FILES),
                home=rng.random() < .5)

    def ops(h):
        names = ['a', 'b', 'c'][:rng.randrange(1, 4)]
        h.get(names[0])
        for _ in range(rng.randrange(4, 30)):
            Clock.now += rng.choice([0, 0, 1, 1, 60, 3600])
            x = rng.choice(names)
            if x not in h.loggers:
                h.get(x)
                continue
            z = rng.random()
            if z < .6:
                h.log(x, kvs(rng))
            elif z < .66:
                h.set(x, 'on')
            elif z < .70:
                h.set(x, 'off')
            elif z < .75:
                h.get(x)
            elif z < .79:
                h.fail(x)
            elif z < .84:
                h.plain(x)
            elif z < .86:
                h.start()
                h.get(names[0])
            else:
                h.read()
        h.read()
    scenario(rec, eid, conf, ops)


def run(rec):
    rng = rec.rng
    logging.raiseExceptions = True
    n = 250 if rec.quick else 6000
    for i, b in enumerate(rng.sample(rec.behs, min(n, len(rec.behs)))):
        behaviour(rec, 'beh%d' % i, b)
    for i in range(150 if rec.quick else 2500):
        history(rec, 'hist%d' % i)
    for i in range(12 if rec.quick else 150):
        rotations(rec, 'rot%d' % i)
