"""C24: phase polynomials of CNOT-dihedral elements."""
import copy
import itertools as it
from harness.drv import outcome
from qiskit.ignis.verification.randomized_benchmarking.dihedral import SpecialPolynomial, CNOTDihedral, random_cnotdihedral


def monos(n):
    return [list(s) for k in range(4) for s in it.combinations(range(n), k)]


def terms(p):
    return [[s, int(p.get_term(s))] for s in monos(p.n_vars)]


def random_poly(rng, n):
    style = rng.random()
    if style < .25:
        return copy.deepcopy(random_cnotdihedral(n, seed=rng.randrange(10 ** 6)).poly) if n < 4 else pj(rng, n)
    if style < .4:
        return pj(rng, n)
    p = SpecialPolynomial(n)
    ms = monos(n)
    for s in rng.sample(ms, rng.randrange(0, len(ms) + 1) if n < 5 else rng.randrange(0, 6)):
        p.set_term(s, rng.randrange(-8, 16) if rng.random() < .5 else rng.choice([0, 1, 2, 4, 6]))
    return p


def pj(rng, n):
    p = SpecialPolynomial(n)
    p.set_pj(rng.sample(range(n), rng.randrange(0, min(n, 5) + 1)))
    return p


def parse(text):
    """the coefficients a printed polynomial shows"""
    out = []
    for t in text.split(' + '):
        fs = t.split('*')
        xs = [f for f in fs if f.startswith('x_')]
        cs = [f for f in fs if not f.startswith('x_')]
        out.append([[int(x[2:]) for x in xs], int(cs[0]) if cs else 1])
    return out


def indices(rng, n):
    z = rng.random()
    if z < .7:
        return sorted(rng.sample(range(n), rng.randrange(0, min(3, n) + 1)))
    return rng.choice([[n], [-1], [0, 0], [n - 1, 0] if n > 1 else [1], [0, n], [-1, 0], [0, 1, 1], [0, 2, 1]])


def op(rec, ep, n):
    rng = rec.rng
    a = random_poly(rng, n)
    name = rng.choice(['set', 'get', 'mono', 'add', 'mul', 'mul', 'scale', 'eval', 'subst', 'equal', 'equal', 'pj', 'new', 'text', 'fill'])
    e = dict(op=name, n=n, m=n, a=terms(a), b=terms(SpecialPolynomial(n)), idx=[], k=0, val=0, out=[], qs=[], same=True)
    keep = [a]
    out = None
    if name == 'set':
        e['idx'], e['k'] = indices(rng, n), rng.randrange(-9, 20)
        work = copy.deepcopy(a)
        e['got'], _ = outcome(work.set_term, list(e['idx']), e['k'])
        out = work
        if e['got'] != 'ok':
            e['same'] = terms(work) == e['a']
        before = [terms(a)]
    else:
        before = [terms(a)]
        if name in ('get', 'mono'):
            e['idx'] = indices(rng, n) if name == 'get' or rng.random() < .9 else [0, 1, 2, 3]
            e['got'], out = outcome(a.get_term if name == 'get' else a.mul_monomial, list(e['idx']))
        elif name == 'pj':
            e['idx'] = rng.sample(range(n), rng.randrange(0, n + 1)) if rng.random() < .8 else [rng.choice([-1, n])]
            work = copy.deepcopy(a)
            e['got'], _ = outcome(work.set_pj, list(e['idx']))
            out = work
        elif name == 'fill':
            todo = [[s, rng.randrange(0, 8)] for s in monos(n)]
            e['b'] = [list(t) for t in todo]
            rng.shuffle(todo)
            out = SpecialPolynomial(n)
            e['got'], _ = outcome(lambda: [out.set_term(s, v) for s, v in todo])
        elif name == 'text':
            e['got'], out = outcome(lambda: parse(str(a)))
        elif name == 'new':
            e['n'] = rng.randrange(0, 6)
            e['got'], out = outcome(SpecialPolynomial, e['n'])
        elif name in ('add', 'mul', 'equal'):
            m = n if rng.random() < .85 else n % 4 + 1 if n < 5 else n - 1
            b = random_poly(rng, m)
            if name == 'equal' and rng.random() < .75 and m == n:
                b = SpecialPolynomial(n)
                for s, v in e['a']:
                    b.set_term(s, v)
                if rng.random() < .7:
                    size = rng.randrange(0, min(n, 3) + 1)
                    s = rng.choice([x for x in monos(n) if len(x) == size])
                    b.set_term(s, int(b.get_term(s)) + rng.choice([0, 8, 1, 4]))
            e['m'], e['b'] = m, terms(b)
            keep.append(b)
            before.append(terms(b))
            f = {'add': lambda: a + b, 'mul': lambda: a * b, 'equal': lambda: a == b}[name]
            e['got'], out = outcome(f)
        elif name == 'scale':
            e['k'] = rng.randrange(-20, 20) if rng.random() < .8 else rng.randrange(20, 1000)
            e['got'], out = outcome((lambda: a * e['k']) if rng.random() < .5 else (lambda: e['k'] * a))
        elif name == 'eval':
            e['idx'] = [rng.randrange(0, 2) if rng.random() < .9 else rng.randrange(2, 5)
                        for _ in range(n if rng.random() < .85 else n + rng.choice([-1, 1]))]
            e['got'], out = outcome(a.evaluate, list(e['idx']))
        else:
            m = n if rng.random() < .85 else n % 4 + 1 if n < 5 else n - 1
            k = n if rng.random() < .9 else n + 1
            qs = [random_poly(rng, m) for _ in range(k)]
            e['m'], e['qs'] = m, [terms(x) for x in qs]
            keep += qs
            before += [terms(x) for x in qs]
            e['got'], out = outcome(a.evaluate, list(qs))
    e['same'] = e['same'] and [terms(x) for x in keep] == before
    if e['got'] == 'ok':
        if name in ('get', 'eval', 'equal'):
            e['val'] = int(out)
        elif name == 'text':
            e['out'] = out
        else:
            e['out'] = terms(out)
            if rng.random() < .5:       # a result goes its own way
                for s in monos(out.n_vars):
                    out.set_term(s, int(out.get_term(s)) + 1)
                e['same'] = e['same'] and [terms(x) for x in keep] == before
    ep.ev('op', **e)
    rec.count('op_' + name)


def replay(rec, eid, b):
    """a behaviour of the specification; every second one on the phase of group elements"""
    n = b['n']
    one = SpecialPolynomial(n)
    one.set_term([], 1)

    def var(i):
        v = SpecialPolynomial(n)
        v.set_term([i], 1)
        return v
    with rec.episode(eid, n=n) as ep:
        p, q = one, one
        for st in b['log']:
            o, i = st['op'], st['i']
            if o == 'var':
                r = var(i)
            elif o == 'addvar':
                r = p + var(i)
            elif o == 'shiftmul':
                r = (p + one) * var(i)
            elif o == 'add':
                r = p + q
            elif o == 'mul':
                r = p * q
            elif o == 'scale':
                r = p * i
            else:
                j = SpecialPolynomial(n)
                j.set_pj([k for k in range(n) if i >> k & 1])
                r = p + j
            p, q = r, (one if o == 'var' else p)
            ep.ev('step', n=n, op=o, i=i, out=terms(r),
                  vals=[int(r.evaluate([x >> k & 1 for k in range(n)])) for x in range(2 ** n)])


def run(rec):
    rng = rec.rng
    behs = rec.behs if not rec.quick else rng.sample(rec.behs, min(len(rec.behs), 250))
    if len(behs) > 4000:
        behs = rng.sample(behs, 4000)
    for i, b in enumerate(behs):
        replay(rec, 'beh%d' % i, b)
    for i in range(60 if rec.quick else 800):
        with rec.episode('ops%d' % i) as ep:
            for _ in range(12):
                op(rec, ep, rng.choice([1, 2, 3, 3, 4]))
    for i in range(6 if rec.quick else 40):
        with rec.episode('wide%d' % i) as ep:
            for _ in range(6):
                op(rec, ep, rng.choice([5, 5, 6, 7, 9, 10]))
