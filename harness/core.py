"""Orchestrator of one property check.

  1. model-check the property's TLA+ specification with TLC (exhaustive, small
     constants); the run may also print behaviours ("BEH <json>") which are
     replayed into the real code in step 2;
  2. run the property's driver: it exercises /repo's code (public API only),
     replaying the specification's behaviours plus seeded random ones, and
     records one event per call with the observed results (NDJSON episodes);
  3. validate every recorded episode against the trace specification with TLC.
     Each event is checked clause by clause; a clause that does not hold is
     printed by TLC as <<"FAIL", line, clause>>.

Exit 0: everything held.  Exit 1 + VIOLATION line: some clause failed.
Exit 2: the machinery itself failed (never a verdict).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SPEC = os.path.join(HERE, 'spec')
JAR = ('/opt/veriftools/tla/tla2tools.jar:'
       '/opt/veriftools/tla/CommunityModules-deps.jar')
PY = '/opt/venv/bin/python'


class Machinery(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=1, timeout=600, heap='3g',
        extra=()):
    """Run TLC in a private copy of spec/; returns (rc, output)."""
    meta = tempfile.mkdtemp(prefix='meta', dir=work)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Xmx' + heap, '-Xss16m', '-cp', JAR, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-cleanup', '-config', cfg, *extra, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=os.path.join(work, 'spec'), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def behaviours(out):
    seen, res = set(), []
    for line in out.splitlines():
        if line.startswith('"BEH '):
            try:
                s = json.loads(line)[4:]
            except ValueError:
                s = line[5:-1].replace('\\"', '"')
            if s not in seen:
                seen.add(s)
                res.append(s)
    return sorted(res)


def run_model(prop, cfg, work, tier):
    """Model checking step. Returns (generated, distinct, behaviours, info)."""
    gen = dist = 0
    behs, infos = [], []
    for m in cfg.get('models', []):
        conf = m['cfg'].get(tier) or m['cfg']['quick']
        t0 = time.time()
        rc, out = tlc(m['module'], conf, work, workers=m.get('workers', 4),
                      timeout=m.get('timeout', {'quick': 400,
                                                'thorough': 3000})[tier],
                      heap=m.get('heap', '4g'))
        g, d = stats(out)
        if rc != 0 or 'No error has been found' not in out:
            raise Machinery('model %s (%s) did not check cleanly:\n%s'
                            % (m['module'], conf, out[-3000:]))
        gen += g
        dist += d
        b = behaviours(out)
        behs += b
        infos.append({'module': m['module'], 'cfg': conf,
                      'states_generated': g, 'distinct': d,
                      'behaviours': len(b), 'wall_s': round(time.time()-t0, 1)})
    return gen, dist, behs, infos


def split_episodes(path):
    eps, cur = [], None
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            if '"ev": "begin"' in line or '"ev":"begin"' in line:
                cur = []
                eps.append(cur)
            cur.append(line)
    return eps


def validate(prop, cfg, eps, work, tier):
    """TLC trace validation, sharded.  Returns (gen, dist, failures)."""
    shards = max(1, min(cfg.get('shards', 6), len(eps)))
    # balance by bytes
    order = sorted(range(len(eps)), key=lambda i: -sum(map(len, eps[i])))
    bins = [[] for _ in range(shards)]
    load = [0]*shards
    for i in order:
        b = load.index(min(load))
        bins[b].append(i)
        load[b] += sum(map(len, eps[i])) + 200
    mod = cfg['trace']
    tmo = cfg.get('trace_timeout', {'quick': 600, 'thorough': 3000})[tier]

    def one(b):
        path = os.path.join(work, 'shard%d.ndjson' % b)
        owner = []
        with open(path, 'w') as f:
            for i in sorted(bins[b]):
                for k, ln in enumerate(eps[i]):
                    f.write(ln + '\n')
                    owner.append((i, k))
        rc, out = tlc(mod, mod + '.cfg', work, env={'TRACE': path}, workers=1,
                      timeout=tmo, heap=cfg.get('heap', '3g'))
        fails = []
        for m in re.finditer(r'<<"FAIL",\s*(\d+),\s*"([^"]*)">>', out):
            i, k = owner[int(m.group(1)) - 1]
            fails.append((i, k, m.group(2)))
        g, d = stats(out)
        ok = 'No error has been found' in out
        if not ok:
            if 'Evaluating assumption' in out or g == 0 and 'rror' in out and \
                    not re.search(r'Error: (Evaluating|The|Attempted|TLC)', out):
                raise Machinery('TLC failed:\n' + out[-3000:])
            # the specification cannot interpret the trace at some line: the
            # implementation produced a value outside the specified domain
            line = max([int(x) for x in re.findall(r'/\\ l = (\d+)', out)] or
                       [int(x) for x in re.findall(r'\bl = (\d+)', out)] or [0])
            if g == 0 or 'OutOfMemory' in out or 'StackOverflow' in out:
                raise Machinery('TLC failed:\n' + out[-3000:])
            line = min(max(line, 1), len(owner))
            i, k = owner[line - 1]
            fails.append((i, k, 'uninterpretable_observation'))
            with open(os.path.join(work, 'tlc_err_%d.txt' % b), 'w') as f:
                f.write(out[-5000:])
            if os.environ.get('VF_DEBUG'):
                print(out[-3000:], file=sys.stderr)
        elif d != len(owner) + 1:
            raise Machinery('trace not fully consumed: %d states for %d lines'
                            % (d, len(owner)))
        return g, d, fails

    gen = dist = 0
    failures = []
    with cf.ThreadPoolExecutor(max_workers=cfg.get('parallel', 6)) as ex:
        for g, d, fails in ex.map(one, range(shards)):
            gen += g
            dist += d
            failures += fails
    return gen, dist, failures


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', [])
                if k['property'] == prop]


def main():
    from harness.props import PROPS
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, '.work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, '.work'))
    try:
        shutil.copytree(SPEC, os.path.join(work, 'spec'))
        return check(prop, tier, seed, cfg, work, t0)
    except Machinery as e:
        print('MACHINERY-ERROR property=%s %s' % (prop, e))
        return 2
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, cfg, work, t0):
    gen, dist, behs, infos = run_model(prop, cfg, work, tier)
    t1 = time.time()
    bpath = os.path.join(work, 'behaviours.ndjson')
    with open(bpath, 'w') as f:
        f.write('\n'.join(behs) + ('\n' if behs else ''))
    tpath = os.path.join(work, 'trace.ndjson')
    spath = os.path.join(work, 'summary.json')
    tmo = cfg.get('driver_timeout', {'quick': 420, 'thorough': 3600})[tier]
    hang = False
    cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'harness', 'drv.py'),
           cfg['driver'], tpath, bpath, spath, tier, str(seed)]
    try:
        p = subprocess.run(cmd, cwd=work, timeout=tmo, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           errors='replace')
        if p.returncode != 0:
            raise Machinery('driver failed rc=%d:\n%s' % (p.returncode,
                                                         p.stdout[-3000:]))
        if os.environ.get('VF_DEBUG'):
            print(p.stdout[-2000:], file=sys.stderr)
    except subprocess.TimeoutExpired:
        hang = True
    eps = split_episodes(tpath) if os.path.exists(tpath) else []
    summary = {}
    if os.path.exists(spath):
        summary = json.load(open(spath))
    t2 = time.time()
    failures = []
    tg = td = 0
    if hang:
        failures.append((len(eps) - 1, len(eps[-1]) - 1 if eps else 0,
                         'call_did_not_return'))
    elif not eps:
        raise Machinery('driver recorded nothing')
    else:
        tg, td, failures = validate(prop, cfg, eps, work, tier)
    t3 = time.time()

    # classify
    known, fresh = {}, {}
    kfs = known_findings(prop)
    for i, k, clause in failures:
        head = json.loads(eps[i][0]) if eps else {}
        for kf in kfs:
            if kf['clause'] == clause and head.get('id') in kf['episodes']:
                known.setdefault(kf['what'], 0)
                known[kf['what']] += 1
                break
        else:
            fresh.setdefault(clause, []).append((i, k))
    cov = {
        'states': dist + td, 'transitions': gen + tg,
        'traces_validated_against_impl': len(eps),
        'events_validated': sum(len(e) for e in eps),
        'model_runs': infos,
        'behaviours_from_spec_replayed': len(behs),
        'driver_summary': summary,
        'samples': [[json.loads(x) for x in e[:3]] for e in
                    (eps[:1] + eps[len(eps)//2:len(eps)//2+1] + eps[-1:])],
        'phase_s': {'model': round(t1-t0, 1), 'driver': round(t2-t1, 1),
                    'trace': round(t3-t2, 1)},
    }
    s = json.dumps(cov['samples'])
    if len(s) > 20000:
        cov['samples'] = [x[:500] for x in
                          [json.dumps(y) for y in cov['samples']]]
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': cfg.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(fresh)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for w in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    print('%s %s: model %d states / trace %d states, %d episodes, %d events, '
          '%.1fs (model %.1f driver %.1f trace %.1f)'
          % (prop, tier, dist, td, len(eps), cov['events_validated'],
             ev['wall_s'], t1-t0, t2-t1, t3-t2))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        rp = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (prop, tier, seed))
        doc = {'property': prop, 'tier': tier, 'seed': seed,
               'reproduce': 'VERIF_SEED=%d bin/check %s %s' % (seed, prop, tier),
               'clauses': {}}
        for clause, where in sorted(fresh.items()):
            i, k = min(where, key=lambda w: (len(eps[w[0]]), w)) if eps else (0, 0)
            doc['clauses'][clause] = {
                'failures': len(where), 'event_index': k,
                'episode': [json.loads(x) for x in eps[i]] if eps else []}
            print('  clause %s failed %d times; first: episode %d event %d %s'
                  % (clause, len(where), i, k,
                     eps[i][k][:300] if eps else ''))
        with open(rp, 'w') as f:
            json.dump(doc, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
