"""Runs one property's check: TLC on the design, TLC-generated scenarios
replayed on the code in /repo, TLC on the recorded traces."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLAJ = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
PYPY = '/opt/pvenv/bin/python'
NPROC = 8
BUDGET = 450     # seconds for replaying, quick tier


class Machinery(Exception):
    """The check itself failed (exit 2), as opposed to the property."""


def build_classes():
    out = os.path.join(VERIF, 'build', 'classes', 'FixReal.class')
    src = os.path.join(VERIF, 'java', 'FixReal.java')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        subprocess.run([os.path.join(VERIF, 'bin', 'setup.sh')], check=True)


def tlc(work, module, cfg, args=(), env=None, workers=NPROC, timeout=800,
        mem='6g'):
    """Run TLC in its own copy of the spec directory; returns (rc, output)."""
    d = os.path.join(work, 'tlc_%s_%s' % (module, os.path.splitext(cfg)[0]))
    n = 0
    while os.path.exists(d):
        n += 1
        d = d.rstrip('+') + '+' * n
    shutil.copytree(os.path.join(VERIF, 'spec'), d)
    cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC',
           '-Dtlc2.TLC.stopAfter=%d' % timeout,
           '-cp', ':'.join([os.path.join(VERIF, 'build', 'classes'), TLAJ, CM]),
           'tlc2.TLC', '-deadlock', '-noGenerateSpecTE',
           '-metadir', os.path.join(d, 'meta'), '-workers', str(workers),
           '-config', cfg] + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout + 30)
        rc, out = p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        rc, out = -1, (x.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT'
    with open(os.path.join(work, 'tlc_%s_%s.log' % (module, cfg)), 'a') as f:
        f.write(out)
    shutil.rmtree(d, ignore_errors=True)
    return rc, out, time.time() - t0


def stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    if m:
        g, d = m[-1]
        return int(d.replace(',', '')), int(g.replace(',', ''))
    m = re.findall(r'The number of states generated: ([\d,]+)', out)
    if m:
        g = int(m[-1].replace(',', ''))
        return g, g
    m = re.findall(r'Progress: ([\d,]+) states checked', out)
    if m:
        g = int(m[-1].replace(',', ''))
        return g, g
    return 0, 0


def tagged(out, tag):
    """JSON payloads printed by PrintT("@TAG " \\o ToJson(..))."""
    res = []
    pre = '"@%s ' % tag
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            txt = line[len(pre):-1]
            txt = txt.replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\')
            res.append(json.loads(txt))
    return res


def ok_or_die(rc, out, what):
    if rc != 0:
        tail = '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))
        raise Machinery('%s: TLC exit %s\n%s' % (what, rc, tail[-3500:]))


def pick(sc, lim, strata):
    """The first lim scenarios, taken in turn from the groups that agree in
    the fields of strata."""
    if not strata:
        return sc[:lim]
    groups = {}
    for s in sc:
        d = json.loads(s)
        groups.setdefault(json.dumps([d.get(k) for k in strata]), []).append(s)
    res, rnd = [], 0
    while len(res) < lim:
        new = [g[rnd] for g in groups.values() if rnd < len(g)]
        if not new:
            break
        res += new
        rnd += 1
    return res[:lim]


def generate(cfg, work, tier, seed):
    """Model-check the design and collect the scenarios it emits."""
    scs, seen = [], set()
    st = tr = 0
    runs = []
    lock = threading.Lock()
    errs = []
    slots = {}

    def one(idx, g):
        try:
            par = g.get(tier, g.get('quick'))
            if par is None:
                return
            args = []
            workers = par.get('workers', 4)
            if g.get('mode') == 'sim':
                args = ['-simulate', 'num=%d' % par['num'],
                        '-depth', str(par.get('depth', 60)),
                        '-seed', str(seed * 7919 + 13 + idx),
                        '-aril', '0']
                workers = 1
            env = {'VERIF_BIG': '1' if tier == 'thorough' else '0',
                   'VERIF_SEEDN': str(seed)}
            env.update({k: str(v) for k, v in par.get('env', {}).items()})
            rc, out, dt = tlc(work, g['module'], par.get('cfg', g['cfg']), args, env,
                              workers=workers, timeout=par.get('timeout', 200 if tier == 'quick' else 1500))
            ok_or_die(rc, out, g['module'] + '/' + g['cfg'])
            d, n = stats(out)
            with lock:
                slots[idx] = (tagged(out, 'SC'), d, n)
                runs.append({'spec': g['module'], 'cfg': par.get('cfg', g['cfg']),
                             'mode': g.get('mode', 'bfs'), 'distinct': d,
                             'generated': n, 'wall_s': round(dt, 1)})
        except Exception as x:  # pylint: disable=broad-except
            errs.append(x)
    ths = [threading.Thread(target=one, args=(i, g))
           for i, g in enumerate(cfg['gen'])]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    for idx in sorted(slots):
        sc, d, n = slots[idx]
        st += d
        tr += n
        lim = cfg['gen'][idx].get(tier, {}).get('limit')
        sc = sorted({json.dumps(s, sort_keys=True) for s in sc},
                    key=lambda x: hashlib.sha1((str(seed) + x).encode()).hexdigest())
        if lim:
            sc = pick(sc, lim, cfg['gen'][idx].get('strata', ()))
        for s in sc:
            if s not in seen:
                seen.add(s)
                scs.append(json.loads(s))
    return scs, st, tr, runs


def drive(cfg, work, scs, tier, seed):
    """Replay the scenarios on the real code, in parallel processes that are
    restarted after a crash."""
    todo = [{'id': i, 'sc': s} for i, s in enumerate(scs)]
    results = {}
    lock = threading.Lock()
    env = dict(os.environ)
    env.update({'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
                'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
                'MPLBACKEND': 'Agg', 'VERIF_TIER': tier,
                'VERIF_SEED': str(seed), 'PYTHONPATH': REPO,
                'VERIF_WORK': work})
    queue = sorted(todo, key=lambda x: (x['id'] * 7919) % 10007)
    if cfg.get('order'):
        queue.sort(key=lambda x: cfg['order'](x['sc']))
    per = cfg.get('timeout', 60)
    procs = cfg.get('procs', NPROC)
    chunk = -(-len(queue) // (cfg.get('split', 1) * procs))
    fails = []
    died = {}
    end = time.time() + (BUDGET if tier == 'quick' else 10 * BUDGET)
    env['VERIF_END'] = str(end)

    def slow(got):
        return sum(e['op'] == 'timeout' for g in got for e in g['ev'])

    def worker(w):
        batchno = 0
        while True:
            with lock:
                if not queue or time.time() > end:
                    return
                k = max(1, min(len(queue), chunk))
                k = min(k, cfg.get('batch', 10 ** 9))
                batch = [queue.pop() for _ in range(k)]
            batchno += 1
            while batch:
                fi = os.path.join(work, 'in_%d_%d.json' % (w, batchno))
                fo = os.path.join(work, 'out_%d_%d.ndjson' % (w, batchno))
                with open(fi, 'w') as f:
                    json.dump(batch, f)
                open(fo, 'w').close()
                cmd = [PYPY, '-W', 'ignore',
                       os.path.join(VERIF, 'drivers', 'main.py'),
                       cfg['driver'], fi, fo, str(per)]
                with open(os.path.join(work, 'drv_%d.log' % w), 'ab') as lg:
                    p = subprocess.Popen(cmd, env=env, stdout=lg, stderr=lg,
                                         cwd=work, start_new_session=True)
                    try:
                        rc = p.wait(timeout=min(per * len(batch), max(
                            0, end - time.time()) + per) + 60)
                    except subprocess.TimeoutExpired:
                        rc = -99
                    try:  # the process and what it started
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                got = []
                with open(fo) as f:
                    for line in f:
                        if line.endswith('\n'):
                            got.append(json.loads(line))
                with lock:
                    for g in got:
                        results[g['id']] = g
                rest = [b for b in batch if b['id'] not in results]
                if rc == 0 and rest:
                    if time.time() < end - 1 and slow(got) < 3:
                        raise Machinery('driver lost scenarios')
                    return      # out of time: the rest is not explored
                if rc == 7:
                    fails.append(Machinery('driver error, see drv_%d.log' % w))
                    return
                if rest:
                    # the process died in the first unfinished scenario
                    # (tried again first thing in a new process: only a
                    # death it causes itself is an observation)
                    b = rest[0]
                    died[b['id']] = died.get(b['id'], 0) + 1
                    if died[b['id']] >= 3 or rc == -99:
                        with lock:
                            results[b['id']] = {
                                'id': b['id'], 'sc': b['sc'],
                                'ev': [{'op': 'crash', 'o': {'k': 'crash', 'rc': rc}}]}
                        rest = rest[1:]
                batch = rest
                batchno += 1
                if time.time() > end:
                    return

    def guarded(w):
        try:
            worker(w)
        except Exception as x:  # pylint: disable=broad-except
            fails.append(x)
    ths = [threading.Thread(target=guarded, args=(w,)) for w in range(procs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if fails:
        raise fails[0]
    return [results[i['id']] for i in todo if i['id'] in results]


def validate(cfg, work, traces, par_timeout=800):
    """TLC decides every recorded trace.  A step that the specification
    cannot even evaluate (a field or value of a kind no behaviour of the
    specification has) is rejected like any other step that is not one of
    its steps."""
    if not traces:
        raise Machinery('no traces')
    bad, done = {}, set()
    d = n = wall = odd = 0
    rest = traces
    while rest:
        tf = os.path.join(work, 'traces.ndjson')
        with open(tf, 'w') as f:
            for t in rest:
                f.write(json.dumps(t) + '\n')
        rc, out, dt = tlc(work, cfg['trace'], cfg['trace'] + '.cfg', (),
                          {'TRACES': tf}, workers=NPROC, mem='12g',
                          timeout=par_timeout)
        a, b = stats(out)
        d, n, wall = d + a, n + b, wall + dt
        for x in tagged(out, 'BAD'):
            bad[x['id'], x['step']] = x
        done |= {e['id'] for e in tagged(out, 'END')}
        if rc == 0:
            rest = [t for t in rest if t['id'] not in done]
            if rest:
                raise Machinery('%s: %d traces not consumed\n%s' % (
                    cfg['trace'], len(rest), out[-2000:]))
            break
        at = re.findall(r'^(?:/\\ )?t = (\d+)$', out, re.M)
        st = re.findall(r'^(?:/\\ )?l = (\d+)$', out, re.M)
        if not at or not st or 'OutOfMemory' in out or 'TIMEOUT' in out:
            ok_or_die(rc, out, cfg['trace'])
        t = rest[int(at[-1]) - 1]
        step = int(st[-1]) + 1
        bad[t['id'], step] = {'id': t['id'], 'step': step,
                              'bad': ['not_a_step_of_the_specification']}
        done.add(t['id'])
        odd += 1
        rest = [t for t in rest if t['id'] not in done]
        if odd >= 5:
            break       # enough: the rest is not explored
    return list(bad.values()), d, n, {
        'spec': cfg['trace'], 'cfg': cfg['trace'] + '.cfg', 'mode': 'trace',
        'distinct': d, 'generated': n, 'not_evaluable': odd,
        'wall_s': round(wall, 1)}


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#'):
                    res.append(json.loads(line))
    return res


def matches(known, sc, b):
    """A known finding lists exact scenario fields and the failing clauses."""
    m = known.get('match', {})
    if not m:
        return False
    if not set(b['bad']) <= set(m.get('clauses', [])):
        return False
    return all(sc.get(k) == v for k, v in m.get('sc', {}).items())


def run(pid, cfg, tier, seed, keep=False, scenarios=None):
    t0 = time.time()
    build_classes()
    work = os.path.join(VERIF, 'work', '%s.%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        times = {}
        if scenarios is None:
            scs, st, tr, runs = generate(cfg, work, tier, seed)
        else:
            scs, st, tr, runs = scenarios, 0, 0, []
        if not scs:
            raise Machinery('the specification emitted no scenario')
        times['gen'] = round(time.time() - t0, 1)
        traces = drive(cfg, work, scs, tier, seed)
        times['drive'] = round(time.time() - t0 - times['gen'], 1)
        bad, d, n, r = validate(cfg, work, traces, 800 if tier == 'quick' else 3600)
        times['validate'] = r['wall_s']
        runs.append(r)
        byid = {t['id']: t for t in traces}
        known = [k for k in load_known()
                 if k.get('property') == pid and k.get('status') == 'known']
        viol, seen_known = [], {}
        for b in sorted(bad, key=lambda b: (b['id'], b['step'])):
            for k in known:
                if matches(k, byid[b['id']]['sc'], b):
                    seen_known.setdefault(k['what'], 0)
                    seen_known[k['what']] += 1
                    break
            else:
                viol.append(b)
        for what in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        nev = sum(len(t['ev']) for t in traces)
        if scenarios is None:
            ev = {
                'property': pid, 'tier': tier, 'seed': seed,
                'level': 'model_checking',
                'coverage': {
                    'states': st + d, 'transitions': tr + n,
                    'traces_validated_against_impl': len(traces),
                    'scenarios_out_of_time': len(scs) - len(traces),
                    'events_validated_against_impl': nev,
                    'rejected_steps': len(bad),
                    'tlc_runs': runs, 'phases_s': times,
                    'samples': [shorten(t) for t in traces[:2]],
                },
                'assumptions': cfg.get('assumptions', []) + [
                    'TLC and the Java evaluation of FixReal.tla are correct',
                    'the driver records what the public calls returned'],
                'wall_s': round(time.time() - t0, 1),
                'violations': len(viol)}
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s %s seed=%d: %d design states, %d traces (%d events) validated,'
              ' %d rejected; %.1fs %s' % (pid, tier, seed, st, len(traces), nev,
                                          len(viol), time.time() - t0, times))
        if viol:
            rd = os.path.join(VERIF, 'replays', pid)
            os.makedirs(rd, exist_ok=True)
            done = {}
            for b in viol:
                key = tuple(sorted(b['bad']))
                done.setdefault(key, 0)
                done[key] += 1
                if done[key] > 2 or len(done) > 12:
                    continue
                t = byid[b['id']]
                name = hashlib.sha1(json.dumps(t['sc'], sort_keys=True)
                                    .encode()).hexdigest()[:12]
                p = os.path.join(rd, name + '.json')
                with open(p, 'w') as f:
                    json.dump({'property': pid, 'seed': seed, 'scenario': t['sc'],
                               'rejected_step': b['step'], 'clauses': b['bad'],
                               'observed': t['ev']}, f)
                print('  step %s rejected, failing clauses: %s' % (
                    b['step'], ', '.join(sorted(b['bad']))))
                print('VIOLATION property=%s replay=%s' % (pid, p))
            return 1
        return 0
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def shorten(t):
    s = json.dumps(t)
    return t if len(s) < 3000 else {'sc': t['sc'], 'ev': s[:1500] + '...'}
