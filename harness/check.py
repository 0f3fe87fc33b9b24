#!/opt/venv/bin/python
"""check.py PROPERTY -- decide one property: run the TLA+ design models, record the real code, and let TLC
judge every recorded event against the specification.  See /verif/DESIGN.md."""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(1, REPO)

OP_LIMIT = int(os.environ.get('VERIF_OP_LIMIT', '60'))
MEM_LIMIT = 3 << 30


class OpTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise OpTimeout()


def arm(limit=None, handler=None):
    """Bound one operation by its CPU time (so a loaded machine does not matter), and by a generous wall-clock time."""
    limit = limit or OP_LIMIT
    signal.signal(signal.SIGPROF, handler or _alarm)
    signal.signal(signal.SIGALRM, handler or _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 5 * limit)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


class BadValue(Exception):
    """The code returned something that is not of the kind the operation promises."""


def clean(x):
    """JSON value that TLC reads back faithfully (32-bit ints, strings, bools, lists, records)."""
    t = type(x)
    if t is bool or t is str:
        return x
    if t is int:
        if not -2**31 < x < 2**31:
            raise BadValue('integer out of range: %r' % x)
        return x
    if t in (list, tuple):
        return [clean(i) for i in x]
    if t is dict:
        return {k: clean(v) for k, v in x.items()}
    raise BadValue('unexpected value of type %s' % t.__name__)


class Rec:
    """Collects the events of one worker."""

    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0
        self.sess = None
        self.dead = False
        self.deadline = None
        self.ops = collections.Counter()
        self.nontrivial = 0
        self.samples = []

    def write(self, e):
        self.f.write(json.dumps(e, ensure_ascii=True) + '\n')
        self.n += 1
        self.ops[e['op']] += 1

    def event(self, op, fields, fn, enc=None, limit=None):
        """Run fn(), log its encoded result (or the exception) as one event, and return the raw result."""
        if self.dead:
            return None
        e = {'op': op, 'sid': self.sess}
        e.update(clean(fields))
        raw = None
        exc = ''
        res = ''
        arm(limit)
        try:
            try:
                raw = fn()
                res = clean(enc(raw) if enc else raw)
            finally:
                disarm()
        except OpTimeout:
            exc = 'Timeout'
            self.dead = True
        except MemoryError:
            exc = 'MemoryError'
            self.dead = True
        except BadValue as ex:
            exc = 'BadValue: ' + str(ex)[:200]
        except (Exception, SystemExit) as ex:
            exc = (type(ex).__name__ + ': ' + str(ex)[:160].replace('\n', ' ').replace('"', "'")).strip()
        e['exc'] = exc.encode('ascii', 'replace').decode()
        e['res'] = res
        self.write(e)
        return raw if not exc else None

    def note(self, op, **fields):
        e = {'op': op, 'sid': self.sess, 'exc': '', 'res': ''}
        e.update(clean(fields))
        self.write(e)


def forked_session(drv, sess, rec):
    """Run one session in a child process, so that every session starts from the same fresh process state."""
    rec.f.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            rec.n, rec.ops = 0, collections.Counter()
            rec.note('session', name=str(sess[0]))
            drv.run_session(sess, rec)
            rec.f.flush()
            msg = {'n': rec.n, 'ops': dict(rec.ops), 'dead': rec.dead, 'error': ''}
        except BaseException:
            rec.f.flush()
            msg = {'n': rec.n, 'ops': dict(rec.ops), 'dead': True, 'error': traceback.format_exc()}
        os.write(w, json.dumps(msg).encode())
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    msg = json.loads(data.decode())
    rec.f.seek(0, 2)
    rec.n += msg['n']
    rec.ops.update(msg['ops'])
    if msg['error']:
        raise RuntimeError(msg['error'])


def worker(prop, tier, seed, shard, sessions, path, q):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(20000)
    sys.stdin = open(os.devnull)
    out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    info = {'shard': shard, 'error': '', 'n': 0, 'ops': {}, 'samples': []}
    try:
        rec = Rec(path)
        try:
            drv = importlib.import_module('drivers.' + prop.lower())
            for sid, sess in sessions:
                if rec.dead:
                    break
                rec.sess = sid
                rec.rng = random.Random('%s/%s/%s' % (prop, seed, sid))
                if getattr(drv, 'FORK', False):
                    forked_session(drv, sess, rec)
                else:
                    rec.note('session', name=str(sess[0]))
                    drv.run_session(sess, rec)
        finally:
            rec.f.close()
            info['n'] = rec.n
            info['ops'] = dict(rec.ops)
    except BaseException:
        info['error'] = traceback.format_exc()
    q.put(info)
    os.dup2(out, 1)


def tlc(module, cfg, env=None, timeout=850, heap='3g', workers='1', extra=(), tag=None):
    tag = tag or '%s-%d-%d' % (os.path.basename(cfg), os.getpid(), random.randrange(10**9))
    meta = os.path.join(BUILD, 'tlc', tag)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss256m', '-Dtlc2.TLC.ide=off',
           '-cp', JARS, 'tlc2.TLC', '-workers', workers, '-noGenerateSpecTE', '-metadir', meta,
           '-config', cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            stdin=subprocess.DEVNULL, text=True, errors='replace'), meta, timeout


def tlc_wait(job):
    p, meta, timeout = job
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        out += '\nTIMEOUT'
    shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out):
        pass
    st = (int(m.group(1)), int(m.group(2)), int(m.group(3))) if m else (0, 0, 0)
    return p.returncode, out, st


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get('property') == prop and k.get('status') == 'known']


def match_known(known, ev, clause):
    for k in known:
        m = k['match']
        if 'clause' in m and m['clause'] != clause:
            continue
        if all(ev.get(f) == v for f, v in m.get('fields', {}).items()):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    drv = importlib.import_module('drivers.' + prop.lower())
    work = os.path.join(BUILD, 'run', '%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep_dir = os.path.join(BUILD, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    try:
        code = decide(prop, tier, seed, t0, drv, work, rep_dir)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(prop, tier, seed, t0, drv, work, rep_dir):
    ncpu = min(8, os.cpu_count() or 8)
    rng = random.Random('%s/%s' % (prop, seed))
    # ---- 1. design models: exhaustive TLC runs of the specification itself
    mcs = []
    for mod, cfg, tiers in getattr(drv, 'MODELS', []):
        if tier in tiers:
            mcs.append((mod, cfg))
    mc_stats = []
    pending = list(mcs)
    running = []

    def mc_start():
        while pending and len(running) < 2:
            mod, cfg = pending.pop(0)
            running.append((mod, cfg, tlc(mod, cfg, workers='2')))

    mc_start()
    # ---- 2. record the real code
    sessions = list(enumerate(drv.sessions(tier, rng)))
    only = os.environ.get('VERIF_ONLY_SID')
    if only:
        sessions = [s for s in sessions if str(s[0]) in only.split(',')]
    nsh = getattr(drv, 'SHARDS', ncpu)
    order = sessions[:]
    random.Random(seed).shuffle(order)
    # weight hint: second-level balancing by optional cost in drv.cost
    cost = getattr(drv, 'cost', lambda s: 1)
    order.sort(key=lambda s: -cost(s[1]))
    buckets = [[0, []] for _ in range(nsh)]
    for s in order:
        b = min(buckets, key=lambda b: b[0])
        b[0] += cost(s[1])
        b[1].append(s)
    q = mp.Queue()
    procs = []
    infos = {}
    traces = []
    for i, (_, ss) in enumerate(buckets):
        if not ss:
            continue
        random.Random('%d/%d' % (seed, i)).shuffle(ss)
        path = os.path.join(work, 'trace-%d.ndjson' % i)
        traces.append((i, path))
        p = mp.Process(target=worker, args=(prop, tier, seed, i, ss, path, q))
        p.start()
        procs.append(p)
    budget = 800 if tier == 'quick' else 6000
    while len(infos) < len(procs):
        try:
            info = q.get(timeout=5)
            infos[info['shard']] = info
        except Exception:
            if time.time() - t0 > budget or all(not p.is_alive() for p in procs):
                try:
                    while True:
                        info = q.get(timeout=1)
                        infos[info['shard']] = info
                except Exception:
                    break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    errors = []
    for i, path in traces:
        if i not in infos:
            # the worker died without a word (e.g. killed): its last session is lost; that is a machinery failure
            errors.append('recorder %d died' % i)
        elif infos[i]['error']:
            errors.append(infos[i]['error'])
    t_rec = time.time() - t0
    # ---- 3. TLC judges every event
    module = drv.TRACE_SPEC
    jobs = []
    for i, path in traces:
        if i in infos and infos[i]['n']:
            jobs.append((i, path, tlc(module, drv.TRACE_CFG if hasattr(drv, 'TRACE_CFG') else 'Trace.cfg',
                                      env={'TRACE': path}, timeout=max(30, (870 if tier == 'quick' else 7000) - (time.time() - t0)))))
    states = trans = 0
    viols = []
    nev = 0
    ops = collections.Counter()
    clauses_seen = collections.Counter()
    for i, path, job in jobs:
        rc, out, st = tlc_wait(job)
        states += st[1]
        trans += max(0, st[0] - 1)
        lines = open(path).read().split('\n')
        n = infos[i]['n']
        nev += n
        ops.update(infos[i]['ops'])
        vl = set(re.findall(r'VIOL (\d+) ([^"\n]*)', out))
        for ln, clause in vl:
            viols.append((json.loads(lines[int(ln) - 1]), clause.strip()))
        if rc != 0 and 0 < st[1] <= n and 'TIMEOUT' not in out and 'OutOfMemory' not in out and 'StackOverflow' not in out:
            # the specification could not even be evaluated on this event: the logged value is malformed
            m = re.search(r'Error: (.*)', out)
            viols.append((json.loads(lines[st[1] - 1]), 'malformed'))
            sys.stderr.write('TLC on shard %d stopped at event %d: %s\n' % (i, st[1], out[-2500:]))
        elif rc != 0 or 'Model checking completed. No error has been found.' not in out or st[1] != n + 1:
            errors.append('TLC on shard %d: rc=%s states=%s events=%s\n%s' % (i, rc, st, n, out[-3000:]))
    # ---- design models
    while running or pending:
        mc_start()
        mod, cfg, job = running.pop(0)
        rc, out, st = tlc_wait(job)
        mc_stats.append({'model': cfg, 'distinct_states': st[1], 'states_generated': st[0]})
        states += st[1]
        trans += max(0, st[0] - 1)
        if rc != 0 or 'No error has been found' not in out:
            errors.append('design model %s/%s failed: rc=%s\n%s' % (mod, cfg, rc, out[-3000:]))
    # ---- verdict
    known = known_findings(prop)
    reported = []
    hit = {}
    for ev, clause in viols:
        k = match_known(known, ev, clause)
        if k:
            hit[k['id']] = k
        else:
            reported.append((ev, clause))
    for k in sorted(hit.values(), key=lambda k: k['id']):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    samples = []
    for i, path, job in jobs[:2]:
        with open(path) as f:
            for j, line in enumerate(f):
                if len(line) < 1500 and '"op": "session"' not in line:
                    samples.append(json.loads(line))
                if len(samples) >= 3 * (jobs.index((i, path, job)) + 1):
                    break
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': trans,
            'traces_validated_against_impl': len(sessions),
            'events_validated': nev, 'events_by_operation': dict(sorted(ops.items())),
            'design_models': mc_stats, 'samples': samples or ['none'],
            'trace_shards': len(jobs), 'record_seconds': round(t_rec, 2),
        },
        'assumptions': getattr(drv, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(reported),
    }
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if reported:
        reported.sort(key=lambda x: len(json.dumps(x[0])))
        path = os.path.join(rep_dir, '%s-%s.json' % (prop, hashlib.sha1(json.dumps(reported[0]).encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'replay': 'VERIF_SEED=%d VERIF_ONLY_SID=%s %s/harness/check.sh %s %s' % (
                           seed, reported[0][0]['sid'], VERIF, prop, tier),
                       'violations': [{'clause': c, 'event': e} for e, c in reported[:50]]}, f, indent=1)
        for e, c in reported[:5]:
            print('  rejected: clause=%s event=%s' % (c, json.dumps(e)[:600]))
        by = collections.Counter(c for _, c in reported)
        print('  %d rejected events: %s' % (len(reported), dict(by)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        for e in errors[:2]:
            sys.stderr.write('note: ' + e + '\n')
        return 1
    if errors:
        for e in errors[:2]:
            sys.stderr.write('ERROR: ' + e + '\n')
        return 3
    print('%s %s: %d events in %d sessions accepted by %s; %d states; design models %s; %.1fs (recording %.1fs)' % (
        prop, tier, nev, len(sessions), module, states,
        [(m['model'], m['distinct_states']) for m in mc_stats], time.time() - t0, t_rec))
    return 0


if __name__ == '__main__':
    main()
