#!/opt/venv/bin/python
"""rectrace.py PROP BASE [write]: record every quick session of PROP against VERIF_REPO, in one process, and compare its digest with
the one in BASE (a json file sid -> digest); exit 1 at the first difference, 0 when all agree.  With 'write', write BASE."""
import hashlib, importlib, json, os, random, resource, signal, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import check
prop, base = sys.argv[1], sys.argv[2]
write = len(sys.argv) > 3

resource.setrlimit(resource.RLIMIT_AS, (check.MEM_LIMIT, check.MEM_LIMIT))
sys.setrecursionlimit(20000)
sys.stdin = open(os.devnull)
out = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
try:
    drv = importlib.import_module('drivers.' + prop.lower())
except BaseException as e:
    os.write(out, ('import failed %r\n' % e).encode())
    os._exit(1)
sessions = list(enumerate(drv.sessions('quick', random.Random('%s/1' % prop))))
ref = {} if write else json.load(open(base))
order = list(sessions)
random.Random(5).shuffle(order)
d = tempfile.mkdtemp(prefix='rt.')
path = os.path.join(d, 't')
res = 0
for sid, sess in order:
    rec = check.Rec(path)
    rec.sess = sid
    rec.rng = random.Random('%s/%s/%s' % (prop, 1, sid))
    try:
        if getattr(drv, 'FORK', False):
            check.forked_session(drv, sess, rec)
        else:
            drv.run_session(sess, rec)
    except BaseException as e:
        rec.f.write('crash %s' % type(e).__name__)
    rec.f.close()
    h = hashlib.sha1(open(path, 'rb').read()).hexdigest()
    if write:
        ref[str(sid)] = h
    elif ref.get(str(sid)) != h:
        os.write(out, ('%s differs in session %s\n' % (prop, sid)).encode())
        res = 1
        break
os.remove(path)
os.rmdir(d)
if write:
    json.dump(ref, open(base, 'w'))
os._exit(res)
