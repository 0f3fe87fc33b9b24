"""seedlib: write /verif/seeded/<id>/ from (file, old, new) edits against /repo HEAD and a demo in Python."""
import json, os, subprocess, tempfile, shutil

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')


def seed(sid, prop, edits, demo, needs, breaks):
    tmp = tempfile.mkdtemp(prefix='mkseed.')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + tmp + ' && cd ' + tmp + ' && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base', shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'pattern occurs', s.count(old), 'times in', f, repr(old[:60]))
                return
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(ROOT, sid)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', '-C', tmp, 'diff'], capture_output=True, text=True, check=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n/opt/venv/bin/python - <<'E' </dev/null\n".replace(" </dev/null", "") + demo.strip('\n') + "\nE\n")
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(tmp)
