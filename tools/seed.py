"""Makes and confirms the planted bugs of /verif/seeded.

seed.py make FILE.py     each SEED in FILE becomes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json)
seed.py confirm [ID..]   in a scratch copy of /repo: builds, stable tests pass, demo passes before and fails after
seed.py check [ID..]     runs the property's check on the scratch copy with the patch"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv-pypy/bin/python'
DEMO = '#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', LC_ALL='C.UTF-8', PYTHONHASHSEED='0')


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d, d + '/repo'


def make(path):
    scope = {}
    exec(compile(open(path).read(), path, 'exec'), scope)
    for s in scope['SEEDS']:
        d, repo = copy()
        for name, old, new in s['edits']:
            p = os.path.join(repo, name)
            text = open(p).read()
            assert text.count(old) == 1, (s['id'], name, text.count(old), old)
            open(p, 'w').write(text.replace(old, new))
        out = os.path.join(SEEDED, s['id'])
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(d)
        print('made', s['id'])


def ids(names):
    return names or sorted(os.listdir(SEEDED))


def demo(id, repo):
    return subprocess.run(['bash', os.path.join(SEEDED, id, 'demo.sh')], cwd=repo, env=ENV, timeout=300, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT)


def confirm(id):
    d, repo = copy()
    try:
        out = []
        p = demo(id, repo)
        if p.returncode != 0:
            out.append('demo fails unpatched: ' + p.stdout.decode()[-300:])
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(SEEDED, id, 'patch.diff')])
        p = demo(id, repo)
        if p.returncode == 0:
            out.append('demo passes patched')
        else:
            last = p.stdout.decode().strip().splitlines()[-1:]
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'addopts=', 'tests/unit'], cwd=repo, env=dict(ENV, PYTHONPATH=repo),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        tail = p.stdout.decode().strip().splitlines()[-1]
        if '59 passed' not in tail or 'failed' in tail:
            out.append('tests: ' + tail)
        return id, out or ['ok (%s)' % (last,)]
    finally:
        shutil.rmtree(d)


def check(id):
    d, repo = copy()
    try:
        prop = json.load(open(os.path.join(SEEDED, id, 'meta.json')))['property']
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(SEEDED, id, 'patch.diff')])
        ev = tempfile.mkdtemp()
        p = subprocess.run(['python3-vt', os.path.join(VERIF, 'run.py'), prop], cwd=VERIF, env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=ev),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines = [l for l in p.stdout.decode().splitlines() if l.startswith('VIOLATION')]
        return id, [str(p.returncode)] + lines[:2] + ([] if lines else p.stdout.decode().splitlines()[-3:])
    finally:
        shutil.rmtree(d)


def main():
    what, names = sys.argv[1], sys.argv[2:]
    if what == 'make':
        for n in names:
            make(n)
    elif what == 'confirm':
        with ThreadPoolExecutor(6) as ex:
            for id, out in ex.map(confirm, ids(names)):
                print(id, *out)
    else:
        for id in ids(names):
            id, out = check(id)
            print(id, '|'.join(out)[:400], flush=True)


main()
