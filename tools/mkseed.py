#!/usr/bin/env python3
'''Make and confirm a planted bug: tools/mkseed.py SPEC.py [--no-tests] [--checks P01,P02]

SPEC.py defines: id, property, needs, breaks, edits=[(file, old, new)], demo (python source) and
optionally files={name: text}. Works in a scratch copy of /repo.'''
import json, os, runpy, shutil, subprocess, sys, tempfile
spec = runpy.run_path(sys.argv[1])
V = '/verif'
out = '%s/seeded/%s' % (V, spec['id'])
base = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
repo = base + '/repo'
try:
    shutil.copytree('/repo', repo, symlinks=True)
    for file, old, new in spec['edits']:
        s = open(repo + '/' + file).read()
        assert s.count(old) == 1, (file, s.count(old), old)
        open(repo + '/' + file, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    files = dict(spec.get('files', {}))
    files['demo.py'] = spec['demo']
    for n, t in files.items():
        open(out + '/' + n, 'w').write(t)
    if 'demolib' in spec['demo']:
        shutil.copy(V + '/tools/demolib.py', out)
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository, after build.sh\n'
        'd="$(cd "$(dirname "$0")" && pwd)"\n'
        'PYTHONPATH="$PWD/src:$d" PYTHONDONTWRITEBYTECODE=1 timeout 200 '
        '/opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']),
              open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True)
    print(spec['id'], 'unchanged:', a.returncode, a.stdout[-200:], a.stderr[-200:] if a.returncode else '')
    print(spec['id'], 'patched:', b.returncode, b.stdout[-200:], b.stderr[-150:])
    ok = a.returncode == 0 and b.returncode not in (0, 124)
    env = dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env['PATH'] = '/opt/venv/bin:' + env['PATH']
    if '--no-tests' not in sys.argv:
        ign = ['t4_fuse', 't5_cache', 't5_cp', 't5_ctrl', 't5_failsafe', 't5_full', 't5_lock_rm', 't6_upgrade']
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
            '--timeout=60'] + ['--ignore=tests/%s.py' % i for i in ign] + ['tests'], cwd=repo,
            env=env, capture_output=True, text=True)
        print(spec['id'], 'tests:', [x for x in t.stdout.splitlines() if x.startswith('FAILED')],
              t.stdout.splitlines()[-1:])
        ok = ok and t.returncode == 0
    if '--checks' in sys.argv:
        env['PYTHONPATH'] = repo + '/src:' + V
        for pid in sys.argv[sys.argv.index('--checks') + 1].split(','):
            c = subprocess.run(['/opt/venv/bin/python', V + '/checks/%s.py' % pid.lower()], cwd=V,
                               env=dict(env, VERIF_SEED='1'), capture_output=True, text=True)
            l = [x for x in (c.stdout + c.stderr).splitlines() if x.startswith('---') or 'HARNESS' in x]
            print(spec['id'], 'check', pid, c.returncode, [x[:200] for x in l[:2]])
    print(spec['id'], 'OK' if ok else 'NOT-OK')
finally:
    shutil.rmtree(base)
