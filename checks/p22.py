'''P22: the native extensions under sanitizers.'''
import glob
import json
import os
import shutil
import subprocess
import sys
import sysconfig

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core
from lib.core import Inconclusive, Tally, Violation

LEVEL = 'exploration'
RULE = ('Both native extensions are built from the current sources with AddressSanitizer and '
        'UndefinedBehaviorSanitizer, and loaded into an interpreter with all allocations visible to them. '
        'Cases: random calls of the virtual file system at any offset and block size, with several files and '
        'handles, full disks and inhibited writes, compared with a model of the file and of the record of '
        'modified blocks; random SQL on databases opened as S3QL does, where the recorded blocks are copied '
        'like an incremental upload and the copy compared with the file byte by byte; random calls of the linked '
        'dictionary compared with a model, with lifetimes of all values; whole mount sessions. distinct: (kind, block size, operation, state).')
NAMES = dict(sqlite3ext=('sqlite3ext.pyx', 'cpp'), _linked_dict=('_linked_dict.py', 'c'))
SAN = ['-g', '-O1', '-fPIC', '-shared', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=undefined', '-w']
BUILD = '/dev/shm/p22-%d' % os.getpid()


def src():
    import s3ql
    return os.path.dirname(os.path.realpath(s3ql.__file__))


def build():
    pkg = BUILD + '/pkg/s3ql'
    os.makedirs(pkg)
    s = src()
    for f in os.listdir(s):
        if not f.endswith('.so') and f != '__pycache__':
            os.symlink(s + '/' + f, pkg + '/' + f)
    inc = sysconfig.get_paths()['include']
    procs = []
    for name, (source, ext) in NAMES.items():
        out = '%s/%s.%s' % (BUILD, name, ext)
        cmd = ['cython', '-3'] + (['--cplus'] if ext == 'cpp' else []) + ['%s/%s' % (s, source), '-o', out]
        cc = ['g++', '-std=c++17'] if ext == 'cpp' else ['gcc']
        cc += SAN + ['-I' + inc, '-I' + s, out, '-o', '%s/%s.so' % (pkg, name)]
        procs.append(subprocess.Popen(['sh', '-c', '"$0" "$@"', 'sh', '-c', ' '.join(
            "'%s'" % x for x in cmd) + ' && ' + ' '.join("'%s'" % x for x in cc)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        out, _ = p.communicate(timeout=300)
        if p.returncode:
            raise Inconclusive('cannot build the extensions with sanitizers:\n' + out.decode()[-3000:])


def gen(rng, tier):
    kinds = ['vfs', 'sql', 'ldict', 'mount', 'vfs', 'sql', 'ldict']
    i = 0
    while True:
        yield dict(kind=kinds[i % len(kinds)], seed=rng.randrange(2**40))
        i += 1


def lib(name):
    return subprocess.run(['gcc', '-print-file-name=' + name], capture_output=True, text=True).stdout.strip()


def case(c, scratch):
    t = Tally()
    san = scratch + '/san'
    os.mkdir(san)
    with open(scratch + '/case.json', 'w') as fh:
        json.dump(dict(c, scratch=scratch), fh)
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONPATH='%s/pkg:%s' % (BUILD, verif), PYTHONMALLOC='malloc', SANDIR=san,
               LD_PRELOAD='%s %s' % (lib('libasan.so'), lib('libstdc++.so')),
               ASAN_OPTIONS='detect_leaks=0:log_path=%s/san:exitcode=99:handle_segv=1:detect_stack_use_after_return=1'
                            ':allocator_may_return_null=1' % san,
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:log_path=%s/san' % san)
    with open(scratch + '/log', 'wb') as log:
        r = subprocess.run([sys.executable, '-X', 'faulthandler', verif + '/lib/native.py', scratch + '/case.json',
                            scratch + '/out.json'], env=env, stdout=log, stderr=log, timeout=240)
    log = open(scratch + '/log', errors='replace').read()
    reports = sorted(glob.glob(san + '/san.*'))
    if reports:
        rep = open(reports[0], errors='replace').read()
        raise Violation('sanitizer', 'sanitizer report (%s):\n%s' % (c['kind'], rep[:3500]))
    if 'runtime error:' in log:
        raise Violation('sanitizer', 'sanitizer report (%s):\n%s' % (c['kind'], log[-3500:]))
    if r.returncode < 0 or r.returncode == 99:
        raise Violation('crash', '%s: the interpreter died with status %d:\n%s' % (c['kind'], r.returncode, log[-3500:]))
    if r.returncode:
        raise Violation('failed', '%s: an operation failed:\n%s' % (c['kind'], log[-3500:]))
    out = json.load(open(scratch + '/out.json'))
    for k, v in out['tally'].items():
        t.add(k, v)
    for s in out['sigs']:
        t.sig(s)
    if out['bad']:
        if os.environ.get('TRACE'):
            print(log[-3000:])
        raise Violation(*out['bad'])
    t.add('kind_' + c['kind'])
    return t


def selftest():
    '''The sanitizers see what the instrumented extension does.'''
    env = dict(os.environ, LD_PRELOAD='%s %s' % (lib('libasan.so'), lib('libstdc++.so')), PYTHONMALLOC='malloc',
               ASAN_OPTIONS='detect_leaks=0', PYTHONPATH=BUILD + '/pkg')
    r = subprocess.run([sys.executable, '-c', 'import s3ql.database, s3ql._linked_dict as l; '
                        'from s3ql import sqlite3ext as x; print(x.__file__, l.__file__)'],
                       env=env, capture_output=True, text=True)
    if r.stdout.split() != ['%s/pkg/s3ql/%s.so' % (BUILD, n) for n in NAMES]:
        raise Inconclusive('the instrumented extensions are not loaded: ' + r.stdout + r.stderr)
    syms = subprocess.run(['nm', '-D'] + r.stdout.split(), capture_output=True, text=True).stdout
    if syms.count('__asan_init') < 2 or '__ubsan_handle' not in syms:
        raise Inconclusive('the extensions are not instrumented')


if __name__ == '__main__':
    try:
        build()
        selftest()
        core.main('P22', LEVEL, RULE, case, gen, quick_budget=35, thorough_budget=600, min_cases=20,
                  require=['uploads_compared', 'blocks_taken', 'writes_refused', 'disk_full', 'iterations_compared',
                           'lifetimes_checked', 'sessions', 'kind_vfs', 'kind_sql', 'kind_ldict'],
                  assumptions=['SQLite and the interpreter itself are not instrumented (only their heap '
                               'allocations are visible to the sanitizers).'])
    finally:
        shutil.rmtree(BUILD, ignore_errors=True)
