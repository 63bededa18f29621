'''P24: administrative commands never lose or damage the file system.'''
import hashlib
import os
import re
import shutil
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, crash, dbcheck, hist, kern, treeops, world
from lib.core import HarnessError, Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case is a file system with a random history of several mount sessions (or none, or one '
        'whose last session was killed) and one administrative command: passphrase, recover-key, '
        'shrink-db, restore-metadata, clear, upgrade, mkfs over an existing file system, mkfs on '
        'an empty backend, or any of them with wrong credentials. The command is run to its end '
        'on one copy, and on further copies killed before or after a random backend request, '
        'file operation in the cache directory or SQL statement, or with a backend that fails '
        'for good from a random request on. Afterwards the real mount and fsck decide with the '
        'old and new credentials, on the same and another machine, what tree there is; it is '
        'compared with the tree before the command (of the chosen backup for restore-metadata), '
        'and the consistency of database and store is checked. Refused commands must leave '
        'backend and cache byte for byte the same. distinct: command, state, request at which '
        'it was killed or failed.')

PW = 'the old passphrase'
NEW = 'a new pass phrase'
KINDS = dict(passphrase=3, recover=3, shrink=4, restore=5, clear=3, upgrade=3, mkfs=2, remkfs=2,
             refused=2)


def gen(rng, tier):
    kinds = list(KINDS)
    first = kinds[:]
    rng.shuffle(first)
    while True:
        kind = first.pop() if first else rng.choices(kinds, list(KINDS.values()))[0]
        plain = kind in ('shrink', 'restore', 'clear', 'upgrade', 'mkfs', 'remkfs') and \
            rng.random() < 0.5
        cfg = hist.rand_config(rng, plain=plain, delay=None, clock=50,
                               meta_kib=rng.choice([1, 1, 4, 64]))
        yield dict(kind=kind, seed=rng.randrange(2**40), cfg=cfg,
                   sessions=rng.choice([0, 1, 2, 3]) if kind != 'restore' else
                   rng.choice([2, 3, 4, 5]),
                   dirty=rng.random() < 0.25, points=rng.choice([2, 3, 4]))


# --------------------------------------------------------------------------------------------
# helpers

def digest(w):
    '''Everything stored: backend and local state'''
    from s3ql.parse_args import escape
    url = escape(w.url)
    res = {}
    for top in ['backend'] + [d for d in os.listdir(w.root) if d.startswith('cache-')]:
        for d, _, files in os.walk(os.path.join(w.root, top)):
            for f in files:
                p = os.path.join(d, f)
                if p.endswith(('.log', '.lock', '.db-shm')):
                    continue
                name = os.path.relpath(p, w.root).replace(url, 'FS')
                with open(p, 'rb') as fh:
                    res[name] = hashlib.sha256(fh.read()).hexdigest()
    return res


def same(a, b, what):
    if a != b:
        x = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        raise Violation('refused-command-changed', '%s changed %s' % (what, ', '.join(x[:6])))


def objpath(w, key):
    '''File of a stored object'''
    for d, _, files in os.walk(w.backend_dir):
        for f in files:
            if f == key:
                return os.path.join(d, f)
    return None


def stored(w, prefix):
    return sorted(f for d, _, files in os.walk(w.backend_dir) for f in files
                  if f.startswith(prefix))


def remote_seq(w):
    # the newest parameters (the names give the sequence number)
    return max(int(x[12:], 16) for x in stored(w, 's3ql_params_'))


def mount(w, c, *, machine='m0', extra=None):
    '''A session that reads everything. Returns (snapshot, None) or (None, exit code)'''
    async def body(k, ses):
        s = await kern.snapshot(k)
        if extra is not None:
            await extra(k)
        await k.forget_all()
        return s

    r = hist.session(w, c['cfg'], body, seed=c['seed'], machine=machine)
    if r.ok:
        return r.value, None
    if r.status == 'exit':
        return None, r.code
    world.raise_for(r, 'mount')


def expect(got, want, kind, what):
    d = kern.diff_trees(want, got)
    if d:
        raise Violation(kind, '%s: the tree is not what it should be (first: expected, second: '
                        'found): %s' % (what, '; '.join(d)))


def opened(w, c, what, *, machine='m0', t, fsck_args=(), codes=(0, 128)):
    '''Mount, after fsck if mount asks for it. Returns (tree, fsck was needed)'''
    s, code = mount(w, c, machine=machine)
    if s is not None:
        t.add('mounted_directly')
        return s, False
    if code not in (30, 31):
        raise Violation('unusable:%s' % code, '%s: mount ends with exit code %s' % (what, code))
    crash.must_fsck(w, *fsck_args, machine=machine, what='fsck, ' + what, codes=codes)
    t.add('fsck_needed')
    s, code = mount(w, c, machine=machine)
    if s is None:
        raise Violation('unusable:%s' % code, '%s: after fsck, mount still ends with exit code %s'
                        % (what, code))
    return s, True


def sound(w, what, t, machine='m0'):
    '''fsck finds nothing, database and stored objects are consistent'''
    crash.must_fsck(w, '--force', machine=machine, what='fsck at the end, ' + what, codes=(0,))
    dbcheck.check_db(w, what, machine=machine)
    dbcheck.check_store(w, what, machine=machine, tally=t)


class Fail:
    '''The *n*-th request and all after it fail'''

    def __init__(self, n):
        self.left = n

    def __call__(self, op, key):
        self.left -= 1
        return None if self.left > 0 else OSError(5, 'injected')


def instrument(w, kinds, at, machine='m0', fail=0, clockshift=0):
    '''(setup, collect) for a command that dies at point *at*'''
    box = {}

    def setup():
        pts = world.Points(w.root + '/points', kinds, at, prefix=w.cachedir(machine))
        ctl = world.BackendCtl()
        ctl.points = pts
        if fail:
            ctl.fault = Fail(fail)
        world.install_backend(ctl)
        pts.install()
        box.update(pts=pts, ctl=ctl)

    def collect():
        return box['pts'].n, sum(box['ctl'].counts.values())

    return setup, collect


def disturbed(w0, c, t, scratch, run, judge):
    '''*run*(w, setup, collect) runs the command. First undisturbed, then disturbed; *judge*(w, r,
    complete, what) looks at the result.'''
    rng = rng_for('p24-points', c['seed'])
    kinds = rng.choice([('backend', 'file'), ('backend', 'file'), ('backend', 'file', 'sql'),
                        ('backend',)])
    w = w0.copy(scratch + '/full')
    su, co = instrument(w, kinds, 0)
    r = run(w, su, co)
    if not r.ok:
        if r.status == 'timeout':
            raise core.Inconclusive('%s timed out' % c['kind'])
        raise Violation('command-failed:%s' % (r.exc_type or r.code), '%s failed: %r' % (
            c['kind'], r), r.describe())
    n, nreq = r.value
    t.add('points_seen', n)
    judge(w, r, True, '%s completed' % c['kind'])
    t.add('completed_' + c['kind'])
    shutil.rmtree(w.root)
    for x in range(c['points']):
        w = w0.copy(scratch + '/c%d' % x)
        if rng.random() < 0.2:
            at = rng.randrange(1, nreq + 1)
            su, co = instrument(w, kinds, 0, fail=at)
            r = run(w, su, co)
            what = '%s with all backend requests failing from number %d of %d on' % (
                c['kind'], at, nreq)
            if r.status == 'timeout':
                raise core.Inconclusive('%s timed out' % c['kind'])
            t.add('failed')
            t.sig(c['kind'], 'fail', c['dirty'], at)
            complete = r.ok
        else:
            at = rng.randrange(1, n + 1)
            su, co = instrument(w, kinds, at)
            r = run(w, su, co)
            if r.status != 'crash':
                if r.ok:        # not the same number of points each time
                    t.add('point_not_reached')
                    complete = True
                    what = c['kind'] + ' completed'
                else:
                    raise Violation('command-failed:%s' % (r.exc_type or r.code),
                                    '%s failed: %r' % (c['kind'], r), r.describe())
            else:
                p = open(w.root + '/points').read()
                what = '%s killed at %s' % (c['kind'], p)
                t.add('killed_' + c['kind'])
                t.sig(c['kind'], c['dirty'], re.sub(r'[0-9a-f]{6,}|\d+', '#', p)[:80])
                complete = False
        try:
            judge(w, r, complete, what)
        except Violation as exc:
            exc.detail = '%s\ncommand: %s' % (exc.detail or '', r.describe())
            raise
        t.add('judged')
        shutil.rmtree(w.root)


# --------------------------------------------------------------------------------------------
# file systems

def build(c, scratch, t, additive=False):
    '''The file system. Returns (world, master key or None, {seq_no: tree})'''
    cfg = c['cfg']
    rng = rng_for('p24', c['seed'])
    w = world.World(scratch + '/w', plain=cfg['plain'], block_kib=cfg['block_kib'],
                    meta_kib=cfg['meta_kib'], compress=cfg['compress'], max_connections=cfg['conns'],
                    passphrase=PW)
    r = w.must_mkfs()
    key = None
    if not cfg['plain']:
        m = re.search(r'---BEGIN MASTER KEY---\s*\n(.*)\n---END', r.log)
        if not m:
            raise Violation('no-master-key', 'mkfs did not print the master key', r.describe())
        key = m.group(1)
    trees = {}
    if additive:
        # (before the first session: the tree is only known once it has been mounted)
        trees[remote_seq(w)] = None
    bs = cfg['block_kib'] * 1024
    model = None
    for i in range(c['sessions']):
        if additive or i % 2 == 0:
            async def body(k, ses, i=i):
                p = (b'session%d' % i,)
                await k.mkdir(p, 0o755)
                await treeops.build(k, rng_for('b', c['seed'], i), Tally(), p, bs)
                if not additive and i:
                    await k.rmtree((b'session0',))
                await k.flushcache()
                s = await kern.snapshot(k)
                await k.forget_all()
                return s
        else:
            async def body(k, ses, i=i):
                # removes and changes things
                r = rng_for('c', c['seed'], i)
                names = [e[0] for e in await k.readdir_raw(await k.walk((b'session0',)), 50)]
                for n in names:
                    p = (b'session0', n)
                    a = await k.getattr(p)
                    if a.st_mode & 0o170000 == 0o100000 and r.random() < 0.6:
                        h = await k.open(p, os.O_RDWR)
                        await k.write(h, r.randrange(3000), r.randbytes(2000))
                        await k.release(h)
                    elif a.st_mode & 0o170000 == 0o40000:
                        await k.rmtree(p)
                    else:
                        await k.setattr(p, dict(mode=0o400))
                s = await kern.snapshot(k)
                await k.forget_all()
                return s
        s = world.check_result(hist.session(w, cfg, body, seed=c['seed'] + i))
        trees[remote_seq(w)] = s
        t.add('sessions')
    if c['dirty']:
        async def body(k, ses):
            await k.mkdir((b'unsaved',), 0o755)
            await treeops.build(k, rng_for('d', c['seed']), Tally(), (b'unsaved',), bs)
            if rng.random() < 0.5:
                await k.flushcache()
            os._exit(world.CRASH_CODE)

        r = hist.session(w, cfg, body, seed=c['seed'] - 1)
        if r.status != 'crash':
            raise HarnessError('the session was not killed: %s' % r.describe())
        t.add('dirty_file_systems')
    return w, key, trees


def twin(w, c, t, scratch):
    '''The tree that the file system has without the command'''
    x = w.copy(scratch + '/twin')
    s, _ = opened(x, c, 'without the command', t=t)
    shutil.rmtree(x.root)
    return s


# --------------------------------------------------------------------------------------------
# the commands

def open_with_either(w, c, what, t):
    '''Which passphrase works? Leaves the working one in the authinfo file.'''
    works = []
    for pw in (PW, NEW):
        x = w.copy(w.root + '-pw')
        x.write_auth(pw)
        _, code = mount(x, c)
        shutil.rmtree(x.root)
        if code in (None, 30, 31):
            works.append(pw)
        elif code != 17:
            raise Violation('unusable:%s' % code, '%s: mount with %r ends with exit code %s' % (
                what, pw, code))
    return works


def k_passphrase(c, scratch, t):
    w0, key, _ = build(c, scratch, t)
    ref = twin(w0, c, t, scratch)
    recover = c['kind'] == 'recover'
    rng = rng_for('p24-pw', c['seed'])
    how = 'ok'
    if recover:
        how = rng.choice(['ok', 'missing', 'corrupt', 'garbage', 'all'])
        for k in stored(w0, 's3ql_passphrase'):
            p = objpath(w0, k)
            if how == 'all' or k == 's3ql_passphrase' and how == 'missing':
                os.unlink(p)
            elif k == 's3ql_passphrase' and how == 'corrupt':
                b = bytearray(open(p, 'rb').read())
                b[-3] ^= 4
                open(p, 'wb').write(b)
            elif k == 's3ql_passphrase' and how == 'garbage':
                open(p, 'wb').write(b'\0' * 100)
        t.add('recover_' + how)

    def run(w, su, co):
        if recover:
            return w.adm('recover-key', w.url, stdin='%s\n%s\n' % (key, NEW), setup=su, collect=co)
        return w.adm('passphrase', w.url, stdin=NEW + '\n', setup=su, collect=co)

    def judge(w, r, complete, what):
        if recover and not complete and how != 'ok':
            # nothing worked before: the command can be repeated
            r = run(w, None, None)
            if not r.ok:
                raise Violation('command-failed', 'running recover-key again after it was killed: '
                                '%r' % r, r.describe())
            complete = True
        works = open_with_either(w, c, what, t)
        if not works:
            raise Violation('locked-out', '%s: neither the old nor the new passphrase works' % what)
        if complete and works != [NEW]:
            raise Violation('passphrase-not-changed', '%s: mount accepts %r' % (what, works))
        if len(works) > 1:
            raise Violation('two-passphrases', '%s: both passphrases work' % what)
        w.write_auth(works[0])
        t.add('works_new' if works[0] == NEW else 'works_old')
        if complete:
            # the backup copies hold the same
            # (the name of an object is part of what is encrypted: read with the library)
            names = ['s3ql_passphrase' + k for k in ('', '_bak1', '_bak2', '_bak3')]
            keys = dbkeys(w, NEW, names)
            for k, v in zip(names, keys):
                if v != keys[0]:
                    raise Violation('key-backup-differs', '%s: %s is not usable with the new '
                                    'passphrase: %s' % (what, k, v if isinstance(v, str) else
                                                        'other key'))
                t.add('key_backups_read')
        got, _ = opened(w, c, what, t=t)
        expect(got, ref, 'tree-changed', what)
        if rng.random() < 0.4:
            sound(w, what, t)
        elif rng.random() < 0.4:
            s, code = mount(w, c, machine='m1')
            if s is None:
                raise Violation('unusable:%s' % code, '%s: mount on another machine ends with '
                                'exit code %s' % (what, code))
            expect(s, ref, 'tree-changed', what + ', seen from another machine')

    disturbed(w0, c, t, scratch, run, judge)


def dbkeys(w, pw, names):
    '''The master keys stored in *names*, encrypted with *pw*'''
    def child():
        world.preimport()
        import trio

        from s3ql.authinfo import CompressAlgorithm, CompressSpec
        from s3ql.backends import local
        from s3ql.backends.comprenc import AsyncComprencBackend

        async def main():
            b = await local.AsyncBackend.create(storage_url=w.url, backend_options={},
                                                max_connections=1)
            cb = await AsyncComprencBackend.create(
                pw.encode(), CompressSpec(CompressAlgorithm('none'), 0), b)
            res = []
            for name in names:
                try:
                    res.append((await cb.fetch(name))[0])
                except Exception as exc:  # noqa: BLE001
                    res.append(repr(exc))
            return res

        return world.Result('exit', code=0, value=trio.run(main))

    return world.check_result(world.fork_call(child, timeout=60, logpath=w._log('key')))


def k_shrink(c, scratch, t):
    c = dict(c, sessions=max(c['sessions'], 1))
    w0, _, _ = build(c, scratch, t)
    if c['dirty']:
        x = w0.copy(scratch + '/x')
        before = digest(x)
        r = x.adm('shrink-db', x.url)
        if r.ok or r.code not in (30, 31):
            raise Violation('in-use-not-refused', 'shrink-db on a file system that was not '
                            'unmounted cleanly: %r' % r, r.describe())
        same(before, digest(x), 'shrink-db, refused,')
        shutil.rmtree(x.root)
        x = w0.copy(scratch + '/x')
        r = x.adm('shrink-db', x.url, machine='m1')
        if r.ok or r.code not in (30, 31):
            raise Violation('in-use-not-refused', 'shrink-db on another machine, on a file system '
                            'that was not unmounted cleanly: %r' % r, r.describe())
        shutil.rmtree(x.root)
        t.add('in_use_refused', 2)
        crash.must_fsck(w0)
    rng = rng_for('p24-shrink', c['seed'])
    if rng.random() < 0.8:
        async def body(k, ses):
            p = (b'lots',)
            await k.mkdir(p, 0o755)
            for i in range(rng.choice([40, 150])):
                await k.symlink(p + (b'link%d' % i,), b'%d' % i * 200)
            await k.rmtree(p)
            await k.forget_all()
        world.check_result(hist.session(w0, c['cfg'], body, seed=c['seed']))
    ref = twin(w0, c, t, scratch)
    machine = rng.choice(['m0', 'm0', 'm2'])
    size0 = os.path.getsize(w0.cachepath() + '.db')

    def run(w, su, co):
        return w.adm('shrink-db', w.url, setup=su, collect=co, machine=machine)

    def judge(w, r, complete, what):
        if complete:
            size = os.path.getsize(w.cachepath(machine) + '.db')
            if size > size0:
                raise Violation('db-grew', '%s: database grew from %d to %d bytes' % (
                    what, size0, size))
            t.add('db_shrunk' if size < size0 else 'db_same_size')
            for m in (machine, 'm7'):
                x = w.copy(w.root + '-x')
                s, code = mount(x, c, machine=m)
                if s is None:
                    raise Violation('unusable:%s' % code, '%s: mount (%s) ends with exit code %s'
                                    % (what, m, code))
                expect(s, ref, 'tree-changed', '%s, mounted on %s' % (what, m))
                sound(x, what, t, machine=m)
                shutil.rmtree(x.root)
            return
        # the machine on which it was killed can continue
        x = w.copy(w.root + '-x')
        s, f = opened(x, c, what, machine=machine, t=t)
        expect(s, ref, 'tree-changed', what)
        sound(x, what, t, machine=machine)
        shutil.rmtree(x.root)
        # so can another one
        x = w.copy(w.root + '-x')
        shutil.rmtree(x.cachedir(machine))
        s, code = mount(x, c, machine='m7')
        if s is None:
            if code not in (30, 31):
                raise Violation('unusable:%s' % code, '%s: mount on another machine ends with '
                                'exit code %s' % (what, code))
            f = x.fsck('--force-remote', machine='m7')
            if f.status != 'exit' or f.code not in (0, 128):
                # half of a new upload: back to the last complete one
                t.add('had_to_restore')
                seqs = sorted(int(q[12:], 16) for q in stored(x, 's3ql_params_'))
                r2 = x.adm('restore-metadata', x.url, machine='m7', stdin='%d\n' % (len(seqs) - 2))
                if not r2.ok:
                    raise Violation('restore-failed', '%s: %r, and %r' % (what, f, r2),
                                    f.describe() + r2.describe())
                crash.must_fsck(x, machine='m7', what='fsck after restore, ' + what)
            s, code = mount(x, c, machine='m7')
            if s is None:
                raise Violation('unusable:%s' % code, '%s: mount on another machine after fsck '
                                'ends with exit code %s' % (what, code))
        expect(s, ref, 'tree-changed', what + ', seen from another machine')
        t.add('seen_from_elsewhere')
        shutil.rmtree(x.root)

    disturbed(w0, c, t, scratch, run, judge)


def k_restore(c, scratch, t):
    c = dict(c, dirty=False)
    w0, _, trees = build(c, scratch, t, additive=True)
    rng = rng_for('p24-restore', c['seed'])
    seqs = sorted(int(q[12:], 16) for q in stored(w0, 's3ql_params_'))
    newest = trees[max(trees)]
    good = [q for q in trees if trees[q] is not None and q in seqs]
    if len(good) != len(trees) - 1:
        raise Violation('backup-missing', 'after %d sessions only the backups of %d are stored'
                        % (len(trees) - 1, len(good)))
    q = rng.choice(good)
    machine = rng.choice(['m0', 'm0', 'm0', 'm1'])
    idx = seqs.index(q)
    old = trees[q]

    def run(w, su, co):
        return w.adm('restore-metadata', w.url, machine=machine, setup=su, collect=co,
                     stdin=rng.choice(['', 'x\n', '9999\n\n']) + '%d\n' % idx)

    def judge(w, r, complete, what):
        # the backend has not been changed
        x = w.copy(w.root + '-x')
        s, code = mount(x, c, machine='m5')
        if s is None:
            raise Violation('unusable:%s' % code, '%s: mount on another machine ends with exit '
                            'code %s' % (what, code))
        expect(s, newest, 'tree-changed', what + ', seen from another machine before fsck')
        shutil.rmtree(x.root)
        x = w.copy(w.root + '-x')
        s, code = mount(x, c, machine=machine)
        if complete and code != 30:
            raise Violation('restored-not-checked', '%s: mount before fsck ends with %s instead '
                            'of 30' % (what, code))
        if s is not None:
            expect(s, newest, 'old-metadata-used', what + ', mounted without fsck')
            t.add('mounted_after_kill')
        elif code != 30:
            raise Violation('unusable:%s' % code, '%s: mount ends with exit code %s' % (
                what, code))
        shutil.rmtree(x.root)
        f = w.fsck(*(() if rng.random() < 0.5 else ('--force',)), machine=machine)
        if f.status != 'exit' or f.code not in (0, 128):
            raise Violation('fsck-failed:%s' % f.code, '%s: fsck ended with %r' % (what, f),
                            f.describe())
        s, code = mount(w, c, machine=machine)
        if s is None:
            raise Violation('unusable:%s' % code, '%s: mount after fsck ends with exit code %s' %
                            (what, code))
        d = kern.diff_trees(old, s)
        if d and (complete or kern.diff_trees(newest, s)):
            raise Violation('wrong-backup', '%s: after fsck the tree is not that of the chosen '
                            'backup%s: %s' % (what, '' if complete else ' nor the newest',
                                              '; '.join(d)), f.describe())
        t.add('restored' if not d else 'not_restored')
        s2, code = mount(w, c, machine='m6')
        if s2 is None:
            raise Violation('unusable:%s' % code, '%s: mount elsewhere after fsck ends with exit '
                            'code %s' % (what, code))
        expect(s2, s, 'tree-differs', what + ', seen from another machine after fsck')
        s2, code = mount(w, c, machine=machine)
        if s2 is None:
            raise Violation('unusable:%s' % code, '%s: back on the first machine, mount ends with '
                            'exit code %s' % (what, code))
        expect(s2, s, 'tree-differs', what + ', back on the first machine')
        sound(w, what, t, machine=machine)

    disturbed(w0, c, t, scratch, run, judge)


def later(secs=2000):
    '''The clock of this process is ahead (so that no two file systems are of the same second)'''
    import time
    orig = time.time
    time.time = lambda: orig() + secs


def k_clear(c, scratch, t):
    w0, _, _ = build(c, scratch, t)
    rng = rng_for('p24-clear', c['seed'])
    ref = twin(w0, c, t, scratch)
    machine = rng.choice(['m0', 'm0', 'm1'])
    before = digest(w0)
    for ans in rng.sample(['no\n', '\n', '', 'y\n', 'YES!\n', 'nyes\n'], 2):
        r = w0.adm('clear', w0.url, stdin=ans)
        if r.ok:
            raise Violation('clear-without-consent', 'clear succeeds after %r' % ans, r.describe())
        same(before, digest(w0), 'clear answered with %r' % ans)
        t.add('clear_declined')

    def run(w, su, co):
        return w.adm('clear', w.url, stdin='yes\n', setup=su, collect=co, machine=machine)

    def judge(w, r, complete, what):
        if not complete:
            # either everything is still there, or it can be continued
            if stored(w, 's3ql_params') and rng.random() < 0.7:
                x = w.copy(w.root + '-x')
                if len(digest_backend(x)) == len(digest_backend(w0)) and not c['dirty']:
                    s, _ = opened(x, c, what, machine=rng.choice([machine, machine, 'm3']), t=t)
                    expect(s, ref, 'tree-changed', what)
                    t.add('killed_early')
                shutil.rmtree(x.root)
            if not stored(w, 's3ql_params') and not stored(w, 's3ql_metadata'):
                t.add('killed_late')
            r = run(w, None, None)
            if not r.ok:
                raise Violation('clear-not-repeatable', '%s: running it again: %r' % (what, r),
                                r.describe())
        left = stored(w, '')
        if left:
            raise Violation('objects-left', '%s: %d objects are left: %s' % (
                what, len(left), ', '.join(left[:5])))
        for sfx in ('.db', '.params', '-cache'):
            if os.path.exists(w.cachepath(machine) + sfx):
                raise Violation('local-state-left', '%s: %s is left' % (what, sfx))
        s, code = mount(w, c, machine=machine)
        if code != 18:
            raise Violation('cleared-but-mountable', '%s: mount ends with %s instead of 18' % (
                what, code))
        w.must_mkfs(machine=rng.choice(['m0', machine, 'm2']), setup=later)
        for m in ('m0', machine, 'm2'):
            s, code = mount(w, c, machine=m)
            if s is None:
                raise Violation('unusable:%s' % code, '%s: mount of a new file system (%s) ends '
                                'with exit code %s' % (what, m, code))
            if sorted(s) != [(), (b'lost+found',)]:
                raise Violation('old-file-system-shown', '%s: a new file system shows %r' % (
                    what, sorted(s)[:5]))
        sound(w, 'new file system after ' + what, t, machine='m2')
        t.add('recreated')

    disturbed(w0, c, t, scratch, run, judge)


def digest_backend(w):
    return {k: v for k, v in digest(w).items() if k.startswith('backend')}


def old_revision(w, c):
    '''Turns the file system into one of the previous revision, as that version leaves it after a
    clean unmount.'''
    gone = stored(w, 's3ql_metadata_') + stored(w, 's3ql_params')

    def child():
        world.preimport()
        import trio

        import s3ql
        from s3ql.common import freeze_basic_mapping, thaw_basic_mapping
        fn = w.cachepath() + '.params'
        p = thaw_basic_mapping(open(fn, 'rb').read())
        p['max_obj_size'] = p.pop('data_block_size')
        p.pop('metadata_block_size')
        for k in ('is_mounted', 'db_size', 'db_md5'):
            p.pop(k, None)
        p['revision'] = s3ql.CURRENT_FS_REV - 1
        p['inode_gen'] = 0
        p['max_inode'] = 1000
        p['last-modified'] = p.pop('last_modified')
        with open(fn, 'wb') as fh:
            fh.write(freeze_basic_mapping(p))

        async def main():
            backend = await dbcheck.make_backend(w)
            async with backend:
                await backend.store('s3ql_metadata', b'old metadata ' * 500, p)

        trio.run(main)
        return world.Result('exit', code=0, value=p)

    p = world.check_result(world.fork_call(child, timeout=60, logpath=w._log('old')))
    for k in gone:
        os.unlink(objpath(w, k))
    return p


def old_object(w):
    '''(contents, metadata) of s3ql_metadata'''
    def child():
        world.preimport()
        import trio

        async def main():
            backend = await dbcheck.make_backend(w)
            async with backend:
                try:
                    return await backend.fetch('s3ql_metadata')
                except Exception as exc:  # noqa: BLE001
                    raise Violation('old-metadata-lost', repr(exc))

        return world.Result('exit', code=0, value=trio.run(main))

    return world.check_result(world.fork_call(child, timeout=60, logpath=w._log('old')))


def k_upgrade(c, scratch, t):
    c = dict(c, dirty=False)
    w0, _, _ = build(c, scratch, t)
    rng = rng_for('p24-up', c['seed'])
    before = digest(w0)
    r = w0.adm('upgrade', w0.url, stdin='yes\n')
    if not r.ok:
        raise Violation('upgrade-current', 'upgrade of a current file system: %r' % r,
                        r.describe())
    same(before, digest(w0), 'upgrade of a current file system')
    ref = twin(w0, c, t, scratch)
    old = old_revision(w0, c)
    before = digest(w0)
    s, code = mount(w0, c)
    if code != 32:
        raise Violation('old-revision-mounted', 'mount of an old revision ends with %s' % code)
    f = w0.fsck()
    if f.ok or f.code != 32:
        raise Violation('old-revision-checked', 'fsck of an old revision: %r' % f, f.describe())
    same(before, digest(w0), 'mount or fsck of an old revision')
    r = w0.adm('upgrade', w0.url, stdin=rng.choice(['no\n', '\n', 'y\n']))
    if r.ok:
        raise Violation('upgrade-without-consent', repr(r), r.describe())
    same(before, digest(w0), 'declined upgrade')
    r = w0.adm('upgrade', w0.url, stdin='yes\n', machine='m3')
    if r.ok:
        raise Violation('upgrade-without-metadata', 'upgrade without local metadata: %r' % r,
                        r.describe())
    same({k: v for k, v in before.items() if k.startswith('backend')}, digest_backend(w0),
         'upgrade on a machine without metadata')
    msz = rng.choice([1, 4, 64])

    def run(w, su, co):
        return w.adm('upgrade', '--metadata-block-size', str(msz), w.url, stdin='yes\n',
                     setup=su, collect=co)

    def judge(w, r, complete, what):
        if not complete:
            x = w.copy(w.root + '-x')
            s, code = mount(x, c)
            if s is not None:
                expect(s, ref, 'tree-changed', what + ', mounted without completing it')
                t.add('mounted_half_upgraded')
            shutil.rmtree(x.root)
            r = w.adm('upgrade', '--metadata-block-size', str(msz), w.url, stdin='yes\n')
            if not r.ok:
                raise Violation('upgrade-not-resumable', '%s: running it again: %r' % (what, r),
                                r.describe())
            t.add('resumed')
        data, meta = old_object(w)
        if meta['revision'] == old['revision']:
            raise Violation('old-version-not-locked-out', '%s: s3ql_metadata still has the old '
                            'revision, so that the previous S3QL version would use it' % what)
        if data != b'old metadata ' * 500:
            raise Violation('old-metadata-changed', '%s: s3ql_metadata has new contents' % what)
        for m in ('m0', 'm4'):
            s, code = mount(w, c, machine=m)
            if s is None:
                raise Violation('unusable:%s' % code, '%s: mount (%s) ends with exit code %s' % (
                    what, m, code))
            expect(s, ref, 'tree-changed', '%s, mounted on %s' % (what, m))
        sound(w, what, t, machine='m4')
        before = digest_backend(w)
        r = w.adm('upgrade', w.url, stdin='yes\n', machine='m4')
        if not r.ok:
            raise Violation('upgrade-current', '%s: upgrade again: %r' % (what, r), r.describe())
        same(before, digest_backend(w), 'second upgrade')

    disturbed(w0, c, t, scratch, run, judge)


def k_mkfs(c, scratch, t):
    '''mkfs on an empty backend'''
    cfg = c['cfg']
    rng = rng_for('p24-mkfs', c['seed'])
    w0 = world.World(scratch + '/w', plain=cfg['plain'], block_kib=cfg['block_kib'],
                     meta_kib=cfg['meta_kib'], compress=cfg['compress'],
                     max_connections=cfg['conns'], passphrase=PW)
    s, code = mount(w0, c)
    if code != 18:
        raise Violation('empty-backend-mounted', 'mount of an empty backend ends with %s' % code)
    if rng.random() < 0.5:
        # left over from an earlier file system that has been deleted from elsewhere
        w0.must_mkfs()
        async def body(k, ses):
            await treeops.build(k, rng_for('b', c['seed']), Tally(), (), 1024)
        world.check_result(hist.session(w0, dict(cfg, keep=True), body, seed=c['seed']))
        r = w0.adm('clear', w0.url, stdin='yes\n', machine='m9')
        if not r.ok:
            raise Violation('clear-failed', repr(r), r.describe())
        t.add('leftovers')

    def run(w, su, co):
        def su2():
            later()
            if su:
                su()
        return w.mkfs(setup=su2, collect=co)

    def judge(w, r, complete, what):
        if not complete:
            x = w.copy(w.root + '-x')
            s, code = mount(x, c)
            shutil.rmtree(x.root)
            if s is None:
                t.add('mkfs_repeated')
                r = run(w, None, None)
                if not r.ok:
                    raise Violation('mkfs-not-repeatable', '%s: the file system cannot be mounted '
                                    '(exit code %s) but mkfs ends with %r' % (what, code, r),
                                    r.describe())
            else:
                t.add('usable_after_kill')
        for m in rng.sample(['m0', 'm4'], 2):
            s, code = mount(w, c, machine=m)
            if s is None:
                raise Violation('unusable:%s' % code, '%s: mount (%s) ends with exit code %s' % (
                    what, m, code))
            if sorted(s) != [(), (b'lost+found',)]:
                raise Violation('not-empty', '%s: a new file system shows %r' % (
                    what, sorted(s)[:5]))
        sound(w, what, t, machine='m4')

    disturbed(w0, c, t, scratch, run, judge)


def k_remkfs(c, scratch, t):
    '''mkfs over an existing file system is refused'''
    w0, _, _ = build(c, scratch, t)
    rng = rng_for('p24-re', c['seed'])
    ref = twin(w0, c, t, scratch)
    for old in (False, True):
        if old and c['dirty']:
            break
        if old:
            old_revision(w0, c)
            ref = None
        before = digest(w0)
        for m, plain, pw in rng.sample([('m1', not w0.plain, PW), ('m0', w0.plain, NEW),
                                        ('m0', True, PW), ('m2', False, PW)], 2):
            x = w0.copy(scratch + '/x')
            x.plain = plain
            x.write_auth(pw)
            r = x.mkfs(machine=m, extra=rng.choice([(), ('-L', 'other')]))
            if r.ok or r.status != 'exit':
                raise Violation('overwritten' if r.ok else 'mkfs-exception', 'mkfs over an '
                                'existing file system: %r' % r, r.describe())
            same({k: v for k, v in before.items() if k.startswith(('backend', 'cache-m0'))},
                 {k: v for k, v in digest(x).items() if k.startswith(('backend', 'cache-m0'))},
                 'refused mkfs')
            if ref is not None:
                x.write_auth(w0.passphrase)
                s, _ = opened(x, c, 'after a refused mkfs', t=t)
                expect(s, ref, 'tree-changed', 'after a refused mkfs')
            t.add('mkfs_refused')
            t.add('judged')
            t.sig('remkfs', m, plain, pw, c['dirty'], old)
            shutil.rmtree(x.root)


def k_refused(c, scratch, t):
    '''Wrong credentials'''
    w0, _, _ = build(c, scratch, t)
    rng = rng_for('p24-wrong', c['seed'])
    before = digest(w0)
    w0.write_auth(rng.choice(['wrong', PW + ' ', PW[:-1], PW.upper()]).strip()
                  if rng.random() < 0.8 else 'wr\u00f6ng')
    if open(w0.authfile).read().find('fs-passphrase: %s\n' % PW) >= 0:
        w0.write_auth('wrong')
    for name in rng.sample(['mount', 'fsck', 'passphrase', 'shrink-db', 'restore-metadata',
                            'upgrade', 'verify'], 5):
        x = w0.copy(scratch + '/x')
        if name == 'mount':
            _, code = mount(x, c)
        else:
            r = x.fsck() if name == 'fsck' else x.verify() if name == 'verify' else \
                x.adm(name, x.url, stdin='%s\n' % (NEW if name == 'passphrase' else '0'))
            if r.status != 'exit':
                raise Violation('wrong-passphrase-exception', '%s with a wrong passphrase: %r' % (
                    name, r), r.describe())
            code = r.code
        if code != 17:
            raise Violation('wrong-passphrase-accepted', '%s with a wrong passphrase ends with '
                            'exit code %s' % (name, code))
        same(before, digest(x), '%s with a wrong passphrase' % name)
        shutil.rmtree(x.root)
        t.add('wrong_passphrase_refused')
        t.sig('wrong', name)
    # the plain-text master key must be complete
    for key in ('', 'AAAA BBBB', 'x' * 44, '!!' * 22):
        r = w0.adm('recover-key', w0.url, stdin='%s\n%s\n' % (key, NEW)) if key != 'x' * 44 else \
            w0.adm('recover-key', w0.url, stdin='%s\n%s\n' % ('QUJD' * 10, NEW))
        if r.ok or r.status != 'exit':
            raise Violation('bad-key-accepted', 'recover-key with the key %r: %r' % (key, r),
                            r.describe())
        same(before, digest(w0), 'recover-key with a malformed key')
        t.add('bad_key_refused')
    # (what is not there cannot be changed)
    y = world.World(scratch + '/empty', passphrase=PW)
    for name in rng.sample(['fsck', 'passphrase', 'shrink-db', 'restore-metadata', 'upgrade',
                            'verify'], 2):
        r = y.fsck() if name == 'fsck' else y.verify() if name == 'verify' else \
            y.adm(name, y.url, stdin='%s\n' % (NEW if name == 'passphrase' else '0'))
        if r.status != 'exit' or not r.code:
            raise Violation('no-fs-not-refused', '%s without a file system: %r' % (name, r),
                            r.describe())
        if stored(y, ''):
            raise Violation('refused-command-changed', '%s without a file system stored %s' % (
                name, stored(y, '')))
        t.add('missing_fs_refused')
    t.add('judged')


RUN = dict(passphrase=k_passphrase, recover=k_passphrase, shrink=k_shrink, restore=k_restore,
           clear=k_clear, upgrade=k_upgrade, mkfs=k_mkfs, remkfs=k_remkfs, refused=k_refused)


def case(c, scratch):
    t = Tally()
    RUN[c['kind']](c, scratch, t)
    t.add('kind_' + c['kind'])
    t.sample(dict(kind=c['kind'], sessions=c['sessions'], dirty=c['dirty']), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P24', LEVEL, RULE, case, gen, quick_budget=45, thorough_budget=780,
              require=['judged', 'killed_passphrase', 'killed_recover', 'killed_shrink',
                       'killed_restore', 'killed_clear', 'killed_upgrade', 'killed_mkfs',
                       'mkfs_refused', 'wrong_passphrase_refused'])
