'''Independent consistency checker for the metadata database (plain SQL over a private copy) and
for the agreement of the database with the backend.'''
from __future__ import annotations

import hashlib
import os
import shutil
import sqlite3
import stat

from .core import HarnessError, Violation

ROOT, CTRL = 1, 2


def open_copy(path, tmpdir):
    '''Open a private copy of database *path* (with its WAL).'''
    os.makedirs(tmpdir, exist_ok=True)
    dst = os.path.join(tmpdir, 'copy.db')
    for suf in ('', '-wal'):
        if os.path.exists(dst + suf):
            os.unlink(dst + suf)
        if os.path.exists(path + suf):
            shutil.copyfile(path + suf, dst + suf)
    for suf in ('-shm',):
        if os.path.exists(dst + suf):
            os.unlink(dst + suf)
    conn = sqlite3.connect(dst)
    conn.text_factory = bytes
    return conn


def problems(conn, block_size, *, unlinked_ok=False, pending_ok=False):
    '''List of (kind, text) for every broken invariant. *unlinked_ok*: inodes without links may
    exist (they are open). *pending_ok*: uploads may be under way.'''
    out = []

    def bad(kind, text):
        out.append((kind, text))

    q = lambda s, *a: conn.execute(s, a).fetchall()  # noqa: E731
    res = q('PRAGMA integrity_check(5)')
    if res != [(b'ok',)]:
        bad('sqlite', repr(res))
        return out
    inodes = {r[0]: r for r in q('SELECT id, uid, gid, mode, refcount, size, rdev, locked, '
                                 'mtime_ns, atime_ns, ctime_ns FROM inodes')}
    names = {r[0]: (r[1], r[2]) for r in q('SELECT id, name, refcount FROM names')}
    contents = q('SELECT name_id, inode, parent_inode FROM contents')
    xattrs = q('SELECT inode, name_id, value FROM ext_attributes')
    links = q('SELECT inode, target FROM symlink_targets')
    objects = {r[0]: r for r in q('SELECT id, hash, refcount, phys_size, length FROM objects')}
    blocks = q('SELECT inode, blockno, obj_id FROM inode_blocks')

    # names
    cnt = {}
    for name_id, ino, par in contents:
        cnt[name_id] = cnt.get(name_id, 0) + 1
    for ino, name_id, val in xattrs:
        cnt[name_id] = cnt.get(name_id, 0) + 1
    for i in cnt:
        if i not in names:
            bad('names-missing', 'name %d is referenced but does not exist' % i)
    for i, (name, rc) in names.items():
        if not isinstance(name, bytes):
            bad('names-type', 'name %d is not bytes: %r' % (i, name))
        if rc != cnt.get(i, 0):
            bad('names-refcount', 'name %d (%r) has refcount %d but %d references' % (
                i, name, rc, cnt.get(i, 0)))
        elif rc == 0:
            bad('names-unused', 'name %d (%r) is not referenced' % (i, name))
        if len(name) > 255 and any(c[0] == i for c in contents):
            bad('names-long', 'name %d too long' % i)
        if name in (b'', b'.', b'..') or b'/' in name or b'\0' in name:
            if any(c[0] == i for c in contents):
                bad('names-invalid', 'name %r' % name)
    # links
    cnt = {}
    parents = {}
    children = {}
    for name_id, ino, par in contents:
        cnt[ino] = cnt.get(ino, 0) + 1
        parents.setdefault(ino, []).append(par)
        children.setdefault(par, []).append(ino)
        if ino not in inodes:
            bad('contents-inode', 'entry in %d refers to missing inode %d' % (par, ino))
        if par not in inodes:
            bad('contents-parent', 'entry for %d in missing directory %d' % (ino, par))
        elif not stat.S_ISDIR(inodes[par][3]):
            bad('contents-notdir', 'inode %d has entries but is no directory' % par)
    if ROOT not in inodes or CTRL not in inodes:
        bad('root', 'root or control inode is missing')
        return out
    for i, r in inodes.items():
        rc = r[4]
        n = cnt.get(i, 0)
        if i in (ROOT, CTRL):
            if n:
                bad('root', 'inode %d is linked' % i)
            continue
        if rc != n:
            bad('inode-refcount', 'inode %d has link count %d but %d links' % (i, rc, n))
        if n == 0 and not unlinked_ok:
            bad('inode-orphan', 'inode %d is not linked' % i)
        if stat.S_ISDIR(r[3]) and n > 1:
            bad('dir-links', 'directory %d has %d links' % (i, n))
        if r[5] < 0:
            bad('size', 'inode %d has negative size' % i)
    # reachability
    seen = {ROOT}
    todo = [ROOT]
    while todo:
        for c in children.get(todo.pop(), ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    for i in inodes:
        if i not in seen and i != CTRL and not (unlinked_ok and inodes[i][4] == 0):
            if cnt.get(i):
                bad('unreachable', 'inode %d cannot be reached from the root' % i)
    # symlinks, xattrs
    tg = dict(links)
    for i, t in links:
        if i not in inodes:
            bad('symlink-inode', 'link target for missing inode %d' % i)
        elif not stat.S_ISLNK(inodes[i][3]):
            bad('symlink-type', 'inode %d has a link target but is no symlink' % i)
        elif inodes[i][5] != len(t):
            bad('symlink-size', 'symlink %d has size %d, target length %d' % (
                i, inodes[i][5], len(t)))
    for i, r in inodes.items():
        ft = stat.S_IFMT(r[3])
        if ft == stat.S_IFLNK and i not in tg:
            bad('symlink-target', 'symlink %d has no target' % i)
        if ft not in (stat.S_IFDIR, stat.S_IFREG, stat.S_IFLNK, stat.S_IFIFO, stat.S_IFSOCK,
                      stat.S_IFCHR, stat.S_IFBLK):
            bad('type', 'inode %d has type %o' % (i, ft))
        if r[6] and ft not in (stat.S_IFCHR, stat.S_IFBLK):
            bad('rdev', 'inode %d has a device number' % i)
        if r[5] and ft not in (stat.S_IFREG, stat.S_IFLNK):
            bad('size', 'inode %d of type %o has size %d' % (i, ft, r[5]))
    for i, n, v in xattrs:
        if i not in inodes:
            bad('xattr-inode', 'extended attribute of missing inode %d' % i)
    # blocks, objects
    cnt = {}
    for i, no, o in blocks:
        cnt[o] = cnt.get(o, 0) + 1
        if i not in inodes:
            bad('block-inode', 'block %d of missing inode %d' % (no, i))
        elif not stat.S_ISREG(inodes[i][3]):
            bad('block-type', 'inode %d is no file but has blocks' % i)
        elif no * block_size >= inodes[i][5] and not (inodes[i][5] == 0 and no == 0):
            bad('block-beyond', 'inode %d has size %d but a block %d' % (i, inodes[i][5], no))
        if o not in objects:
            bad('block-object', 'block %d of inode %d refers to missing object %d' % (no, i, o))
        elif i in inodes and no * block_size + objects[o][4] > inodes[i][5]:
            bad('block-size', 'inode %d has size %d but block %d ends at %d' % (
                i, inodes[i][5], no, no * block_size + objects[o][4]))
    hashes = set()
    for o, r in objects.items():
        if r[2] != cnt.get(o, 0):
            bad('object-refcount', 'object %d has refcount %d but %d references' % (
                o, r[2], cnt.get(o, 0)))
        elif r[2] == 0:
            bad('object-unused', 'object %d is not referenced' % o)
        if r[1] is None:
            bad('object-hash', 'object %d has no hash' % o)
        elif len(r[1]) != 32 or r[1] in hashes:
            bad('object-hash', 'object %d has a bad hash' % o)
        hashes.add(r[1])
        if r[3] < 0 and not pending_ok:
            bad('object-phys', 'object %d has no physical size' % o)
        if not 0 <= r[4] <= block_size:
            bad('object-length', 'object %d has length %d' % (o, r[4]))
    return out


def objects_of(conn):
    return {r[0]: r for r in conn.execute(
        'SELECT id, hash, refcount, phys_size, length FROM objects')}


def check_db(world, where, *, machine='m0', **kw):
    '''Raise a Violation if the local database of *machine* is inconsistent.'''
    conn = open_copy(world.cachepath(machine) + '.db', os.path.join(world.root, 'dbcopy'))
    try:
        p = problems(conn, world.block_kib * 1024, **kw)
    finally:
        conn.close()
    if p:
        raise Violation('db:' + p[0][0], '%s: %s' % (where, p[0][1]),
                        '\n'.join('%s: %s' % x for x in p[:20]))


def read_objects(world, *, only=None, raw=False):
    '''Read every object of the backend through the real storage layer (in a forked process).
    Returns {key: (sha256 digest, length, stored size) or ('error', type, text)}.'''
    from .world import Result, fork_call, preimport

    def child():
        preimport()
        import trio

        async def main():
            backend = await make_backend(world)
            res = {}
            async with backend:
                keys = []
                async for k in backend.list(''):
                    keys.append(k)
                for k in keys:
                    if only is not None and not k.startswith(only):
                        continue
                    if k == 's3ql_passphrase' or k.startswith('s3ql_passphrase'):
                        res[k] = None
                        continue
                    try:
                        data, _ = await backend.fetch(k)
                        size = await backend.get_size(k)
                        res[k] = (data if raw else hashlib.sha256(data).digest(), len(data), size)
                    except Exception as exc:  # noqa: BLE001
                        res[k] = ('error', type(exc).__name__, str(exc))
            return res

        return Result('exit', code=0, value=trio.run(main))

    r = fork_call(child, timeout=60, logpath=world._log('readobj'))
    if r.status != 'exit':
        raise HarnessError('reading objects failed: ' + r.describe())
    return r.value


async def make_backend(world):
    '''The same stack that the commands use, for this world.'''
    from s3ql.authinfo import Authinfo
    from s3ql.backends import open_backend
    ai = Authinfo.from_file(world.authfile, world.url)
    return await open_backend(world.url, ai, max_connections=4, compress=ai.compress)


TABLES = ('inodes', 'names', 'contents', 'objects', 'inode_blocks', 'symlink_targets',
          'ext_attributes')


def dump(world, machine='m0', tables=TABLES):
    conn = open_copy(world.cachepath(machine) + '.db', os.path.join(world.root, 'dbcopy'))
    try:
        return {t: sorted(conn.execute('SELECT * FROM %s' % t).fetchall(), key=repr)
                for t in tables}
    finally:
        conn.close()


def diff_dump(a, b):
    out = []
    for t in a:
        x, y = set(a[t]), set(b[t])
        for r in sorted(x - y, key=repr)[:3]:
            out.append('%s: row %r gone' % (t, r))
        for r in sorted(y - x, key=repr)[:3]:
            out.append('%s: row %r new' % (t, r))
    return out


def check_store(world, where, *, machine='m0', tally=None):
    '''P07: backend objects == objects in the database, contents match the hashes.'''
    conn = open_copy(world.cachepath(machine) + '.db', os.path.join(world.root, 'dbcopy'))
    try:
        objs = objects_of(conn)
    finally:
        conn.close()
    have = read_objects(world, only='s3ql_data_')
    want = {'s3ql_data_%d' % i: r for i, r in objs.items()}
    missing = sorted(set(want) - set(have))
    extra = sorted(set(have) - set(want))
    if missing:
        raise Violation('object-missing', '%s: object %s is referenced but not stored' % (
            where, missing[0]), repr(missing))
    if extra:
        raise Violation('object-leaked', '%s: object %s is stored but not referenced' % (
            where, extra[0]), repr(extra))
    for k, r in want.items():
        h = have[k]
        if h[0] == 'error':
            raise Violation('object-unreadable', '%s: %s: %s %s' % (where, k, h[1], h[2]))
        if h[0] != r[1]:
            raise Violation('object-content', '%s: content of %s does not match its hash' % (
                where, k))
        if h[1] != r[4]:
            raise Violation('object-length', '%s: %s has length %d, recorded %d' % (
                where, k, h[1], r[4]))
        if h[2] != r[3]:
            raise Violation('object-phys', '%s: %s has stored size %d, recorded %d' % (
                where, k, h[2], r[3]))
    if tally is not None:
        tally.add('objects_verified', len(want))
    return want
