'''Workloads for the native extensions, run in an interpreter with sanitizers preloaded.

native.py CASE.json OUT.json: runs one case (see checks/p22.py) with the instrumented build of the
extensions on PYTHONPATH. The result is {'tally': ..., 'violation': [kind, message] or None}.
'''
import collections
import gc
import json
import os
import random
import resource
import shutil
import signal
import sys
import weakref


class Bad(Exception):
    def __init__(self, kind, msg):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class T(collections.Counter):
    def __init__(self):
        super().__init__()
        self.sigs = set()

    def add(self, k, n=1):
        self[k] += n

    def sig(self, *a):
        self.sigs.add(repr(a))


# ------------------------------------------------------------------------------------------
# the virtual file system, called directly


class Tracked:
    '''A file of which every write must be found in the record of dirty blocks.'''

    def __init__(self, path, tracker):
        self.path = path
        self.tracker = tracker
        self.data = bytearray()
        self.uploaded = bytearray()
        self.dirty = set()         # blocks written, in the file, and not taken out
        self.maybe = set()         # blocks that were written but have been cut off entirely


def vfs_case(rng, scratch, t):
    import apsw
    from s3ql import database  # noqa: F401 - registers the VFS
    from s3ql import sqlite3ext as ext
    bs = rng.choice([1, 7, 64, 100, 512, 1024, 4096, 4096, 5000, 65536, 300000])
    ext.set_blocksize(bs)
    try:
        ext.set_blocksize(bs + 1)
    except ValueError:
        pass
    else:
        raise Bad('blocksize', 'the block size could be changed')
    flags = apsw.SQLITE_OPEN_MAIN_DB | apsw.SQLITE_OPEN_CREATE | apsw.SQLITE_OPEN_READWRITE
    files, plain = [], []
    handles = {}
    # without anything tracked so far
    names = ['%s/%s' % (scratch, n) for n in ('a', 'b', 'ü ☃', 'x' * 200, 'c-wal', 'a-')]
    rng.shuffle(names)

    def new_tracked():
        p = names.pop()
        files.append(Tracked(p, ext.track_writes(p)))

    new_tracked()
    plain.append(Tracked(names.pop(), None))

    def open_(f):
        got = [flags, 0]
        h = apsw.VFSFile(ext.get_vfsname(), f.path, got)
        handles.setdefault(f.path, []).append(h)
        return h

    def handle(f):
        hs = handles.get(f.path)
        return rng.choice(hs) if hs else open_(f)

    def blocks(off, n):
        return set(range(off // bs, (off + n - 1) // bs + 1)) if n else set()

    def check(f):
        if f.tracker is None:
            return
        n = f.tracker.get_count()
        if n < len(f.dirty):
            raise Bad('dirty-lost', '%d blocks of %d bytes were modified, but only %d are recorded' % (
                len(f.dirty), bs, n))
        if n > len(f.dirty | f.maybe):
            raise Bad('dirty-extra', '%d blocks of %d bytes were modified, but %d are recorded' % (
                len(f.dirty | f.maybe), bs, n))

    def drain(f, count):
        got = set()
        for _ in range(count):
            try:
                b = f.tracker.get_block()
            except KeyError:
                break
            if b in got or b not in f.dirty | f.maybe:
                raise Bad('dirty-extra', 'block %d of %d bytes is recorded (%s) but was not modified' % (
                    b, bs, 'twice' if b in got else 'once'))
            got.add(b)
            # as upload_metadata() does
            piece = f.data[b * bs:(b + 1) * bs]
            if len(f.uploaded) < b * bs + len(piece):
                f.uploaded.extend(bytes(b * bs + len(piece) - len(f.uploaded)))
            f.uploaded[b * bs:b * bs + len(piece)] = piece
            f.dirty.discard(b)
            f.maybe.discard(b)
            t.add('blocks_taken')
        return got

    inhibited = False
    sigx = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    limit = resource.getrlimit(resource.RLIMIT_FSIZE)
    base_mem = None
    for step in range(rng.choice([60, 150, 300])):
        f = rng.choice(files + plain)
        op = rng.choice(['write'] * 8 + ['truncate'] * 3 + ['read', 'size', 'drain', 'drain', 'drainall', 'clear',
                                                           'open', 'close', 'inhibit', 'full', 'new', 'sync', 'misc',
                                                           'missing'])
        t.add('vfs_' + op)
        if os.environ.get('TRACE'):
            print(op, os.path.basename(f.path)[:3], len(f.data), len(handles.get(f.path, ())), inhibited)
        t.sig('vfs', bs, op, inhibited, f.tracker is not None)
        size = len(f.data)
        if op == 'write':
            h = handle(f)
            off = rng.choice([0, size, rng.randrange(size + 1), size // bs * bs, max(0, size // bs * bs - 1)])
            off = min(off, size)
            n = rng.choice([1, 2, bs - 1, bs, bs + 1, 3 * bs, rng.randrange(1, 3 * bs + 2)]) or 1
            n = min(n, 65536)       # the most that SQLite writes at once
            buf = bytes([rng.randrange(256)]) * n
            try:
                h.xWrite(buf, off)
            except apsw.IOError:
                if not (inhibited and f.tracker is not None):
                    raise
                t.add('writes_refused')
            else:
                if inhibited and f.tracker is not None:
                    raise Bad('not-inhibited', 'a write to the database went through though writes are inhibited')
                f.data[off:off + n] = buf
                if f.tracker is not None:
                    f.dirty |= blocks(off, n)
                t.sig('write', bs, n // bs, n % bs in (0, 1, bs - 1), off % bs in (0, 1, bs - 1))
        elif op == 'truncate':
            h = handle(f)
            n = rng.choice([size, size // bs * bs, max(0, size - 1), rng.randrange(size + 1), rng.randrange(size + 1),
                            rng.randrange(size // bs + 1) * bs, 0])
            try:
                h.xTruncate(n)
            except apsw.IOError:
                if not (inhibited and f.tracker is not None):
                    raise
                t.add('writes_refused')
            else:
                if inhibited and f.tracker is not None:
                    raise Bad('not-inhibited', 'the database was truncated though writes are inhibited')
                del f.data[n:]
                if f.tracker is not None:
                    out = {b for b in f.dirty if b * bs >= n}
                    f.dirty -= out
                    f.maybe |= out
                t.sig('truncate', bs, n % bs == 0, len(f.dirty) > 0)
        elif op == 'full' and f.tracker is not None and not inhibited:
            # the disk fills up: the part that was written may or may not be recorded
            h = handle(f)
            n = min(65536, rng.choice([1, bs, 2 * bs + 1]))
            room = rng.randrange(n)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size + room, limit[1]))
            try:
                h.xWrite(b'F' * n, size)
            except apsw.Error:
                t.add('disk_full')
            else:
                raise Bad('error-lost', 'a write failed, but this was not reported')
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, limit)
            with open(f.path, 'rb') as fh:
                f.data = bytearray(fh.read())
            # SQLite writes these blocks again before anything relies on them
            f.maybe |= blocks(size, n)
            h.xTruncate(size)
            del f.data[size:]
        elif op == 'read':
            off = rng.randrange(size + 1)
            n = rng.randrange(size - off + 1)
            if n and handle(f).xRead(n, off) != bytes(f.data[off:off + n]):
                raise Bad('wrong-data', 'reading %d bytes at %d through the VFS gives wrong data' % (n, off))
        elif op == 'size':
            if handle(f).xFileSize() != (0 if size == 1 else size):     # (SQLite says so)
                raise Bad('wrong-data', 'wrong file size %d, not %d' % (handle(f).xFileSize(), size))
        elif op in ('drain', 'drainall') and f.tracker is not None:
            check(f)
            drain(f, rng.randrange(4) if op == 'drain' else 10**9)
            if op == 'drainall':
                if f.dirty:
                    raise Bad('dirty-lost', 'blocks %s of %d bytes were modified, but are not recorded' % (
                        sorted(f.dirty)[:5], bs))
                f.maybe.clear()
                if f.tracker.get_count() != 0:
                    raise Bad('dirty-extra', 'blocks are recorded although all were taken')
                if f.uploaded[:len(f.data)] != f.data:
                    raise Bad('upload-differs', 'uploading the recorded blocks does not give the same file')
                t.add('uploads_compared')
        elif op == 'clear' and f.tracker is not None and rng.random() < 0.3:
            f.tracker.clear()
            f.dirty.clear()
            f.maybe.clear()
            f.uploaded = bytearray(f.data)
        elif op == 'open':
            if len(handles.get(f.path, ())) < 3:
                open_(f)
        elif op == 'close':
            hs = handles.get(f.path)
            if hs:
                hs.pop(rng.randrange(len(hs))).xClose()
            if f.tracker is not None and rng.random() < 0.5:
                f.tracker = ext.track_writes(f.path)     # as when opening it again
        elif op == 'inhibit':
            inhibited = not inhibited
            ext.set_writes_inhibited(inhibited)
            if ext.get_writes_inhibited() != inhibited:
                raise Bad('not-inhibited', 'get_writes_inhibited() does not give what was set')
        elif op == 'new' and len(names) > 1:
            if rng.random() < 0.6:
                new_tracked()
            else:
                plain.append(Tracked(names.pop(), None))
        elif op == 'sync':
            h = handle(f)
            h.xSync(apsw.SQLITE_SYNC_NORMAL)
            h.xLock(apsw.SQLITE_LOCK_SHARED)
            h.xLock(apsw.SQLITE_LOCK_RESERVED)
            h.xCheckReservedLock()
            h.xUnlock(apsw.SQLITE_LOCK_NONE)
            h.xSectorSize(), h.xDeviceCharacteristics()
        elif op == 'missing':
            try:
                apsw.VFSFile(ext.get_vfsname(), scratch + '/nodir/x', [flags, 0])
            except apsw.CantOpenError:
                pass
            try:
                apsw.VFSFile(ext.get_vfsname(), scratch + '/nofile', [
                    apsw.SQLITE_OPEN_MAIN_DB | apsw.SQLITE_OPEN_READONLY, 0])
            except apsw.CantOpenError:
                pass
        elif op == 'misc':
            v = apsw.VFS('misc%d' % step, ext.get_vfsname())
            v.xRandomness(8), v.xCurrentTimeInt64(), v.xGetLastError(), v.xSleep(1)
            v.xNextSystemCall(None), v.xAccess(f.path, 0)
            if v.xFullPathname(f.path) != f.path:
                raise Bad('wrong-data', 'xFullPathname gives %r' % v.xFullPathname(f.path))
            open(scratch + '/del', 'w').close()
            v.xDelete(scratch + '/del', False)
            v.unregister()
        check(f)
    ext.set_writes_inhibited(False)
    for f in files:
        check(f)
        drain(f, 10**9)
        if f.dirty or f.tracker.get_count():
            raise Bad('dirty-lost', 'blocks %s were modified, but are not recorded' % sorted(f.dirty)[:5])
    for hs in handles.values():
        for h in hs:
            h.xClose()
    for f in files + plain:
        if os.path.exists(f.path):
            with open(f.path, 'rb') as fh:
                if fh.read() != f.data:
                    raise Bad('wrong-data', 'the file does not have the data that was written')
    # every close returns what the open allocated
    mem = []
    for i in range(30):
        h = apsw.VFSFile(ext.get_vfsname(), files[0].path, [flags, 0])
        h.xClose()
        mem.append(apsw.memory_used())
    if mem[-1] > mem[5]:
        raise Bad('leak', 'opening and closing a file 24 times leaves %d bytes allocated' % (mem[-1] - mem[5]))
    signal.signal(signal.SIGXFSZ, sigx)


# ------------------------------------------------------------------------------------------
# databases


def sql_case(rng, scratch, t):
    import apsw
    import trio
    from s3ql import database
    bs = rng.choice([4096, 4096, 8192, 12288, 65536, 1 << 20, 1000, 5000])

    class Db:
        pass

    def mk(name):
        d = Db()
        d.path = scratch + '/' + name
        d.mirror = bytearray()
        d.conn = database.Connection(d.path, bs)
        d.conn.execute('CREATE TABLE IF NOT EXISTS t (id INTEGER PRIMARY KEY, k INT, v BLOB)')
        d.conn.execute('CREATE INDEX IF NOT EXISTS ix ON t(k)')
        # a mount never has a database that it has just created, which could not leave exclusive mode
        d.conn.close()
        d.conn = database.Connection(d.path, bs)
        return d

    def blob():
        n = rng.choice([0, 10, 300, 3000, 4096, 20000, 150000])
        return rng.randbytes(min(n, 64)) * (n // 64) + b'x' * (n % 64)

    def upload(d, where):
        '''Take over the recorded blocks, as an incremental upload does.'''
        with open(d.path, 'rb') as fh:
            data = fh.read()
        got = set()
        while True:
            try:
                b = d.conn.dirty_blocks.get_block()
            except KeyError:
                break
            if b in got:
                raise Bad('dirty-extra', 'block %d is recorded twice' % b)
            got.add(b)
            piece = data[b * bs:(b + 1) * bs]
            if len(d.mirror) < b * bs + len(piece):
                d.mirror.extend(bytes(b * bs + len(piece) - len(d.mirror)))
            d.mirror[b * bs:b * bs + len(piece)] = piece
        if d.conn.dirty_blocks.get_count() != 0:
            raise Bad('dirty-extra', 'blocks are recorded although all were taken')
        if d.mirror[:len(data)] != data:
            for b in range(-(-len(data) // bs)):
                if d.mirror[b * bs:min((b + 1) * bs, len(data))] != data[b * bs:(b + 1) * bs]:
                    break
            raise Bad('dirty-lost', '%s: block %d of %d bytes was modified, but not recorded' % (where, b, bs))
        t.add('uploads_compared')
        t.add('blocks_taken', len(got))
        t.sig('sql', bs, where, min(len(got), 5), len(data) // bs)

    async def main():
        dbs = [mk('one.db')]
        if rng.random() < 0.4:
            dbs.append(mk('two ü.db'))
        for d in dbs:
            d.conn.sync_checkpoint()
        for step in range(rng.choice([40, 80])):
            d = rng.choice(dbs)
            op = rng.choice(['insert'] * 4 + ['update'] * 3 + ['delete'] * 2 + ['shrink', 'vacuum', 'checkpoint',
                             'upload', 'upload', 'upload', 'reopen', 'inhibit', 'batch', 'rollback', 'read', 'full'])
            t.add('sql_' + op)
            if os.environ.get('TRACE'):
                print(op, d.path)
            e = d.conn.execute
            if op == 'insert':
                for _ in range(rng.choice([1, 10, 60])):
                    e('INSERT INTO t(k, v) VALUES(?,?)', (rng.randrange(1000), blob()))
            elif op == 'update':
                e('UPDATE t SET v=? WHERE k % 7 = ?', (blob(), rng.randrange(7)))
            elif op == 'delete':
                e('DELETE FROM t WHERE k % 5 = ?', (rng.randrange(5),))
            elif op == 'shrink':
                e('DELETE FROM t WHERE id > ?', (rng.randrange(50),))
                if rng.random() < 0.7:
                    e('VACUUM')
            elif op == 'vacuum':
                e('VACUUM')
            elif op == 'checkpoint':
                await d.conn.checkpoint()
            elif op == 'upload':
                if rng.random() < 0.7:
                    d.conn.sync_checkpoint()
                upload(d, 'after a checkpoint')
            elif op == 'read':
                n = d.conn.get_val('SELECT count(*) FROM t')
                assert n >= 0
                with d.conn.query('SELECT id, v FROM t ORDER BY k') as res:
                    for i, _ in enumerate(res):
                        if i > 30:
                            break
            elif op == 'reopen':
                d.conn.close()
                link = rng.random() < 0.3
                if link:
                    if not os.path.islink(scratch + '/ln'):
                        os.symlink(scratch, scratch + '/ln')
                d.conn = database.Connection(scratch + '/ln/' + os.path.basename(d.path) if link else d.path, bs)
                upload(d, 'after opening again')
            elif op == 'inhibit':
                async with d.conn.inhibit_writes():
                    upload(d, 'writes inhibited')
                    with open(d.path, 'rb') as fh:
                        data = fh.read()
                    for _ in range(rng.randrange(4)):
                        e('INSERT INTO t(k, v) VALUES(?,?)', (rng.randrange(1000), blob()))
                        e('DELETE FROM t WHERE k % 50 = ?', (rng.randrange(50),))
                    with open(d.path, 'rb') as fh:
                        if fh.read() != data:
                            raise Bad('not-inhibited', 'the database file changes though writes are inhibited')
                    if d.conn.dirty_blocks.get_count():
                        raise Bad('dirty-extra', 'blocks are recorded though writes are inhibited')
            elif op == 'batch':
                async with d.conn.batch(rng.choice([0.001, 1])) as b:
                    n = 0
                    for _ in range(rng.randrange(1, 5)):
                        for _ in range(rng.randrange(1, 8)):
                            e('INSERT INTO t(k, v) VALUES(?,?)', (rng.randrange(1000), blob()))
                            n += 1
                        await b.finish_batch(n)
                        await b.start_batch()
            elif op == 'rollback':
                e('BEGIN')
                for _ in range(rng.choice([1, 30])):
                    e('INSERT INTO t(k, v) VALUES(?,?)', (rng.randrange(1000), blob()))
                e('ROLLBACK')
            elif op == 'full':
                # the checkpoint runs out of space, and is done again later
                e('INSERT INTO t(k, v) VALUES(?,?)', (1, b'z' * 300000))
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                size = os.path.getsize(d.path)
                resource.setrlimit(resource.RLIMIT_FSIZE, (size + rng.randrange(200000), old[1]))
                try:
                    d.conn.sync_checkpoint()
                except apsw.Error:
                    t.add('disk_full')
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
                    signal.signal(signal.SIGXFSZ, sig)
                d.conn.sync_checkpoint()
                upload(d, 'after a checkpoint that failed')
            if d.conn.get_size() > 40_000_000:
                e('DELETE FROM t')
                e('VACUUM')
        for d in dbs:
            dump = list(d.conn.query('SELECT id, k, v FROM t ORDER BY id'))
            d.conn.close()
            upload(d, 'after closing')
            with open(scratch + '/copy.db', 'wb') as fh:
                fh.write(d.mirror[:os.path.getsize(d.path)])
            c = apsw.Connection(scratch + '/copy.db')
            if list(c.execute('PRAGMA integrity_check')) != [('ok',)]:
                raise Bad('upload-differs', 'the uploaded database is damaged')
            if list(c.execute('SELECT id, k, v FROM t ORDER BY id')) != dump:
                raise Bad('upload-differs', 'the uploaded database has different rows')
            c.close()
            for x in ('copy.db', 'copy.db-wal', 'copy.db-shm'):
                if os.path.exists(scratch + '/' + x):
                    os.unlink(scratch + '/' + x)
        # every close returns what the open allocated
        mem = []
        for _ in range(12):
            database.Connection(dbs[0].path, bs).close()
            gc.collect()
            mem.append(apsw.memory_used())
        if mem[-1] > mem[3]:
            raise Bad('leak', 'opening and closing a database 8 times leaves %d bytes allocated' % (mem[-1] - mem[3]))

    trio.run(main)


# ------------------------------------------------------------------------------------------
# the linked dictionary


class Val:
    '''A value that knows whether it is still alive.'''
    live = 0

    def __init__(self, n):
        self.n = n
        Val.live += 1

    def __del__(self):
        Val.live -= 1


class Cursor:
    def __init__(self, d):
        self.it = d.mutable_values()
        self.started = False
        self.steady = None          # keys that have neither been moved nor removed since the start
        self.seen = []


def ldict_case(rng, scratch, t):
    from s3ql._linked_dict import LinkedDict
    d = LinkedDict()
    model = {}          # key -> value object, in the order of the list
    cursors = []
    big = rng.random() < 0.1
    keys = rng.choice([3, 10, 100]) if not big else 20000
    base = Val.live

    def touched(k):
        for c in cursors:
            if c.steady is not None:
                c.steady.pop(k, None)

    for step in range(rng.choice([300, 1500]) if not big else 30000):
        op = rng.choice(['set'] * 5 + ['del', 'del', 'pop', 'move', 'move', 'get', 'in', 'cursor', 'next', 'next',
                                       'next', 'close', 'all', 'iter', 'mutated', 'len', 'error'])
        if op in ('all', 'iter', 'mutated') and big and rng.random() < 0.999:
            op = 'move'
        k = rng.randrange(keys)
        k = (k, 'x%d' % k, (k,))[k % 3]
        t.add('ld_' + op)
        c = v = mv = got = None
        if op == 'set':
            v = Val(step)
            d[k] = v
            model[k] = v
            for c in cursors:
                if c.steady is not None and k in c.steady:
                    c.steady[k] = v
            del v
        elif op in ('del', 'pop'):
            try:
                if op == 'del':
                    del d[k]
                    got = None
                else:
                    got = d.pop(k)
            except KeyError:
                if k in model:
                    raise Bad('wrong-dict', 'an entry could not be removed') from None
            else:
                if k not in model or op == 'pop' and got is not model[k]:
                    raise Bad('wrong-dict', '%s of entry %r is wrong' % (op, k))
                del model[k]
                touched(k)
            got = None
        elif op == 'move':
            try:
                d.move_to_tail(k)
            except KeyError:
                if k in model:
                    raise Bad('wrong-dict', 'an entry could not be moved') from None
            else:
                model[k] = model.pop(k)
                touched(k)
        elif op == 'get':
            if d.get(k) is not model.get(k) or d.get(k, 5) is not model.get(k, 5):
                raise Bad('wrong-dict', 'get(%r) is wrong' % (k,))
            try:
                if d[k] is not model[k]:
                    raise Bad('wrong-dict', '[%r] is wrong' % (k,))
            except KeyError:
                if k in model:
                    raise Bad('wrong-dict', '[%r] is missing' % (k,)) from None
        elif op == 'in':
            if (k in d) != (k in model):
                raise Bad('wrong-dict', 'membership of %r is wrong' % (k,))
        elif op == 'len':
            if len(d) != len(model) or bool(d) != bool(model):
                raise Bad('wrong-dict', 'len() is %d, not %d' % (len(d), len(model)))
        elif op == 'cursor' and len(cursors) < 5:
            cursors.append(Cursor(d))
        elif op == 'next' and cursors:
            c = rng.choice(cursors)
            if not c.started:
                c.started = True
                c.steady = dict(model)
            try:
                v = next(c.it)
            except StopIteration:
                for want in c.steady:
                    if want in model and want not in c.seen:
                        raise Bad('wrong-order', 'an iteration left out an entry that was there all the time') from None
                order = [x for x in c.seen if x in c.steady]
                if order != [x for x in c.steady]:
                    raise Bad('wrong-order', 'an iteration gave the entries that did not change as %s, not as %s' % (
                        order[:8], list(c.steady)[:8])) from None
                cursors.remove(c)
                t.add('iterations_compared')
            else:
                if big:
                    if rng.random() < 0.98:
                        cursors.remove(c)
                        c.it.close()
                        continue
                for key, mv in model.items():
                    if mv is v:
                        break
                else:
                    raise Bad('wrong-order', 'an iteration gave a value that is not there (any more)')
                c.seen.append(key)
            v = mv = None
        elif op == 'close' and cursors:
            c = cursors.pop(rng.randrange(len(cursors)))
            if rng.random() < 0.5:
                c.it.close()
            c = None
        elif op == 'all':
            if list(d.mutable_values()) != list(model.values()):
                raise Bad('wrong-order', 'the order of the entries is wrong')
            t.add('iterations_compared')
        elif op == 'iter':
            if set(d) != set(model) or set(d.keys()) != set(model) or set(d.values()) != set(model.values()) \
                    or dict(d.items()) != model:
                raise Bad('wrong-dict', 'plain iteration is wrong')
        elif op == 'mutated' and model and k not in model:
            try:
                for _ in rng.choice([d.values, d.items, d.__iter__])():
                    d[k] = d.get(k)
                raise Bad('wrong-dict', 'plain iteration does not notice a modification')
            except RuntimeError:
                pass
            finally:
                del d[k]
            _ = None
        elif op == 'error':
            for fn in (lambda: d[[]], lambda: d.pop({}), lambda: d.move_to_tail([]), lambda: d.get([]),
                       lambda: d.__setitem__([], 1), lambda: d.__delitem__([])):
                try:
                    fn()
                except (TypeError, KeyError):
                    pass
                else:
                    raise Bad('wrong-dict', 'an unhashable key was accepted')
        t.sig('ld', op, min(len(model), 3), len(cursors))
        if step % 50 == 0 and Val.live - base != len(model):
            gc.collect()
            held = {id(v) for v in model.values()}
            # an iteration holds on to the entries around the one that it gave last
            if not len(held) <= Val.live - base <= len(held) + 4 * len(cursors):
                raise Bad('leak', '%d values are alive, but %d are in the dictionary' % (Val.live - base, len(held)))
            t.add('lifetimes_checked')
    if list(d.mutable_values()) != list(model.values()):
        raise Bad('wrong-order', 'the order of the entries is wrong at the end')
    w = weakref.ref(next(iter(model.values()))) if model else None
    if rng.random() < 0.5:
        cursors.clear()
    del d
    model.clear()
    cursors.clear()
    c = v = mv = got = _ = None
    gc.collect()
    if w and w() is not None or Val.live != base:
        raise Bad('leak', 'the values of a dictionary that was dropped are still alive')


# ------------------------------------------------------------------------------------------
# whole sessions


def mount_case(rng, scratch, t):
    from lib import core, hist, model, world
    world.preimport()
    cfg = hist.rand_config(rng, meta_kib=rng.choice([1, 4, 64]))
    w = hist.new_world(scratch, cfg)
    m = model.Model()
    try:
        for s in range(2):
            m, _ = hist.random_session(w, cfg, m, seed=rng.randrange(2**40), steps=rng.choice([30, 60]),
                                       first=s == 0, backup_interval=rng.choice([0, 5]),
                                       compare_first='after mounting again' if s else None)
    except core.Violation as exc:
        # other checks judge the file system; here, only what the sanitizers see
        if any(f.startswith('san.') for f in os.listdir(os.environ['SANDIR'])):
            raise Bad('sanitizer', 'in a mount session') from exc
        raise Bad('session-' + exc.kind, exc.msg) from exc
    t.add('sessions', 2)
    t.sig('mount', cfg['meta_kib'], cfg['icache'])


def main():
    spec = json.load(open(sys.argv[1]))
    rng = random.Random(spec['seed'])
    t = T()
    bad = None
    os.mkdir(spec['scratch'] + '/f')
    try:
        {'vfs': vfs_case, 'sql': sql_case, 'ldict': ldict_case,
         'mount': mount_case}[spec['kind']](rng, spec['scratch'] + '/f', t)
    except Bad as exc:
        bad = [exc.kind, exc.msg]
    shutil.rmtree(spec['scratch'] + '/f')
    with open(sys.argv[2], 'w') as fh:
        json.dump(dict(tally=dict(t), sigs=sorted(t.sigs), bad=bad), fh)


if __name__ == '__main__':
    main()
