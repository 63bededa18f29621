'''P06: metadata storage reproduces the database byte for byte.'''
import hashlib
import os
import sqlite3
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, world
from lib.core import Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case is a database with a random page/block size ratio, taken through 2-5 sessions of '
        'random transactions (inserts of rows from 1 byte to many pages, updates, deletes, '
        'vacuum, batches, checkpoints) with upload cycles as in mount.s3ql (two uploads while '
        'another task keeps writing and checkpointing, one with writes inhibited), final uploads '
        'after close, shrink-db style uploads, failing uploads followed by a fsck style full '
        'upload, and expiration. The monitor copies the database file when its snapshot is '
        'uploaded, and compares every retained sequence number (also after expiration) with what '
        'is downloaded: byte identity, integrity check, the rows of a known committed version. '
        'distinct: (block size, step kind, upload kind, size change).')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), bs=rng.choice([1, 2, 4, 4, 8, 16, 64, 3, 5, 7]),
                   page=rng.choice([4096, 4096, 4096, 1024, 8192]), sessions=rng.choice([2, 3, 5]),
                   steps=rng.choice([4, 8, 12]), keep=rng.choice([2, 3, 5, 32]),
                   comp=rng.choice(['none', 'zlib', 'bzip2', 'lzma']), enc=rng.random() < 0.3,
                   conns=rng.choice([1, 3, 10]), batch=rng.random() < 0.5, pdel=rng.random() < 0.5)


class Boom(Exception):
    pass


def case(c, scratch):
    world.preimport()
    import logging
    logging.disable(logging.CRITICAL)
    import trio
    t = Tally()
    trio.run(Run(c, scratch, t).main)
    return t


class Run:
    def __init__(self, c, scratch, t):
        self.c, self.t, self.dir = c, t, scratch
        self.rng = rng_for('p06', c['seed'])
        self.bs = c['bs'] * 1024
        self.saved = {}         # seq_no -> (bytes, params buffer, version range)
        self.ver = 0
        self.dumps = {}
        self.path = scratch + '/test.db'
        self.retained = []
        self.stop_writer = False
        self.faults = 0

    # -- database

    def open(self):
        from s3ql import sqlite3ext
        from s3ql.database import Connection
        sqlite3ext.reset()
        self.db = Connection(self.path, self.bs)

    def dump(self):
        h = hashlib.sha256()
        for r in self.db.query('SELECT id, ver, val FROM t ORDER BY id'):
            h.update(repr(r).encode())
        return h.digest()

    def change(self):
        '''One change of the table (within whatever transaction)'''
        r, db = self.rng, self.db
        x = r.random()
        self.ver += 1
        n = db.get_val('SELECT count(*) FROM t')
        if x < 0.5 or n < 3:
            size = r.choice([1, 50, 300, 1000, 4000, self.bs - 100, 3 * self.bs, 20000])
            db.execute('INSERT INTO t (ver, val) VALUES (?, ?)', (self.ver, r.randbytes(size)))
        elif x < 0.75:
            i = db.get_val('SELECT id FROM t LIMIT 1 OFFSET ?', (r.randrange(n),))
            db.execute('UPDATE t SET ver=?, val=? WHERE id=?',
                       (self.ver, r.randbytes(r.choice([10, 500, 5000])), i))
        elif x < 0.97:
            i = db.get_val('SELECT id FROM t LIMIT 1 OFFSET ?', (r.randrange(n),))
            db.execute('DELETE FROM t WHERE id=?', (i,))
        else:
            db.execute('DELETE FROM t WHERE id % 2 = 0')
        db.execute('UPDATE v SET ver=?', (self.ver,))

    def record(self):
        self.dumps[self.ver] = self.dump()

    async def transactions(self, n):
        for _ in range(n):
            if self.c['batch'] and self.rng.random() < 0.3:
                async with self.db.batch(0.1) as b:
                    for _ in range(self.rng.randrange(1, 6)):
                        self.change()
                        await trio_sleep(0)
                        if self.rng.random() < 0.2:
                            self.record()
                            await b.finish_batch(1)
                            await b.start_batch()
                    self.record()
            else:
                self.db.execute('BEGIN')
                self.change()
                self.db.execute('COMMIT')
                self.record()
            self.t.add('transactions')

    async def writer(self):
        while not self.stop_writer:
            await self.transactions(1)
            if self.rng.random() < 0.2:
                await self.db.checkpoint()
            await trio_sleep(self.rng.choice([0, 0, 0.002]))

    # -- uploads

    def snap(self):
        with open(self.path, 'rb') as fh:
            return fh.read()

    async def put_params(self, data, versions):
        from s3ql.database import upload_params
        buf = self.params.serialize()
        await upload_params(self.backend, self.params)
        self.saved[self.params.seq_no] = (data, buf, versions)
        if self.params.seq_no not in self.retained:
            self.retained.append(self.params.seq_no)

    async def expire(self):
        from s3ql.database import expire_objects
        before = await self.listed()
        await expire_objects(self.backend, versions_to_keep=self.c['keep'])
        keep = before[-self.c['keep']:]
        have = await self.listed()
        if have != keep:
            raise Violation('expire', 'of the backups %s %d were to be kept, but %s remain' % (
                before, self.c['keep'], have))
        self.t.add('expired', len(before) - len(have))
        for q in [q for q in self.retained if q not in keep]:
            self.retained.remove(q)
            del self.saved[q]
        self.retained.sort()

    async def listed(self):
        have = []
        async for o in self.backend.list('s3ql_params_'):
            have.append(int(o[12:], 16))
        return sorted(have)

    async def cycle(self):
        import trio
        from s3ql.database import upload_metadata
        self.stop_writer = False
        data = None
        async with trio.open_nursery() as nursery:
            nursery.start_soon(self.writer)
            try:
                await self.db.checkpoint()
                low = self.ver
                for _ in range(2):
                    await upload_metadata(self.backend, self.db, self.params, update_params=False,
                                          incremental=True)
                async with self.db.inhibit_writes():
                    data = self.snap()
                    await upload_metadata(self.backend, self.db, self.params, update_params=True,
                                          incremental=True)
                    await trio.sleep(self.rng.choice([0, 0.003]))
                    if self.snap() != data:
                        raise Violation('changed-while-inhibited', 'the database file changed '
                                        'while writes were inhibited')
                    vs = (low, self.ver)
                    await self.put_params(data, vs)
                    self.params.seq_no += 1
                    await self.put_params(data, vs)
                    await self.expire()
            finally:
                self.stop_writer = True
        self.t.add('cycles')
        return len(data)

    async def final(self, full):
        from s3ql.database import upload_metadata
        self.db.close()
        data = self.snap()
        await upload_metadata(self.backend, self.db, self.params, incremental=not full)
        if self.snap() != data:
            raise Violation('changed-while-inhibited', 'the database file changed during upload')
        await self.put_params(data, (self.ver, self.ver))
        await self.expire()
        self.t.add('full_uploads' if full else 'final_uploads')
        return len(data)

    # -- the check

    async def verify(self, seqs, what):
        from s3ql.database import FsAttributes, download_metadata
        for q in seqs:
            data, buf, (low, high) = self.saved[q]
            wh = '%s: sequence number %x of %s' % (
                what, q, ['%x' % x for x in self.retained[-6:]])
            try:
                stored = (await self.backend.fetch('s3ql_params_%010x' % q))[0]
            except Exception as exc:  # noqa: BLE001
                raise Violation('params-missing', '%s: %s' % (wh, exc))
            if stored != buf:
                raise Violation('params-changed', '%s: stored parameters differ' % wh)
            p = FsAttributes.deserialize(stored)
            dest = self.dir + '/down.db'
            with open(dest, 'wb') as fh:        # leftovers must not matter
                fh.write(self.rng.randbytes(self.rng.choice([0, 100, len(data) + 5000])))
            if p.db_size != len(data):
                raise Violation('size', '%s: recorded size %d, database had %d' % (
                    wh, p.db_size, len(data)))
            try:
                conn = await download_metadata(self.backend, dest, p)
            except Exception as exc:  # noqa: BLE001
                raise Violation('download-failed:%s' % type(exc).__name__,
                                '%s: %s' % (wh, exc), self.describe())
            conn.conn.close()
            with open(dest, 'rb') as fh:
                got = fh.read()
            # (opening the database may touch the header only)
            if got[:18] + got[20:] != data[:18] + data[20:]:
                i = next((i for i in range(min(len(got), len(data))) if got[i] != data[i]), -1)
                raise Violation('bytes', '%s: differs from what was uploaded (offset %d, sizes %d '
                                'and %d)' % (wh, i, len(got), len(data)), self.describe())
            db = sqlite3.connect(dest)
            try:
                if db.execute('PRAGMA integrity_check').fetchall() != [('ok',)]:
                    raise Violation('corrupt', '%s: integrity check failed' % wh)
                v = db.execute('SELECT ver FROM v').fetchone()[0]
                h = hashlib.sha256()
                for r in db.execute('SELECT id, ver, val FROM t ORDER BY id'):
                    h.update(repr(r).encode())
            except sqlite3.DatabaseError as exc:
                raise Violation('corrupt', '%s: %s' % (wh, exc))
            finally:
                db.close()
            if v not in self.dumps or self.dumps[v] != h.digest():
                raise Violation('rows', '%s: version %s of the table is not what was committed' % (
                    wh, v))
            if not low <= v <= high:
                raise Violation('old', '%s: has version %d, uploaded between %d and %d' % (
                    wh, v, low, high))
            self.t.add('downloads_compared')
            self.t.add('bytes_compared', len(data))

    def describe(self):
        return 'trace: %s\nobjects: %s' % (' '.join(self.trace), sorted(os.listdir(
            self.dir + '/b/')) if os.path.exists(self.dir + '/b') else '')

    async def main(self):
        import trio
        from s3ql.authinfo import CompressAlgorithm, CompressSpec
        from s3ql.backends.comprenc import AsyncComprencBackend
        from s3ql.database import FsAttributes
        global trio_sleep
        trio_sleep = trio.sleep
        c, r = self.c, self.rng
        os.mkdir(self.dir + '/b')
        self.ctl = ctl = world.BackendCtl()
        ctl.delay = lambda op, key, ph: r.choice([-1, -1, 0, 0.001])
        ctl.fault = self.fault
        self.countdown = None
        instr = world.install_backend(ctl)
        if c.get('pdel'):
            # what most remote backends do
            from s3ql.backends.common import AsyncBackend
            instr.delete_multi = AsyncBackend.delete_multi
        raw = await make_local(instr, self.dir + '/b', c['conns'])
        alg = dict(none=CompressAlgorithm.NONE, zlib=CompressAlgorithm.ZLIB,
                   bzip2=CompressAlgorithm.BZIP2, lzma=CompressAlgorithm.LZMA)[c['comp']]
        self.backend = await AsyncComprencBackend.create(
            b'foobarquux' if c['enc'] else None, CompressSpec(alg, 0 if c['comp'] == 'none' else 2),
            raw)
        self.trace = []
        conn = sqlite3.connect(self.path)
        conn.execute('PRAGMA page_size=%d' % c['page'])
        conn.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, ver INT, val BLOB)')
        conn.execute('CREATE TABLE v (ver INT)')
        conn.execute('INSERT INTO v VALUES (0)')
        conn.commit()
        conn.close()
        self.dumps[0] = hashlib.sha256().digest()
        self.params = FsAttributes(data_block_size=1024, metadata_block_size=self.bs, seq_no=100)
        self.open()
        last = await self.final(full=True)
        for s in range(c['sessions']):
            self.open()
            self.params.seq_no += 1
            data, _, vs = self.saved[self.params.seq_no - 1]
            self.params.is_mounted = True
            await self.put_params(data, vs)
            failed = False
            for _ in range(c['steps']):
                op = r.choice(['tx', 'tx', 'tx', 'cycle', 'cycle', 'ckpt', 'verify', 'bulk',
                               'purge', 'fail'])
                self.trace.append(op)
                if op == 'tx':
                    await self.transactions(r.randrange(1, 10))
                elif op == 'bulk':
                    self.db.execute('BEGIN')
                    for _ in range(r.choice([20, 60])):
                        self.change()
                    self.db.execute('COMMIT')
                    self.record()
                elif op == 'purge':
                    self.ver += 1
                    self.db.execute('BEGIN')
                    self.db.execute('DELETE FROM t WHERE id %% %d != 0' % r.choice([2, 3, 10]))
                    self.db.execute('UPDATE v SET ver=?', (self.ver,))
                    self.db.execute('COMMIT')
                    self.record()
                elif op == 'ckpt':
                    await self.db.checkpoint()
                elif op == 'verify':
                    await self.verify(r.sample(self.retained, min(2, len(self.retained))), op)
                elif op == 'cycle':
                    size = await self.cycle()
                    self.t.sig(c['bs'], c['page'], op, (size > last) - (size < last))
                    last = size
                elif op == 'fail' and r.random() < 0.3:
                    self.countdown = r.randrange(1, 40)
                    seq = self.params.seq_no
                    try:
                        await self.cycle()
                        self.countdown = None
                    except BaseException as exc:
                        if not has_boom(exc):
                            raise
                        self.countdown = None
                        self.t.add('failed_uploads')
                        failed = True
                        # what the failed cycle was about to replace may be either
                        for q in [q for q in self.retained if q >= seq]:
                            self.retained.remove(q)
                            self.saved.pop(q, None)
                        have = await self.listed()
                        # expired backups go first and whole: whatever is left must be usable
                        keepers = [q for q in self.retained if q in have]
                        if set(self.retained[2 - c['keep']:]) - set(keepers) and c['keep'] > 2:
                            raise Violation('params-missing', 'failing upload: of %s remain %s' % (
                                self.retained, have))
                        await self.verify(keepers, 'after a failed upload')
                        self.retained[:] = keepers
                        for q in [q for q in self.saved if q not in keepers]:
                            del self.saved[q]
                        break
            # -- the end of the session
            x = r.random()
            if failed:
                # the process died; fsck.s3ql
                self.db.conn.close()
                self.open()
                self.ver = self.db.get_val('SELECT ver FROM v')     # (a batch may be cut short)
                self.record()
                self.params.seq_no = max(have) + 1
                if r.random() < 0.5:
                    self.db.execute('VACUUM')
                self.trace.append('fsck')
                size = await self.final(full=True)
                kind = 'full'
                # older parameters may belong to nothing
                await self.drop_unknown()
            elif x < 0.25:
                self.db.execute('VACUUM')
                self.trace.append('vacuum+close')
                size = await self.final(full=False)
                kind = 'vacuum'
            else:
                self.trace.append('close')
                size = await self.final(full=x < 0.4)
                kind = 'close'
            self.t.sig(c['bs'], c['page'], kind, (size > last) - (size < last))
            last = size
            await self.verify(self.retained[-3:] if r.random() < 0.5 else list(self.retained),
                              'after session %d' % s)
            await self.drop_unknown()
        await self.verify(list(self.retained), 'at the end')

    async def drop_unknown(self):
        '''After a failure the backend may have parameters that are not in the books.'''
        have = await self.listed()
        for q in have:
            if q not in self.saved:
                await self.backend.delete('s3ql_params_%010x' % q)
        for q in list(self.retained):
            if q not in have:
                raise Violation('params-missing', 'parameters of %x are gone: %s' % (q, have))

    def fault(self, op, key):
        if self.countdown is None:
            return None
        self.countdown -= 1
        if self.countdown > 0:
            return None
        return Boom('injected')


def has_boom(exc):
    if isinstance(exc, Boom):
        return True
    if isinstance(exc, BaseExceptionGroup):
        return any(has_boom(x) for x in exc.exceptions)
    return False


async def make_local(cls, path, conns):
    import inspect
    import os
    os.makedirs(path, exist_ok=True)
    f = cls.create
    sig = inspect.signature(f)
    kw = dict(storage_url='local://' + path, backend_options={})
    if 'max_connections' in sig.parameters:
        kw['max_connections'] = conns
    return await f(**kw)


if __name__ == '__main__':
    world.preimport()
    core.main('P06', LEVEL, RULE, case, gen, quick_budget=30, thorough_budget=780,
              require=['downloads_compared', 'cycles', 'final_uploads', 'full_uploads', 'expired',
                       'failed_uploads'], min_cases=20)
