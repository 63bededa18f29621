'''Helpers of a demonstration: a file system on a local backend in a scratch directory.

Everything happens inside a temporary directory that is removed at the end.
'''
import contextlib
import logging
import os
import stat
import sys
import tempfile

import pyfuse3
import trio

from s3ql import ROOT_INODE, fs  # noqa: F401
from s3ql.authinfo import CompressAlgorithm, CompressSpec
from s3ql.backends import local
from s3ql.backends.comprenc import AsyncComprencBackend
from s3ql.block_cache import BlockCache
from s3ql.database import Connection, FsAttributes, create_tables
from s3ql.fsck import Fsck
from s3ql.inode_cache import InodeCache
from s3ql.mkfs import init_tables

logging.disable(logging.CRITICAL)

# nothing is mounted
pyfuse3.invalidate_inode = pyfuse3.invalidate_entry_async = lambda *a, **kw: None


class Ctx:
    uid, gid, pid, umask = 1000, 1000, 1, 0


ctx = Ctx()


class Fields:
    def __init__(self, **kw):
        for n in ('atime', 'mtime', 'mode', 'uid', 'gid', 'size'):
            setattr(self, 'update_' + n, False)
        for n in kw:
            setattr(self, 'update_' + n, kw[n])


FILE = stat.S_IFREG | 0o644
DIR = stat.S_IFDIR | 0o755


class Fs:
    pass


@contextlib.asynccontextmanager
async def make_fs(tmp, bs=1024, cache=1 << 20, entries=768, wrap=None, passphrase=None):
    f = Fs()
    os.makedirs(tmp + '/backend', exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    raw = await local.AsyncBackend.create(storage_url='local://' + tmp + '/backend',
                                          backend_options={})
    f.backend = await AsyncComprencBackend.create(passphrase, CompressSpec(algorithm=CompressAlgorithm.ZLIB, level=1), raw)
    if wrap:
        wrap(f.backend)
    f.db = Connection(tmp + '/db.sqlite')
    create_tables(f.db)
    init_tables(f.db)
    f.bs = bs
    f.tmp = tmp
    async with trio.open_nursery() as n:
        f.cache = await BlockCache.create(f.backend, f.db, tmp + '/cache', cache, entries, nursery=n)
        f.server = fs.Operations(f.cache, f.db, bs, InodeCache(f.db, 0))
        f.server.init()
        f.nursery = n
        try:
            yield f
        finally:
            f.server.inodes.destroy()
            n.cancel_scope.cancel()
    f.db.close()


async def create(f, name, data=b'', parent=ROOT_INODE, keep=False):
    '''Create a file, return its inode'''
    fi, a = await f.server.create(parent, name, FILE, os.O_RDWR, ctx)
    if data:
        await write(f, a.st_ino, 0, data)
    if not keep:
        await f.server.release(fi.fh)
        await f.server.forget([(a.st_ino, 1)])
    return a.st_ino


async def write(f, ino, off, data):
    '''Like the kernel: may take several requests'''
    while data:
        n = await f.server.write(ino, off, data)
        off, data = off + n, data[n:]


async def read(f, ino, off, size):
    return await f.server.read(ino, off, size)


async def settle(f):
    '''Wait until everything has been uploaded and removed'''
    await f.cache.drop()
    await trio.sleep(0.3)
    f.server.inodes.flush()


async def fsck(f):
    '''True if fsck finds errors'''
    await settle(f)
    c = Fsck(f.tmp + '/cache', f.backend, FsAttributes(data_block_size=f.bs,
                                                      metadata_block_size=f.bs), f.db)
    await c.check()
    return c.found_errors


def main(fn):
    '''Run the async function fn(tmpdir); exit status 0 if it returns a false value'''
    with tempfile.TemporaryDirectory() as tmp:
        bad = trio.run(fn, tmp)
    if bad:
        print('BROKEN:', bad)
        sys.exit(1)
    print('fine')
