'''P15: whatever is stored through the storage layer is read back unchanged.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import io
import os

import trio

from lib import core, damage, world
from lib.core import Tally, Violation, describe_exc, rng_for

LEVEL = 'exploration'
RULE = ('A case is a random history of stores, overwrites, reads, lookups and deletions by several '
        'instances of the compressing/encrypting layer (same passphrase, different settings) over '
        'one local directory, with in-memory and real files at random offsets, compared with a '
        'dictionary; or payload damage of stored unencrypted compressed objects, which must be '
        'reported as corruption unless the exact data comes back. '
        'distinct: (settings, size class, kinds of files, operations) combinations.')

BUF = 256 * 1024


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), encrypted=rng.random() < 0.5,
                   kind=rng.choice(['history', 'history', 'damage']))


def size(rng):
    return rng.choice([0, 0, 1, 2, 3, 15, 16, 17, 100, rng.randrange(3000), 1023, 1024, 4096,
                       250, 251, 3 * 1024 + 1, 10 * 1024 + 1, 50 * 1024, 50 * 1024 + 1,
                       rng.randrange(100000), BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 5])


def payload(rng):
    n = size(rng)
    r = rng.random()
    if r < 0.35:
        return rng.randbytes(n)
    if r < 0.5:
        return bytes(n)
    if r < 0.8:
        x = rng.randbytes(rng.randrange(1, 300))
        return (x * (n // len(x) + 1))[:n]
    return (rng.randbytes(max(1, n // 2)) + bytes(n))[:n]


def mapping(rng):
    d = {}
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        k = rng.choice(['a', 'b', 'ü', "quo'te", 'with "both" \'', 'new\nline', '', 'data',
                        'signature', 'encryption', 'nonce', 'x' * 50, '\ud800', 'format_version',
                        'object_id', '\\', '\0'])
        d[k] = rng.choice([
            0, 1, -1, 2**70, True, False, None, '', 'text', "it's", 'ü☃', '\n\0', b'', b'bytes',
            b'\xff\0\x01', rng.randbytes(30), 1.5, -0.0, 1e300, 5e-324, 0.1, 1.5 + 2j, 'b\'x\'',
            bytearray(b'array'), '\\x41', rng.random()])
    return d


def eq(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = (bytes(v) if isinstance(v, bytearray) else v for v in (a[k], b[k]))
        if type(x) is not type(y) or x != y or repr(x) != repr(y):
            return False
    return True


KEYS = ['s3ql_data_1', 's3ql_data_22', 's3ql_data_333', 's3ql_data_4444', 's3ql_data_1234567',
        's3ql_params', 's3ql_params_0000000001', 's3ql_metadata_000000000a_0000000001', 'plain',
        'with/slash', 'with=equal', 'hash#tag', 'ü☃', 'sp ace', "q'uote", '=2F', 's3ql_data_x/y',
        's3ql_data_', 'a.b', '.hidden', 's3ql_data_12=3456', 'x' * 200]


def case(c, scratch):
    rng = rng_for('p15', c['seed'])
    t = Tally()

    async def main():
        if c['kind'] == 'history':
            await history(c, rng, t, scratch)
        else:
            await damaged(c, rng, t, scratch)
    trio.run(main)
    return t


async def instances(c, rng, path, n):
    from s3ql.authinfo import CompressAlgorithm, CompressSpec
    from s3ql.backends import local
    from s3ql.backends.comprenc import AsyncComprencBackend
    pw = None
    if c['encrypted']:
        pw = rng.choice([b'foo', rng.randbytes(32), b'', 'ü'.encode()])
    if rng.random() < 0.5:
        AsyncComprencBackend.set_max_threads(rng.choice([1, 4]))
    res = []
    for _ in range(n):
        alg = rng.choice(list(CompressAlgorithm))
        lvl = rng.choice([1, 6, 9]) if alg.name != 'LZMA' else rng.choice([0, 2, 5])
        raw = await local.AsyncBackend.create(storage_url='local://' + path, backend_options={},
                                              max_connections=rng.choice([1, 4]))
        b = await AsyncComprencBackend.create(pw, CompressSpec(alg, lvl), raw)
        b.cfg = '%s-%d' % (alg.name, lvl)
        res.append(b)
    return res


async def guard(what, coro):
    try:
        return await coro
    except Violation:
        raise
    except Exception as exc:  # noqa: BLE001
        raise Violation('exception:%s:%s' % (what, type(exc).__name__),
                        '%s raised %s: %s' % (what, type(exc).__name__, exc),
                        describe_exc(exc)) from exc


async def store(b, rng, t, key, data, meta, scratch):
    '''Store in one of several ways. Returns the size that was reported.'''
    how = rng.choice(['store', 'mem', 'memoff', 'memlen', 'file', 'fileoff', 'filelen', 'rawfile'])
    dc = rng.random() < 0.15
    pre = rng.randbytes(rng.choice([1, 10, 5000])) if 'off' in how or 'len' in how else b''
    post = rng.randbytes(rng.choice([0, 1, 7000])) if 'len' in how else b''
    t.add('store_' + how)
    if how == 'store':
        return await guard('store', b.store(key, data, meta)), how
    if how.startswith('mem'):
        fh = io.BytesIO(pre + data + post)
        fh.seek(len(pre))
        return await guard('write_fh', b.write_fh(key, fh, len(data), meta, dont_compress=dc)), how
    p = os.path.join(scratch, 'src%d' % rng.randrange(10**9))
    with open(p, 'wb') as fh:
        fh.write(pre + data + post)
    with open(p, 'rb', buffering=0 if how == 'rawfile' else -1) as fh:
        fh.seek(len(pre))
        res = await guard('write_fh', b.write_fh(key, fh, len(data), meta, dont_compress=dc))
    os.unlink(p)
    return res, how


async def fetch(b, rng, t, key, hint, scratch):
    '''Read in one of several ways. Returns (data, metadata).'''
    how = rng.choice(['fetch', 'mem', 'memoff', 'file', 'fileoff', 'rawfile'])
    t.add('fetch_' + how)
    if how == 'fetch':
        return await b.fetch(key)
    hint = rng.choice([None, hint, 0, hint + 1, 10**6])
    pre = rng.randbytes(rng.choice([1, 300])) if 'off' in how else b''
    post = rng.randbytes(rng.choice([0, 5])) if 'off' in how else b''
    if how.startswith('mem'):
        fh = io.BytesIO(pre)
        fh.seek(len(pre))
        meta = await b.readinto_fh(key, fh, size_hint=hint)
        end = fh.tell()
        buf = fh.getvalue()
    else:
        p = os.path.join(scratch, 'dst%d' % rng.randrange(10**9))
        with open(p, 'wb') as fh:
            fh.write(pre)
        with open(p, 'r+b', buffering=0 if how == 'rawfile' else -1) as fh:
            fh.seek(len(pre))
            meta = await b.readinto_fh(key, fh, size_hint=hint)
            end = fh.tell()
        buf = open(p, 'rb').read()
        os.unlink(p)
    if buf[:len(pre)] != pre:
        raise Violation('read-before-offset', 'reading %r changed bytes before the offset' % key)
    if end != len(buf):
        raise Violation('read-position', 'file position %d after reading, file has %d bytes' % (
            end, len(buf)))
    del post
    return buf[len(pre):], meta


async def history(c, rng, t, scratch):
    from s3ql.backends.common import NoSuchObject
    path = scratch + '/store'
    os.mkdir(path)
    bs = await instances(c, rng, path, 3)
    model = {}
    keys = rng.sample(KEYS, 7)
    for _ in range(40):
        key = rng.choice(keys)
        b = rng.choice(bs)
        op = rng.choices(['store', 'fetch', 'lookup', 'delete', 'contains', 'list', 'size', 'bad',
                          'par'], [10, 10, 3, 2, 2, 2, 2, 1, 1])[0]
        t.add('op_' + op)
        if op == 'store':
            data, meta = payload(rng), mapping(rng)
            keep = dict(meta)
            n, how = await store(b, rng, t, key, data, meta if meta or rng.random() < 0.5 else None,
                                 scratch)
            if not eq(keep, meta) and meta:
                raise Violation('argument-changed', 'the caller\'s metadata was changed')
            real = os.path.getsize(damage.index(path)[key])
            if n != real:
                raise Violation('store-size', 'store of %r reported %d bytes, object has %d' % (
                    key, n, real))
            model[key] = (data, meta)
            t.sig(c['encrypted'], b.cfg, how, len(data).bit_length(), len(meta))
        elif op == 'bad':
            try:
                await b.store(key, b'x', {'__size': 3})
            except ValueError:
                continue
            raise Violation('reserved-key', 'metadata with the reserved key was accepted')
        elif op == 'par':
            ks = rng.sample(keys, 4)
            jobs = [(k, payload(rng), mapping(rng)) for k in ks]
            async with trio.open_nursery() as n:
                for k, d, m in jobs:
                    n.start_soon(store, rng.choice(bs), rng, t, k, d, m, scratch)
            for k, d, m in jobs:
                model[k] = (d, m)
        elif op == 'list':
            got = sorted([k async for k in b.list()])
            if got != sorted(model):
                raise Violation('list', 'listing shows %r instead of %r' % (got, sorted(model)))
        elif op == 'contains':
            if await guard('contains', b.contains(key)) != (key in model):
                raise Violation('contains', 'contains(%r) is wrong' % key)
        elif op == 'delete':
            await guard('delete', b.delete(key))
            model.pop(key, None)
        elif key not in model:
            try:
                await (b.fetch(key) if op == 'fetch' else b.lookup(key) if op == 'lookup' else
                       b.get_size(key))
            except NoSuchObject:
                continue
            except Exception as exc:  # noqa: BLE001
                if op == 'size':
                    continue
                raise Violation('missing-object', '%s of a missing object raised %r' % (
                    op, exc)) from exc
            raise Violation('missing-object', '%s of a missing object succeeded' % op)
        else:
            data, meta = model[key]
            if op == 'fetch':
                gd, gm = await guard('read', fetch(b, rng, t, key, len(data), scratch))
                if gd != data:
                    i = next((i for i in range(min(len(gd), len(data))) if gd[i] != data[i]),
                             min(len(gd), len(data)))
                    raise Violation('data', 'read %d bytes of %r instead of %d, first difference '
                                    'at %d' % (len(gd), key, len(data), i))
                t.add('objects_compared')
            elif op == 'lookup':
                gm = await guard('lookup', b.lookup(key))
            else:
                n = await guard('get_size', b.get_size(key))
                real = os.path.getsize(damage.index(path)[key])
                if n != real:
                    raise Violation('get-size', 'get_size gave %d, object has %d bytes' % (n, real))
                continue
            if not eq(meta, gm):
                raise Violation('metadata', '%s of %r returned metadata %r instead of %r' % (
                    op, key, gm, meta))
            t.add('metadata_compared')
    for key, (data, meta) in model.items():
        for b in bs[:2]:
            gd, gm = await guard('read', fetch(b, rng, t, key, len(data), scratch))
            if gd != data or not eq(meta, gm):
                raise Violation('data', 'final comparison of %r fails' % key)


async def damaged(c, rng, t, scratch):
    from s3ql.backends.common import CorruptedObjectError
    from s3ql.authinfo import CompressAlgorithm
    path = scratch + '/store'
    os.mkdir(path)
    c = dict(c, encrypted=False)
    bs = await instances(c, rng, path, 6)
    for i in range(60):
        key = 's3ql_data_%d' % rng.randrange(1, 20000)
        b = rng.choice(bs)
        data = payload(rng)[:rng.choice([50, 3000, 10**6])]
        await b.store(key, data, mapping(rng))
        p = damage.index(path)[key]
        raw = damage.get(p)
        meta, pl = damage.split(raw)
        compressed = b.compress.algorithm is not CompressAlgorithm.NONE
        what = rng.choice(['payload', 'payload', 'payload', 'meta', 'raw'])
        mode = rng.choice(damage.MODES)
        if what == 'payload':
            if not compressed:
                continue
            damage.put(p, damage.join(meta, damage.damage(pl, rng, mode)))
        elif what == 'meta':
            m, mode = damage.edit_meta(meta, rng)
            damage.put(p, damage.join(m, pl))
        else:
            damage.put(p, damage.damage(raw[:9 + len(meta)], rng, mode) + pl)
        reader = rng.choice(bs)
        t.add('damaged_' + what)
        for op in ('read', 'lookup'):
            try:
                if op == 'read':
                    got, _ = await fetch(reader, rng, t, key, len(data), scratch)
                else:
                    await reader.lookup(key)
                    continue
            except CorruptedObjectError:
                t.add('corruption_reported')
                t.sig('damage', b.cfg, what, mode)
                continue
            except Violation:
                raise
            except Exception as exc:  # noqa: BLE001
                raise Violation('damage-exception:%s:%s' % (what, type(exc).__name__),
                                '%s of an object with damaged %s (%s, %s) raised %s: %s' % (
                                    op, what, mode, b.cfg, type(exc).__name__, exc),
                                describe_exc(exc)) from exc
            if got != data and what == 'payload':
                raise Violation('damage-undetected', 'damaged (%s) %s object was read as %d bytes '
                                'instead of %d' % (mode, b.cfg, len(got), len(data)))
            t.add('damage_harmless')
        os.unlink(p)


if __name__ == '__main__':
    world.preimport()
    core.main('P15', LEVEL, RULE, case, gen, quick_budget=25, thorough_budget=600,
              require=['objects_compared', 'metadata_compared', 'corruption_reported', 'op_par'],
              min_cases=20,
              assumptions=['Unencrypted uncompressed objects carry no checksum in their format; '
                           'damage of their payload is left to s3ql_verify (P20).'])
