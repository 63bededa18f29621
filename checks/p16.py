'''P16: nothing leaves the machine unencrypted and no key or nonce is reused.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import base64
import bz2
import io
import lzma
import os
import re
import time
import zlib

import trio

from lib import core, damage, hist, spy, world
from lib.core import Tally, Violation, rng_for
from lib.kern import KErr

LEVEL = 'exploration'
RULE = ('The whole life of an encrypted file system (mkfs, sessions with files, names, targets and '
        'attributes holding marker strings, rewrites of equal content, crashes, fsck, backups, '
        'passphrase change, key recovery, shrinking, restoring) with a clock that is normal, '
        'coarse, frozen or steps back; every object handed to the storage backend is recorded and '
        'searched for the markers, the passphrases and the master key, also decompressed and '
        'decoded, and must look random; every cipher set up for encryption and every nonce of a '
        'stored object is compared with all earlier ones. '
        'distinct: (object class, compression, clock, command).')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), kind=rng.choice(['fs', 'fs', 'store']),
                   clock_kind=rng.choice(['normal', 'coarse', 'frozen', 'back', 'back']),
                   cfg=hist.rand_config(rng, plain=False, clock=None, delay=None))


def make_clock(kind, n):
    '''The clock of the *n*-th command.'''
    real = time.time
    t0 = 1700000000.0
    if kind == 'normal':
        return None
    if kind == 'coarse':
        return lambda: t0 + (real() - t0) // 64 * 64
    if kind == 'frozen':
        return lambda: t0
    # every command starts at the same time; within a command time passes quickly
    start = real()
    return lambda: t0 + (real() - start) // 0.25 * 0.25


def cls(key):
    return re.sub(r'[0-9a-f]{2,}|[0-9]+', '#', key)


def variants(buf):
    '''The bytes themselves and whatever they decode to without a key.'''
    yield 'raw', buf
    for name, f in (('zlib', lambda b: zlib.decompressobj().decompress(b)),
                    ('bz2', lambda b: bz2.BZ2Decompressor().decompress(b)),
                    ('lzma', lambda b: lzma.LZMADecompressor().decompress(b)),
                    ('base64', lambda b: base64.b64decode(b, validate=True)),
                    ('hex', lambda b: bytes.fromhex(b.decode())),
                    ('deflate', lambda b: zlib.decompressobj(-15).decompress(b))):
        try:
            d = f(buf)
        except Exception:  # noqa: BLE001
            continue
        if len(d) >= 8:
            yield name, d
    # nested literals
    try:
        import ast
        d = ast.literal_eval(buf.decode())
    except Exception:  # noqa: BLE001
        return
    if isinstance(d, dict):
        for v in d.values():
            if isinstance(v, (bytes, str)):
                v = v if isinstance(v, bytes) else v.encode()
                yield 'literal', v
                try:
                    yield 'literal64', base64.b64decode(v, validate=True)
                except ValueError:
                    pass


def audit(recs, secrets, t, clock):
    '''*secrets*: list of (name, bytes).'''
    # longest alternatives first does not matter: any hit is a violation
    pat = re.compile(b'|'.join(re.escape(s) for _, s in secrets)) if secrets else None
    names = {s: n for n, s in secrets}
    nonces = {}
    ciphers = set()
    for rec in recs:
        if rec[0] == 'cipher':
            _, key, iv = rec
            if (key, iv) in ciphers:
                raise Violation('key-nonce-reused', 'two encryptions were set up with the same key '
                                'and the same counter start (clock: %s)' % clock)
            ciphers.add((key, iv))
            t.add('encryptions_recorded')
            continue
        _, key, data, meta = rec
        t.add('objects_recorded')
        t.sig('obj', cls(key), (meta or {}).get('compression'), clock)
        parts = [('payload', data), ('key', key.encode())]
        for k, v in (meta or {}).items():
            b = v if isinstance(v, bytes) else str(v).encode()
            parts += [('metadata ' + k, b)]
        for where, buf in parts:
            for how, d in variants(buf):
                t.add('buffers_searched')
                m = pat.search(d) if pat else None
                if m:
                    raise Violation('plaintext:%s' % names[m.group()], 'object %s sent to the '
                                    'backend contains %s in its %s (%s): %r' % (
                                        key, names[m.group()], where, how, m.group()))
                if b'SQLite format 3' in d:
                    raise Violation('plaintext:database', 'object %s contains a readable piece of '
                                    'the database (%s)' % (key, how))
        if len(data) >= 256:
            t.add('payloads_tested_for_randomness')
            z = len(zlib.compress(data, 9))
            if z < len(data) * 0.97:
                raise Violation('payload-not-random', 'the payload of %s (%d bytes) compresses to '
                                '%d bytes: it does not look encrypted' % (key, len(data), z))
        if meta is None:
            raise Violation('no-metadata', '%s was stored without metadata' % key)
        n = meta.get('nonce')
        if n is None:
            raise Violation('not-encrypted', 'object %s was stored unencrypted by an encrypted '
                            'file system' % key)
        full = (key, data, repr(sorted(meta.items())))
        if nonces.setdefault(n, full) != full:
            raise Violation('nonce-reused', 'objects %s and %s with different contents were stored '
                            'with the same nonce %r (clock: %s)' % (nonces[n][0], key, n, clock))
    t.add('nonces_seen', len(nonces))


# -------------------------------------------------------------------------------------------

async def store_case(c, rng, t, scratch):
    from s3ql.authinfo import CompressAlgorithm, CompressSpec
    from s3ql.backends import local
    from s3ql.backends.comprenc import AsyncComprencBackend
    os.mkdir(scratch + '/store')
    pw = rng.randbytes(32)
    bs = []
    for alg in CompressAlgorithm:
        raw = await local.AsyncBackend.create(storage_url='local://' + scratch + '/store',
                                              backend_options={})
        bs.append(await AsyncComprencBackend.create(pw, CompressSpec(alg, 2), raw))
    keys = ['s3ql_data_%d' % i for i in range(4)] + ['s3ql_params', 's3ql_metadata_1_2']
    marks = [('data', b'MARKER-%s-' % rng.randbytes(8).hex().encode()) for _ in range(6)]

    async def task(rng):
        for _ in range(40):
            s = rng.choice(marks)[1]
            data = s * rng.choice([0, 1, 20, 500, 30000])
            m = rng.choice([None, {'x': s.decode()}, {'x': s, 'n': 5}])
            b = rng.choice(bs)
            if rng.random() < 0.5:
                await b.store(rng.choice(keys), data, m)
            else:
                await b.write_fh(rng.choice(keys), io.BytesIO(data), len(data), m,
                                 dont_compress=rng.random() < 0.3)
            t.add('stores')
    async with trio.open_nursery() as nu:
        for i in range(rng.choice([1, 3])):
            nu.start_soon(task, rng_for('p16s', c['seed'], i))
    return marks + [('passphrase', pw)]


def run_store(c, scratch):
    '''In a child, since time and the libraries are patched.'''
    rng = rng_for('p16', c['seed'])
    t = Tally()
    sp = spy.Spy(scratch + '/spy')
    sp.install(make_clock(c['clock_kind'], 0))
    secrets = trio.run(store_case, c, rng, t, scratch)
    audit(sp.read(), secrets, t, c['clock_kind'])
    return t


# -------------------------------------------------------------------------------------------


class Life:
    def __init__(self, c, rng, t, scratch):
        self.c, self.rng, self.t, self.scratch = c, rng, t, scratch
        self.cfg = c['cfg']
        self.secrets = []
        self.spy = spy.Spy(scratch + '/spy')
        self.n = 0
        self.pool = []

    def setup(self):
        self.n += 1
        n = self.n
        kind = self.c['clock_kind']

        def su():
            self.spy.install(make_clock(kind, n))
        return su

    def mark(self, what):
        if what in ('file contents',) and self.pool and self.rng.random() < 0.5:
            return self.rng.choice(self.pool)
        s = b'%s<%s>' % (what.split()[-1].encode(), self.rng.randbytes(9).hex().encode())
        self.secrets.append((what, s))
        if what == 'file contents':
            self.pool.append(s)
        return s

    def body(self, steps, crash=False):
        rng, t = self.rng, self.t
        start = [list(self.files), list(self.dirs)]

        async def wl(k, ses):
            files, dirs = start
            fill = [b'', b'\0' * 200, b'x' * 300]
            for _ in range(steps):
                op = rng.choice(['create', 'create', 'mkdir', 'symlink', 'xattr', 'rewrite',
                                 'rewrite', 'rename', 'unlink', 'flush', 'mknod', 'drop'])
                try:
                    if op == 'create':
                        p = rng.choice(dirs) + (self.mark('file name'),)
                        h, _ = await k.create(p)
                        await k.write(h, 0, self.mark('file contents') * rng.choice([1, 30, 80]))
                        await k.release(h)
                        files.append(p)
                    elif op == 'rewrite' and files:
                        h = await k.open(rng.choice(files), os.O_RDWR)
                        await k.write(h, rng.choice([0, 0, 1024, 5000]),
                                      (self.mark('file contents') + rng.choice(fill)) *
                                      rng.choice([1, 5, 30]))
                        if rng.random() < 0.3:
                            await k.fsync(h)
                        await k.release(h)
                    elif op == 'mkdir':
                        p = rng.choice(dirs) + (self.mark('directory name'),)
                        await k.mkdir(p)
                        dirs.append(p)
                    elif op == 'mknod':
                        await k.mknod(rng.choice(dirs) + (self.mark('file name'),), 0o010600)
                    elif op == 'symlink':
                        await k.symlink(rng.choice(dirs) + (self.mark('file name'),),
                                        self.mark('link target'))
                    elif op == 'xattr':
                        await k.setxattr(rng.choice(files + dirs),
                                         b'user.' + self.mark('attribute name'),
                                         self.mark('attribute value'))
                    elif op == 'rename' and files:
                        i = rng.randrange(len(files))
                        p = rng.choice(dirs) + (self.mark('file name'),)
                        await k.rename(files[i], p)
                        files[i] = p
                    elif op == 'unlink' and files:
                        await k.unlink(files.pop(rng.randrange(len(files))))
                    elif op == 'flush':
                        await k.flushcache()
                    elif op == 'drop':
                        await k.dropcache()
                except KErr:
                    pass
            if crash:
                os._exit(9)
            return files, dirs, self.secrets, self.pool
        return wl

    def session(self, seed, crash=False):
        r = hist.session(self.w, dict(self.cfg, keep=False), self.body(25, crash), seed=seed,
                         setup=self.setup(), backup_interval=self.rng.choice([0, 0, 1]))
        if crash:
            self.t.add('crashes')
            # everything that happened is lost to us, except what went to the backend
            return
        world.check_result(r)
        if r.status != 'exit' or r.code:
            raise Violation('mount-failed', '%r' % r, r.describe())
        self.files, self.dirs, self.secrets, self.pool = r.value
        self.t.add('sessions')

    def run(self):
        rng, t, cfg = self.rng, self.t, self.cfg
        pw = 'pass phrase %s' % rng.randbytes(6).hex()
        self.secrets.append(('passphrase', pw.encode()))
        self.w = w = world.World(self.scratch + '/w', plain=False, block_kib=cfg['block_kib'],
                                 meta_kib=cfg['meta_kib'], compress=cfg['compress'],
                                 passphrase=pw, max_connections=cfg['conns'])
        self.files, self.dirs = [], [()]
        label = 'label<%s>' % rng.randbytes(8).hex()
        self.secrets.append(('the label', label.encode()))
        w.must_mkfs(setup=self.setup(), extra=['-L', label])
        master = self.master(pw)
        self.key_secrets(master)
        for i in range(rng.choice([3, 4, 5])):
            self.session(c_seed := self.c['seed'] + i)
            cmd = rng.choice(['fsck', 'passphrase', 'recover', 'shrink', 'crash', 'none', 'restore'])
            t.sig('cmd', cmd, self.c['clock_kind'])
            if cmd == 'fsck':
                r = w.fsck('--force', setup=self.setup())
            elif cmd == 'passphrase':
                pw = 'pass phrase %s' % rng.randbytes(6).hex()
                self.secrets.append(('passphrase', pw.encode()))
                r = w.adm('passphrase', w.url, stdin=pw + '\n', setup=self.setup())
                w.write_auth(pw)
            elif cmd == 'recover':
                pw = 'pass phrase %s' % rng.randbytes(6).hex()
                self.secrets.append(('passphrase', pw.encode()))
                r = w.adm('recover-key', w.url, setup=self.setup(),
                          stdin=base64.b64encode(master).decode() + '\n' + pw + '\n')
                w.write_auth(pw)
            elif cmd == 'shrink':
                r = w.adm('shrink-db', w.url, setup=self.setup())
            elif cmd == 'crash':
                # the markers of a crashed session are not known afterwards
                self.session(c_seed + 1000, crash=True)
                r = w.fsck(setup=self.setup())
                if r.status == 'exit' and r.code in (0, 128):
                    r.code = 0
            else:
                continue
            if r.status != 'exit' or r.code not in (0, 128):
                raise Violation('%s-failed' % cmd, '%s: %r' % (cmd, r), r.describe())
            t.add('commands')
            if self.master(pw) != master:
                raise Violation('master-key-changed', 'after %s' % cmd)
            if cmd == 'crash':
                self.files, self.dirs = [], [()]
        t.add('master_keys_checked')
        audit(self.spy.read(), self.secrets, t, self.c['clock_kind'])
        # what is there at the end, as an observer of the storage sees it
        final = []
        for key, path in damage.index(w.backend_dir).items():
            raw = damage.get(path)
            for n, s in self.secrets:
                for how, d in list(variants(raw)) + list(variants(damage.split(raw)[1])):
                    if s in d:
                        raise Violation('plaintext:%s' % n, 'object file of %s contains %s (%s)' % (
                            key, n, how))
            final.append(key)
        t.add('objects_at_rest', len(final))
        return master

    def key_secrets(self, master):
        self.secrets.append(('the master key', master))
        self.secrets.append(('the master key', base64.b64encode(master)[:40]))
        self.secrets.append(('the master key', master.hex().encode()))

    def master(self, pw):
        '''Decrypt the master key the way a mount does.'''
        from s3ql.authinfo import CompressAlgorithm, CompressSpec
        from s3ql.backends import local
        from s3ql.backends.comprenc import AsyncComprencBackend

        async def main():
            raw = await local.AsyncBackend.create(
                storage_url='local://' + self.w.backend_dir, backend_options={})
            b = await AsyncComprencBackend.create(pw.encode(), CompressSpec(CompressAlgorithm.NONE,
                                                                            0), raw)
            return (await b.fetch('s3ql_passphrase'))[0]
        return trio.run(main)


SEEN = set()


def case(c, scratch):
    rng = rng_for('p16', c['seed'])
    t = Tally()
    if c['kind'] == 'store':
        t.merge(world.check_result(world.call(lambda: run_store(c, scratch), timeout=100,
                                              logpath=scratch + '/log'), 'store'))
    else:
        t.sample(dict(config=c['cfg'], clock=c['clock_kind']), 1)
        master = Life(c, rng, t, scratch).run()
        other = world.World(scratch + '/o', plain=False, passphrase='other')
        other.must_mkfs()
        life = Life(c, rng, t, scratch)
        life.w = other
        if life.master('other') == master:
            raise Violation('master-key-repeated', 'two file systems have the same master key')
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P16', LEVEL, RULE, case, gen, quick_budget=35, thorough_budget=600,
              require=['objects_recorded', 'encryptions_recorded', 'nonces_seen', 'sessions',
                       'commands', 'payloads_tested_for_randomness', 'stores'],
              min_cases=10,
              assumptions=['The strength of AES and SHA-256 is taken for granted; sizes, numbers '
                           'and names of objects are visible by design.'])
