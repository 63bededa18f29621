'''P17: every remote backend is a correct object store, whatever passing faults there are.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import io
import logging
import os
import tempfile

import trio
import trio.testing

from lib import core, httpsrv, stores
from lib.core import Alarm, Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case drives one remote backend (s3c, s3c4, s3, b2, gs, swift, swiftks, rackspace; plain or TLS) '
        'with several tasks against a service speaking its protocol on raw sockets, which checks '
        'signatures, tokens and framing itself and injects faults at any request and byte (connections '
        'cut, reset or silent before, within and after request and answer, 5xx and throttling answers, '
        'expired tokens, corrupted bytes on plain connections, partial bulk deletions, short pages). Every '
        'result and the stored objects are compared to a dictionary; refused operations must fail once, '
        'and with the right kind of exception. distinct: (dialect, operation, faults it met, outcome).')

DIALECTS = ['s3c', 's3c', 's3c4', 's3', 'b2', 'gs', 'gs', 'swift', 'swift', 'swiftks', 'rackspace']


def gen(rng, tier):
    i = 0
    while True:
        i += 1
        d = DIALECTS[i % len(DIALECTS)] if i < 40 else rng.choice(DIALECTS)
        yield dict(seed=rng.randrange(2**40), dialect=d,
                   plain=d in ('s3c', 's3c4', 's3', 'swift', 'swiftks') and rng.random() < 0.6,
                   kind=rng.choice(['ops'] * 6 + ['list', 'bulk', 'bulk', 'create']),
                   p=rng.choice([0, 0.1, 0.25, 0.25, 0.5]),
                   tasks=rng.choice([1, 1, 3, 6]), conns=rng.choice([1, 2, 4]),
                   n=rng.choice([10, 25]))


PREFIXES = ['', 'pre', 'some/dir/', 'a b+c&d=e', 'ü<x>"%41\'/', 's3ql~#?;x', '100%', 'a//b']
KEYS = ['s3ql_data_%d', 's3ql_data_%d', 's3ql_metadata_%06x', 'x y+%d', 'ä&<%d>', 'p%%20q/%d', '?a=%d', "q'%d\"~"]


async def ticks():
    """Keep the clock from jumping far.

    It jumps when nothing has happened for 10 ms, which can also be because a thread or another
    process is slow, so it must not reach the end of the three days in one go.
    """
    while True:
        await trio.sleep(400)


class Bench:
    def __init__(self, c, scratch, t):
        self.c, self.t = c, t
        self.rng = rng_for('p17', c['seed'])
        self.scratch = scratch
        self.seq = 0

    async def open_stream(self, host, port, **kw):
        '''Every host name leads to our servers.'''
        self.dialed.append((host, port))
        if host == 'nowhere.invalid':
            raise Violation('wrong-endpoint', 'the client connects to an endpoint it was not given')
        return await self.real_open('127.0.0.1', self.tls_port if port in self.tls_ports else
                                    self.plain_port)

    async def start(self, nursery):
        c, rng = self.c, self.rng
        d = c['dialect']
        logging.getLogger('s3ql').setLevel(logging.CRITICAL)
        names = ['localhost', 'store.example.com', 'accounts.google.com', 'www.googleapis.com',
                 'auth.api.rackspacecloud.com', 'api.backblazeb2.com', 'auth.example.com']
        self.region = rng.choice(['us-west-2', 'eu-central-1', 'us-west-004', 'us-east-005'])
        names += ['s3.%s.amazonaws.com' % self.region, 's3.%s.backblazeb2.com' % self.region,
                  's3.us-east-005.backblazeb2.com']
        srvctx, _ = httpsrv.certificate(self.scratch, *names)
        self.dialed = []
        self.real_open = trio.open_tcp_stream
        trio.open_tcp_stream = self.open_stream
        self.tls_ports = {443, 5443}
        self.bucket = rng.choice(['bucket', 'my-bucket1', 'container2'])
        self.prefix = rng.choice(PREFIXES)
        login, password = rng.choice([('user', 'secret'), ('AKIAX', 'wJalr/XUtn+FE=')])
        opts = {'ssl-ca-path': os.path.join(self.scratch, 'cert.pem')}
        if rng.random() < 0.3:
            opts['tcp-timeout'] = '10'
        kw = dict(p=c['p'], plain=c['plain'], bucket=self.bucket, prefix=self.prefix, login=login,
                  password=password)
        plain = c['plain']
        if plain:
            opts['no-ssl'] = True
        srng = rng_for('svc', c['seed'])
        if d in ('s3c', 's3c4'):
            from s3ql.backends import s3c, s3c4
            cls = s3c.AsyncBackend if d == 's3c' else s3c4.AsyncBackend
            port = 80 if plain else 443
            host = 'store.example.com'
            url = '%s://%s%s/%s/%s' % (d, host, rng.choice(['', ':%d' % (8080 if plain else 5443)]), self.bucket,
                                       self.prefix)
            kw.update(version=2 if d == 's3c' else 4, host=host, vendor=rng.choice([None, 'upper']))
            if d == 's3c4':
                kw['region'] = 'us-east-1'
                if rng.random() < 0.5:
                    opts['sig-region'] = kw['region'] = self.region
            if rng.random() < 0.2:
                opts['disable-expect100'] = True
            svc = stores.S3(srng, self.t, **kw)
        elif d == 's3':
            from s3ql.backends import s3
            cls = s3.AsyncBackend
            url = 's3://%s/%s/%s' % (self.region, self.bucket, self.prefix)
            svc = stores.S3(srng, self.t, version=4, region=self.region, **kw)
            if rng.random() < 0.3:
                svc.redirect = ('%s://store.example.com/' % ('http' if plain else 'https'), self.region)
            for o in ('sse', 'rrs', 'ia'):
                if rng.random() < 0.2:
                    opts[o] = True
        elif d == 'b2':
            from s3ql.backends import b2ng
            cls = b2ng.AsyncBackend
            url = 'b2://%s/%s' % (self.bucket if '_' not in self.bucket else 'my-bucket', self.prefix)
            svc = stores.B2(srng, self.t, version=4, region=self.region, **kw)
        elif d == 'gs':
            from s3ql.backends import gs
            cls = gs.AsyncBackend
            url = 'gs://%s/%s' % (self.bucket, self.prefix)
            kw['login'] = login = 'oauth2'
            svc = stores.GS(srng, self.t, **kw)
            opts.pop('no-ssl', None)
        else:
            from s3ql.backends import rackspace, swift, swiftks
            storage = ('http', 'store.example.com', 8080) if plain else ('https', 'store.example.com', 5443)
            auth = 'v1'
            port = ':8080' if plain else rng.choice(['', ':5443'])
            if d == 'swift':
                cls = swift.AsyncBackend
                url = 'swift://auth.example.com%s/%s/%s' % (port, self.bucket, self.prefix)
            else:
                auth = 'v2'
                if rng.random() < 0.5:
                    kw['login'] = login = 'ten:' + login
                if d == 'swiftks':
                    cls = swiftks.AsyncBackend
                    url = 'swiftks://auth.example.com%s/%s:%s/%s' % (port, self.region, self.bucket, self.prefix)
                    if rng.random() < 0.5:
                        auth = 'v3'
                        opts['domain'] = 'dom'
                        kw['login'] = login = 'ten:' + login.split(':')[-1]
                else:
                    cls = rackspace.AsyncBackend
                    url = 'rackspace://%s/%s/%s' % (self.region, self.bucket, self.prefix)
            svc = stores.Swift(srng, self.t, auth=auth, region=self.region, storage=storage, **kw)
            if rng.random() < 0.1:
                opts['no-feature-detection'] = True
                svc.info = 404
        self.svc = svc
        self.kw = dict(storage_url=url, backend_options=opts, backend_login=login, backend_password=password,
                       max_connections=c['conns'])
        self.cls = cls
        s = await httpsrv.Server(lambda conn: svc.serve(conn, None), nursery=nursery).start()
        self.plain_port = s.port
        s = await httpsrv.Server(lambda conn: svc.serve(conn, srvctx), nursery=nursery).start()
        self.tls_port = s.port

    async def create(self, **over):
        return await self.op('create', None, lambda: self.cls.create(**{**self.kw, **over}))

    # -- running one operation --

    async def op(self, what, key, fn, refused=None):
        '''Result of fn(), or the exception if one is expected (*refused*: name of the object).'''
        svc = self.svc
        r0 = svc.requests
        f0 = len(svc.faultlog)
        if refused:
            svc.refused.pop(refused, None)
        try:
            with trio.fail_after(86400 * 3):
                res = await fn()
        except trio.TooSlowError:
            raise Violation('stuck', '%s(%s) still not done after three days (%d requests, faults %s)' % (
                what, key, svc.requests - r0, svc.faultlog[f0:][:20])) from None
        except (Exception, BaseExceptionGroup) as exc:
            v = find_violation(exc)
            if v is not None:
                raise v from exc
            if refused is not None:
                return exc
            raise Violation('fault-surfaced', '%s: %s(%r) failed with %s though nothing was permanently '
                            'wrong; faults meanwhile: %s' % (
                                self.c['dialect'], what, key, core.describe_exc(exc),
                                svc.faultlog[f0:][-12:])) from exc
        self.t.add('op_' + what)
        self.t.sig(self.c['dialect'], what, tuple(sorted({x[0] for x in svc.faultlog[f0:]})))
        if self.c['tasks'] == 1 and svc.requests - r0 > 1:
            self.t.add('retried_ops')
        return res

    def fresh_key(self, task):
        self.seq += 1
        # all tasks' names are mixed in the order of the listing
        return 'k%d/%s' % (task, self.rng.choice(KEYS) % self.rng.randrange(10**4))

    def data(self):
        rng = self.rng
        n = rng.choice([0, 1, 5, 100, 1000, 5000, 70000, 300000, 600000])
        seed = bytes(rng.randrange(256) for _ in range(8))
        if n > 5000:
            block = seed * 32
            return b''.join(b'%08d' % i + block for i in range(n // 264 + 1))[:n]
        d = bytes(rng.randrange(256) for _ in range(n))
        if rng.random() < 0.1:
            d += rng.choice([b'\n--foo_bar_baz--\n', b'--foo_bar_baz\n', b'\r\n\r\n', b'0\r\n\r\n'])
        return d

    def meta(self):
        rng = self.rng
        m = {}
        size = 0
        for _ in range(rng.choice([0, 1, 3, 6])):
            k = rng.choice(['a', 'format_version', 'k_%d' % rng.randrange(9), 'Mixed-Case', 'ü', 'with space', "q'"])
            v = rng.choice([
                None, True, False, 0, -5, 10**20, 1.5, -1e-30, '', 'text', "it's \"quoted\" \\ \n", 'ünï ☃',
                b'', b'bytes\x00\xff', bytes(rng.randrange(256) for _ in range(rng.choice([3, 30, 200, 400]))),
                'x' * rng.choice([10, 200, 300, 600]), 'spa ces  and %41 + & =', 'ab ' * rng.choice([50, 85, 90]),
                ''.join(rng.choice('ab c%,:') for _ in range(rng.choice([20, 240, 260, 500])))])
            size += 3 * len(repr(v).encode()) + len(k) + 20
            if size < 1900:
                m[k] = v
        return m

    def source(self, data):
        rng = self.rng
        if rng.random() < 0.5:
            fh = io.BytesIO(data)
        else:
            fh = tempfile.TemporaryFile(dir=self.scratch)
            fh.write(data)
        fh.seek(rng.choice([0, len(data) // 2, len(data)]))
        return fh

    async def read(self, be, key):
        rng = self.rng
        fh = io.BytesIO() if rng.random() < 0.5 else tempfile.TemporaryFile(dir=self.scratch)
        pre = rng.choice([b'', b'', b'prefix', b'p' * 3000])
        fh.write(pre)
        meta = await be.readinto_fh(key, fh)
        fh.seek(0)
        buf = fh.read()
        if buf[:len(pre)] != pre:
            raise Violation('overwritten', 'reading %r changed what was in the file before the current offset' % key)
        return buf[len(pre):], meta

    # -- checks --

    def refusal(self, what, key, exc, full):
        '''Judge what became of an operation the service refuses.'''
        if not isinstance(exc, BaseException):
            raise Violation('refusal-lost', '%s: %s(%r) succeeded although the service refused it' % (
                self.c['dialect'], what, key))
        from s3ql.backends import common as cm
        from s3ql.backends import gs, s3c
        e = exc
        while isinstance(e, BaseExceptionGroup):
            e = e.exceptions[0]
        if isinstance(e, cm.NoSuchObject) or not isinstance(e, (
                s3c.HTTPError, s3c.S3Error, gs.RequestError, cm.AuthorizationError, cm.AuthenticationError)):
            raise Violation('wrong-exception', '%s: %s(%r), refused by the service with %s, failed with %s' % (
                self.c['dialect'], what, key, self.svc.deny.get(full), core.describe_exc(exc)))
        n = self.svc.refused.get(full, 0)
        if n > 1:
            raise Violation('refusal-retried', '%s: %s(%r) was tried %d times although it was refused '
                            'with %s' % (self.c['dialect'], what, key, n, self.svc.deny.get(full)))
        if n != 1:
            raise Violation('fault-surfaced', '%s: %s(%r) failed with %s before the refusal' % (
                self.c['dialect'], what, key, core.describe_exc(exc)))
        self.t.add('refusals')
        self.t.sig(self.c['dialect'], what, self.svc.deny.get(full))

    def stored(self, full, data, what):
        o = self.svc.objs.get(full)
        if data is None:
            if o is not None:
                raise Violation('not-deleted', 'after %s the service still has %r' % (what, full))
        elif o is None:
            raise Violation('not-stored', 'after %s the service has no %r' % (what, full))
        elif o.data != data:
            raise Violation('stored-differs', 'after %s %r has %d bytes, not the %d given (%s)' % (
                what, full, len(o.data), len(data), first_difference(o.data, data)))

    def same(self, what, key, got, want):
        if got != want or (isinstance(want, dict) and [(k, type(v)) for k, v in sorted(got.items())] !=
                           [(k, type(v)) for k, v in sorted(want.items())]):
            if isinstance(want, bytes):
                raise Violation('wrong-data', '%s(%r) gave %d bytes, stored were %d (%s)' % (
                    what, key, len(got), len(want), first_difference(got, want)))
            raise Violation('wrong-result', '%s(%r) gave %r, not %r' % (what, key, got, want))

    async def listing(self, be, prefix, want, what='list'):
        async def fn():
            return [x async for x in be.list(prefix)]
        got = await self.op(what, prefix, fn)
        if sorted(got) != sorted(want):
            extra, missing = sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3]
            dup = len(got) - len(set(got))
            raise Violation('wrong-listing', '%s: list(%r) of %d gave %d names (missing %s, not there: %s, '
                            'repeated: %d)' % (self.c['dialect'], prefix, len(want), len(got), missing, extra, dup))
        self.t.add('listed_names', len(got))

    async def task(self, be, no):
        from s3ql.backends.common import NoSuchObject
        c, svc = self.c, self.svc
        rng = rng_for('task', c['seed'], no)
        model = {}
        keys = [self.fresh_key(no) for _ in range(6)]
        pool = list(dict.fromkeys(keys))
        P = svc.prefix
        perm = svc.perm_errors
        for _ in range(c['n']):
            key = rng.choice(pool)
            full = P + key
            what = rng.choice(['write', 'write', 'read', 'read', 'read', 'lookup', 'size', 'contains', 'delete',
                               'deletes', 'list', 'refused'])
            cur = model.get(key)
            if what == 'write':
                data, meta = self.data(), self.meta()
                fh = self.source(data)
                if rng.random() < 0.7:
                    n = await self.op('write', key, lambda: be.write_fh(key, fh, meta))
                else:
                    n = await self.op('write', key, lambda: be.store(key, data, meta))
                self.same('write', key, n, len(data))
                model[key] = (data, meta)
                self.stored(full, data, 'write')
            elif what in ('read', 'lookup', 'size') and cur is None:
                fn = {'read': lambda: self.read(be, key), 'lookup': lambda: be.lookup(key),
                      'size': lambda: be.get_size(key)}[what]

                async def missing():
                    try:
                        return await fn()
                    except NoSuchObject as exc:
                        if exc.key != key:
                            raise Violation('wrong-key', '%r instead of %r' % (exc.key, key)) from None
                        return NoSuchObject
                res = await self.op(what + '_missing', key, missing)
                self.same(what, key, res, NoSuchObject)
            elif what == 'read':
                if rng.random() < 0.7:
                    data, meta = await self.op('read', key, lambda: self.read(be, key))
                else:
                    data, meta = await self.op('read', key, lambda: be.fetch(key))
                self.same('read', key, data, cur[0])
                self.same('metadata of read', key, meta, cur[1])
            elif what == 'lookup':
                self.same('lookup', key, await self.op('lookup', key, lambda: be.lookup(key)), cur[1])
            elif what == 'size':
                self.same('get_size', key, await self.op('size', key, lambda: be.get_size(key)), len(cur[0]))
            elif what == 'contains':
                self.same('contains', key, await self.op('contains', key, lambda: be.contains(key)), cur is not None)
            elif what == 'delete':
                await self.op('delete', key, lambda: be.delete(key))
                model.pop(key, None)
                self.stored(full, None, 'delete')
            elif what == 'deletes':
                ks = rng.sample(pool, rng.randrange(len(pool) + 1))
                arg = list(ks)
                await self.op('delete_multi', len(ks), lambda: be.delete_multi(arg))
                if arg:
                    raise Violation('wrong-remains', '%s: delete_multi(%r) returned, leaving %r in the list' % (
                        c['dialect'], ks, arg))
                for k in ks:
                    model.pop(k, None)
                    self.stored(P + k, None, 'delete_multi')
            elif what == 'list':
                await self.listing(be, 'k%d/' % no, model)
            elif what == 'refused':
                svc.deny[full] = kind = rng.choice(perm)
                w = rng.choice(['write', 'read', 'lookup', 'size', 'delete', 'contains'])
                data = self.data()
                fn = {'write': lambda: be.store(key, data), 'read': lambda: self.read(be, key),
                      'lookup': lambda: be.lookup(key), 'size': lambda: be.get_size(key),
                      'delete': lambda: be.delete(key), 'contains': lambda: be.contains(key)}[w]
                res = await self.op(w, key, fn, refused=full)
                self.refusal(w, key, res, full)
                del svc.deny[full]
                self.stored(full, cur[0] if cur else None, 'a refused %s' % w)
        await self.listing(be, 'k%d/' % no, model)
        for k, (data, meta) in model.items():
            self.stored(P + k, data, 'everything')

    # -- kinds --

    async def run_ops(self, be, nursery):
        async with trio.open_nursery() as n:
            for i in range(self.c['tasks']):
                n.start_soon(self.task, be, i)

    def populate(self, prefix, n):
        keys = []
        if self.c['dialect'] == 'gs':
            meta = {}
        else:
            meta = []
        for i in range(n):
            k = '%s%s' % (prefix, self.rng.choice(['%05d', 'x%05x', 'ä%05d', 'x y%05d']) % i)
            self.svc.objs[self.svc.prefix + k] = stores.Obj(b'x' * (i % 7), meta)
            keys.append(k)
        return keys

    async def run_list(self, be, nursery):
        rng = self.rng
        svc = self.svc
        svc.objs['\x20before'] = svc.objs['~after'] = stores.Obj(b'', {} if self.c['dialect'] == 'gs' else [])
        groups = {}
        for p in ['s3ql_data_', 's3ql_meta', 's3ql_m', 'z&<']:
            groups[p] = self.populate(p, rng.choice([0, 1, 5, 999, 1000, 1001, 2000, 2003, 300]))
        allkeys = [k for v in groups.values() for k in v]
        if not svc.prefix:
            allkeys += ['\x20before', '~after']
        for p in groups:
            await self.listing(be, p, [k for k in allkeys if k.startswith(p)], 'list_long')
        await self.listing(be, '', allkeys, 'list_long')
        # a reader which stops in the middle does no harm
        async def some():
            n = 0
            it = be.list('')
            async for _ in it:
                n += 1
                if n > 3:
                    break
            await it.aclose()
        await self.op('list_part', '', some)
        await self.run_ops(be, nursery)

    async def run_bulk(self, be, nursery):
        rng, svc = self.rng, self.svc
        P = svc.prefix
        for _ in range(rng.choice([1, 3])):
            sizes = [1, 2, 7, 60]
            if isinstance(svc, stores.S3) and svc.version == 4 or isinstance(svc, stores.Swift) and svc.bulk:
                sizes += [300, 1000, 1001, 2100]
            keys = self.populate('s3ql_data_', rng.choice(sizes))
            keys = list(dict.fromkeys(keys))
            keep = set(rng.sample(keys, len(keys) // 10))
            ask = [k for k in keys if k not in keep]
            for k in rng.sample(ask, len(ask) // 8):
                svc.objs.pop(P + k, None)
            rng.shuffle(ask)
            denied = set()
            if rng.random() < 0.5:
                denied = set(rng.sample(ask, min(len(ask), rng.choice([1, 1, 2, 40]))))
                for k in denied:
                    svc.deny[P + k] = rng.choice(svc.perm_errors)
            before = {k for k in ask if P + k in svc.objs}
            arg = list(ask)
            lost0 = svc.lost
            log = rng.random() < 0.3
            res = await self.op('delete_multi_big', len(ask), lambda: be.delete_multi(arg, log_progress=log),
                                refused='' if denied else None)
            left = {k for k in ask if P + k in svc.objs}
            gone_keep = [k for k in keep if P + k not in svc.objs]
            if gone_keep:
                raise Violation('deleted-others', 'delete_multi removed %s, which it was not given' % gone_keep[:3])
            if set(arg) - set(ask) or len(arg) != len(set(arg)):
                raise Violation('wrong-remains', 'delete_multi left strange keys in the list: %s' % arg[:5])
            if denied & before and not isinstance(res, BaseException):
                raise Violation('refusal-lost', '%s: delete_multi returned normally although the service refused '
                                'to delete %d of the objects (left in the list: %d)' % (
                                    self.c['dialect'], len(denied & before), len(arg)))
            if not denied and arg:
                raise Violation('wrong-remains', '%s: delete_multi returned normally with %d keys left' % (
                    self.c['dialect'], len(arg)))
            unreported = left - set(arg)
            if unreported:
                raise Violation('wrong-remains', '%s: delete_multi(%d keys) reports %d as not deleted (%s), but '
                                'the service also still has %d others, like %r' % (
                                    self.c['dialect'], len(ask), len(arg), type(res).__name__, len(unreported),
                                    sorted(unreported)[0]))
            # Reported though deleted: only what an exception overtook
            wrong = (set(arg) & before) - left
            if isinstance(svc, stores.S3):
                one_by_one = svc.version != 4
            elif isinstance(svc, stores.Swift):
                one_by_one = not (svc.bulk and svc.info == 200)
            else:
                one_by_one = True
            slack = self.c['conns'] if one_by_one else 0
            if isinstance(svc, stores.Swift) and svc.bulk:
                slack += svc.bulk if svc.lost > lost0 or any(x[0] == 'partial' for x in svc.faultlog) else 0
            if len(wrong) > slack and svc.lost == lost0:
                raise Violation('wrong-remains', '%s: delete_multi(%d keys) reports %d as not deleted, but %d of '
                                'them are (%s)' % (self.c['dialect'], len(ask), len(arg), len(wrong),
                                                   core.describe_exc(res) if isinstance(res, BaseException) else 'ok'))
            self.t.add('bulk_keys', len(ask))
            for k in denied:
                del svc.deny[P + k]
            await self.listing(be, 's3ql_data_', left | keep)
            for k in list(svc.objs):
                if k.startswith(P + 's3ql_data_'):
                    del svc.objs[k]
        await self.run_ops(be, nursery)

    async def run_create(self, nursery):
        '''Wrong credentials, missing bucket.'''
        from s3ql.backends import common as cm
        from s3ql.backends import s3c
        from s3ql.logging import QuietError
        rng, c = self.rng, self.c
        how = rng.choice(['password', 'bucket'])
        if how == 'password':
            over = dict(backend_password='wrong')
            ok = (cm.AuthenticationError, cm.AuthorizationError)
        else:
            self.svc.bucket = 'other-bucket'
            over = {}
            ok = (cm.DanglingStorageURLError,)
        if c['dialect'] == 's3':
            ok += (s3c.HTTPError,)      # from a HEAD request, which has no details
        try:
            with trio.fail_after(86400 * 3):
                be = await self.cls.create(**{**self.kw, **over})
                if c['dialect'] == 'b2':
                    await be.lookup('x')
        except trio.TooSlowError:
            raise Violation('stuck', 'create() with wrong %s goes on for ever' % how) from None
        except Exception as exc:
            v = find_violation(exc)
            if v is not None:
                raise v from exc
            if c['dialect'] == 'b2' and how == 'bucket' and isinstance(exc, cm.NoSuchObject):
                pass
            elif not isinstance(exc, ok):
                raise Violation('wrong-exception', '%s with a wrong %s: %s' % (
                    c['dialect'], how, core.describe_exc(exc))) from exc
        else:
            raise Violation('refusal-lost', '%s: opened with a wrong %s' % (c['dialect'], how))
        self.t.add('bad_creates')

    async def main(self):
        c = self.c
        async with trio.open_nursery() as nursery:
            nursery.start_soon(ticks)
            await self.start(nursery)
            if c['kind'] == 'create':
                await self.run_create(nursery)
            else:
                be = await self.create()
                async with be:
                    await {'ops': self.run_ops, 'list': self.run_list, 'bulk': self.run_bulk}[c['kind']](be, nursery)
            if self.svc.max_open > c['conns'] + 2:
                self.t.add('many_connections')
            nursery.cancel_scope.cancel()


def first_difference(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return 'first difference at %d' % i
    return 'one is a prefix of the other'


def find_violation(exc):
    if isinstance(exc, Violation):
        return exc
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            v = find_violation(e)
            if v is not None:
                return v
    return None


def case(c, scratch):
    t = Tally()
    b = Bench(c, scratch, t)
    with Alarm(scratch, 100, 'hangs', 'an operation hangs although all faults are over'):
        try:
            trio.run(b.main, clock=trio.testing.MockClock(autojump_threshold=0.01))
        except BaseExceptionGroup as exc:
            v = find_violation(exc)
            if v is not None:
                raise v from exc
            raise
    t.add('kind_' + c['kind'])
    t.add('dialect_' + c['dialect'])
    return t


if __name__ == '__main__':
    core.main('P17', LEVEL, RULE, case, gen, quick_budget=40, thorough_budget=600, min_cases=30,
              require=['requests', 'faults', 'refusals', 'bulk_deletes', 'expired_tokens', 'list_pages',
                       'fault_corruptdown', 'fault_corruptup', 'fault_partial', 'retry_after', 'bad_creates'] +
              ['dialect_' + d for d in sorted(set(DIALECTS))],
              assumptions=['the services are written from the protocols\' documentation; time is simulated',
                           'corruption on the wire is only injected on connections without TLS, and not in '
                           'answers nothing protects (listings, status lines)'])
