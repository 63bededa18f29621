'''P19: the local storage backend is atomic and complete.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import errno
import hashlib
import io
import os
import pickle
import resource
import signal

import trio

from lib import core, linear, world
from lib.core import Tally, Violation, describe_exc, rng_for

LEVEL = 'fault_injection'
RULE = ('seq: random calls with keys of all kinds, compared with a dictionary after every call; '
        'conc: several tasks (also several instances and processes) on few keys, histories per '
        'key checked for linearizability, listings for completeness; crash: a process storing '
        'objects dies at a file operation or in the middle of a write, then everything is '
        'audited; full: writes that fail or are cut short, directories that cannot be read. '
        'distinct: (kind of call, kind of key, outcome) and crash points.')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40),
                   kind=rng.choice(['seq', 'conc', 'procs', 'crash', 'crash', 'full', 'eio']))


def make_key(rng):
    r = rng.random()
    if r < 0.45:
        n = rng.choice([1, 12, 123, 999, 1000, 1234, 12345, 123456, 1234567, 12345678, 123456789])
        return 's3ql_data_%d' % (n + rng.choice([0, 0, 1, 2, 10]))
    if r < 0.55:
        return rng.choice(['s3ql_params', 's3ql_params_%010x' % rng.randrange(40), 's3ql_passphrase',
                           's3ql_metadata_%06x_%010x' % (rng.randrange(3), rng.randrange(20)),
                           's3ql_data', 's3ql_data_', 's3ql_data_x'])
    if r < 0.9:
        s = ''.join(rng.choice(['a', 'b', '/', '=', '#', '.', '=2F', '=3D', '%', ' ', 'é', '~', '&',
                                's3ql_data_', '..', '-', '\\', '"', '\n'])
                    for _ in range(rng.randrange(1, 7)))
        return s if s not in ('.', '..') else 'x'
    if r < 0.95:
        return 's3ql_data_' + ''.join(rng.choice('0123=/#a.') for _ in range(rng.randrange(1, 12)))
    return rng.choice('xy/') * rng.randrange(1, 60)


def make_data(rng, t=None):
    n = rng.choice([0, 1, 10, 1000, 4095, 8192, 8193, 100_000, 256 * 1024, 256 * 1024 + 1, 700_000])
    return rng.randbytes(min(n, 16)) * (n // 16 + 1)


def make_meta(rng):
    return rng.choice([None, {}, {'a': 1}, {'k': 'v/=é', 'b': b'\0\xff', 'n': -5, 'f': 1.5}])


async def backend(path, conns=3):
    from s3ql.backends import local
    return await local.AsyncBackend.create(storage_url='local://' + path, backend_options={},
                                           max_connections=conns)


async def lst(b, prefix=''):
    r = [k async for k in b.list(prefix)]
    if len(set(r)) != len(r):
        raise Violation('listed-twice', 'list(%r) returned %r' % (prefix, r))
    return set(r)


async def audit(b, model, rng, t, what):
    '''The store holds exactly *model*: {key: (data, meta)}.'''
    from s3ql.backends.common import NoSuchObject
    got = await lst(b)
    if got != set(model):
        raise Violation('listing', '%s: list() misses %r and has in excess %r' % (
            what, sorted(set(model) - got)[:5], sorted(got - set(model))[:5]))
    prefixes = {'s3ql_data_', 's3ql_', 'zz', 's3ql_params_', 's3ql_data'}
    for k in model:
        prefixes |= {k, k[:rng.randrange(1, len(k) + 1)], k + 'x'}
    for p in prefixes:
        got = await lst(b, p)
        want = {k for k in model if k.startswith(p)}
        if got != want:
            raise Violation('listing-prefix', '%s: list(%r) misses %r and has in excess %r' % (
                what, p, sorted(want - got)[:5], sorted(got - want)[:5]))
        t.add('listings_checked')
    for k, (data, meta) in model.items():
        fh = io.BytesIO()
        m = await b.readinto_fh(k, fh)
        if fh.getvalue() != data or m != (meta or {}):
            raise Violation('wrong-object', '%s: %r has other contents (%d bytes instead of %d)' % (
                what, k, len(fh.getvalue()), len(data)))
        if await b.lookup(k) != (meta or {}):
            raise Violation('wrong-metadata', '%s: lookup(%r)' % (what, k))
        if not await b.contains(k):
            raise Violation('contains', '%s: contains(%r) is false' % (what, k))
        if await b.get_size(k) < len(data):
            raise Violation('size', '%s: get_size(%r)' % (what, k))
        t.add('objects_checked')
    for k in ('missing', 's3ql_data_5550000', 's3ql_data_1='):
        if k in model:
            continue
        for op in (b.lookup(k), b.get_size(k), b.readinto_fh(k, io.BytesIO()), b.fetch(k)):
            try:
                r = await op
            except NoSuchObject:
                continue
            raise Violation('missing-object-found', '%s: %r gave %r' % (what, k, r))
        if await b.contains(k):
            raise Violation('contains', '%s: contains(%r) of a missing key' % (what, k))


async def store(b, rng, k, data, meta, t):
    fh = io.BytesIO(data)
    fh.seek(rng.choice([0, 0, len(data) // 2, len(data)]))
    if rng.random() < 0.3:
        await b.store(k, data, meta)
    else:
        await b.write_fh(k, fh, meta)
    t.add('stores')


async def seq_case(c, rng, t, path):
    from s3ql.backends.common import NoSuchObject
    bs = [await backend(path, rng.choice([1, 4])) for _ in range(2)]
    model = {}
    keys = list({make_key(rng) for _ in range(14)})
    for i in range(60):
        b = rng.choice(bs)
        k = rng.choice(keys)
        op = rng.choice(['store', 'store', 'store', 'delete', 'multi', 'fetch', 'list'])
        t.sig('seq', op, k.startswith('s3ql_data_'), len(k) > 13, k in model)
        if op == 'store':
            d, m = make_data(rng), make_meta(rng)
            await store(b, rng, k, d, m, t)
            model[k] = (d, m)
        elif op == 'delete':
            await b.delete(k)
            model.pop(k, None)
        elif op == 'multi':
            ks = rng.sample(keys, rng.randrange(len(keys)))
            rest = list(ks)
            await b.delete_multi(rest)
            if rest:
                raise Violation('delete-multi', 'keys %r left in the list' % rest)
            for k in ks:
                model.pop(k, None)
        elif op == 'fetch':
            try:
                d, m = await b.fetch(k)
            except NoSuchObject:
                if k in model:
                    raise Violation('object-missing', '%r' % k) from None
            else:
                if k not in model or (d, m) != (model[k][0], model[k][1] or {}):
                    raise Violation('wrong-object', 'fetch(%r)' % k)
        else:
            p = k[:rng.randrange(len(k) + 1)]
            if await lst(b, p) != {x for x in model if x.startswith(p)}:
                raise Violation('listing-prefix', 'list(%r) of %r' % (p, sorted(model)))
        if i % 15 == 14:
            await audit(rng.choice(bs), model, rng, t, 'after %d calls' % i)
    t.add('seq_cases')


# -------------------------------------------------------------------------------------------


def val(rng, who):
    '''Self-describing data.'''
    body = ('%s:%d;' % (who, rng.randrange(10**9))).encode() * rng.choice([1, 50, 40_000])
    return hashlib.sha256(body).digest() + body


def whole(data):
    return data[:32] == hashlib.sha256(data[32:]).digest()


async def conc_case(c, rng, t, path):
    from s3ql.backends.common import NoSuchObject
    bs = [await backend(path, rng.choice([1, 2, 8])) for _ in range(rng.choice([1, 1, 2]))]
    keys = list({make_key(rng) for _ in range(3)})
    stable = {make_key(rng): val(rng, 'stable') for _ in range(4)}
    for k in keys:
        stable.pop(k, None)
    for k, d in stable.items():
        await bs[0].store(k, d)
    hist = {k: [] for k in keys}
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    async def task(n):
        rng = rng_for('p19c', c['seed'], n)
        for i in range(10):
            k = rng.choice(keys)
            b = rng.choice(bs)
            name = rng.choice(['store', 'store', 'fetch', 'fetch', 'delete', 'contains', 'list'])
            if name == 'list':
                got = await lst(b)
                if set(stable) - got:
                    raise Violation('listing', 'list() missed %r, present throughout' % (
                        sorted(set(stable) - got)))
                if got - set(stable) - set(keys):
                    raise Violation('listing', 'list() returned %r, never stored' % (
                        sorted(got - set(stable) - set(keys))))
                t.add('concurrent_listings')
                continue
            d = val(rng, n) if name == 'store' else None
            op = linear.Op(tick(), name, (hash(d),), n)
            hist[k].append(op)
            if rng.random() < 0.3:
                await trio.sleep(0)
            if name == 'store':
                await b.store(k, d, {'who': n})
            elif name == 'delete':
                await b.delete(k)
            elif name == 'contains':
                op.res = await b.contains(k)
            else:
                try:
                    got, _ = await b.fetch(k)
                except NoSuchObject:
                    op.res = None
                else:
                    if not whole(got):
                        raise Violation('torn-object', 'fetch(%r) returned %d bytes that nobody '
                                        'stored' % (k, len(got)))
                    op.res = hash(got)
            op.end = tick()
            t.add('concurrent_calls')
    async with trio.open_nursery() as nu:
        for n in range(4):
            nu.start_soon(task, n)

    def apply(st, op):
        if op.name == 'store':
            return op.args[0]
        if op.name == 'delete':
            return 0
        if op.name == 'contains':
            return st if op.res == bool(st) else None
        return st if (op.res or 0) == st else None
    for k, ops in hist.items():
        if ops:
            linear.linearize(ops, 0, apply)
            t.add('histories_checked')
            t.add('overlaps', linear.overlaps(ops))
    for k, d in stable.items():
        if (await bs[0].fetch(k))[0] != d:
            raise Violation('wrong-object', '%r changed' % k)


def procs_case(c, rng, t, path, scratch):
    '''Several processes.'''
    keys = list({make_key(rng) for _ in range(3)})

    def child(n):
        async def main():
            from s3ql.backends.common import NoSuchObject
            rng = rng_for('p19p', c['seed'], n)
            b = await backend(path)
            seen = {}
            for i in range(40):
                k = rng.choice(keys)
                r = rng.random()
                if r < 0.5:
                    d = val(rng, n)
                    await b.store(k, d)
                    seen[k] = d
                elif r < 0.55:
                    await b.delete(k)
                else:
                    try:
                        d, _ = await b.fetch(k)
                    except NoSuchObject:
                        continue
                    if not whole(d):
                        raise Violation('torn-object', 'fetch(%r) returned %d bytes that nobody '
                                        'stored' % (k, len(d)))
            return seen
        return trio.run(main)
    pids = []
    for n in range(3):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                try:
                    res = ('ok', child(n))
                except Violation as exc:
                    res = ('violation', (exc.kind, exc.msg))
                except BaseException as exc:  # noqa: BLE001
                    res = ('violation', ('unexpected-error', '%s in one of several processes'
                                         % exc))
                with os.fdopen(w, 'wb') as fh:
                    pickle.dump(res, fh)
            finally:
                os._exit(0)
        os.close(w)
        pids.append((pid, r))
    last = []
    for pid, r in pids:
        with os.fdopen(r, 'rb') as fh:
            st, v = pickle.load(fh)
        os.waitpid(pid, 0)
        if st != 'ok':
            raise Violation(*v)
        last.append(v)
    t.add('processes', 3)

    async def main():
        b = await backend(path)
        for k in await lst(b):
            d, _ = await b.fetch(k)
            if not any(v.get(k) == d for v in last):
                raise Violation('lost-update', 'at the end %r holds an object that every process '
                                'had already replaced' % k)
    trio.run(main)


# -------------------------------------------------------------------------------------------


def plan(seed):
    rng = rng_for('p19k', seed)
    keys = list({make_key(rng) for _ in range(5)})
    ops = []
    for i in range(16):
        k = rng.choice(keys)
        op = rng.choice(['store', 'store', 'store', 'delete'])
        ops.append((op, k, make_data(rng) if op == 'store' else None,
                    {'i': i} if op == 'store' else None))
    return ops


async def play(b, ops, fd):
    for i, (op, k, d, m) in enumerate(ops):
        os.write(fd, b's%d\n' % i)
        if op == 'store':
            await b.store(k, d, m)
        else:
            await b.delete(k)
        os.write(fd, b'e%d\n' % i)


def crash_case(c, rng, t, path, scratch):
    ops = plan(c['seed'])
    mode = rng.choice(['points', 'points', 'bytes'])
    base = scratch + '/pt'

    def child(at, limit, where):
        def fn():
            fd = os.open(where + '.log', os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            p = world.Points(where + '.pt', ('file',), at=at, prefix=where)
            p.install()
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))

            async def main():
                await play(await backend(where), ops, fd)
            trio.run(main)
            return p.n
        return fn

    if mode == 'points':
        os.mkdir(base)
        total = world.check_result(world.call(child(0, None, base), timeout=60,
                                              logpath=scratch + '/l0'), 'stores')
        todo = [(rng.randrange(1, total + 1), None) for _ in range(6)]
        t.sig('points', total)
    else:
        todo = [(0, rng.choice([0, 1, 8, 30, 100, 4000, 8192, 9000, 100_030, 256 * 1024,
                                rng.randrange(700_000)])) for _ in range(4)]
    for n, (at, limit) in enumerate(todo):
        where = scratch + '/c%d' % n
        os.mkdir(where)
        res = world.call(child(at, limit, where), timeout=60, logpath=scratch + '/l%d' % n)
        if res.status in ('crash', 'died'):
            t.add('crashes')
        else:
            world.check_result(res, 'stores')
            t.add('not_crashed')
        log = []
        if os.path.exists(where + '.log'):
            with open(where + '.log') as fh:
                log = fh.read().split()
        started = sum(1 for x in log if x[0] == 's')
        ended = sum(1 for x in log if x[0] == 'e')
        t.sig('crash', mode, started, limit)
        old, new = {}, {}
        for i, (op, k, d, m) in enumerate(ops[:started]):
            for which, upto in ((old, ended), (new, started)):
                if i < upto:
                    if op == 'store':
                        which[k] = (d, m)
                    else:
                        which.pop(k, None)

        async def main():
            b = await backend(where)
            got = await lst(b)
            if got not in (set(old), set(new)):
                raise Violation('crash-listing', 'after death in call %d list() gives %r; before '
                                'the call there were %r' % (started, sorted(got), sorted(old)))
            for k in got:
                d, m = await b.fetch(k)
                if (d, m) not in (old.get(k), new.get(k)):
                    raise Violation('crash-torn', 'after death in call %d, %r holds %d bytes, '
                                    'neither the old nor the new object' % (started, k, len(d)))
                t.add('objects_after_crash')
            # goes on working
            model = {k: await b.fetch(k) for k in got}
            for k in {o[1] for o in ops}:
                d = make_data(rng)
                await b.store(k, d, {'z': 1})
                model[k] = (d, {'z': 1})
            await audit(b, model, rng, t, 'after a crash and new stores')
            await b.delete_multi(list(model))
            await audit(b, {}, rng, t, 'after deleting everything')
        try:
            trio.run(main)
        except Violation:
            raise
        except Exception as exc:  # noqa: BLE001
            raise Violation('unusable-after-crash', 'after death in call %d: %s' % (started, exc),
                            describe_exc(exc)) from exc


def full_case(c, rng, t, path, scratch):
    '''Writes that are cut short or fail because there is no room.'''
    def fn():
        t = Tally()

        async def main():
            b = await backend(path)
            model = {}
            for i in range(15):
                k = make_key(rng)
                d = make_data(rng)
                await b.store(k, d)
                model[k] = (d, {})
            keys = sorted(model)
            for i in range(12):
                lim = rng.choice([0, 5, 100, 4096, 8192, 100_000, 256 * 1024, 256 * 1024 + 30,
                                  rng.randrange(10**6)])
                k = rng.choice(keys + [make_key(rng)])
                d = make_data(rng)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
                try:
                    await b.store(k, d, {'n': i})
                except OSError as exc:
                    t.add('stores_failed')
                    t.sig('full', exc.errno, len(d) > lim)
                else:
                    model[k] = (d, {'n': i})
                    t.add('stores_succeeded')
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
                await audit(b, model, rng, t, 'after a store with room for %d bytes of %d' % (
                    lim, len(d)))
        trio.run(main)
        return t
    t.merge(world.check_result(world.call(fn, timeout=100, logpath=scratch + '/lf'), 'stores'))


def eio_case(c, rng, t, path, scratch):
    '''System calls that fail must be reported, never make objects disappear.'''
    def fn():
        t = Tally()
        arm = []

        def hook(event, args):
            if arm and event in ('os.scandir', 'os.listdir', 'open', 'os.rename', 'os.remove') \
                    and str(args[0]).startswith(path) and (arm[0] == event):
                arm[1] -= 1
                if arm[1] < 0:
                    t.add('errors_injected')
                    raise OSError(arm[2], 'injected')
        sys.addaudithook(hook)

        async def main():
            b = await backend(path)
            model = {}
            for _ in range(20):
                k = make_key(rng)
                d = make_data(rng)
                await b.store(k, d)
                model[k] = (d, {})
            for i in range(20):
                ev = rng.choice(['os.scandir', 'os.scandir', 'open', 'os.rename', 'os.remove'])
                k = rng.choice(sorted(model))
                p = rng.choice(['', 's3ql_data_', k])
                eno = rng.choice([errno.EIO, errno.EACCES, errno.EMFILE])
                d = make_data(rng)
                op = {'os.scandir': 'list', 'os.rename': 'store', 'os.remove': 'delete',
                      'open': rng.choice(['store', 'fetch', 'lookup'])}[ev]
                arm[:] = [ev, rng.randrange(3) if op == 'list' else 0, eno]
                try:
                    if op == 'list':
                        got = await lst(b, p)
                        if got != {x for x in model if x.startswith(p)}:
                            raise Violation('listing-incomplete', 'list(%r) silently left out '
                                            'objects when a directory could not be read' % p)
                    elif op == 'store':
                        await b.store(k, d)
                        model[k] = (d, {})
                    elif op == 'delete':
                        await b.delete(k)
                        del model[k]
                    elif op == 'fetch':
                        if (await b.fetch(k)) != model[k]:
                            raise Violation('wrong-object', '%r' % k)
                    else:
                        await b.lookup(k)
                except OSError:
                    t.add('errors_reported')
                    t.sig('eio', ev, op, eno)
                finally:
                    arm.clear()
            await audit(b, model, rng, t, 'after injected errors')
        trio.run(main)
        return t
    t.merge(world.check_result(world.call(fn, timeout=100, logpath=scratch + '/le'), 'stores'))


def case(c, scratch):
    rng = rng_for('p19', c['seed'])
    t = Tally()
    path = scratch + '/store'
    os.mkdir(path)
    t.sample(dict(kind=c['kind'], seed=c['seed']), 1)
    try:
        if c['kind'] == 'seq':
            trio.run(seq_case, c, rng, t, path)
        elif c['kind'] == 'conc':
            try:
                trio.run(conc_case, c, rng, t, path)
            except* Violation as eg:
                raise eg.exceptions[0]
        elif c['kind'] == 'procs':
            procs_case(c, rng, t, path, scratch)
        else:
            dict(crash=crash_case, full=full_case, eio=eio_case)[c['kind']](c, rng, t, path, scratch)
    except (Violation, core.HarnessError, core.Inconclusive):
        raise
    except Exception as exc:  # noqa: BLE001
        raise Violation('unexpected-error:%s' % type(exc).__name__, '%s: a call raised %s: %s' % (
            c['kind'], type(exc).__name__, exc), describe_exc(exc)) from exc
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P19', LEVEL, RULE, case, gen, quick_budget=25, thorough_budget=500,
              require=['objects_checked', 'listings_checked', 'concurrent_calls', 'overlaps',
                       'histories_checked', 'crashes', 'objects_after_crash', 'stores_failed',
                       'errors_reported', 'processes', 'seq_cases'], min_cases=20,
              assumptions=['Death of the process, not of the machine (no check of fsync); keys up '
                           'to 120 characters.'])
