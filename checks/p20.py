'''P20: s3ql_verify reports exactly the damaged or missing objects.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import errno
import hashlib
import os
import sqlite3

import trio

from lib import core, damage, dbcheck, hist, world
from lib.core import Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case stores some dozen to some hundred blocks and then, several times, deletes and '
        'damages random subsets of the objects (payload, metadata, header, swapped and replaced '
        'files, also metadata of one with payload of another), and runs s3ql_verify with random '
        'options over a storage with random delays. The lists and the exit code are compared with '
        'what was done; all requests are recorded; storage and cache are compared byte by byte. '
        'distinct: (encryption, compression, kind of damage, options, outcome).')


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(rng, keep=False, clock=None),
                   n=rng.choice([0, 1, 5, 30, 30, 100, 250]))


def tree(path):
    res = {}
    for d, ds, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            res[p] = hashlib.sha256(open(p, 'rb').read()).digest()
        for f in ds:
            res[os.path.join(d, f)] = None
    return res


def statuses(w, keys):
    '''What the storage layer says about every object: {key: (lookup, fetch)}.'''
    def child():
        world.preimport()

        async def main():
            from s3ql.backends.common import CorruptedObjectError, NoSuchObject
            res = {}
            backend = await dbcheck.make_backend(w)
            async with backend:
                for k in keys:
                    out = []
                    for f in (backend.lookup, backend.fetch):
                        try:
                            r = await f(k)
                            out.append(hashlib.sha256(r[0]).digest() if isinstance(r, tuple)
                                       else 'ok')
                        except NoSuchObject:
                            out.append('missing')
                        except CorruptedObjectError:
                            out.append('corrupted')
                    res[k] = out
            return res
        return trio.run(main)
    return world.check_result(world.call(child, timeout=60, logpath=w._log('statuses')))


def hurt(c, rng, idx, keys, t):
    '''Damage objects. Returns {key: kind}.'''
    res = {}
    plain = c['cfg']['plain']
    orig = {k: damage.get(idx[k]) for k in keys}
    n = rng.choice([0, 1, 1, 2, 5, len(keys) // 3, len(keys)])
    for k in rng.sample(keys, min(n, len(keys))):
        kind = rng.choice(['delete', 'delete', 'payload', 'payload', 'meta', 'raw', 'swap',
                           'graft', 'noobject'])
        raw = orig[k]
        meta, payload = damage.split(raw)
        other = rng.choice(keys)
        if kind == 'delete':
            os.unlink(idx[k])
            res[k] = kind
            t.add('did_delete')
            continue
        if kind == 'payload':
            new = damage.join(meta, damage.damage(payload, rng))
        elif kind == 'meta':
            new = damage.join(damage.edit_meta(meta, rng, damage.split(orig[other])[0])[0], payload)
        elif kind == 'raw':
            new = damage.damage(raw, rng)
        elif kind == 'swap':
            new = orig[other]
        elif kind == 'graft':
            new = damage.join(meta, damage.split(orig[other])[1])
        else:
            new = rng.choice([b'', b'\0' * len(raw), b's3ql_1\n', b'x' * 20])
        if new == raw:
            continue
        damage.put(idx[k], new)
        t.add('did_' + kind)
        res[k] = kind
        assert plain is not None
    return res


def lists(w):
    res = []
    for f in ('missing', 'corrupted'):
        p = w.root + '/' + f
        res.append(open(p).read().split('\n') if os.path.exists(p) else [''])
        if res[-1].pop() != '':
            raise Violation('bad-list', 'the list of %s objects does not end with a newline' % f)
    return res


def clean_lists(w):
    for f in ('missing', 'corrupted'):
        if os.path.exists(w.root + '/' + f):
            os.unlink(w.root + '/' + f)


def case(c, scratch):
    rng = rng_for('p20', c['seed'])
    t = Tally()
    cfg = c['cfg']
    t.sample(dict(config=cfg, objects=c['n']), 1)
    bs = cfg['block_kib'] * 1024
    w = hist.new_world(scratch, cfg)

    async def build(k, ses):
        r = rng_for('p20b', c['seed'])
        h, left = None, 0
        for i in range(c['n']):
            if not left:
                if h:
                    await k.release(h)
                h, _ = await k.create((b'f%d' % i,))
                left, b = r.choice([1, 3, 50]), 0
            data = r.choice([r.randbytes(bs), (b'%d' % i) * (bs // 4), r.randbytes(r.randrange(1, bs)),
                             b'x', b'same' * (bs // 4)])[:bs]
            await k.write(h, b * bs, data)
            b += 1
            left -= 1
        if h:
            await k.release(h)
        if c['n'] > 5 and r.random() < 0.5:
            # holes in the numbering
            await k.flushcache()
            for i in range(c['n']):
                if r.random() < 0.2:
                    try:
                        await k.unlink((b'f%d' % i,))
                    except Exception:  # noqa: BLE001
                        pass
    world.check_result(hist.session(w, dict(cfg, clock=50), build, seed=c['seed']))
    conn = dbcheck.open_copy(w.cachepath('m0') + '.db', w.root + '/dbcopy')
    hashes = {'s3ql_data_%d' % i: bytes(h) for i, h in conn.execute(
        'SELECT id, hash FROM objects ORDER BY id')}
    conn.close()
    keys = list(hashes)          # in the order of the numbers
    idx = damage.index(w.backend_dir)
    orig = {k: damage.get(idx[k]) for k in keys}

    for rnd in range(6):
        done = hurt(c, rng, idx, keys, t)
        full = rng.random() < 0.6
        start = rng.choice([0, 0, 0, 1, len(keys) // 2, max(0, len(keys) - 1), len(keys),
                            len(keys) + 5, rng.randrange(len(keys) + 1)])
        conns = rng.choice([None, 1, 2, 7])
        threads = rng.choice([None, 1, 5])
        args = ['--data'] if full else []
        if start or rng.random() < 0.2:
            args += ['--start-with', str(start)]
        if conns:
            args += ['--max-connections', str(conns)]
        if threads:
            args += ['--max-threads', str(threads)]
        if rng.random() < 0.2:
            # empty lists may be there already
            open(w.root + '/missing', 'w').close()
        st = statuses(w, keys)
        miss, corr = set(), set()
        for no, k in enumerate(keys):
            kind = done.get(k)
            s = st[k][1] if full else st[k][0]
            if kind == 'delete':
                want = 'missing'
            elif kind is None:
                want = 'ok'
                if s not in ('ok', hashes[k]):
                    raise Violation('intact-object-unreadable', '%s: %r' % (k, s))
            elif s == 'corrupted':
                want = 'corrupted'
            elif s == 'missing':
                raise Violation('damaged-object-missing', '%s, damaged (%s), counts as missing' % (
                    k, kind))
            elif full and s != hashes[k]:
                want = 'corrupted'
            else:
                # nothing that this run could notice
                want = 'ok'
                t.add('damage_without_effect' if full else 'damage_not_in_metadata')
                if full and kind == 'payload' and not cfg['plain']:
                    raise Violation('tampering-undetected', '%s was changed and still reads back' % k)
            if no < start:
                continue
            if want == 'missing':
                miss.add(k)
            elif want == 'corrupted':
                corr.add(k)
            t.sig(cfg['plain'], cfg['compress'], kind, want, full, bool(start), conns)
        before = tree(w.backend_dir), tree(w.cachedir('m0'))
        machine = rng.choice(['m0', 'm0', 'm0', 'm1'])
        other = tree(w.cachedir('m0'))
        ctl = world.BackendCtl()
        ctl.log = []

        def setup(ctl=ctl, rnd=rnd):
            if cfg['delay']:
                ctl.delay = hist.delays((c['seed'], rnd))
            world.install_backend(ctl)
        r = w.verify(*args, machine=machine, setup=setup,
                     collect=lambda ctl=ctl: (ctl.log, ctl.max_inflight))
        if r.status != 'exit':
            world.check_result(r)
        got_m, got_c = lists(w)
        clean_lists(w)
        where = 's3ql_verify %s (%d objects)' % (' '.join(args), len(keys))
        for name, got, want in (('missing', got_m, miss), ('corrupted', got_c, corr)):
            if len(set(got)) != len(got):
                raise Violation('listed-twice', '%s: %s' % (where, name))
            if set(got) - want:
                x = sorted(set(got) - want)[0]
                raise Violation('wrongly-' + name, '%s: lists %s as %s; it was: %s, storage '
                                'layer: %r' % (where, x, name, done.get(x, 'not touched'),
                                               [str(y)[:20] for y in st.get(x, ())]))
            if want - set(got):
                x = sorted(want - set(got))[0]
                raise Violation('not-reported-' + name, '%s: does not list %s as %s; it was: %s' % (
                    where, x, name, done.get(x)), r.describe())
            t.add(name + '_reported', len(got))
        code = r.code or 0
        if code != (46 if miss or corr else 0):
            raise Violation('wrong-exit-code', '%s: exit code %s with %d missing and %d corrupted' % (
                where, code, len(miss), len(corr)), r.describe())
        t.add('clean_runs' if not code else 'runs_with_findings')
        # nothing was changed
        if tree(w.backend_dir) != before[0]:
            raise Violation('backend-changed', '%s changed the storage' % where)
        if (tree(w.cachedir('m0')) if machine == 'm0' else other) != before[1]:
            a, b = tree(w.cachedir('m0')), before[1]
            raise Violation('cache-changed', '%s changed the local cache: %r' % (
                where, [x for x in set(a) | set(b) if a.get(x, 0) != b.get(x, 0)]))
        log, infl = r.value
        asked = {k for _, ph, op, k in log if ph == 'begin' and op in ('read', 'lookup')}
        if [x for x in log if x[2] in ('write', 'delete')]:
            raise Violation('backend-modified', '%s sent a modifying request' % where)
        for no, k in enumerate(keys):
            if (no >= start) != (k in asked):
                raise Violation('wrong-coverage', '%s: object no. %d was %schecked' % (
                    where, no, '' if k in asked else 'not '))
        reads = {k for _, ph, op, k in log if ph == 'begin' and op == 'read' and k in hashes}
        if full and reads != set(keys[start:]):
            raise Violation('not-read', '%s did not read all objects' % where)
        t.add('objects_checked', len(keys) - min(start, len(keys)))
        t.add('verify_runs')
        t.add('runs_with_parallel_requests', infl > 1)
        # repair
        for k in done:
            damage.put(idx[k], orig[k])

    if keys:
        # an error that is neither loss nor damage must not end in success
        victim = rng.choice(keys)
        ctl = world.BackendCtl()
        ctl.fault = lambda op, key: OSError(errno.EIO, 'injected') if key == victim and op in (
            'read', 'lookup') else None
        if rng.random() < 0.5:
            os.unlink(idx[rng.choice(keys)])
        r = w.verify(*rng.choice([[], ['--data']]), setup=lambda: world.install_backend(ctl))
        if r.status == 'exit' and (r.code or 0) == 0:
            raise Violation('error-ignored', 'reading %s failed with an I/O error, but s3ql_verify '
                            'reports success' % victim)
        if r.status not in ('exit', 'exc'):
            world.check_result(r)
        if victim in sum(lists(w), []):
            raise Violation('wrongly-reported', '%s cannot be read because of an I/O error, but is '
                            'listed as missing or corrupted' % victim)
        t.add('io_errors_reported')
        clean_lists(w)
        # old lists are kept
        for f in ('missing', 'corrupted'):
            open(w.root + '/' + f, 'w').write('precious\n')
            r = w.verify()
            if r.status == 'exit' and not r.code or \
                    open(w.root + '/' + f).read() != 'precious\n':
                raise Violation('list-overwritten', 'an old list of %s objects was overwritten' % f)
            clean_lists(w)
        t.add('old_lists_kept')
        for k in keys:
            damage.put(idx[k], orig[k])
        # an object without hash (interrupted upload) cannot be verified
        db = w.cachepath('m0') + '.db'
        conn = sqlite3.connect(db)
        conn.execute('UPDATE objects SET hash=NULL WHERE id=?', (int(victim.split('_')[2]),))
        conn.commit()
        conn.close()
        r = w.verify(*rng.choice([[], ['--data']]))
        if r.status == 'exit' and (r.code or 0) == 0:
            raise Violation('unverifiable-ignored', 'an object without checksum was reported as '
                            'verified')
        t.add('objects_without_hash')
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P20', LEVEL, RULE, case, gen, quick_budget=35, thorough_budget=600,
              require=['did_delete', 'did_payload', 'did_meta', 'did_raw', 'did_swap', 'did_graft',
                       'did_noobject', 'missing_reported', 'corrupted_reported', 'clean_runs',
                       'runs_with_findings', 'io_errors_reported', 'old_lists_kept',
                       'objects_without_hash', 'damage_not_in_metadata'], min_cases=10,
              assumptions=['What counts as corrupted is what the storage layer reports or data that '
                           'differs from the recorded hash; the storage layer itself is judged by '
                           'P14 and P15.'])
