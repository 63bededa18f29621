'''P14: tampering with encrypted storage is always detected.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import io
import os
import shutil

import trio

from lib import core, damage, driver, hist, kern, model, world
from lib.core import Tally, Violation, describe_exc, rng_for
from lib.kern import KErr

LEVEL = 'fault_injection'
RULE = ('store: objects stored encrypted are tampered with (bytes, structure of the header, '
        'splices of parts of different objects and versions, swaps, renames, replays, forgeries '
        'without the passphrase, unencrypted replacements); every read and lookup must return a '
        'version stored under that name or raise the errors meant for it. fs: the same done to '
        'an encrypted file system, then mount, fsck, verify or adm run on it: what they show '
        'must be the real tree, and they must end with an error meant for the user. '
        'distinct: (object class, attack, command, outcome).')

# errors that the storage layer and the commands have for bad objects
STORE_OK = {'CorruptedObjectError', 'ObjectNotEncrypted', 'NoSuchObject'}
CMD_OK = STORE_OK | {'DatabaseChecksumError', 'QuietError'}


def gen(rng, tier):
    yield dict(seed=rng.randrange(2**40), kind='downgrade', cfg=None)
    while True:
        yield dict(seed=rng.randrange(2**40), kind=rng.choice(['store', 'fs', 'fs', 'fs']),
                   cfg=hist.rand_config(rng, plain=False))


# -------------------------------------------------------------------------------------------


async def instances(rng, path, pw, n):
    from s3ql.authinfo import CompressAlgorithm, CompressSpec
    from s3ql.backends import local
    from s3ql.backends.comprenc import AsyncComprencBackend
    res = []
    for _ in range(n):
        alg = rng.choice(list(CompressAlgorithm))
        raw = await local.AsyncBackend.create(storage_url='local://' + path, backend_options={})
        b = await AsyncComprencBackend.create(pw, CompressSpec(alg, 2), raw)
        b.cfg = alg.name
        res.append(b)
    return res


def packets(rng, pl):
    '''Rearrange a multi-packet stream.'''
    p = 256 * 1024 + 4
    parts = [pl[i:i + p] for i in range(0, len(pl), p)]
    how = rng.choice(['drop', 'swap', 'dup', 'tail'])
    i = rng.randrange(len(parts))
    if how == 'drop':
        del parts[i]
    elif how == 'swap' and len(parts) > 2:
        parts[0], parts[1] = parts[1], parts[0]
    elif how == 'dup':
        parts.insert(i, parts[i])
    else:
        parts = parts[:i] + [pl[-36:]]
    return b''.join(parts)


def attack(rng, files, versions, key, evil):
    '''Tamper with the object *key*. files: {key: raw}; versions: {key: [raw, ...]} older ones.
    Returns (new contents of the changed files, description).'''
    raw = files[key]
    meta, pl = damage.split(raw)
    other = rng.choice(sorted(files))
    ometa, opl = damage.split(files[other])
    how = rng.choice(['bytes', 'bytes', 'payload', 'meta', 'editmeta', 'editmeta', 'editmeta',
                      'swap', 'copy', 'splice', 'splice_old', 'replay', 'delete', 'plain', 'forge',
                      'packets', 'header'])
    if how == 'bytes':
        m = rng.choice(damage.MODES)
        return {key: damage.damage(raw, rng, m)}, how + ':' + m
    if how == 'payload':
        m = rng.choice(damage.MODES)
        return {key: damage.join(meta, damage.damage(pl, rng, m))}, how + ':' + m
    if how == 'meta':
        return {key: damage.join(damage.damage(meta, rng), pl)}, how
    if how == 'header':
        return {key: damage.damage(raw[:9], rng) + raw[9:]}, how
    if how == 'editmeta':
        m, d = damage.edit_meta(meta, rng, ometa)
        return {key: damage.join(m, pl)}, how + ':' + d.split()[0]
    if how == 'swap':
        return {key: files[other], other: raw}, how
    if how == 'copy':
        return {key: files[other]}, how
    if how == 'splice':
        return {key: damage.join(meta, opl) if rng.random() < 0.5 else damage.join(ometa, pl)}, how
    old = versions.get(key)
    if how == 'splice_old' and old:
        om, op = damage.split(rng.choice(old))
        return {key: damage.join(meta, op) if rng.random() < 0.5 else damage.join(om, pl)}, how
    if how == 'replay' and old:
        return {key: rng.choice(old)}, how
    if how == 'delete':
        return {key: None}, how
    if how == 'packets' and len(pl) > 100:
        return {key: damage.join(meta, packets(rng, pl))}, how
    if how == 'plain':
        return {key: evil['plain']}, how
    # encrypted with another passphrase
    em, ep = damage.split(evil['forged'])
    r = rng.random()
    if r < 0.4:
        return {key: evil['forged']}, 'forge'
    if r < 0.7:
        return {key: damage.join(em, pl)}, 'forge-meta'
    return {key: damage.join(meta, ep)}, 'forge-payload'


def apply(root, changes, path=None):
    idx = damage.index(root)
    for k, raw in changes.items():
        if raw is None:
            os.unlink(idx[k])
        else:
            damage.put(idx[k], raw)


async def store_case(c, rng, t, scratch):
    path = scratch + '/store'
    os.mkdir(path)
    os.mkdir(scratch + '/evil')
    pw = rng.choice([b'secret', rng.randbytes(32)])
    bs = await instances(rng, path, pw, 4)
    keys = rng.sample(['s3ql_data_1', 's3ql_data_2', 's3ql_data_1234567', 's3ql_params',
                       's3ql_metadata_0000000001_0000000002', 's3ql_passphrase', 'x/y'], 4)
    hist_ = {k: [] for k in keys}
    raws = {k: [] for k in keys}
    pool = [b'', b'x' * 5000, rng.randbytes(300), rng.randbytes(600 * 1024), bytes(10)]

    async def put(k):
        d = rng.choice(pool)
        if rng.random() < 0.5:
            d = d + rng.randbytes(5)
        m = {'n': rng.randrange(100), 'k': k}
        await rng.choice(bs).store(k, d, m)
        hist_[k].append((d, m))
        raws[k].append(damage.get(damage.index(path)[k]))
    for k in keys:
        for _ in range(rng.choice([1, 2, 3])):
            await put(k)
    # what somebody without the passphrase can produce
    ev = await instances(rng, scratch + '/evil', None, 1)
    fo = await instances(rng, scratch + '/evil', b'other', 1)
    for i in range(60):
        key = rng.choice(keys)
        files = {k: raws[k][-1] for k in keys}
        d = rng.choice(pool + [b'evil'])
        await ev[0].store(key, d, {'n': 1, 'k': key})
        e = {'plain': damage.get(damage.index(scratch + '/evil')[key])}
        await fo[0].store(key, d, {'n': 1, 'k': key})
        e['forged'] = damage.get(damage.index(scratch + '/evil')[key])
        changes, how = attack(rng, files, {k: raws[k][:-1] for k in keys}, key, e)
        apply(path, changes)
        t.add('tampered_objects')
        for k in changes:
            for op in ('fetch', 'lookup', 'mem'):
                b = rng.choice(bs)
                try:
                    if op == 'lookup':
                        got = (None, await b.lookup(k))
                    elif op == 'fetch':
                        got = await b.fetch(k)
                    else:
                        fh = io.BytesIO()
                        m = await b.readinto_fh(k, fh, size_hint=rng.choice([None, 5, 10**6]))
                        got = (fh.getvalue(), m)
                except Exception as exc:  # noqa: BLE001
                    n = type(exc).__name__
                    if n not in STORE_OK:
                        raise Violation('unclassified:%s' % n, '%s of a tampered object (%s) '
                                        'raised %s: %s' % (op, how, n, exc),
                                        describe_exc(exc)) from exc
                    t.add('detected')
                    t.sig('store', how, op, n)
                    continue
                ok = [(d, m) for d, m in hist_[k]
                      if m == got[1] and (op == 'lookup' or d == got[0])]
                if not ok:
                    raise Violation('accepted:%s' % how.split(':')[0], '%s of the tampered object '
                                    '%r (%s) returned %s bytes and metadata %r that were never '
                                    'stored together under that name' % (
                                        op, k, how, got[0] and len(got[0]), got[1]))
                t.add('genuine_version_returned')
        apply_all(path, files)
        if rng.random() < 0.1:
            await put(rng.choice(keys))


def apply_all(path, files):
    idx = damage.index(path)
    for k, raw in files.items():
        p = idx.get(k)
        if p is None:
            # deleted: the directory is still there
            import s3ql.backends.local as L
            b = object.__new__(L.AsyncBackend)
            b.prefix = path
            p = b._key_to_path(k)
        damage.put(p, raw)


# -------------------------------------------------------------------------------------------


def clear_error(r, what):
    '''The command ended in a way a user can understand.'''
    if r.status == 'exit':
        return 'exit%s' % r.code
    if r.status == 'exc' and r.exc_type in CMD_OK:
        return r.exc_type
    if r.status in ('violation', 'harness'):
        world.check_result(r)
    raise Violation('unclassified-crash:%s' % r.exc_type, '%s: %r' % (what, r),
                    (r.tb or '')[-3000:] + r.log[-1500:])


async def read_all(k, m, t):
    '''Every path, attribute and content that can be read must be the right one.'''
    from stat import S_ISLNK, S_ISREG
    want = m.snapshot()
    seen = set()

    async def visit(p):
        if p and p not in want:
            raise Violation('foreign-entry', 'entry %r was never there' % (p,))
        ino = await k.walk(p)
        a = await k.req('getattr', ino, k.ctx)
        w = want[p]
        seen.add(p)
        t.add('entries_compared')
        if (a.st_mode & 0o7777, a.st_uid, a.st_gid) != (w['mode'], w['uid'], w['gid']):
            raise Violation('foreign-attributes', '%r has other attributes' % (p,))
        if S_ISLNK(a.st_mode):
            if await k.req('readlink', ino, k.ctx) != w['target']:
                raise Violation('foreign-target', '%r' % (p,))
        if S_ISREG(a.st_mode):
            if a.st_size != w['size']:
                raise Violation('foreign-size', '%r' % (p,))
            h = await k.open(p, os.O_RDONLY)
            try:
                off = 0
                while off < a.st_size:
                    try:
                        d = await k.read(h, off, 1024)
                    except KErr:
                        t.add('read_errors')
                    else:
                        if d != w['data'][off:off + 1024]:
                            raise Violation('foreign-data', 'reading %r at %d returned other data '
                                            'after tampering' % (p, off))
                        t.add('blocks_compared')
                    off += 1024
            finally:
                await k.release(h)
        if a.st_mode & 0o170000 == 0o040000:
            for name, _ in await k.readdir_raw(ino):
                await visit(p + (name,))
    await visit(())
    miss = set(want) - seen
    if miss:
        raise Violation('entries-missing', 'missing after tampering: %r' % sorted(miss)[:5])


def make_evil(w, scratch, c):
    '''A file system of the attacker: unencrypted, and one with another passphrase.'''
    res = {}
    for name, plain in (('plain', True), ('forged', False)):
        e = world.World(scratch + '/evil-' + name, plain=plain, block_kib=1, meta_kib=c['meta_kib'],
                        passphrase=None if plain else 'evil')
        e.must_mkfs()

        async def body(k, ses):
            h, _ = await k.create((b'evil',))
            await k.write(h, 0, b'evil' * 700)
            await k.release(h)
        world.check_result(hist.session(e, dict(c, keep=False), body, seed=5))
        res[name] = {k: damage.get(p) for k, p in damage.index(e.backend_dir).items()}
    return res


def fs_case(c, rng, t, scratch):
    cfg = c['cfg']
    w = hist.new_world(scratch, cfg)
    m = model.Model()
    versions = {}
    for i in range(rng.choice([1, 2])):
        kw = dict(first=True) if not i else {}
        m, t1 = hist.random_session(w, cfg, m, seed=c['seed'] + i, steps=40, keep=False,
                                    protect=[(b'lost+found',)],
                                    profile=driver.Profile(write=40, create=20), **kw)
        t.merge(t1)
        for k, p in damage.index(w.backend_dir).items():
            raw = damage.get(p)
            v = versions.setdefault(k, [])
            if not v or v[-1] != raw:
                v.append(raw)
    evil = make_evil(w, scratch, cfg)
    keep = w.backend_dir + '.keep'
    shutil.copytree(w.backend_dir, keep)
    for r in range(5):
        files = {k: damage.get(p) for k, p in damage.index(w.backend_dir).items()}
        cls = rng.choice(['s3ql_passphrase', 's3ql_params', 's3ql_params_', 's3ql_metadata',
                          's3ql_data_', 's3ql_data_'])
        cand = [k for k in files if k.startswith(cls) and not (cls == 's3ql_params' and k != cls)
                and not (cls == 's3ql_passphrase' and k != cls)]
        if not cand:
            continue
        hows = []
        for key in rng.sample(sorted(cand), min(len(cand), rng.choice([1, 1, 3]))):
            ev = {n: evil[n].get(key) or evil[n]['s3ql_params'] for n in evil}
            if cls == 's3ql_passphrase':
                ev['plain'] = evil['plain']['s3ql_params']
            changes, how = attack(rng, files, {k: v[:-1] for k, v in versions.items()}, key, ev)
            if how == 'replay' and cls in ('s3ql_params', 's3ql_params_'):
                continue      # genuine older parameters are not tampering (see P13)
            apply(w.backend_dir, {k: v for k, v in changes.items()
                                  if v is None or k in damage.index(w.backend_dir)})
            hows.append(how)
        t.add('tampered_objects', len(hows))
        cmd = rng.choice(['mount', 'mount', 'mount', 'fsck', 'verify', 'passphrase'])
        fresh = rng.random() < 0.5
        mach = 'x%d' % r if fresh else 'm0'
        cache = w.cachedir('m0')
        shutil.copytree(cache, cache + '.keep', dirs_exist_ok=True)
        what = '%s after %s of %s' % (cmd, hows, cls)
        if cmd == 'mount':
            async def body(k, ses):
                tt = Tally()
                await read_all(k, m, tt)
                return tt
            res = hist.session(w, dict(cfg, keep=False), body, seed=c['seed'] + 10 + r,
                               machine=mach)
            if res.status == 'violation':
                kind, msg, det = res.value
                raise Violation(kind, what + ': ' + msg, det)
            out = clear_error(res, what)
            if res.value is not None:
                t.merge(res.value)
                t.add('mounted_after_tampering')
        elif cmd == 'fsck':
            out = clear_error(w.fsck('--force', machine=mach), what)
        elif cmd == 'verify':
            out = clear_error(w.verify('--data', machine=mach), what)
        else:
            out = clear_error(w.adm('passphrase', w.url, stdin='new pass\nnew pass\n'), what)
        t.add('commands_' + cmd)
        if out != 'exit0':
            t.add('detected')
        t.sig('fs', cls, hows, cmd, out)
        shutil.rmtree(w.backend_dir)
        shutil.copytree(keep, w.backend_dir)
        shutil.rmtree(cache)
        os.rename(cache + '.keep', cache)


def downgrade(c, rng, t, scratch):
    '''The whole encrypted file system is replaced by an unencrypted one.'''
    cfg = hist.rand_config(rng_for('dg', c['seed']), plain=False, keep=False)
    w = hist.new_world(scratch, cfg)
    m = model.Model()
    m, t1 = hist.random_session(w, cfg, m, seed=c['seed'], steps=20, first=True,
                                protect=[(b'lost+found',)])
    evil = make_evil(w, scratch, cfg)
    shutil.rmtree(w.backend_dir)
    shutil.copytree(scratch + '/evil-plain/backend', w.backend_dir)
    t.add('tampered_objects', len(evil['plain']))

    async def body(k, ses):
        tt = Tally()
        await read_all(k, m, tt)
        return tt
    res = hist.session(w, cfg, body, seed=3, machine='fresh')
    if res.status == 'violation':
        raise Violation('downgrade-to-plain', 'with a file system passphrase configured, an '
                        'unencrypted file system put in place of the encrypted one is mounted: ' +
                        res.value[1], res.value[2])
    clear_error(res, 'mount of a replaced file system')
    t.sig('downgrade', repr(res))
    t.add('detected')


def case(c, scratch):
    rng = rng_for('p14', c['seed'])
    t = Tally()
    if c['kind'] == 'store':
        trio.run(store_case, c, rng, t, scratch)
    elif c['kind'] == 'fs':
        fs_case(c, rng, t, scratch)
    else:
        downgrade(c, rng, t, scratch)
    t.sample(dict(kind=c['kind'], config=c['cfg']), 1)
    return t


if __name__ == '__main__':
    world.preimport()
    core.main('P14', LEVEL, RULE, case, gen, quick_budget=35, thorough_budget=600,
              require=['tampered_objects', 'detected', 'mounted_after_tampering',
                       'commands_fsck', 'commands_verify', 'commands_passphrase'],
              min_cases=12,
              assumptions=['Putting back a complete older version of an object under its own name '
                           'is not counted as tampering here; no cryptanalysis.'])
