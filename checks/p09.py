'''P09: fsck repairs any damage to a consistent state and keeps intact data.'''
import os
import re
import sqlite3
import stat
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from lib import core, dbcheck, driver, hist, kern, model, world
from lib.core import Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case is a file system with random contents, of which several copies are damaged '
        'independently: 1-6 random damages (28 kinds: lost rows, dangling references, wrong '
        'counts, directory loops, damaged lost+found, missing, extra and temporary objects), at '
        'random also killing the first fsck at a random statement or backend request. An '
        'independent evaluation of the damaged tables says what is intact. Oracle after one fsck: '
        'exit code 0 or 128, independent database check, agreement with the backend, second fsck '
        'finds nothing, mount from another machine; intact entries keep path, every surviving '
        'inode is found (elsewhere only in lost+found) with its attributes and every intact '
        'block; nothing is invented; every removed object is named in the log. distinct: sets of '
        'damage kinds, fates.')

S_IFMT = 0o170000
BIG = 10**6


def gen(rng, tier):
    for i in range(10**9):
        if i % 20 == 1:
            yield dict(seed=rng.randrange(2**40), deep=rng.choice([260, 1050, 1600]),
                       cfg=hist.rand_config(rng, clock=50, delay=None, cachesize=1000, keep=False))
        yield dict(seed=rng.randrange(2**40), cfg=hist.rand_config(
            rng, clock=50, delay=None, keep=False, cachesize=1000, max_entries=100, conns=3),
            steps=rng.choice([30, 60, 120]), variants=4)


PROFILE = dict(mkdir=14, link=8, symlink=6, setxattr=8, create=14, write=30, cp=3, lock=0, unlink=2,
               rmdir=1, rename=4, mknod=4, rmtree=0, truncate=3, removexattr=1)


def case(c, scratch):
    if 'deep' in c:
        return deep(c, scratch)
    cfg = c['cfg']
    t = Tally()
    w = hist.new_world(scratch, cfg)
    snap, inos = {}, {}

    m, t1 = hist.random_session(w, cfg, model.Model(), seed=c['seed'], steps=c['steps'], first=True,
                                protect=[(b'lost+found',)], profile=driver.Profile(**PROFILE))

    async def body(k, ses):
        out = {}
        s = await kern.snapshot(k, times=True, ino_out=out)
        await k.forget_all()
        return s, out

    snap, inos = world.check_result(hist.session(w, cfg, body, seed=c['seed']))
    only = c.get('only')
    for v in range(c['variants']):
        r2 = rng_for('p09v', c['seed'], v)
        if only is not None and v != only:
            continue
        w2 = w.copy(scratch + '/v%d' % v)
        Variant(c, w2, r2, snap, inos, t).run(v)
        import shutil
        shutil.rmtree(w2.root)
    return t


def deep(c, scratch):
    '''Directories nested deeper than any recursion limit'''
    cfg, n = c['cfg'], c['deep']
    rng = rng_for('p09deep', c['seed'])
    t = Tally()
    w = hist.new_world(scratch, cfg)

    async def body(k, ses):
        p = 1
        for i in range(n):
            a = await k.req('mkdir', p, b'd', stat.S_IFDIR | 0o755, k.ctx)
            k._entry(p, b'd', a)
            p = a.st_ino
        fi, a = await k.req('create', p, b'file', stat.S_IFREG | 0o644, os.O_RDWR, k.ctx)
        k._entry(p, b'file', a)
        h = k._opened(fi, a.st_ino, os.O_RDWR)
        await k.write(h, 0, b'deep data')
        await k.release(h)
        return a.st_ino

    ino = world.check_result(hist.session(w, cfg, body, seed=c['seed']))
    for rnd in range(2):
        conn = sqlite3.connect(w.cachepath() + '.db')
        if rnd == 0:
            what = 'none'
        else:
            what = rng.choice(['refcount', 'entry', 'loop', 'xattr', 'size', 'block', 'parent'])
            rows = conn.execute('SELECT c.rowid, c.inode FROM contents c JOIN inodes i ON '
                                'i.id=c.inode WHERE parent_inode > 1 AND i.mode & 61440 = 16384 '
                                'ORDER BY c.rowid').fetchall()
            mid = rows[rng.randrange(len(rows) // 4)]
            if what == 'refcount':
                conn.execute('UPDATE inodes SET refcount=7 WHERE id=?', (ino,))
            elif what == 'entry':
                conn.execute('DELETE FROM contents WHERE rowid=?', (mid[0],))
            elif what == 'parent':
                conn.execute('DELETE FROM inodes WHERE id=?', (mid[1],))
            elif what == 'loop':
                conn.execute('UPDATE contents SET parent_inode=? WHERE rowid=?',
                             (rows[-1][1], mid[0]))
            elif what == 'xattr':
                conn.execute('INSERT INTO ext_attributes (inode, name_id, value) VALUES '
                             '(?, 99999, ?)', (ino, b'x'))
            elif what == 'size':
                conn.execute('UPDATE inodes SET size=1 WHERE id=?', (ino,))
            elif what == 'block':
                conn.execute('UPDATE inode_blocks SET obj_id=9999 WHERE inode=?', (ino,))
            conn.commit()
        conn.close()
        desc = '%d nested directories, damage: %s' % (n, what)
        for i in range(2):
            r = w.fsck('--force')
            if r.status != 'exit' or r.code != (128 if i == 0 and rnd else 0):
                raise Violation('fsck-fails', '%s: fsck run %d: %s' % (
                    desc, i + 1, r.describe()[:300]), r.tb or r.log[-3000:])
            t.add('fsck_runs')
        dbcheck.check_db(w, desc)
        dbcheck.check_store(w, desc)
        t.add('deep_trees')
        t.sig('deep', n, what)
    return t


class Db:
    '''The tables as dictionaries'''

    def __init__(self, conn, have):
        q = lambda s: conn.execute(s).fetchall()  # noqa: E731
        self.names = {r[0]: r[1] for r in q('SELECT id, name FROM names')}
        self.inodes = {r[0]: r for r in q('SELECT id, mode, uid, gid, size, rdev, mtime_ns '
                                          'FROM inodes')}
        self.contents = q('SELECT rowid, name_id, inode, parent_inode FROM contents')
        self.blocks = {(r[0], r[1]): r[2] for r in q('SELECT inode, blockno, obj_id '
                                                     'FROM inode_blocks')}
        self.objects = {r[0]: r for r in q('SELECT id, hash, length FROM objects')}
        self.xattrs = q('SELECT inode, name_id, value FROM ext_attributes')
        self.links = dict(q('SELECT inode, target FROM symlink_targets'))
        self.have = have

    def good_block(self, key):
        o = self.objects.get(self.blocks[key])
        return o is not None and o[1] is not None and o[0] in self.have


class Variant:
    def __init__(self, c, w, rng, snap, inos, t):
        self.c, self.w, self.rng, self.snap, self.inos, self.t = c, w, rng, snap, inos, t
        self.bs = c['cfg']['block_kib'] * 1024
        self.done = []

    # -- damage

    def stored(self):
        res = {}
        for root, _, files in os.walk(self.w.backend_dir):
            for f in files:
                mt = re.match(r'^s3ql_data_(\d+)$', f)
                if mt:
                    res[int(mt.group(1))] = os.path.join(root, f)
        return res

    def damage(self, conn):
        r = self.rng
        ops = [x for x in dir(self) if x.startswith('d_')]
        if r.random() < 0.15:
            # a whole table area is hit
            op = r.choice(ops)
            for _ in range(r.choice([3, 10, 40])):
                self.apply(op, conn)
        for _ in range(r.choice([1, 1, 2, 2, 3, 6])):
            self.apply(r.choice(ops), conn)

    def apply(self, op, conn):
        try:
            res = getattr(self, op)(conn, self.rng)
        except sqlite3.IntegrityError:
            return
        if res:
            self.done.append((op[2:], res))

    def pick(self, conn, sql, *a):
        rows = conn.execute(sql, a).fetchall()
        return self.rng.choice(rows) if rows else None

    def miss(self, conn, table='inodes'):
        return (conn.execute('SELECT max(id) FROM %s' % table).fetchone()[0] or 0) + \
            self.rng.choice([1000, 1001, 2000])

    def d_names_del(self, conn, r):
        x = self.pick(conn, 'SELECT id, name FROM names')
        if x:
            conn.execute('DELETE FROM names WHERE id=?', (x[0],))
        return x

    def d_names_refcount(self, conn, r):
        x = self.pick(conn, 'SELECT id, refcount FROM names')
        if x:
            n = r.choice([0, 1, 2, x[1] + 1, 50, -1])
            conn.execute('UPDATE names SET refcount=? WHERE id=?', (n, x[0]))
            return x + (n,)

    def d_names_extra(self, conn, r):
        n = b'unused%d' % r.randrange(BIG)
        conn.execute('INSERT INTO names (name, refcount) VALUES (?, ?)', (n, r.choice([0, 1, 5])))
        return n

    def d_contents_del(self, conn, r):
        x = self.pick(conn, 'SELECT rowid, name_id, inode, parent_inode FROM contents')
        if x:
            conn.execute('DELETE FROM contents WHERE rowid=?', (x[0],))
        return x

    def d_contents_name(self, conn, r):
        x = self.pick(conn, 'SELECT rowid, name_id, inode, parent_inode FROM contents')
        if x:
            conn.execute('UPDATE contents SET name_id=? WHERE rowid=?',
                         (self.miss(conn, 'names'), x[0]))
        return x

    def d_contents_parent(self, conn, r):
        x = self.pick(conn, 'SELECT rowid, name_id, inode, parent_inode FROM contents')
        if x:
            conn.execute('UPDATE contents SET parent_inode=? WHERE rowid=?',
                         (self.miss(conn), x[0]))
        return x

    def d_contents_inode(self, conn, r):
        x = self.pick(conn, 'SELECT rowid, name_id, inode, parent_inode FROM contents')
        if x:
            conn.execute('UPDATE contents SET inode=? WHERE rowid=?', (self.miss(conn), x[0]))
        return x

    def d_contents_loop(self, conn, r):
        x = self.pick(conn, 'SELECT c.rowid, c.inode FROM contents c JOIN inodes i ON i.id=c.inode '
                      'WHERE i.mode & 61440 = 16384')
        if not x:
            return None
        below, todo = [x[1]], [x[1]]
        while todo:
            for (i,) in conn.execute('SELECT c.inode FROM contents c JOIN inodes i ON i.id=c.inode '
                                     'WHERE i.mode & 61440 = 16384 AND c.parent_inode=?',
                                     (todo.pop(),)):
                if i not in below:
                    below.append(i)
                    todo.append(i)
        to = r.choice(below)
        conn.execute('UPDATE contents SET parent_inode=? WHERE rowid=?', (to, x[0]))
        return x + (to,)

    def d_inode_del(self, conn, r):
        x = self.pick(conn, 'SELECT id, mode FROM inodes WHERE id > 2')
        if x:
            conn.execute('DELETE FROM inodes WHERE id=?', (x[0],))
        return x

    def d_dir_del(self, conn, r):
        x = self.pick(conn, 'SELECT id, mode FROM inodes WHERE id > 2 AND mode & 61440 = 16384')
        if x:
            conn.execute('DELETE FROM inodes WHERE id=?', (x[0],))
        return x

    def d_inode_refcount(self, conn, r):
        x = self.pick(conn, 'SELECT id, refcount FROM inodes WHERE id > 2')
        if x:
            n = r.choice([0, x[1] + 1, 2, 100, -1])
            conn.execute('UPDATE inodes SET refcount=? WHERE id=?', (n, x[0]))
            return x + (n,)

    def d_inode_size(self, conn, r):
        x = self.pick(conn, 'SELECT DISTINCT i.id, i.size FROM inodes i JOIN inode_blocks b '
                      'ON b.inode = i.id')
        if x and x[1]:
            n = r.choice([0, x[1] - 1, x[1] // 2])
            conn.execute('UPDATE inodes SET size=? WHERE id=?', (n, x[0]))
            return x + (n,)

    def d_inode_type(self, conn, r):
        # (only types that fsck can guess)
        x = self.pick(conn, 'SELECT id, mode FROM inodes WHERE id > 2 AND mode & 61440 = 32768 '
                      'OR (mode & 61440 = 16384 AND id > 2 AND id IN '
                      '(SELECT parent_inode FROM contents))')
        if x:
            conn.execute('UPDATE inodes SET mode=? WHERE id=?', (x[1] & 0o7777, x[0]))
        return x

    def d_lof_entry(self, conn, r):
        x = self.pick(conn, "SELECT rowid FROM contents WHERE parent_inode=1 AND name_id IN "
                      "(SELECT id FROM names WHERE name=?)", b'lost+found')
        if x:
            conn.execute('DELETE FROM contents WHERE rowid=?', (x[0],))
        return x

    def d_lof_file(self, conn, r):
        x = self.pick(conn, "SELECT inode FROM contents WHERE parent_inode=1 AND name_id IN "
                      "(SELECT id FROM names WHERE name=?)", b'lost+found')
        if x and not conn.execute('SELECT 1 FROM contents WHERE parent_inode=?', x).fetchone():
            conn.execute('UPDATE inodes SET mode=? WHERE id=? AND mode & 61440 = 16384',
                         (stat.S_IFREG | 0o600, x[0]))
            return x

    def d_lof_inode(self, conn, r):
        x = self.pick(conn, "SELECT inode FROM contents WHERE parent_inode=1 AND name_id IN "
                      "(SELECT id FROM names WHERE name=?)", b'lost+found')
        if x:
            conn.execute('DELETE FROM inodes WHERE id=?', (x[0],))
            return x

    def d_block_del(self, conn, r):
        x = self.pick(conn, 'SELECT inode, blockno, obj_id FROM inode_blocks')
        if x:
            conn.execute('DELETE FROM inode_blocks WHERE inode=? AND blockno=?', x[:2])
        return x

    def d_block_obj(self, conn, r):
        x = self.pick(conn, 'SELECT inode, blockno, obj_id FROM inode_blocks')
        if x:
            conn.execute('UPDATE inode_blocks SET obj_id=? WHERE inode=? AND blockno=?',
                         (self.miss(conn, 'objects'),) + x[:2])
        return x

    def d_block_inode(self, conn, r):
        x = self.pick(conn, 'SELECT inode, blockno, obj_id FROM inode_blocks')
        if x:
            conn.execute('UPDATE inode_blocks SET inode=? WHERE inode=? AND blockno=?',
                         (self.miss(conn),) + x[:2])
        return x

    def d_obj_del(self, conn, r):
        x = self.pick(conn, 'SELECT id FROM objects')
        if x:
            conn.execute('DELETE FROM objects WHERE id=?', x)
        return x

    def d_obj_refcount(self, conn, r):
        x = self.pick(conn, 'SELECT id, refcount FROM objects')
        if x:
            n = r.choice([0, 0, x[1] + 1, 1, 100, -1])
            conn.execute('UPDATE objects SET refcount=? WHERE id=?', (n, x[0]))
            return x + (n,)

    def d_obj_hash(self, conn, r):
        x = self.pick(conn, 'SELECT id FROM objects')
        if x:
            conn.execute('UPDATE objects SET hash=NULL WHERE id=?', x)
        return x

    def d_obj_phys(self, conn, r):
        x = self.pick(conn, 'SELECT id FROM objects')
        if x:
            conn.execute('UPDATE objects SET phys_size=-1 WHERE id=?', x)
        return x

    def d_obj_extra(self, conn, r):
        i = self.miss(conn, 'objects')
        conn.execute('INSERT INTO objects (id, hash, refcount, phys_size, length) VALUES '
                     '(?, ?, ?, 100, 10)', (i, r.randbytes(32), r.choice([0, 1])))
        return i

    def d_store_del(self, conn, r):
        s = self.stored()
        if s:
            i = r.choice(sorted(s))
            os.unlink(s[i])
            return i

    def d_store_extra(self, conn, r):
        s = self.stored()
        if s:
            i = r.choice(sorted(s))
            n = max(max(s), self.miss(conn, 'objects')) + r.choice([0, 1, 70])
            if n in s:
                return None
            with open(s[i], 'rb') as fh:
                data = fh.read()
            self.extra(n, data)
            return n

    def extra(self, n, data):
        import trio
        from s3ql.backends import local

        async def main():
            b = await local.AsyncBackend.create(storage_url=self.w.url, backend_options={})
            await b.store('s3ql_data_%d' % n, data)
            await b.close()

        trio.run(main)

    def d_store_tmp(self, conn, r):
        with open(os.path.join(self.w.backend_dir, 's3ql_data_%d#%d-%d.tmp' % (
                r.randrange(100), r.randrange(1000), r.randrange(10**9))), 'wb') as fh:
            fh.write(b'part')
        return True

    def d_xattr_name(self, conn, r):
        x = self.pick(conn, 'SELECT rowid, inode, name_id FROM ext_attributes')
        if x:
            conn.execute('UPDATE ext_attributes SET name_id=? WHERE rowid=?',
                         (self.miss(conn, 'names'), x[0]))
        return x

    def d_xattr_inode(self, conn, r):
        x = self.pick(conn, 'SELECT rowid, inode, name_id FROM ext_attributes')
        if x:
            conn.execute('UPDATE ext_attributes SET inode=? WHERE rowid=?',
                         (self.miss(conn), x[0]))
        return x

    def d_link_del(self, conn, r):
        x = self.pick(conn, 'SELECT inode FROM symlink_targets')
        if x:
            conn.execute('DELETE FROM symlink_targets WHERE inode=?', x)
        return x

    def d_link_extra(self, conn, r):
        i = self.miss(conn)
        conn.execute('INSERT INTO symlink_targets (inode, target) VALUES (?, ?)', (i, b'x'))
        return i

    # -- the check

    def run(self, v):
        w, t, r = self.w, self.t, self.rng
        db = w.cachepath() + '.db'
        conn = sqlite3.connect(db)
        conn.text_factory = bytes
        self.orig = Db(conn, set(self.stored()))
        self.damage(conn)
        conn.commit()
        before = set(self.stored())
        self.bad = Db(conn, before)
        hurt = bool(dbcheck.problems(conn, self.bs))
        conn.close()
        desc = 'variant %d, damage %s' % (v, self.done)
        log = ''
        killed = False
        if r.random() < 0.3:
            at = r.choice([r.randrange(1, 400), r.randrange(1, 40)])
            res = w.fsck('--force', setup=kill_at(w, at))
            killed = res.status in ('crash', 'died')
            log = res.log
            if killed:
                t.add('fscks_killed')
                desc += ', first fsck killed at point %d' % at
        if killed or not log:
            res = w.fsck('--force')
            log += res.log
        if res.status != 'exit' or res.code not in (0, 128):
            raise Violation('fsck-fails', '%s: fsck: %s' % (desc, res.describe()[:300]),
                            res.tb or log[-3000:])
        t.add('fsck_runs')
        if hurt and res.code == 0 and not killed:
            raise Violation('fsck-silent', '%s: fsck reports no problem' % desc, log[-2000:])
        if not hurt and res.code == 0 and not killed:
            return                              # no damage that anyone could see
        where = desc + ', after fsck'
        dbcheck.check_db(w, where)
        dbcheck.check_store(w, where)
        after = set(self.stored())
        if not killed:
            for i in sorted(before - after):
                refs = [k[0] for k, o in self.bad.blocks.items() if o == i]
                if not any(re.search(r'\b%d\b' % x, log) for x in [i] + refs):
                    raise Violation('silent-delete', '%s: object %d was removed without a '
                                    'message' % (desc, i), log[-3000:])
        before2 = dbcheck.dump(w)
        res = w.fsck('--force')
        if res.status != 'exit' or res.code != 0:
            raise Violation('second-fsck', '%s: second fsck: %s' % (desc, res.describe()[:300]),
                            res.tb or res.log[-3000:])
        d = dbcheck.diff_dump(before2, dbcheck.dump(w))
        if d:
            raise Violation('second-fsck', '%s: second fsck changed something: %s' % (desc, d[0]))

        async def body(k, ses):
            out = {}
            try:
                s = await kern.snapshot(k, times=True, ino_out=out)
            except kern.KErr as exc:
                raise Violation('unreadable', '%s: reading everything: %r' % (desc, exc))
            await k.forget_all()
            return s, out

        snap, inos = world.check_result(hist.session(
            w, self.c['cfg'], body, seed=self.c['seed'], machine=r.choice(['m0', 'm1'])),
            '%s: mount' % desc)
        self.judge(desc, snap, inos, log)
        t.sig(tuple(sorted({x[0] for x in self.done})), killed)
        for x in {x[0] for x in self.done}:
            t.add('kind_' + x)
        t.sample(dict(damage=[str(x) for x in self.done]), 1)

    def judge(self, desc, snap, inos, log):
        b, t = self.bad, self.t
        lof = (b'lost+found',)

        def bad(kind, msg):
            raise Violation(kind, '%s: %s' % (desc, msg), log[-4000:])

        lacking = {k[0] for k in b.blocks if not b.good_block(k)}
        origpaths = {}
        for i, ps in self.inos.items():
            for p in ps:
                origpaths[p] = i
        # what must stay where it was
        good = {(): 1}
        kids = {}
        for rowid, name_id, ino, par in b.contents:
            kids.setdefault(par, []).append((name_id, ino))
        todo = [((), 1)]
        while todo:
            path, par = todo.pop()
            if stat.S_IFMT(b.inodes[par][1]) not in (stat.S_IFDIR, 0):
                continue
            for name_id, ino in kids.get(par, ()):
                if name_id not in b.names or ino not in b.inodes or ino in lacking:
                    continue
                p = path + (b.names[name_id],)
                if p == lof and stat.S_IFMT(b.inodes[ino][1]) != stat.S_IFDIR:
                    continue
                if p in good:
                    continue
                good[p] = ino
                todo.append((p, ino))
        where = {}
        for i, ps in inos.items():
            for p in ps:
                where[p] = i
        for p, i in good.items():
            if where.get(p) != i:
                bad('moved', 'entry %r (inode %d) was intact, but now there is %s there' % (
                    p, i, where.get(p)))
            t.add('intact_entries')
        for p in where:
            if p in good:
                continue
            if p[:1] != lof:
                bad('invented', 'entry %r (inode %d) was not there' % (p, where[p]))
            t.add('moved_entries')
        # every surviving inode
        for i, row in b.inodes.items():
            if i == 2:
                continue
            if i not in inos:
                bad('lost', 'inode %d (%s) is not in the tree any more' % (i, self.inos.get(i)))
            s = snap[inos[i][0]]
            mode = stat.S_IFMT(row[1])
            if mode == 0:
                mode = stat.S_IFDIR if kids.get(i) else stat.S_IFREG
                if s['type'] not in (stat.S_IFREG, stat.S_IFDIR):
                    bad('attr', 'inode %d without type became %o' % (i, s['type']))
            elif s['type'] != mode:
                bad('attr', 'inode %d had type %o, now %o' % (i, mode, s['type']))
            if (s['mode'], s['uid'], s['gid'], s['rdev']) != (row[1] & 0o7777, row[2], row[3],
                                                              row[5]):
                bad('attr', 'attributes of inode %d changed from %r to %r' % (i, row, s))
            if s['mtime'] != row[6] and i != 1 and inos[i][0] != lof:
                bad('attr', 'mtime of inode %d changed from %r to %r' % (i, row[6], s['mtime']))
            if stat.S_ISREG(s['type']):
                if i not in self.inos or 'data' not in self.snap[self.inos[i][0]]:
                    continue
                self.file(i, row, s, bad)
            if stat.S_ISLNK(s['type']):
                want = b.links.get(i, b'')
                if s['target'] != want:
                    bad('target', 'target of inode %d is %r, was %r' % (i, s['target'], want))
            want = {b.names.get(n, ('?', n)): v for j, n, v in b.xattrs if j == i}
            got = dict(s['xattr'])
            lost = sorted(v for n, v in want.items() if isinstance(n, tuple))
            for n, v in want.items():
                if not isinstance(n, tuple) and got.pop(n, None) != v:
                    bad('xattr', 'extended attribute %r of inode %d is not %r' % (n, i, v))
            if sorted(got.values()) != lost:
                bad('xattr', 'extended attributes of inode %d: %r, was %r' % (i, s['xattr'], want))
            t.add('inodes_checked')
        for i in inos:
            if i not in b.inodes and inos[i] != [lof]:
                bad('invented', 'inode %d at %r is new' % (i, inos[i]))
        for i in lacking:
            for p in inos.get(i, ()):
                if p[:1] != lof:
                    bad('lacking', 'inode %d lacks data, but is still at %r' % (i, p))
                t.add('lacking_moved')

    def file(self, i, row, s, bad):
        b, bs = self.bad, self.bs
        orig = self.snap[self.inos[i][0]]['data']
        size = row[4]
        for (j, no), o in b.blocks.items():
            if j == i and b.good_block((j, no)):
                size = max(size, no * bs + b.objects[o][2])
        if len(s['data']) != size:
            bad('size', 'inode %d has size %d, expected %d' % (i, len(s['data']), size))
        for no in range((size + bs - 1) // bs):
            if (i, no) in b.blocks and b.good_block((i, no)):
                want = orig[no * bs:no * bs + bs].ljust(bs, b'\0')
            else:
                want = bytes(bs)
            want = want[:size - no * bs]
            if s['data'][no * bs:no * bs + bs] != want:
                bad('content', 'block %d of inode %d changed (%s)' % (
                    no, i, 'intact' if (i, no) in b.blocks else 'was lost, should be zeros'))
            self.t.add('blocks_checked')


def kill_at(w, at):
    def setup():
        pts = world.Points(w.root + '/points', ('backend', 'sql', 'file'), at, prefix=w.cachedir())
        pts.install()
        ctl = world.BackendCtl()
        ctl.points = pts
        world.install_backend(ctl)
    return setup


if __name__ == '__main__':
    world.preimport()
    core.main('P09', LEVEL, RULE, case, gen, quick_budget=35, thorough_budget=780,
              require=['fsck_runs', 'intact_entries', 'moved_entries', 'lacking_moved',
                       'inodes_checked', 'blocks_checked', 'deep_trees', 'fscks_killed'], min_cases=10,
              assumptions=['The inodes of the root directory and the control file stay.'])
