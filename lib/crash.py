'''Crash histories: scripts of calls with all intermediate states, and the judgement of what is found
after a crash and recovery.'''
from __future__ import annotations

import os
import stat

import trio

from . import dbcheck, hist, kern, model, world
from .core import HarnessError, Tally, Violation, rng_for

SYNCS = ('flush', 'drop', 'sync')
UPSYNCS = ('sync', 'tsync')     # metadata uploaded as well


# --------------------------------------------------------------------------------------------
# scripts

class Ent:
    __slots__ = ('tag', 'type', 'mode', 'uid', 'gid', 'rdev', 'target', 'xattr', 'data', 'nlink')

    def __init__(self, n):
        self.tag, self.type, self.mode = n.tag, n.ftype, n.mode
        self.uid, self.gid, self.rdev, self.target = n.uid, n.gid, n.rdev, n.target
        self.xattr = dict(n.xattr)
        self.data = bytes(n.data) if n.data is not None else None
        self.nlink = n.nlink


class Script:
    def __init__(self):
        self.ops = []
        self.states = []        # states[i]: before ops[i]; one more at the end
        self.touch = []         # tags touched by ops[i]
        self.fsyncs = {}        # tag -> [i + 1]
        self.truncs = {}        # tag -> [i]


class Gen:
    '''Generates valid calls on a model.'''

    def __init__(self, m, rng, bs, weights=None, maxnodes=30):
        self.m, self.rng, self.bs = m, rng, bs
        self.maxnodes = maxnodes
        self.ntag = max((n.tag or 0 for _, n in m.paths()), default=0)
        self.w = dict(create=14, write=14, trunc=6, unlink=7, mkdir=6, rmdir=3, rename=9, link=4,
                      symlink=2, mknod=1, setxattr=4, rmxattr=2, chmod=5, flush=3, drop=1.5,
                      upmeta=1, sync=1, forget=2, cp=1.5, rmtree=1, read=2, sleep=2, uopen=0.5)
        self.w.update(weights or {})
        self.pool = [rng.randbytes(bs) for _ in range(3)]
        self.tag_all()

    def tag_all(self):
        for _, n in self.m.paths():
            if n.tag is None:
                self.ntag += 1
                n.tag = self.ntag

    def state(self):
        self.tag_all()
        return {p: Ent(n) for p, n in self.m.paths()}

    def data(self):
        r, bs = self.rng, self.bs
        x = r.random()
        if x < 0.35:
            return r.choice(self.pool) * r.choice([1, 1, 2])
        n = r.choice([1, 100, bs - 1, bs, bs + 1, 2 * bs, 3 * bs, 5 * bs + 7])
        return r.randbytes(n)

    def pick(self, pred):
        c = [(p, n) for p, n in self.m.paths() if p and pred(p, n)]
        return self.rng.choice(c) if c else None

    def newpath(self):
        dirs = [p for p, n in self.m.paths() if n.ftype == stat.S_IFDIR and len(p) < 3 and
                p[:1] != (b'lost+found',)]
        d = self.rng.choice(dirs)
        name = self.rng.choice([b'a', b'b', b'c', b'd', b'e', b'f', b'\xff', b'n' * 12])
        p = d + (name,)
        return None if name in self.m.walk(d).children else p

    def step(self):
        '''Returns (op, touched tags) with the op already applied to the model, or None'''
        m, r = self.m, self.rng
        names = list(self.w)
        op = r.choices(names, [self.w[n] for n in names])[0]
        nl = lambda p, n: p[0] != b'lost+found'  # noqa: E731
        reg = lambda p, n: n.ftype == stat.S_IFREG  # noqa: E731
        full = len(m.paths()) > self.maxnodes
        if op in ('flush', 'drop', 'upmeta', 'sync', 'tsync', 'forget'):
            return (op,), set()
        if op == 'sleep':
            return (op, r.choice([0.01, 1, 20])), set()
        if op in ('create', 'mkdir', 'symlink', 'mknod', 'link', 'cp'):
            p = self.newpath()
            if p is None or full:
                return None
            if op == 'create':
                d = self.data() if r.random() < 0.9 else b''
                mode = r.choice([0o644, 0o600, 0o755])
                n = m.create(p, mode)
                m.release(n)
                m.write(n, 0, d)
                self.tag_all()
                return (op, p, mode, d), {n.tag}
            if op == 'mkdir':
                n = m.mkdir(p, r.choice([0o755, 0o700]))
                self.tag_all()
                return (op, p, n.mode), {n.tag}
            if op == 'symlink':
                n = m.symlink(p, r.choice([b'a', b'/x/y', b'z' * 300]))
                self.tag_all()
                return (op, p, n.target), {n.tag}
            if op == 'mknod':
                mode = r.choice([stat.S_IFIFO, stat.S_IFCHR, stat.S_IFSOCK]) | 0o640
                n = m.mknod(p, mode, 259 if stat.S_ISCHR(mode) else 0)
                self.tag_all()
                return (op, p, mode, n.rdev), {n.tag}
            if op == 'link':
                x = self.pick(lambda p, n: n.ftype != stat.S_IFDIR)
                if not x:
                    return None
                m.link(x[0], p)
                return (op, x[0], p), {x[1].tag}
            x = self.pick(lambda q, n: n.ftype == stat.S_IFDIR and nl(q, n))
            if not x or p[:len(x[0])] == x[0] or len(m.paths()) > self.maxnodes // 2:
                return None
            m.cp(x[0], p)
            self.tag_all()
            new = m.walk(p)
            return (op, x[0], p), {n.tag for _, n in _below(new)}
        if op in ('write', 'trunc', 'read', 'uopen'):
            x = self.pick(reg)
            if not x:
                return None
            p, n = x
            bs = self.bs
            if op == 'read':
                return (op, p), set()
            if op == 'uopen':
                return (op, p), set()
            if op == 'trunc':
                size = r.choice([0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 5,
                                 max(0, len(n.data) - 1)])
                m.ftruncate(n, size)
                return (op, p, size), {n.tag}
            off = r.choice([0, 0, 1, bs - 1, bs, 2 * bs, len(n.data), len(n.data) // 2])
            d = self.data()
            m.write(n, off, d)
            return (op, p, off, d, r.random() < 0.3), {n.tag}
        if op in ('unlink', 'rmdir', 'rmtree'):
            x = self.pick(dict(
                unlink=lambda p, n: n.ftype != stat.S_IFDIR,
                rmdir=lambda p, n: n.ftype == stat.S_IFDIR and not n.children and p != (
                    b'lost+found',),
                rmtree=lambda p, n: n.ftype == stat.S_IFDIR and nl(p, n))[op])
            if not x:
                return None
            tags = {n.tag for _, n in _below(x[1])}
            getattr(m, op)(x[0])
            return (op, x[0]), tags
        if op == 'rename':
            x = self.pick(nl)
            if not x:
                return None
            y = self.newpath() if r.random() < 0.6 else (self.pick(
                lambda p, n: nl(p, n) and not n.children) or (None,))[0]
            if not y or y[:len(x[0])] == x[0] or x[0][:len(y)] == y:
                return None
            tags = {n.tag for _, n in _below(x[1])}
            try:
                o = m.walk(y)
            except kern.KErr:
                o = None
            if o is x[1]:
                return None
            try:
                m.rename(x[0], y)
            except kern.KErr:
                return None
            if o is not None:
                tags.add(o.tag)
            return (op, x[0], y), tags
        if op in ('setxattr', 'rmxattr', 'chmod'):
            x = self.pick(lambda p, n: p != (b'lost+found',) and
                          (op != 'rmxattr' or n.xattr) and
                          (op != 'chmod' or n.ftype != stat.S_IFLNK))
            if not x:
                return None
            p, n = x
            if op == 'setxattr':
                a = r.choice([b'user.a', b'user.b', b'a'])
                v = r.randbytes(r.choice([0, 3, 200]))
                m.setxattr(p, a, v)
                return (op, p, a, v), {n.tag}
            if op == 'rmxattr':
                a = r.choice(sorted(n.xattr))
                m.removexattr(p, a)
                return (op, p, a), {n.tag}
            ch = dict(mode=r.choice([0o600, 0o644, 0o751]))
            if r.random() < 0.4:
                ch = dict(uid=r.choice([0, 77]), gid=r.choice([0, 88]))
            m.setattr(p, ch)
            return (op, p, ch), {n.tag}
        raise AssertionError(op)

    def script(self, n):
        s = Script()
        s.states.append(self.state())
        while len(s.ops) < n:
            x = self.step()
            if x is None:
                continue
            op, tags = x
            i = len(s.ops)
            s.ops.append(op)
            s.touch.append(tags)
            s.states.append(self.state())
            if op[0] == 'write' and op[4]:
                s.fsyncs.setdefault(next(iter(tags)), []).append(i + 1)
            if op[0] == 'trunc':
                s.truncs.setdefault(next(iter(tags)), []).append(i)
        return s


def _below(n):
    yield (), n
    for name, c in (n.children or {}).items():
        for x in _below(c):
            yield x


async def wait_params(k, n):
    for _ in range(5000):
        if k.ctl.params >= n:
            return
        await trio.sleep(0.05)
    raise Violation('upload-never-happens', 'a metadata upload that was requested or due did not '
                    'happen within 250 seconds of (virtual) time')


async def run_script(k, ops, log=None, tally=None):
    '''Execute the calls. With *log*: record start and end of each.'''
    for i, op in enumerate(ops):
        if log:
            log.put('start', i)
        name, a = op[0], op[1:]
        if name == 'create':
            h, _ = await k.create(a[0], a[1], os.O_RDWR | os.O_EXCL)
            if a[2]:
                await k.write(h, 0, a[2])
            await k.release(h)
        elif name == 'write':
            h = await k.open(a[0], os.O_WRONLY)
            await k.write(h, a[1], a[2])
            if a[3]:
                await k.fsync(h)
            await k.release(h)
        elif name == 'read':
            h = await k.open(a[0], os.O_RDONLY)
            st = await k.getattr_h(h)
            await k.read(h, 0, st.st_size)
            await k.release(h)
        elif name == 'uopen':
            await k.open(a[0], os.O_RDONLY)
        elif name == 'trunc':
            await k.setattr(a[0], dict(size=a[1]))
        elif name == 'chmod':
            await k.setattr(a[0], a[1])
        elif name == 'rmxattr':
            await k.removexattr(a[0], a[1])
        elif name == 'flush':
            await k.flushcache()
        elif name == 'drop':
            await k.dropcache()
        elif name == 'upmeta':
            await k.ctrl(b'upload-meta')
        elif name == 'sync':
            # A cycle that was under way started too early: a second one is needed.
            await k.flushcache()
            for _ in range(2):
                n = k.ctl.params
                await k.ctrl(b'upload-meta')
                await wait_params(k, n + 2)
        elif name == 'tsync':
            # no explicit flush: dirty blocks and metadata are uploaded in the background
            await trio.sleep(60)
            while k.ctl.inflight:
                await trio.sleep(1)
            await wait_params(k, k.ctl.params + 4)
        elif name == 'forget':
            await k.forget_random(0.7)
        elif name == 'sleep':
            await trio.sleep(a[0] if k.ctl.virtual else min(a[0], 0.3))
        else:
            await getattr(k, name)(*a)
        if log:
            log.put('done', i)
        if tally is not None:
            tally.add('op_' + name)


# --------------------------------------------------------------------------------------------
# sessions

class Ctl(world.BackendCtl):
    '''Counts the finished uploads of file system parameters.'''

    def __init__(self):
        super().__init__()
        self.params = 0
        self.elog = None

    async def after(self, op, key, res=None):
        if op == 'write' and key.startswith('s3ql_params_'):
            if self.elog:
                self.elog.put('params', int(key[12:], 16))
        await super().after(op, key, res)
        if op == 'write' and key.startswith('s3ql_params_'):
            self.params += 1


def play(w, c, script, *, seed, machine='m0', kinds=None, at=0, logpath=None, keep=None,
         final=None, setup=None, ctl=None, **kw):
    '''One session running *script*; dies at crash point *at* (0: never). Returns the Result,
    whose value is (number of crash points, counters).'''
    ctl = ctl or Ctl()

    def su():
        if kinds is not None:
            pts = world.Points(w.root + '/points', kinds, at, prefix=w.cachedir(machine))
            pts.install()
            ctl.points = pts
        if logpath:
            ctl.elog = world.EventLog(logpath)
        if setup:
            setup()

    async def body(k, ses):
        t = Tally()
        await run_script(k, script.ops, ctl.elog, t)
        if final is not None:
            await final(k)
        if ctl.elog:
            ctl.elog.put('body-end')
        return t

    def collect(res):
        return res

    r = hist.session(w, c, body, seed=seed, machine=machine, setup=su, ctl=ctl, keep=keep,
                     sched=True, **kw)
    return r


def count_points(w, c, script, *, seed, kinds, **kw):
    '''Run the script in *w* without crashing; returns (points, tally)'''
    box = w.root + '/npoints'

    def report():
        import atexit  # noqa: F401
        import s3ql.mount

    ctl = Ctl()

    def su():
        pts = world.Points(w.root + '/points', kinds, 0, prefix=w.cachedir())
        pts.install()
        ctl.points = pts
        orig = world.run_main

        def run_main(main, args):
            res = orig(main, args)
            with open(box, 'w') as fh:
                fh.write('%d' % pts.n)
            return res
        world.run_main = run_main

    async def body(k, ses):
        t = Tally()
        await run_script(k, script.ops, None, t)
        return t

    t = world.check_result(hist.session(w, c, body, seed=seed, setup=su, ctl=ctl, **kw))
    return int(open(box).read()), t


def backups(ev):
    '''The metadata backups stored according to the events: {seq_no: (s, e)}, the script states in
    which the snapshot can have been taken, complete?}. The parameters of a new sequence number
    are stored before the metadata of that number exists (and refer to the previous metadata),
    and again after it.'''
    res = {}
    done = start = 0
    s = 0
    last = None
    for x in ev:
        if x[0] == 'start':
            start = x[1] + 1
        elif x[0] == 'done':
            done = x[1] + 1
        elif x[0] == 'params':
            if x[1] == last:
                res[x[1]] = (s, start, True)
            else:
                res[x[1]] = (res[last][:2] if last is not None else (0, 0)) + (False,)
            last = x[1]
            s = done
    return res


def dbtree(conn):
    '''Names and attributes in a metadata database: {path: dict}'''
    ino = {r[0]: r for r in conn.execute(
        'SELECT id, mode, uid, gid, refcount, size, rdev FROM inodes')}
    tgt = dict(conn.execute('SELECT inode, target FROM symlink_targets'))
    xa = {}
    for i, name, v in conn.execute('SELECT inode, name, value FROM ext_attributes JOIN names ON '
                                   'names.id = name_id'):
        xa.setdefault(i, {})[name] = v
    kids = {}
    for par, name, i in conn.execute('SELECT parent_inode, name, inode FROM contents JOIN names '
                                     'ON names.id = name_id'):
        kids.setdefault(par, []).append((name, i))
    res = {}
    todo = [((), 1)]
    while todo:
        p, i = todo.pop()
        r = ino[i]
        res[p] = dict(type=stat.S_IFMT(r[1]), mode=stat.S_IMODE(r[1]), uid=r[2], gid=r[3],
                      size=r[5], rdev=r[6], target=tgt.get(i), xattr=xa.get(i, {}), ino=i)
        for name, c in kids.get(i, ()):
            if name != b'.__s3ql__ctrl__':
                todo.append((p + (name,), c))
    return res


def tree_difference(tree, state):
    '''First difference between dbtree() and a script state, or None'''
    for p in sorted(set(tree) | set(state)):
        if p not in tree:
            return '%r is missing' % (p,)
        if p not in state:
            return '%r did not exist' % (p,)
        d, x = tree[p], state[p]
        for key in ('type', 'mode', 'uid', 'gid', 'xattr'):
            if d[key] != getattr(x, key):
                return '%r: %s is %r, was %r' % (p, key, d[key], getattr(x, key))
        if x.type in (stat.S_IFCHR, stat.S_IFBLK) and d['rdev'] != x.rdev:
            return '%r: device is %r, was %r' % (p, d['rdev'], x.rdev)
        if x.type == stat.S_IFLNK and d['target'] != x.target:
            return '%r: target is %r, was %r' % (p, d['target'], x.target)
        if x.type == stat.S_IFREG and d['size'] != len(x.data):
            return '%r: size is %r, was %r' % (p, d['size'], len(x.data))
    groups = {}
    for p, d in tree.items():
        groups.setdefault(d['ino'], set()).add(state[p].tag)
    if len(groups) != len({x.tag for x in state.values()}) or any(
            len(g) > 1 for g in groups.values()):
        return 'hard links differ'
    return None


def progress(logpath):
    '''(number of calls completed, call in progress?, body ended?, params after body end?,
    list of events)'''
    done = 0
    start = 0
    ended = params = False
    ev = world.EventLog.read(logpath)
    for e in ev:
        if e[0] == 'start':
            start = e[1] + 1
        elif e[0] == 'done':
            done = e[1] + 1
        elif e[0] == 'body-end':
            ended = True
        elif e[0] == 'params' and ended:
            params = True
    return done, start, ended, params, ev


# --------------------------------------------------------------------------------------------
# judgement

class Judge:
    '''Compares a recovered tree (kern.snapshot) with the states *s*..*e* of a script.'''

    def __init__(self, script, s, e, bs, exact_only=False, done=0, where=''):
        self.sc, self.s, self.e, self.bs = script, s, e, bs
        self.exact_only = exact_only
        self.done = done        # calls completed (for fsync)
        self.where = where
        self.touched = set()
        for i in range(s, e):
            self.touched |= script.touch[i]

    def bad(self, kind, msg):
        raise Violation(kind, '%s: %s (states %d..%d; last calls: %s)' % (
            self.where, msg, self.s, self.e,
            '; '.join(_short(o) for o in self.sc.ops[max(0, self.e - 4):self.e])))

    def versions(self, path, tag):
        d = self.s
        for i in self.sc.fsyncs.get(tag, ()):
            if i <= self.done:
                d = max(d, i)
        # the last call may be unfinished: the version before it counts too unless it was synced
        res = []
        for st in self.sc.states[d:self.e + 1]:
            x = st.get(path)
            if x is not None and x.tag == tag:
                res.append(x)
        return res, d

    def check(self, snap):
        '''*snap*: {path: dict}. Returns a Tally.'''
        t = Tally()
        st = self.sc.states[self.s:self.e + 1]
        union = set()
        for x in st:
            union |= set(x)
        stable = {}
        for p, x in st[0].items():
            if all(p in y and y[p].tag == x.tag for y in st):
                stable[p] = x.tag
        for p, tag in sorted(stable.items()):
            exact = tag not in self.touched
            if self.exact_only and not exact:
                t.add('paths_modified')
                continue
            if p not in snap:
                self.bad('lost', '%r is missing' % (p,))
            self.entry(p, tag, snap[p], exact)
            t.add('paths_exact' if exact else 'paths_modified')
        extra = []
        lf = (b'lost+found',)
        for p in snap:
            if p in union:
                types = {x[p].type for x in st if p in x}
                if snap[p]['type'] not in types:
                    self.bad('type', '%r has type %o' % (p, snap[p]['type']))
                continue
            if p[:1] == lf or p[-1].startswith(b'lost+found'):
                extra.append(p)
                continue
            # something new can only be below something unknown
            if any(p[:i] in extra for i in range(len(p))):
                extra.append(p)
                continue
            self.bad('appeared', '%r was not there at any time since the last sync' % (p,))
        # (files that were removed earlier may wait for the kernel to forget them)
        if extra and not self.touched and not any(
                o[0] in ('unlink', 'rmdir', 'rename', 'rmtree') for o in self.sc.ops[:self.s]):
            self.bad('lost+found', 'fsck moved %r to lost+found although nothing was going on' % (
                extra[:3],))
        t.add('lost_found_entries', len(extra))
        # groups of hard links
        groups = {}
        for p, d in snap.items():
            groups.setdefault(d['grp'], []).append(p)
        for p, d in snap.items():
            want = len(groups[d['grp']]) if d['type'] != stat.S_IFDIR else 1
            if d['nlink'] != want:
                self.bad('nlink', '%r has link count %d but %d names' % (p, d['nlink'], want))
        byt = {}
        for p, tag in stable.items():
            if p in snap:
                byt.setdefault(tag, set()).add(snap[p]['grp'])
        seen = {}
        for tag, gs in byt.items():
            if self.exact_only and tag in self.touched:
                continue
            if len(gs) != 1:
                self.bad('hardlinks', 'hard links are separate files now: %r' % (gs,))
            g = next(iter(gs))
            if g in seen and not (self.exact_only and seen[g] in self.touched):
                self.bad('hardlinks', 'two files became one: %r' % (g,))
            seen[g] = tag
        # nodes that existed all the time but were moved must still be somewhere
        if not self.exact_only:
            tags = [{x.tag for x in y.values()} for y in st]
            for tag in set.intersection(*tags):
                if tag in byt:
                    continue
                ps = {p for y in st for p, x in y.items() if x.tag == tag}
                if not any(p in snap for p in ps) and not extra:
                    self.bad('lost', 'the node that was at %r is missing' % sorted(ps))
                t.add('nodes_moved')
        return t

    def entry(self, p, tag, d, exact):
        vs, dd = self.versions(p, tag)
        if not vs:
            raise HarnessError('no version of %r' % (p,))
        for key, val in (('type', d['type']), ('rdev', d['rdev']), ('mode', d['mode']),
                         ('uid', d['uid']), ('gid', d['gid']), ('target', d.get('target'))):
            if val not in [getattr(v, key) for v in vs]:
                self.bad('attribute', '%r: %s is %r, was %r' % (
                    p, key, val, [getattr(v, key) for v in vs][:3]))
        for n in d['xattr']:
            if not any(v.xattr.get(n) == d['xattr'][n] for v in vs):
                self.bad('xattr', '%r: attribute %r is %r' % (p, n, d['xattr'][n]))
        for n in vs[0].xattr:
            if n not in d['xattr'] and all(n in v.xattr for v in vs):
                self.bad('xattr', '%r: attribute %r is missing' % (p, n))
        if exact and d['nlink'] != vs[0].nlink and d['type'] == stat.S_IFREG:
            self.bad('nlink', '%r: link count %d, was %d' % (p, d['nlink'], vs[0].nlink))
        if d['type'] == stat.S_IFREG:
            self.data(p, tag, d, vs, dd)

    def data(self, p, tag, d, vs, dd):
        sizes = [len(v.data) for v in vs]
        if not min(sizes) <= d['size'] <= max(sizes):
            self.bad('size', '%r: size is %d, was %d..%d' % (p, d['size'], min(sizes), max(sizes)))
        truncs = [i for i in self.sc.truncs.get(tag, ()) if dd <= i < self.e]
        bs = self.bs
        datas = []
        for v in vs:
            if v.data not in datas:
                datas.append(v.data)
        if len(datas) == 1:
            if d['data'] != datas[0]:
                self.bad('content', '%r: content differs (%s)' % (p, _diff(d['data'], datas[0])))
            return
        for no in range((d['size'] + bs - 1) // bs):
            got = d['data'][no * bs:(no + 1) * bs]
            cand = [x[no * bs:no * bs + len(got)].ljust(len(got), b'\0') for x in datas]
            if got in cand:
                continue
            if truncs and all(b == 0 or any(c[i] == b for c in cand) for i, b in enumerate(got)):
                continue
            self.bad('content', '%r: block %d matches none of %d versions (%s)' % (
                p, no, len(cand), _diff(got, cand[-1])))


def _diff(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return 'first difference at %d: %r.. instead of %r.., lengths %d and %d' % (
        i, bytes(a[i:i + 8]), bytes(b[i:i + 8]), len(a), len(b))


def _short(o):
    return '%s(%s)' % (o[0], ', '.join(
        ('%d bytes' % len(x)) if isinstance(x, bytes) and len(x) > 20 else
        (b'/'.join(x).decode('latin1') if isinstance(x, tuple) else repr(x)) for x in o[1:]))


# --------------------------------------------------------------------------------------------
# recovery

LAST = [None]


def must_fsck(w, *args, what='fsck after the crash', machine='m0', codes=(0, 128), **kw):
    r = w.fsck(*args, machine=machine, **kw)
    if r.status == 'exit' and r.code in codes:
        LAST[0] = r.log[-4000:]
        return r
    if r.status == 'exc':
        raise Violation('fsck-exception:%s' % r.exc_type, '%s: %s' % (
            what, r.tb.strip().splitlines()[-1]), r.describe())
    if r.status in ('violation', 'harness', 'timeout'):
        world.raise_for(r, 'fsck')
    raise Violation('fsck-failed:%s' % r.code, '%s ended with %r' % (what, r), r.describe() +
                    '\nprevious fsck:\n' + (LAST[0] or ''))


def recovered(w, c, *, machine='m0', seed=0, content=True, write=True, tally=None, where='',
              force=True):
    '''fsck finds nothing more, database and store are consistent; mount, read everything, write
    something, unmount, fsck again. Returns the snapshot.'''
    if force:
        must_fsck(w, '--force', machine=machine, what='second fsck %s' % where, codes=(0,))
    if os.path.exists(w.cachepath(machine) + '.db'):    # (a clean file system is not downloaded)
        dbcheck.check_db(w, 'after recovery', machine=machine)
        dbcheck.check_store(w, 'after recovery', machine=machine, tally=tally)

    async def body(k, ses):
        snap = await kern.snapshot(k, content=content)
        if write:
            h, _ = await k.create((b'after-crash',))
            await k.write(h, 0, b'new data' * 300)
            await k.release(h)
            await k.flushcache()
            await k.unlink((b'after-crash',))
        await k.forget_all()
        return snap

    snap = world.check_result(hist.session(w, dict(c, delay=None), body, seed=seed,
                                           machine=machine), 'mount %s' % where)
    if write:
        must_fsck(w, '--force', machine=machine, what='fsck after the first use %s' % where,
                  codes=(0,))
    return snap


def base_model(w, machine='m0'):
    '''The model of a fresh file system.'''
    conn = dbcheck.open_copy(w.cachepath(machine) + '.db', os.path.join(w.root, 'dbcopy'))
    try:
        ino = {r[0]: r[1:] for r in conn.execute('SELECT id, mode, uid, gid FROM inodes')}
        names = list(conn.execute('SELECT name, inode, parent_inode FROM contents '
                                  'JOIN names ON names.id = name_id'))
    finally:
        conn.close()
    m = model.Model()
    m.root.mode, m.root.uid, m.root.gid = stat.S_IMODE(ino[1][0]), ino[1][1], ino[1][2]
    for name, i, p in names:
        if p != 1 or name == b'.__s3ql__ctrl__':
            continue
        n = model.Node(stat.S_IFMT(ino[i][0]), stat.S_IMODE(ino[i][0]), ino[i][1], ino[i][2])
        m.root.children[name] = n
    return m
