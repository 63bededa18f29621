'''Reference model: a plain in-memory POSIX tree.'''
from __future__ import annotations

import errno
import os
import stat

from .kern import KErr

DIR, REG, LNK = stat.S_IFDIR, stat.S_IFREG, stat.S_IFLNK


class Node:
    __slots__ = ('ftype', 'mode', 'uid', 'gid', 'nlink', 'data', 'target', 'xattr', 'rdev',
                 'children', 'opens', 'locked', 'mtime', 'ctime', 'atime', 'ino', 'tag')

    def __init__(self, ftype, mode, uid=1000, gid=1000):
        self.ftype, self.mode, self.uid, self.gid = ftype, mode, uid, gid
        self.nlink = 1
        self.data = bytearray() if ftype == REG else None
        self.target = None
        self.xattr = {}
        self.rdev = 0
        self.children = {} if ftype == DIR else None
        self.opens = 0
        self.locked = False
        self.mtime = self.ctime = self.atime = None
        self.ino = None
        self.tag = None

    @property
    def size(self):
        if self.ftype == REG:
            return len(self.data)
        if self.ftype == LNK:
            return len(self.target)
        return 0


class Model:
    def __init__(self, uid=1000, gid=1000):
        self.root = Node(DIR, 0o755)
        self.uid, self.gid = uid, gid

    # -- walking
    def walk(self, path):
        n = self.root
        for name in path:
            if n.ftype != DIR:
                raise KErr(errno.ENOTDIR)
            if name not in n.children:
                raise KErr(errno.ENOENT)
            n = n.children[name]
        return n

    def parent(self, path):
        p = self.walk(path[:-1])
        if p.ftype != DIR:
            raise KErr(errno.ENOTDIR)
        return p

    def _new(self, path, ftype, mode):
        p = self.parent(path)
        if path[-1] in p.children:
            raise KErr(errno.EEXIST)
        if p.locked:
            raise KErr(errno.EPERM)
        gid = self.gid
        if p.mode & stat.S_ISGID:
            gid = p.gid
            if ftype == DIR:
                mode |= stat.S_ISGID
        n = Node(ftype, mode, self.uid, gid)
        p.children[path[-1]] = n
        return n

    # -- calls
    def getattr(self, path):
        return self.walk(path)

    def mkdir(self, path, mode=0o755):
        return self._new(path, DIR, mode)

    def mknod(self, path, mode, rdev=0):
        n = self._new(path, stat.S_IFMT(mode), stat.S_IMODE(mode))
        n.rdev = rdev
        return n

    def symlink(self, path, target):
        n = self._new(path, LNK, 0o777)
        n.target = target
        return n

    def readlink(self, path):
        n = self.walk(path)
        if n.ftype != LNK:
            raise KErr(errno.EINVAL)
        return n.target

    def create(self, path, mode=0o644, flags=os.O_RDWR):
        p = self.parent(path)
        if path[-1] not in p.children:
            n = self._new(path, REG, mode)
            n.opens += 1
            return n
        if flags & os.O_EXCL:
            raise KErr(errno.EEXIST)
        return self.open(path, flags)

    def open(self, path, flags=os.O_RDWR):
        n = self.walk(path)
        if n.ftype == DIR:
            raise KErr(errno.EISDIR)
        if n.ftype == LNK:
            raise KErr(errno.ELOOP)
        if n.ftype != REG:
            raise KErr(errno.ENXIO)
        if n.locked and flags & (os.O_RDWR | os.O_WRONLY):
            raise KErr(errno.EPERM)
        if flags & os.O_TRUNC:
            if not flags & (os.O_RDWR | os.O_WRONLY):
                raise KErr(errno.EINVAL)
            del n.data[:]
        n.opens += 1
        return n

    def release(self, n):
        n.opens -= 1

    def read(self, n, off, length):
        return bytes(n.data[off:off + length])

    def write(self, n, off, data):
        if n.locked:
            raise KErr(errno.EPERM)
        if off + len(data) > len(n.data):
            n.data.extend(bytes(off + len(data) - len(n.data)))
        n.data[off:off + len(data)] = data
        return len(data)

    def ftruncate(self, n, size):
        if n.locked:
            raise KErr(errno.EPERM)
        if size < len(n.data):
            del n.data[size:]
        else:
            n.data.extend(bytes(size - len(n.data)))
        return n

    def setattr(self, path, ch):
        n = self.walk(path)
        if 'size' in ch:
            if n.ftype == DIR:
                raise KErr(errno.EISDIR)
            if n.ftype != REG:
                raise KErr(errno.EINVAL)
        if n.locked:
            raise KErr(errno.EPERM)
        for key in ('mode', 'uid', 'gid'):
            if key in ch:
                setattr(n, key, ch[key])
        if 'size' in ch:
            self.ftruncate(n, ch['size'])
        return n

    def link(self, src, dst):
        n = self.walk(src)
        if n.ftype == DIR:
            raise KErr(errno.EPERM)
        p = self.parent(dst)
        if dst[-1] in p.children:
            raise KErr(errno.EEXIST)
        if p.locked:
            raise KErr(errno.EPERM)
        p.children[dst[-1]] = n
        n.nlink += 1
        return n

    def unlink(self, path):
        p = self.parent(path)
        if path[-1] not in p.children:
            raise KErr(errno.ENOENT)
        n = p.children[path[-1]]
        if n.ftype == DIR:
            raise KErr(errno.EISDIR)
        if p.locked:
            raise KErr(errno.EPERM)
        del p.children[path[-1]]
        n.nlink -= 1

    def rmdir(self, path):
        p = self.parent(path)
        if path[-1] not in p.children:
            raise KErr(errno.ENOENT)
        n = p.children[path[-1]]
        if n.ftype != DIR:
            raise KErr(errno.ENOTDIR)
        if p.locked:
            raise KErr(errno.EPERM)
        if n.children:
            raise KErr(errno.ENOTEMPTY)
        del p.children[path[-1]]
        n.nlink -= 1

    def rename(self, src, dst):
        if dst[:len(src)] == src and len(dst) > len(src):
            self.walk(src)
            raise KErr(errno.EINVAL)
        p1, p2 = self.parent(src), self.parent(dst)
        if src[-1] not in p1.children:
            raise KErr(errno.ENOENT)
        n = p1.children[src[-1]]
        if src[:len(dst)] == dst and len(src) > len(dst):
            raise KErr(errno.ENOTEMPTY)
        if dst[-1] in p2.children:
            o = p2.children[dst[-1]]
            if o is n:
                return
            if o.ftype == DIR and n.ftype != DIR:
                raise KErr(errno.EISDIR)
            if n.ftype == DIR and o.ftype != DIR:
                raise KErr(errno.ENOTDIR)
        if p1.locked or p2.locked:
            raise KErr(errno.EPERM)
        if dst[-1] in p2.children:
            o = p2.children[dst[-1]]
            if o.ftype == DIR and o.children:
                raise KErr(errno.ENOTEMPTY)
            o.nlink -= 1
        del p1.children[src[-1]]
        p2.children[dst[-1]] = n

    def readdir(self, path):
        n = self.walk(path)
        if n.ftype != DIR:
            raise KErr(errno.ENOTDIR)
        return sorted(n.children)

    def setxattr(self, path, name, value):
        n = self.walk(path)
        if n.locked:
            raise KErr(errno.EPERM)
        n.xattr[name] = value

    def getxattr(self, path, name):
        n = self.walk(path)
        if name not in n.xattr:
            raise KErr(errno.ENODATA)
        return n.xattr[name]

    def listxattr(self, path):
        return sorted(self.walk(path).xattr)

    def removexattr(self, path, name):
        n = self.walk(path)
        if n.locked:
            raise KErr(errno.EPERM)
        if name not in n.xattr:
            raise KErr(errno.ENODATA)
        del n.xattr[name]

    def lock_tree(self, path):
        def rec(n):
            n.locked = True
            for c in (n.children or {}).values():
                rec(c)
        rec(self.walk(path))

    def rmtree(self, path):
        p = self.parent(path)
        if path[-1] not in p.children:
            raise KErr(errno.ENOENT)
        if p.locked:
            raise KErr(errno.EPERM)

        def rec(n):
            for name, c in list((n.children or {}).items()):
                rec(c)
                del n.children[name]
                c.nlink -= 1
        n = p.children[path[-1]]
        rec(n)
        del p.children[path[-1]]
        n.nlink -= 1

    def cp(self, src, dst):
        s = self.walk(src)
        if s.ftype != DIR:
            raise KErr(errno.ENOTDIR)
        t = self.mkdir(dst)
        t.mode, t.uid, t.gid = s.mode, s.uid, s.gid
        t.xattr = dict(s.xattr)
        memo = {}

        def dup(n):
            if id(n) in memo:
                c = memo[id(n)]
                c.nlink += 1
                return c
            c = Node(n.ftype, n.mode, n.uid, n.gid)
            memo[id(n)] = c
            c.target, c.rdev = n.target, n.rdev
            c.xattr = dict(n.xattr)
            if n.data is not None:
                c.data = bytearray(n.data)
            if n.children is not None:
                for name in sorted(n.children):
                    c.children[name] = dup(n.children[name])
            return c
        for name in sorted(s.children):
            if s.children[name] is t:
                continue
            t.children[name] = dup(s.children[name])
        return t

    # -- snapshot in the format of kern.snapshot
    def snapshot(self, path=()):
        res = {}
        ids = {}

        def visit(n, rel):
            d = dict(type=n.ftype, mode=n.mode, uid=n.uid, gid=n.gid, nlink=n.nlink, rdev=n.rdev,
                     xattr=dict(sorted(n.xattr.items())))
            if n.ftype == LNK:
                d['target'] = n.target
                d['size'] = len(n.target)
            elif n.ftype == REG:
                d['size'] = len(n.data)
                d['data'] = bytes(n.data)
            res[rel] = d
            ids.setdefault(id(n), []).append(rel)
            if n.ftype == DIR:
                for name in sorted(n.children):
                    visit(n.children[name], rel + (name,))

        visit(self.walk(path), ())
        for rels in ids.values():
            g = min(rels)
            for r in rels:
                res[r]['grp'] = g
        return res

    def paths(self):
        res = []

        def visit(n, p):
            res.append((p, n))
            for name in sorted(n.children or {}):
                visit(n.children[name], p + (name,))
        visit(self.root, ())
        return res
