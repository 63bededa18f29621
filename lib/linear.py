'''Offline checkers over recorded concurrent histories.'''
from __future__ import annotations

from .core import Inconclusive, Violation


class Op:
    __slots__ = ('start', 'end', 'name', 'args', 'res', 'task')

    def __init__(self, start, name, args, task):
        self.start, self.end, self.name, self.args, self.task = start, None, name, args, task
        self.res = None

    def __repr__(self):
        return '[%s..%s] task %s: %s%r -> %r' % (self.start, self.end, self.task, self.name,
                                                self.args, self.res)


class Recorder:
    def __init__(self):
        self.clock = 0
        self.ops = []

    def tick(self):
        self.clock += 1
        return self.clock

    async def call(self, task, name, args, coro, ok, err):
        '''Run *coro*; record ok(result) or ('err', errno) (via err(exc))'''
        from .kern import KErr
        op = Op(self.tick(), name, args, task)
        self.ops.append(op)
        try:
            r = await coro
        except KErr as exc:
            op.res = err(exc)
            op.end = self.tick()
            return None
        op.res = ok(r)
        op.end = self.tick()
        return r


def overlaps(ops):
    '''Number of pairs of operations that ran at the same time.'''
    n = 0
    act = []
    for o in sorted(ops, key=lambda o: o.start):
        act = [x for x in act if x.end > o.start]
        n += len(act)
        act.append(o)
    return n


# --------------------------------------------------------------------------------------------
# one file: writes and truncates are serialized by the kernel, reads are not


def _apply(img, op):
    if op.name == 'write':
        off, data = op.args
        if len(img) < off:
            img = img + bytes(off - len(img))
        return img[:off] + data + img[off + len(data):]
    size = op.args[0]
    return img[:size] + bytes(max(0, size - len(img)))


def check_file(ops, initial, block_size, final=None, tally=None):
    '''Every block of every read must show one version of this block, from within the time of the
    read, and versions must not go backwards between reads. *ops*: write(off, data), trunc(size),
    read(off, len) with result bytes, size() with result int.'''
    muts = sorted((o for o in ops if o.name in ('write', 'trunc')), key=lambda o: o.start)
    for a, b in zip(muts, muts[1:]):
        if a.end > b.start:
            raise AssertionError('mutations overlap')
    imgs = [initial]
    for o in muts:
        imgs.append(_apply(imgs[-1], o))
    # version i is established by muts[i-1]
    seen = {}     # block -> list of (end of read, version)

    def window(o):
        lo = 0
        while lo < len(muts) and muts[lo].end < o.start:
            lo += 1
        hi = lo
        while hi < len(muts) and muts[hi].start < o.end:
            hi += 1
        return lo, hi

    def bad(o, why):
        lo, hi = window(o)
        raise Violation('not-linearizable', 'read of [%d, %d): %s' % (
            o.args[0], o.args[0] + o.args[1], why), 'read: %d..%d\n' % (o.start, o.end)
            + '\n'.join('%s' % _show(m) for m in muts[max(0, lo - 3):hi + 1]))

    for o in sorted((o for o in ops if o.name in ('read', 'size')), key=lambda o: o.end):
        lo, hi = window(o)
        sizes = [len(imgs[v]) for v in range(lo, hi + 1)]
        if o.name == 'size':
            # sizes may not be set in the middle of an operation
            if o.res not in sizes:
                raise Violation('not-linearizable', 'size %d reported, possible were %s' % (
                    o.res, sizes))
            if tally is not None:
                tally.add('sizes_judged')
            continue
        off, ln = o.args
        lens = {max(0, min(s - off, ln)) for s in sizes}
        if len(o.res) not in lens:
            bad(o, 'returned %d bytes, possible were %s' % (len(o.res), sorted(lens)))
        trunc = any(m.name == 'trunc' for m in muts[lo:hi])
        pos = 0
        while pos < len(o.res):
            b = (off + pos) // block_size
            n = min(len(o.res) - pos, (b + 1) * block_size - off - pos)
            got = o.res[pos:pos + n]
            a = off + pos
            if trunc:
                # not atomic with respect to the size: every byte must come from some version
                for i in range(n):
                    if got[i] and not any(imgs[v][a + i:a + i + 1] == got[i:i + 1]
                                          for v in range(lo, hi + 1)):
                        bad(o, 'byte %d was never written there' % (a + i))
            else:
                cand = []
                for v in range(lo, hi + 1):
                    x = imgs[v][a:a + n]
                    x += bytes(n - len(x))
                    if x == got:
                        cand.append(v)
                if not cand:
                    bad(o, 'block %d (from %d, %d bytes) matches no version %d..%d: %r' % (
                        b, a, n, lo, hi, got[:40]))
                # monotone: an earlier, finished read must not have needed a later version
                for end, low in seen.get(b, ()):
                    if end < o.start and max(cand) < low:
                        bad(o, 'block %d went back from version >=%d to <=%d' % (
                            b, low, max(cand)))
                seen.setdefault(b, []).append((o.end, min(cand)))
            if tally is not None:
                tally.add('reads_judged')
                if hi > lo:
                    tally.add('reads_overlapping_writes')
            pos += n
    if final is not None and final != imgs[-1]:
        i = next((i for i in range(min(len(final), len(imgs[-1]))) if final[i] != imgs[-1][i]),
                 min(len(final), len(imgs[-1])))
        raise Violation('final-content', 'final content differs at %d: size %d, expected %d' % (
            i, len(final), len(imgs[-1])), '\n'.join(_show(m) for m in muts[-10:]))
    return len(muts)


def _show(m):
    return '%d..%d %s%r' % (m.start, m.end, m.name, m.args if m.name == 'trunc' else (
        m.args[0], len(m.args[1]), m.args[1][:8]))


# --------------------------------------------------------------------------------------------
# general: Wing & Gong with memoization


def linearize(ops, state, apply, *, final=None, limit=200000):
    '''*apply*(state, op) -> new state if op.res is a possible result in *state*, else None.
    States must be hashable. Returns the number of explored nodes; raises Violation.'''
    ops = sorted(ops, key=lambda o: o.start)
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    nodes = 0
    best = 0
    stack = [(0, state)]
    best_mask = 0
    while stack:
        mask, st = stack.pop()
        if (mask, st) in seen:
            continue
        seen.add((mask, st))
        nodes += 1
        if nodes > limit:
            raise Inconclusive('linearization search too large')
        if mask == full:
            if final is None or final(st):
                return nodes
            continue
        c = bin(mask).count('1')
        if c > best:
            best, best_mask = c, mask
        # earliest end among the remaining ones
        minend = min(o.end for i, o in enumerate(ops) if not mask >> i & 1)
        for i, o in enumerate(ops):
            if mask >> i & 1:
                continue
            if o.start > minend:
                break
            st2 = apply(st, o)
            if st2 is not None:
                stack.append((mask | 1 << i, st2))
    raise Violation('not-linearizable', 'no order of the %d calls explains their results (longest '
                    'explained prefix: %d calls)' % (n, best), 'unexplained:\n' + '\n'.join(
                        repr(o) for i, o in enumerate(ops) if not best_mask >> i & 1)
                    + '\nall:\n' + '\n'.join(map(repr, ops)))
