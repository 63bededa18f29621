'''Helpers for checks of tree operations (copy, lock, recursive removal).'''
import stat


def small_batches(n):
    '''Let tree operations yield after every n entries (the real limit adapts to the time).'''
    import s3ql.database as D
    B = getattr(D, 'BatchedTransactionManager', None)
    if n is None or B is None:
        return

    class Small(B):
        @property
        def batch_size(self):
            return min(self.__dict__.get('_bs', 100), n)

        @batch_size.setter
        def batch_size(self, v):
            self.__dict__['_bs'] = v

    D.BatchedTransactionManager = Small


async def build(k, rng, t, path, bs, depth=0):
    '''Make a random tree below directory *path* (which exists).'''
    files = []
    for i in range(rng.randrange(1, 6)):
        p = path + (b'%c%d' % (97 + i, depth),)
        r = rng.random()
        if r < 0.5:
            h, _ = await k.create(p, rng.choice([0o644, 0o600, 0o4711]))
            for _ in range(rng.randrange(4)):
                off = rng.choice([0, bs - 1, bs, 2 * bs, 3 * bs + 7])
                await k.write(h, off, rng.choice([b'A' * bs, rng.randbytes(rng.randrange(1, 2 * bs))]))
            await k.release(h)
            files.append(p)
        elif r < 0.6:
            await k.symlink(p, rng.choice([b'x', b'a' * 900]))
        elif r < 0.7:
            await k.mknod(p, rng.choice([stat.S_IFCHR, stat.S_IFBLK]) | 0o600, 259 + i)
        elif r < 0.8 and files:
            await k.link(rng.choice(files), p)
        else:
            await k.mkdir(p, rng.choice([0o755, 0o2770]))
            if depth < 3:
                files += await build(k, rng, t, p, bs, depth + 1)
        if rng.random() < 0.4:
            await k.setxattr(p, rng.choice([b'user.a', b'user.b']), rng.randbytes(9))
    if rng.random() < 0.5:
        await k.setxattr(path, b'user.dir', b'on the directory')
    return files
