'''Worlds: one backend directory plus any number of machines (cache directories), driven through
the real command line entry points.  Every command runs in its own forked process.'''
from __future__ import annotations

import errno
import json
import logging
import os
import pickle
import random
import shutil
import signal
import stat
import sys
import time
import traceback

from .core import HarnessError, Inconclusive, Violation, describe_exc

CRASH_CODE = 77
PASSPHRASE = 'correct horse'


def preimport():
    '''Import the code under test (in the parent, so that forked children share it).'''
    import apsw  # noqa: F401
    import pyfuse3  # noqa: F401
    import trio  # noqa: F401
    import trio.testing  # noqa: F401

    import s3ql.adm  # noqa: F401
    import s3ql.fsck  # noqa: F401
    import s3ql.mkfs  # noqa: F401
    import s3ql.mount  # noqa: F401
    import s3ql.verify  # noqa: F401


class Result:
    '''Outcome of one command.

    status: 'exit' (code in .code), 'exc' (uncaught exception, text in .tb), 'crash' (planned
    death), 'died' (signal/unplanned), 'timeout', 'violation', 'harness'.
    '''

    def __init__(self, status, **kw):
        self.status = status
        self.code = kw.get('code')
        self.tb = kw.get('tb')
        self.value = kw.get('value')
        self.log = kw.get('log', '')
        self.exc_type = kw.get('exc_type')

    @property
    def ok(self):
        return self.status == 'exit' and not self.code

    def __repr__(self):
        return '<Result %s code=%s exc=%s>' % (self.status, self.code, self.exc_type)

    def describe(self):
        return '%r\n%s\n%s' % (self, self.tb or '', (self.log or '')[-1500:])


# --------------------------------------------------------------------------------------------
# crash points and event log


class Points:
    '''Counts the crash points passed in this process and dies at the chosen one.

    *kinds*: which kinds of points count. *at*: die at the at-th counted point (0 = never).
    The total is written to *path* so that the parent knows how many points there were.
    '''

    def __init__(self, path, kinds=('backend', 'sql', 'file'), at=0, prefix=None):
        self.path = path
        self.kinds = kinds
        self.at = at
        self.n = 0
        self.prefix = prefix
        self.armed = True
        self.by_kind = {}
        self.trace = None

    def hit(self, kind, what=''):
        if not self.armed or kind not in self.kinds:
            return
        self.n += 1
        self.by_kind[kind] = self.by_kind.get(kind, 0) + 1
        if self.trace is not None:
            self.trace.append((kind, what))
        if self.at and self.n == self.at:
            try:
                fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.write(fd, json.dumps([self.n, kind, str(what)[:200]]).encode())
                os.close(fd)
            finally:
                os._exit(CRASH_CODE)

    def install(self):
        if 'sql' in self.kinds:
            import apsw

            def hook(conn):
                def tracer(cursor, sql, bindings):
                    s = sql.lstrip()[:7].upper()
                    if not s.startswith('SELECT') and not s.startswith('PRAGMA'):
                        self.hit('sql', sql[:60])
                    return True

                conn.exec_trace = tracer

            apsw.connection_hooks.append(hook)
        if 'file' in self.kinds:
            root = os.path.realpath(self.prefix)

            def audit(event, args):
                if event == 'open':
                    p = args[0]
                    flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
                    if not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                        return
                elif event in ('os.rename', 'os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate',
                               'shutil.rmtree', 'os.link'):
                    p = args[0]
                else:
                    return
                if isinstance(p, bytes):
                    p = os.fsdecode(p)
                if isinstance(p, str) and p.startswith(root):
                    self.hit('file', event + ' ' + p[len(root):])

            sys.addaudithook(audit)


class EventLog:
    '''Append-only log that survives the death of the process.'''

    def __init__(self, path):
        self.path = path
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)

    def put(self, *rec):
        os.write(self.fd, (repr(rec) + '\n').encode())

    @staticmethod
    def read(path):
        import ast
        if not os.path.exists(path):
            return []
        return [ast.literal_eval(x) for x in open(path)]


# --------------------------------------------------------------------------------------------
# instrumented local backend


class BackendCtl:
    '''Observes and disturbs every backend request. Override or set the callbacks.'''

    def __init__(self):
        self.log = None          # list of (seq, op, key, phase, info)
        self.seq = 0
        self.delay = None        # callable(op, key, phase) -> seconds (virtual) or 0
        self.fault = None        # callable(op, key) -> exception or None
        self.points = None
        self.after_cb = None     # callable(op, key, result)
        self.before_cb = None
        self.inflight = 0
        self.max_inflight = 0
        self.counts = {}

    async def before(self, op, key):
        import trio
        self.counts[op] = self.counts.get(op, 0) + 1
        self.seq += 1
        if self.log is not None:
            self.log.append((self.seq, 'begin', op, key))
        if self.before_cb is not None:
            self.before_cb(op, key)
        if self.points is not None:
            self.points.hit('backend', 'before %s %s' % (op, key))
        if self.fault is not None:
            exc = self.fault(op, key)
            if exc is not None:
                raise exc
        self.inflight += 1
        self.max_inflight = max(self.max_inflight, self.inflight)
        if self.delay is not None:
            d = self.delay(op, key, 'before')
            if d is not None and d >= 0:
                await trio.sleep(d)

    async def after(self, op, key, res=None):
        import trio
        self.inflight -= 1
        if self.points is not None:
            self.points.hit('backend', 'after %s %s' % (op, key))
        if self.delay is not None:
            d = self.delay(op, key, 'after')
            if d is not None and d >= 0:
                await trio.sleep(d)
        self.seq += 1
        if self.log is not None:
            self.log.append((self.seq, 'end', op, key))
        if self.after_cb is not None:
            self.after_cb(op, key, res)


def install_backend(ctl):
    '''Replace the local backend by an instrumented subclass of it (in this process only).'''
    import s3ql.backends
    from s3ql.backends import local

    base = local.AsyncBackend
    if WATCHDOG is not None:
        WATCHDOG.sources.append(lambda: ctl.seq)

    class InstrBackend(base):
        async def lookup(self, key):
            await ctl.before('lookup', key)
            try:
                return await super().lookup(key)
            finally:
                await ctl.after('lookup', key)

        async def get_size(self, key):
            await ctl.before('get_size', key)
            try:
                return await super().get_size(key)
            finally:
                await ctl.after('get_size', key)

        async def contains(self, key):
            await ctl.before('contains', key)
            try:
                return await super().contains(key)
            finally:
                await ctl.after('contains', key)

        async def readinto_fh(self, key, ofh):
            await ctl.before('read', key)
            try:
                return await super().readinto_fh(key, ofh)
            finally:
                await ctl.after('read', key)

        async def write_fh(self, key, fh, metadata=None):
            await ctl.before('write', key)
            try:
                return await super().write_fh(key, fh, metadata)
            finally:
                await ctl.after('write', key)

        async def delete(self, key):
            await ctl.before('delete', key)
            try:
                return await super().delete(key)
            finally:
                await ctl.after('delete', key)

        async def list(self, prefix=''):
            await ctl.before('list', prefix)
            async for x in super().list(prefix):
                yield x
            await ctl.after('list', prefix)

    s3ql.backends.async_prefix_map['local'] = InstrBackend
    return InstrBackend


# --------------------------------------------------------------------------------------------


def fork_call(fn, *, timeout, logpath):
    '''Run fn() in a forked process with output going to *logpath*; return a Result.'''
    out = logpath + '.res'
    for p in (out,):
        if os.path.exists(p):
            os.unlink(p)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            fd = os.open(logpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w', buffering=1, closefd=False)
            sys.stderr = os.fdopen(2, 'w', buffering=1, closefd=False)
            logging.getLogger().handlers.clear()
            try:
                res = fn()
            except Violation as exc:
                res = Result('violation', value=(exc.kind, exc.msg, exc.detail))
            except BaseException as exc:  # noqa: BLE001
                res = Result('harness', tb=describe_exc(exc))
            sys.stdout.flush()
            sys.stderr.flush()
            with open(out + '.new', 'wb') as fh:
                pickle.dump(res, fh)
            os.rename(out + '.new', out)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            os._exit(98)
        os._exit(0)
    deadline = time.time() + timeout
    pause = 0.001
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > deadline:
            try:
                os.killpg(pid, signal.SIGABRT if False else signal.SIGKILL)
            except ProcessLookupError:
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return Result('timeout', log=_tail(logpath))
        time.sleep(pause)
        pause = min(pause * 1.3, 0.01)
    log = _tail(logpath)
    if os.path.exists(out):
        with open(out, 'rb') as fh:
            res = pickle.load(fh)
        os.unlink(out)
        res.log = log
        return res
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == CRASH_CODE:
        return Result('crash', log=log)
    return Result('died', code=status, log=log)


def call(fn, *, timeout, logpath):
    """Run fn() in a forked process. Result with .value, or status 'exc' if it raised."""
    def child():
        try:
            return Result('exit', value=fn())
        except (Violation, HarnessError, Inconclusive):
            raise
        except BaseException as exc:  # noqa: BLE001
            while isinstance(exc, BaseExceptionGroup) and len(exc.exceptions) == 1:
                exc = exc.exceptions[0]
            if isinstance(exc, (Violation, HarnessError, Inconclusive)):
                raise exc from None
            return Result('exc', exc_type=type(exc).__name__, tb=describe_exc(exc))

    return fork_call(child, timeout=timeout, logpath=logpath)


def _tail(path, n=20000):
    try:
        with open(path, 'rb') as fh:
            fh.seek(0, 2)
            size = fh.tell()
            fh.seek(max(0, size - n))
            return fh.read().decode('utf-8', 'replace')
    except FileNotFoundError:
        return ''


def exc_leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from exc_leaves(e)
    else:
        yield exc


def run_main(main, args):
    '''Call an s3ql entry point like a process would; return a Result (without .value).'''
    from s3ql.logging import QuietError
    try:
        main(list(args))
    except SystemExit as exc:
        c = exc.code
        if c is None:
            c = 0
        elif not isinstance(c, int):
            print(c)
            c = 1
        return Result('exit', code=c)
    except QuietError as exc:
        print('QuietError:', exc.msg)
        return Result('exit', code=exc.exitcode or 1)
    except BaseException as exc:  # noqa: BLE001
        leaves = list(exc_leaves(exc))
        for e in leaves:
            if isinstance(e, (Violation, HarnessError, Inconclusive)):
                raise e
        q = [e for e in leaves if isinstance(e, QuietError)]
        if q and len(q) == len(leaves):
            print('QuietError:', q[0].msg)
            return Result('exit', code=q[0].exitcode or 1)
        return Result('exc', tb=describe_exc(exc), exc_type=type(leaves[0]).__name__)
    return Result('exit', code=0)


def feed_stdin(text):
    r, w = os.pipe()
    os.write(w, text.encode())
    os.close(w)
    os.dup2(r, 0)
    os.close(r)
    sys.stdin = os.fdopen(0, 'r', closefd=False)


class World:
    '''A backend directory, an authfile and machines.'''

    def __init__(self, root, *, plain=False, block_kib=1, meta_kib=4, compress=None,
                 passphrase=PASSPHRASE, max_connections=None):
        self.root = root
        self.plain = plain
        self.block_kib = block_kib
        self.meta_kib = meta_kib
        self.compress = compress
        self.passphrase = passphrase
        self.max_connections = max_connections
        self.backend_dir = os.path.join(root, 'backend')
        os.makedirs(self.backend_dir)
        self.mnt = os.path.join(root, 'mnt')
        os.makedirs(self.mnt)
        self.url = 'local://' + self.backend_dir + '/'
        self.authfile = os.path.join(root, 'authinfo')
        self.write_auth(passphrase)
        self.nlog = 0
        self.timeout = 200

    def write_auth(self, passphrase):
        with open(self.authfile, 'w') as fh:
            fh.write('[x]\nstorage-url: local://\n')
            if passphrase is not None:
                fh.write('fs-passphrase: %s\n' % passphrase)
        os.chmod(self.authfile, 0o600)

    def cachedir(self, machine='m0'):
        return os.path.join(self.root, 'cache-' + machine)

    def cachepath(self, machine='m0'):
        from s3ql.parse_args import escape
        return os.path.join(self.cachedir(machine), escape(self.url))

    def _log(self, name):
        self.nlog += 1
        return os.path.join(self.root, 'log-%03d-%s' % (self.nlog, name))

    def common(self, machine):
        a = ['--authfile', self.authfile, '--cachedir', self.cachedir(machine)]
        if self.max_connections:
            a += ['--max-connections', str(self.max_connections)]
        return a

    def cli(self, name, args, *, machine='m0', stdin='', setup=None, timeout=None, collect=None):
        '''Run a command. *setup*() is called in the child first; *collect*() after (its result
        becomes .value).'''
        def child():
            preimport()
            feed_stdin(stdin)
            if setup is not None:
                setup()
            import s3ql.adm
            import s3ql.fsck
            import s3ql.mkfs
            import s3ql.verify
            main = dict(mkfs=s3ql.mkfs.main, fsck=s3ql.fsck.main, adm=s3ql.adm.main,
                        verify=s3ql.verify.main)[name]
            res = run_main(main, args)
            if name == 'verify':
                # closes its files when the interpreter exits
                import atexit
                atexit._run_exitfuncs()
            if collect is not None:
                res.value = collect()
            return res

        return fork_call(child, timeout=timeout or self.timeout, logpath=self._log(name))

    def mkfs(self, *, machine='m0', extra=(), **kw):
        args = self.common(machine) + ['--data-block-size', str(self.block_kib),
                                       '--metadata-block-size', str(self.meta_kib)]
        if self.plain:
            args.append('--plain')
        return self.cli('mkfs', args + list(extra) + [self.url], machine=machine,
                        stdin=(self.passphrase or '') + '\n', **kw)

    def must_mkfs(self, **kw):
        r = self.mkfs(**kw)
        if not r.ok:
            raise Violation('mkfs-failed', 'mkfs failed: %s' % r, r.describe())
        return r

    def fsck(self, *extra, machine='m0', stdin='', **kw):
        args = self.common(machine) + ['--log', 'none'] + list(extra)
        if '--batch' not in args and not stdin:
            args.append('--batch')
        return self.cli('fsck', args + [self.url], machine=machine, stdin=stdin, **kw)

    def adm(self, *args, machine='m0', stdin='', **kw):
        return self.cli('adm', self.common(machine) + list(args),
                        machine=machine, stdin=stdin, **kw)

    def verify(self, *extra, machine='m0', **kw):
        # .missing and .corrupted below the root hold the lists it writes
        args = self.common(machine) + ['--missing-file', self.root + '/missing',
                                       '--corrupted-file', self.root + '/corrupted']
        return self.cli('verify', args + list(extra) + [self.url], machine=machine, **kw)

    def mount(self, workload, *, machine='m0', cachesize=None, max_entries=None, keep_cache=False,
              upload_delay=None, backup_interval=0, setup=None, timeout=None, clock_rate=None,
              sched_seed=None, extra=(), wl_timeout=None, inode_cache_size=None):
        '''Run a mount session with *workload*(session) as its life between mount and unmount.

        .value of the result: the workload's return value. status 'exit' code 0: clean unmount.
        '''
        args = self.common(machine) + ['--fg', '--log', 'none']
        if cachesize is not None:
            args += ['--cachesize', str(cachesize)]
        if max_entries is not None:
            args += ['--max-cache-entries', str(max_entries)]
        if keep_cache:
            args.append('--keep-cache')
        if upload_delay is not None:
            args += ['--dirty-block-upload-delay', str(upload_delay)]
        if self.compress:
            args += ['--compress', self.compress]
        args += ['--metadata-backup-interval', str(backup_interval)]
        args += list(extra) + [self.url, self.mnt]

        def child():
            preimport()
            feed_stdin('')
            global WATCHDOG
            WATCHDOG = Watchdog(log + '.res')
            WATCHDOG.start()
            if setup is not None:
                setup()
            return mount_here(args, workload, clock_rate=clock_rate, sched_seed=sched_seed,
                              wl_timeout=wl_timeout, inode_cache_size=inode_cache_size,
                              world=self, machine=machine)

        log = self._log('mount')
        return fork_call(child, timeout=timeout or self.timeout, logpath=log)

    def copy(self, dest):
        '''Clone the complete world (all machines) to *dest*. The storage URL changes, so cached
        files are renamed accordingly.'''
        import copy as _copy
        w = _copy.copy(self)
        w.root = dest
        shutil.copytree(self.root, dest, symlinks=True)
        w.backend_dir = os.path.join(dest, 'backend')
        w.mnt = os.path.join(dest, 'mnt')
        w.url = 'local://' + w.backend_dir + '/'
        w.authfile = os.path.join(dest, 'authinfo')
        from s3ql.parse_args import escape
        old, new = escape(self.url), escape(w.url)
        for d in os.listdir(dest):
            if d.startswith('cache-'):
                for name in os.listdir(os.path.join(dest, d)):
                    if name.startswith(old):
                        os.rename(os.path.join(dest, d, name),
                                  os.path.join(dest, d, new + name[len(old):]))
        return w


STUCK_AFTER = 60


class Watchdog:
    '''Ends this process with a violation if neither a request nor a backend operation completes
    for a minute of real time.'''

    def __init__(self, out):
        self.out = out
        self.stamp = time.monotonic()
        self.mark = None
        self.sources = []
        self.disabled = False

    def kick(self):
        self.stamp = time.monotonic()

    def start(self):
        import threading
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        import faulthandler
        while True:
            time.sleep(1)
            mark = tuple(f() for f in self.sources)
            if mark != self.mark or self.disabled:
                self.mark = mark
                self.kick()
            elif time.monotonic() - self.stamp > STUCK_AFTER:
                break
        faulthandler.dump_traceback()
        self.tasks()
        pend = ''
        try:
            pend = self.describe()
        except Exception:  # noqa: BLE001
            pass
        res = Result('violation', value=(
            'stuck', 'nothing completes any more although the backend answers%s' % pend, None))
        with open(self.out + '.new', 'wb') as fh:
            pickle.dump(res, fh)
        os.rename(self.out + '.new', self.out)
        os._exit(0)

    def tasks(self):
        from .core import dump_tasks
        dump_tasks(sys.stderr)
        sys.stderr.flush()

    def describe(self):
        return ''


WATCHDOG = None


class Session:
    '''What the workload gets.'''

    def __init__(self):
        self.ops = None
        self.invalidated = []
        self.terminated = False
        self.world = None
        self.machine = None


def mount_here(args, workload, *, clock_rate=None, sched_seed=None, wl_timeout=None,
               inode_cache_size=None, world=None, machine='m0'):
    '''Run mount.s3ql in this process with the FUSE layer replaced by *workload*.'''
    import pyfuse3
    import trio
    import trio.testing

    import s3ql.mount
    ses = Session()
    ses.world = world
    ses.machine = machine
    box = {}

    def init(ops, mnt, opts):
        ses.ops = ops
        ses.fuse_opts = set(opts)
        ops.init()

    async def fuse_main(*a, **k):
        pyfuse3.trio_token = trio.lowlevel.current_trio_token()
        with trio.CancelScope() as cs:
            ses.cancel_scope = cs
            if ses.terminated:
                cs.cancel()
            if wl_timeout:
                cs.deadline = trio.current_time() + wl_timeout
            try:
                box['value'] = await workload(ses)
                box['done'] = True
            except (Violation, HarnessError, Inconclusive) as exc:
                box['raised'] = exc
                raise
        if 'done' not in box:
            box['cancelled'] = True

    def terminate():
        ses.terminated = True
        if getattr(ses, 'cancel_scope', None) is not None:
            ses.cancel_scope.cancel()

    def close(unmount=True):
        ses.closed = unmount

    import collections

    def readdir_reply(token, name, attr, next_id):
        return token.reply(name, attr, next_id)

    pyfuse3.init = init
    pyfuse3.main = fuse_main
    pyfuse3.terminate = terminate
    pyfuse3.close = close
    pyfuse3.readdir_reply = readdir_reply
    pyfuse3.invalidate_inode = lambda inode, attr_only=False: ses.invalidated.append(
        ('inode', inode))
    pyfuse3.invalidate_entry_async = (
        lambda inode_p, name, deleted=0, ignore_enoent=False: ses.invalidated.append(
            ('entry', inode_p, name)))
    pyfuse3.invalidate_entry = lambda inode_p, name, deleted=0: ses.invalidated.append(
        ('entry', inode_p, name))
    try:
        pyfuse3.trio_token = None
    except Exception:  # noqa: BLE001
        pass
    if clock_rate or sched_seed is not None:
        orig = trio.run

        def run(fn, *a, **k):
            if clock_rate:
                k['clock'] = trio.testing.MockClock(rate=clock_rate)
            return orig(fn, *a, **k)

        trio.run = run
        if sched_seed is not None:
            try:
                trio._core._run._r = random.Random(sched_seed)
            except AttributeError:
                pass
    if inode_cache_size:
        import s3ql.inode_cache
        if hasattr(s3ql.inode_cache, 'CACHE_SIZE'):
            s3ql.inode_cache.CACHE_SIZE = inode_cache_size
    try:
        res = run_main(s3ql.mount.main, args)
    except (Violation, HarnessError, Inconclusive) as exc:
        if isinstance(exc, Violation):
            return Result('violation', value=(exc.kind, exc.msg, exc.detail))
        raise
    if 'raised' in box:
        exc = box['raised']
        if isinstance(exc, Violation):
            return Result('violation', value=(exc.kind, exc.msg, exc.detail))
        raise exc
    res.value = box.get('value')
    if box.get('cancelled') and res.status == 'exit' and not res.code:
        res.status = 'cancelled'
    return res


def check_result(res, what='mount'):
    '''Raise if a mount session that should end cleanly did not.'''
    if res.ok:
        return res.value
    raise_for(res, what)


def raise_for(res, what):
    if res.status == 'violation':
        raise Violation(*res.value)
    if res.status == 'harness':
        raise HarnessError(res.tb)
    if res.status == 'timeout':
        raise Inconclusive('%s: session timed out' % what)
    if res.status == 'exc':
        raise Violation('%s-exception:%s' % (what, res.exc_type),
                        '%s terminated with an exception: %s' % (what, res.tb.strip().splitlines()[-1]),
                        res.describe())
    raise Violation('%s-failed:%s:%s' % (what, res.status, res.code),
                    '%s did not succeed: %r' % (what, res), res.describe())
