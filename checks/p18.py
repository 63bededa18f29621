'''P18: the HTTP client delivers each response to its request, complete or not at all.'''
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
import io
import os
import re

import trio

from lib import core, httpsrv
from lib.core import Tally, Violation, rng_for

LEVEL = 'fault_injection'
RULE = ('A case runs some dozen requests of several tasks through connections or a pool (plain, TLS, '
        'through a proxy, TLS through a proxy) against a server on raw sockets that sends random '
        'responses (framing, packet borders, interim responses, early and late answers, malformed, '
        'oversized, cut short by close or reset or silence, followed by data nobody asked for). '
        'Every response carries marks of its request; the server records what it received; result '
        'or exception, the time taken, and what happens on the connection afterwards are judged. '
        'distinct: (transport, framing, fate, request kind, outcome).')

STALL = 0.4


def gen(rng, tier):
    while True:
        yield dict(seed=rng.randrange(2**40), mode=rng.choice(['conn', 'pool', 'pool']),
                   transport=rng.choice(['plain', 'plain', 'tls', 'proxy', 'proxytls']),
                   profile=rng.choice(['good', 'good', 'faulty', 'faulty', 'hostile', 'stray']),
                   tasks=rng.choice([1, 2, 4]), n=rng.choice([10, 20]))


MALFORMED_HEADS = [
    b'garbage\r\n\r\n', b'HTTP/1.1 abc OK\r\n\r\n', b'HTTP/1.1 20 OK\r\n\r\n', b'HTTP/1.1\r\n\r\n',
    b'ICY 200 OK\r\n\r\n', b'HTTP/x.y 200 OK\r\n\r\n', b'\x16\x03\x01\x00\x05hello\r\n\r\n',
    b'<html>not http</html>\r\n\r\n',
    b'HTTP/1.1 200 OK\r\nno colon here\r\nContent-Length: 3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nbad name : x\r\nContent-Length: 3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\n: x\r\nContent-Length: 3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nX: a\x00b\r\nContent-Length: 3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: 3x\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: 1, 3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: +3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: 3 3\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nContent-Length: ' + b'9' * 50 + b'\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip\r\n\r\nabc',
    b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked, chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n',
    b'HTTP/1.1 200 OK\r\nX: ' + b'y' * 300000 + b'\r\nContent-Length: 3\r\n\r\nabc',
    b'HTTP/1.1 200 ' + b'O' * 300000,
    b'HTTP/1.1 200 OK\r\n' + b'X-A: b\r\n' * 50000,
    b'\r\n' * 5 + b'x' * 200000,
]
BAD_CHUNKS = [b'zz\r\nabc\r\n', b'-3\r\nabc\r\n', b'\r\nabc\r\n', b'0x3\r\nabc\r\n', b'3 3\r\nabc\r\n',
              b'f' * 30 + b'\r\nabc', b'3\r\nabcdef\r\n', b'3\r\nabcX\r\n', b'3;' + b'e' * 200000,
              b'+3\r\nabc\r\n', b'3_0\r\nabc\r\n', b'0\r\nbad trailer\r\n\r\n',
              b'0\r\n' + b'T: x\r\n' * 50000]


class Plan:
    '''What one exchange is going to be.'''


def body_for(rng, pid, n):
    tag = b'<%d:' % pid
    return (tag * (n // len(tag) + 1))[:n]


def make_plan(rng, pid, c, path):
    p = Plan()
    p.id = pid
    profile = c['profile']
    p.method = rng.choice(['GET', 'GET', 'GET', 'PUT', 'PUT', 'POST', 'HEAD', 'DELETE'])
    p.body = []
    p.expect = None
    p.sent = b''
    if p.method in ('PUT', 'POST'):
        parts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([0, 1, 10, 5000, 70000, 300000])
            kind = rng.choice(['bytes', 'bio', 'file'])
            parts.append((kind, body_for(rng, pid * 7 + 1, n)))
        if rng.random() < 0.1:
            parts = []
        p.parts = parts
        p.sent = b''.join(x[1] for x in parts)
        p.expect = rng.choice([None, None, True, False]) if parts else None
        p.uses100 = bool(parts) and (p.expect or (
            p.expect is None and any(k != 'bytes' for k, _ in parts)))
    else:
        p.parts, p.uses100 = [], False
    # -- the response --
    p.status = rng.choice([200, 200, 200, 201, 206, 204, 304, 400, 404, 500, 503])
    n = rng.choice([0, 1, 2, 17, 1000, 1000, 30000, 65536, 65537, 200000])
    body = body_for(rng, pid, n)
    p.framing = rng.choice(['length', 'length', 'chunked', 'chunked', 'close', 'close10', 'length10'])
    nobody = p.method == 'HEAD' or p.status in (204, 304)
    headers = [b'X-Id: %d' % pid]
    if rng.random() < 0.3:
        headers += [b'Date: Mon, 1 Jan 2024 00:00:00 GMT', b'date:  Tue, 2 Jan 2024 00:00:00 GMT ']
    if rng.random() < 0.2:
        headers.append(b'X-Latin: \xe4\xf6')
    if rng.random() < 0.1:
        headers.append(b'X-Long: ' + b'v' * 7000)
    p.announced_close = False
    p.length = None
    v = b'1.1'
    wire = body
    if p.framing in ('length', 'length10'):
        if not (nobody and (p.status == 204 or rng.random() < 0.5)):
            headers.append(rng.choice([b'Content-Length: %d', b'content-length:%d', b'CONTENT-LENGTH:\t%d '])
                           % len(body))
        elif not nobody:
            headers.append(b'Content-Length: %d' % len(body))
        p.length = len(body)
        if rng.random() < 0.05 and not nobody:
            headers.append(b'Content-Length: %d' % len(body))
    elif p.framing == 'chunked':
        if p.status != 204:
            headers.append(rng.choice([b'Transfer-Encoding: chunked', b'transfer-encoding: Chunked']))
        out, pos = [], 0
        while pos < len(body):
            k = rng.choice([1, 2, 100, 5000, 70000])
            if len(body) > 3000:
                k = max(k, len(body) // 20)
            ch = body[pos:pos + k]
            pos += k
            size = rng.choice([b'%x', b'%X', b'0%x'] + ([b'000%x'] if rng.random() < 0.2 else [])) % len(ch)
            ext = rng.choice([b'', b'', b';a=b', b' '])
            out += [size, ext, b'\r\n', ch, b'\r\n']
        out += [rng.choice([b'0', b'0', b'000', b'0;x=y']), b'\r\n',
                rng.choice([b'', b'', b'X-Trailer: 1\r\n']), b'\r\n']
        wire = b''.join(out)
        if rng.random() < 0.05 and not nobody:
            # both: the chunked coding counts
            headers.insert(0, b'Content-Length: %d' % rng.choice([0, 5, 10**6]))
            p.length, p.both = None, True
    if p.framing in ('close', 'close10'):
        p.announced_close = True
    if p.framing in ('close10', 'length10'):
        v, p.announced_close = b'1.0', True
    elif p.announced_close or rng.random() < 0.1:
        if p.framing != 'close' or rng.random() < 0.7:
            headers.append(rng.choice([b'Connection: close', b'connection: Close']))
        p.announced_close = True
    if nobody:
        body = wire = b''
        p.length = 0
    p.respbody = body
    rng.shuffle(headers)
    reason = rng.choice([b' OK', b' Some Reason', b' ', b''])
    head = b'HTTP/%s %d%s\r\n%s\r\n\r\n' % (v, p.status, reason, b'\r\n'.join(headers))
    interim = b''
    for _ in range(rng.choice([0, 0, 0, 0, 1, 2])):
        interim += rng.choice([b'HTTP/1.1 102 Processing\r\n\r\n',
                               b'HTTP/1.1 103 Early Hints\r\nLink: </x>; rel=preload\r\n\r\n',
                               b'HTTP/1.1 100 Continue\r\n\r\n'])
    p.interim100 = b' 100 ' in interim
    p.headlen = len(interim) + len(head)
    p.wire = interim + head + wire
    # -- what the server does with the request --
    p.on100 = 'continue' if p.uses100 else None
    p.readall = True
    p.want = 'exact'
    p.fate = 'complete'
    p.stray = None
    p.hidden_close = False
    p.may_close = False
    if p.uses100:
        if p.interim100:
            # here it means go ahead
            p.wire = p.wire.replace(b'HTTP/1.1 100 Continue\r\n\r\n', b'')
            p.headlen = p.wire.index(b'\r\n\r\n') + 4
            while p.wire[9:12] in (b'102', b'103') and p.headlen < len(p.wire) and \
                    p.wire[:p.headlen].count(b'\r\n\r\n') == 1 and \
                    p.wire[p.headlen:p.headlen + 5] == b'HTTP/':
                p.headlen = p.wire.index(b'\r\n\r\n', p.headlen) + 4
                if p.wire[:p.headlen].rsplit(b'HTTP/1', 1)[1][3:6] not in (b'102', b'103'):
                    break
            p.interim100 = False
        if rng.random() < 0.25:
            p.on100 = 'final'
            p.readall = False
            if rng.random() < 0.3:
                p.may_close = True
    fault = profile in ('faulty', 'hostile') and rng.random() < 0.5
    complete = len(p.wire)
    if fault and profile == 'faulty':
        p.fate = rng.choice(['cut', 'cut', 'rst', 'stall', 'early', 'refuse'])
        cut = rng.choice([0, 1, p.headlen - 1, p.headlen - 2, p.headlen, p.headlen + 1, complete - 1,
                          complete - 2, rng.randrange(complete), rng.randrange(complete)])
        cut = max(0, min(cut, complete - 1))
        closes = p.framing in ('close', 'close10') and not nobody
        if p.fate == 'cut':
            p.wire = p.wire[:cut]
            if closes and cut >= p.headlen:
                p.respbody = p.wire[p.headlen:]
            else:
                p.want = 'closed'
        elif p.fate == 'rst':
            p.wire = p.wire[:cut]
            p.want = 'closed'
        elif p.fate == 'stall':
            p.wire = p.wire[:cut]
            p.want = 'timeout'
        elif p.fate == 'early':
            # answer (and close) in the middle of the body; the reset may overtake the answer
            if len(p.sent) > 100 and p.on100 != 'final' and len(p.wire) < 40000:
                p.readall = rng.randrange(len(p.sent))
                p.want = 'exact-or-closed'
            else:
                p.fate = 'complete'
        else:
            p.wire = b''
            p.want = 'closed'
            p.readall = p.on100 != 'final' and rng.random() < 0.5
    elif fault:
        p.fate = rng.choice(['head', 'chunk'])
        p.hang = rng.random() < 0.3
        if p.fate == 'head':
            p.wire = rng.choice([b'', b'', interim if not p.uses100 else b'']) + \
                rng.choice(MALFORMED_HEADS)
        else:
            p.method = 'GET' if p.method == 'HEAD' else p.method
            good = body_for(rng, pid, 500)
            p.status = 200
            p.wire = (b'HTTP/1.1 200 OK\r\nX-Id: %d\r\nTransfer-Encoding: chunked\r\n\r\n%s' % (
                pid, rng.choice([b'', b'1f4\r\n' + good + b'\r\n'])) + rng.choice(BAD_CHUNKS))
        p.want = 'invalid'
    if profile == 'stray' and p.fate == 'complete' and not p.announced_close and rng.random() < 0.5:
        p.stray = rng.choice(['same', 'later', 'later', 'close'])
        p.straydata = rng.choice([
            b'HTTP/1.1 408 Request Timeout\r\nConnection: close\r\nContent-Length: 7\r\n\r\nforeign',
            b'HTTP/1.1 200 OK\r\nX-Id: -1\r\nContent-Length: 7\r\n\r\nforeign',
            b'HTTP/1.1 200 OK\r\nX-Id: -1\r\nContent-Length: 1000000\r\n\r\nforeign',
            b'HTTP/1.1 200 OK\r\n', b'\r\n', b'x', b'foreign' * 3000])
    nbytes = len(p.wire)
    kind = rng.choice(['one', 'few', 'few', 'lines', 'bytes'])
    if kind == 'one' or not nbytes:
        p.cuts = []
    elif kind == 'few':
        p.cuts = [rng.randrange(nbytes) for _ in range(5)]
    elif kind == 'lines':
        p.cuts = [m.start() + rng.choice([0, 1, 2]) for m in re.finditer(rb'\r\n', p.wire[:3000])]
    else:
        s = rng.choice([0, max(0, p.headlen - 30), max(0, nbytes - 60)])
        p.cuts = list(range(s, min(nbytes, s + 60)))
    p.pause = rng.choice([0, 0, 0.0005])
    p.reader = rng.choice(['read', 'readall', 'bio', 'file', 'discard'])
    p.abandon = rng.random() < 0.08
    p.cancel = rng.random() < 0.06
    p.done = trio.Event()
    p.received = None
    return p


class Bench:
    def __init__(self, c, scratch, t):
        self.c, self.t, self.scratch = c, t, scratch
        self.plans = {}
        self.dirty = False      # a connection was closed or spoiled without notice
        self.next = 0

    # -- server ----------------------------------------------------------

    async def handler(self, conn):
        tr = self.c['transport']
        if tr == 'proxytls':
            req = await conn.read_head()
            if req is None:
                return
            if req.method != 'CONNECT' or req.target != 'localhost:4711':
                raise Violation('wrong-connect', '%s %s' % (req.method, req.target))
            if conn.buf:
                raise Violation('plain-text', 'data sent before the tunnel was there')
            how = self.proxy_fate()
            if how is not None:
                await conn.send_split(how[0], how[1])
                if how[2] == 'stall':
                    await trio.sleep(60)
                return
            rng = rng_for('tun', self.c['seed'], conn.no)
            ok = rng.choice([b'HTTP/1.0 200 Connection established\r\n\r\n',
                             b'HTTP/1.1 200 OK\r\nX: y\r\nY: z\r\n\r\n', b'HTTP/1.1 200\r\n\r\n'])
            await conn.send_split(ok, [rng.randrange(len(ok)) for _ in range(3)])
        if tr in ('tls', 'proxytls'):
            await conn.start_tls(self.srvctx)
        while True:
            req = await conn.read_head()
            if req is None:
                return
            if not await self.exchange(conn, req):
                return

    def proxy_fate(self):
        if self.c['profile'] == 'good' or self.prng.random() < 0.8:
            return None
        x = self.prng.choice([b'HTTP/1.0 403 Forbidden\r\n\r\n', b'HTTP/1.1 502 Bad\r\nA: b\r\n\r\nxyz',
                              b'garbage\r\n\r\n', b'HTTP/1.0 2', b'', b'HTTP/1.0 abc\r\n\r\n',
                              b'H' * 200000, b'HTTP/1.1 200 OK\r\nX: y'])
        self.t.add('bad_tunnels')
        self.tunfail += 1
        return x, [self.prng.randrange(len(x) + 1)], self.prng.choice(['close', 'close', 'stall'])

    async def exchange(self, conn, req):
        target = req.target
        if self.c['transport'] == 'proxy':
            pre = 'http://localhost:4711'
            if not target.startswith(pre):
                raise Violation('wrong-target', 'request to a proxy for %r' % target)
            target = target[len(pre):]
        if not re.match(r'^/x\d+\?q=%20$', target):
            raise Violation('wrong-target', repr(target))
        p = self.plans[int(target[2:-6])]
        if p.received is not None:
            raise Violation('sent-twice', 'request %d arrived twice' % p.id)
        p.received = b''
        try:
            return await self.answer(conn, req, p)
        finally:
            p.done.set()

    async def answer(self, conn, req, p):
        self.t.add('requests')
        want = dict(method=p.method, expects=bool(p.uses100), length=len(p.sent))
        have = dict(method=req.method, expects=req.expects, length=req.length)
        if want != have:
            raise Violation('wrong-request', 'sent %r, received %r' % (want, have), repr(req.head))
        if req.headers.get('x-req') != str(p.id) or 'host' not in req.headers:
            raise Violation('wrong-request', 'headers are missing', repr(req.head))
        if p.on100 == 'continue' and p.readall is not False:
            await conn.send_split(b'HTTP/1.1 100 Continue\r\n\r\n', p.cuts[:2])
        if p.readall is True:
            p.received = await conn.read_body(len(p.sent))
            if p.received != p.sent:
                raise Violation('wrong-request-body', 'request %d: %d bytes expected, %d equal' % (
                    p.id, len(p.sent), len(os.path.commonprefix([p.sent, p.received]))))
        elif p.readall:
            p.received = await conn.read_body(p.readall)
        self.t.add('fate_' + p.fate)
        try:
            await conn.send_split(p.wire, p.cuts, p.pause)
        except httpsrv.Closed:
            p.done.set()
            return False
        if p.fate in ('cut', 'refuse', 'early'):
            p.done.set()
            return False
        if p.fate == 'rst':
            await trio.sleep(0)
            conn.rst()
            p.done.set()
            return False
        if p.fate == 'stall' or (p.want == 'invalid' and p.hang):
            p.done.set()
            await trio.sleep(30)
            return False
        if p.want == 'invalid':
            p.done.set()
            return False
        if p.stray:
            self.dirty = True
            if p.stray == 'later':
                await trio.sleep(0.005)
            if p.stray == 'close':
                p.done.set()
                return False
            await conn.send(p.straydata)
            self.t.add('stray_sent')
            p.done.set()
            return True
        p.done.set()
        if p.framing in ('close', 'close10') or p.may_close:
            if p.may_close and not p.announced_close:
                self.dirty = True
            return False
        if p.announced_close:
            # says so, but waits for the client to do it
            return self.rng_srv.random() < 0.5
        return True

    # -- client ----------------------------------------------------------

    def body(self, p):
        res = []
        for i, (kind, data) in enumerate(p.parts):
            if kind == 'bytes':
                res.append(data)
            elif kind == 'bio':
                b = io.BytesIO(data)
                b.seek(len(data) // 2)
                res.append(b)
            else:
                path = '%s/b%d-%d' % (self.scratch, p.id, i)
                with open(path, 'wb') as fh:
                    fh.write(data)
                fh = open(path, 'rb', 0)
                os.unlink(path)
                self.files.append(fh)
                res.append(fh)
        return res

    async def get(self, conn, p):
        '''One exchange. Returns (status, headers, length, body or None).'''
        h = {'X-Req': str(p.id)}
        r = await conn.send_request(p.method, '/x%d?q=%%20' % p.id, headers=h, body=self.body(p),
                                    **({} if p.expect is None else dict(expect100=p.expect)))
        p.gothead = True
        if p.abandon:
            data = await conn.read()
            p.atend = not data
            if p.want != 'invalid' and not p.respbody.startswith(data):
                raise Violation('wrong-body', 'request %d: the first piece is not its body' % p.id)
            return r, None
        if p.reader == 'read':
            parts = []
            while True:
                b = await conn.read()
                if not b:
                    break
                parts.append(bytes(b))
            data = b''.join(parts)
        elif p.reader == 'readall':
            data = await conn.readall()
        elif p.reader == 'bio':
            f = io.BytesIO()
            await conn.readinto_fh(f)
            data = f.getvalue()
        elif p.reader == 'file':
            path = '%s/r%d' % (self.scratch, p.id)
            with open(path, 'w+b', 0) as f:
                os.unlink(path)
                upd = []
                await conn.readinto_fh(f, update=lambda b: upd.append(bytes(b)))
                f.seek(0)
                data = f.read()
            if b''.join(upd) != data:
                raise Violation('wrong-update', 'update was called with other data than written')
        else:
            await conn.discard()
            data = p.respbody
        return r, bytes(data)

    async def attempt(self, conn, p, dirty):
        '''Run exchange *p* and judge it. Returns True if the connection ended cleanly.'''
        from s3ql import http
        import httpcore
        conn.timeout = STALL if p.want == 'timeout' or getattr(p, 'hang', False) or \
            self.c['transport'] == 'proxytls' and self.c['profile'] != 'good' else 40
        out = None
        t0 = trio.current_time()
        tun0 = self.tunfail
        p.gothead = p.atend = False
        limit = 60
        with trio.move_on_after(limit) as hung:
            try:
                if p.cancel:
                    with trio.move_on_after(self.rng.choice([0, 0.0005, 0.002, 0.01])) as cs:
                        out = await self.get(conn, p)
                    if cs.cancelled_caught:
                        self.t.add('cancelled')
                        return False
                else:
                    out = await self.get(conn, p)
            except Violation:
                raise
            except Exception as exc:  # noqa: BLE001
                out = exc
        if hung.cancelled_caught:
            raise Violation('hang', 'request %d (%s %s, fate %s) did not end within %d s' % (
                p.id, p.method, p.framing, p.fate, limit))
        what = 'request %d (%s, %d bytes sent, expect100=%s; answer %s %d, fate %s)' % (
            p.id, p.method, len(p.sent), p.expect, p.framing, p.status, p.fate)
        if isinstance(out, tuple):
            r, data = out
            if p.want in ('closed', 'invalid', 'timeout') and data is not None:
                raise Violation('incomplete-as-complete' if p.want != 'invalid' else 'malformed-accepted',
                                '%s was returned as complete: status %d, %d bytes' % (
                                    what, r.status, len(data)), repr(p.wire[:300]))
            if p.want not in ('invalid',):
                if r.status != p.status or r.headers['X-Id'] != str(p.id):
                    raise Violation('wrong-response', '%s: got status %d, X-Id %r' % (
                        what, r.status, r.headers['X-Id']))
                if r.method != p.method or r.path != '/x%d?q=%%20' % p.id:
                    raise Violation('wrong-response', '%s: labelled %s %s' % (what, r.method, r.path))
                if p.fate == 'complete' and r.length != p.length:
                    raise Violation('wrong-length', '%s: length %r, should be %r' % (
                        what, r.length, p.length))
                if data is not None and data != p.respbody:
                    raise Violation('wrong-body', '%s: %d bytes instead of %d, %d equal' % (
                        what, len(data), len(p.respbody),
                        len(os.path.commonprefix([data, p.respbody]))), repr(p.wire[:400]))
            self.t.add('exact' if data is not None else 'abandoned')
            oc = 'exact' if data is not None else 'abandoned'
            if data is not None and p.want in ('exact', 'exact-or-closed') and p.readall is True and \
                    p.received != p.sent:
                raise Violation('wrong-request-body', what)
        else:
            exc = out
            oc = type(exc).__name__
            self.t.add('raised_' + oc)
            ok = {'exact': (), 'exact-or-closed': (http.ConnectionClosed,),
                  'closed': (http.ConnectionClosed,), 'timeout': (http.ConnectionTimedOut,),
                  'invalid': (http.InvalidResponse, http.ConnectionClosed)}[p.want]
            if dirty:
                # (what was received unasked may be found out as such)
                ok += (http.ConnectionClosed, http.InvalidResponse)
            if getattr(p, 'hang', False):
                ok += (http.ConnectionTimedOut,)
            if p.want == 'closed' and p.fate != 'stall':
                ok += (http.ConnectionClosed,)
            if self.tunfail > tun0:
                ok += (http.ConnectionClosed, http.InvalidResponse, ConnectionError,
                       http.ConnectionTimedOut)
            if self.c['transport'] == 'proxytls' and self.c['profile'] != 'good':
                ok += (http.ConnectionTimedOut,)
            if p.want == 'timeout' and p.uses100 and p.on100 == 'final':
                ok += (http.ConnectionClosed,)
            if not isinstance(exc, ok):
                raise Violation('wrong-exception:%s' % oc, '%s: raised %s: %s' % (what, oc, exc),
                                core.describe_exc(exc))
            if isinstance(exc, (http.ConnectionClosed, http.ConnectionTimedOut)) and \
                    not http.is_temp_network_error(exc):
                raise Violation('not-temporary', oc)
            assert httpcore
            if oc == 'ConnectionTimedOut' and trio.current_time() - t0 > 20:
                raise Violation('slow-timeout', '%s took %.1f s' % (what, trio.current_time() - t0))
        self.t.sig(self.c['transport'], p.framing, p.fate, p.method, oc)
        clean = isinstance(out, tuple) and not p.abandon and not p.announced_close and \
            p.fate == 'complete' and not p.stray and not p.may_close
        if p.stray and isinstance(out, tuple) and (p.atend or not p.abandon):
            await p.done.wait()
        return clean

    def plan(self):
        self.next += 1
        p = make_plan(self.rng, self.next, self.c, self.scratch)
        self.plans[p.id] = p
        return p

    async def conn_task(self, i, n):
        from s3ql import http
        tr = self.c['transport']
        conn = self.connection()
        dirty = False
        for _ in range(n):
            p = self.plan()
            reusable = conn.is_idle
            clean = await self.attempt(conn, p, dirty)
            if p.received is None and not self.rng_srv and not clean:
                pass
            if clean:
                if not conn.is_idle:
                    raise Violation('not-reusable', 'the connection is not idle after request %d '
                                    'has been answered' % p.id)
                if reusable:
                    self.t.add('reused')
                dirty = False
                continue
            if p.abandon and conn._stream is not None and not conn.is_idle and p.gothead:
                q = self.plan()
                try:
                    await conn.send_request(q.method, '/x%d?q=%%20' % q.id)
                except (http.StateError, http.ConnectionClosed):
                    self.t.add('refused_unread')
                else:
                    raise Violation('unread-overwritten', 'a request was accepted although the '
                                    'answer to the last one was not read')
            dirty = bool(p.announced_close or p.stray or p.may_close or p.abandon)
            if not (dirty and conn.is_idle and self.rng.random() < 0.7):
                if self.rng.random() < 0.3:
                    conn.reset()
                else:
                    await conn.aclose()
                dirty = False
                self.t.add('disconnects')
        await conn.aclose()
        assert tr

    async def pool_task(self, i, n, pool):
        for _ in range(n):
            p = self.plan()
            async with pool.get() as conn:
                self.inuse += 1
                if self.inuse > pool.max_connections:
                    raise Violation('too-many-connections', '%d' % self.inuse)
                if id(conn) in self.borrowed:
                    raise Violation('connection-shared', 'one connection was lent twice')
                self.borrowed.add(id(conn))
                reusable = conn.is_idle
                try:
                    clean = await self.attempt(conn, p, self.any_dirty)
                finally:
                    self.borrowed.discard(id(conn))
                    self.inuse -= 1
                if clean and reusable:
                    self.t.add('reused')
                if not clean:
                    self.any_dirty = True

    def connection(self):
        from s3ql.http import HTTPConnection
        tr = self.c['transport']
        kw = {}
        if tr in ('tls', 'proxytls'):
            kw['ssl_context'] = self.clictx
        if tr in ('proxy', 'proxytls'):
            return HTTPConnection('localhost', 4711, proxy=('127.0.0.1', self.port), **kw)
        return HTTPConnection('localhost', self.port, **kw)

    async def main(self):
        from s3ql.http import Pool
        c = self.c
        self.rng = rng_for('p18', c['seed'])
        self.rng_srv = rng_for('p18s', c['seed'])
        self.prng = rng_for('p18p', c['seed'])
        self.tunfail = 0
        self.files = []
        self.inuse, self.borrowed, self.any_dirty = 0, set(), False
        if c['transport'] in ('tls', 'proxytls'):
            self.srvctx, self.clictx = httpsrv.certificate(self.scratch)
        async with trio.open_nursery() as nur:
            srv = await httpsrv.Server(self.handler, nursery=nur).start()
            self.port = srv.port
            fds0 = len(os.listdir('/proc/self/fd'))
            if c['mode'] == 'conn':
                async with trio.open_nursery() as n2:
                    for i in range(c['tasks']):
                        n2.start_soon(self.conn_task, i, c['n'])
            else:
                tr = c['transport']
                kw = {}
                if tr in ('tls', 'proxytls'):
                    kw['ssl_context'] = self.clictx
                port = srv.port
                if tr in ('proxy', 'proxytls'):
                    kw['proxy'] = ('127.0.0.1', srv.port)
                    port = 4711
                async with Pool('localhost', port, max_connections=self.rng.choice([1, 2, 4]),
                                timeout=40, **kw) as pool:
                    async with trio.open_nursery() as n2:
                        for i in range(c['tasks']):
                            n2.start_soon(self.pool_task, i, c['n'], pool)
            for fh in self.files:
                fh.close()
            # every client socket is closed, so is every connection of the server that waits
            with trio.move_on_after(10):
                while len(os.listdir('/proc/self/fd')) > fds0 + srv.open:
                    await trio.sleep(0.005)
            if len(os.listdir('/proc/self/fd')) > fds0 + srv.open:
                raise Violation('socket-leak', '%d descriptors more than at the start' % (
                    len(os.listdir('/proc/self/fd')) - fds0 - srv.open))
            self.t.add('connections', srv.conns)
            nur.cancel_scope.cancel()


def leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from leaves(e)
    else:
        yield exc


def case(c, scratch):
    t = Tally()
    t.sample(c, 1)
    import logging
    logging.disable(logging.CRITICAL)
    with core.Alarm(scratch, 200, "hang", 'the client hangs (stack in the record)'):
        try:
            trio.run(Bench(c, scratch, t).main)
        except BaseExceptionGroup as exc:
            for e in leaves(exc):
                if isinstance(e, Violation):
                    raise e from None
            raise
    t.add('cases_' + c['profile'])
    return t


if __name__ == '__main__':
    core.main('P18', LEVEL, RULE, case, gen, quick_budget=30, thorough_budget=500,
              require=['exact', 'reused', 'fate_cut', 'fate_rst', 'fate_stall', 'fate_early',
                       'fate_head', 'fate_chunk', 'stray_sent', 'refused_unread', 'cancelled',
                       'bad_tunnels', 'raised_InvalidResponse', 'raised_ConnectionClosed'],
              min_cases=20)
