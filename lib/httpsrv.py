'''A small HTTP server on raw sockets (loopback) whose every byte, pause and close is decided by the
check.  Runs in the same trio loop as the code under test.'''
from __future__ import annotations

import datetime
import os
import socket
import ssl
import struct

import trio


class Closed(Exception):
    '''The client is gone.'''


class Request:
    __slots__ = ('method', 'target', 'headers', 'head', 'body', 'version')

    def __init__(self, head):
        self.head = head
        lines = head.decode('latin1').split('\r\n')
        self.method, self.target, self.version = lines[0].split(' ', 2)
        self.headers = {}
        for ln in lines[1:]:
            if ln:
                k, v = ln.split(':', 1)
                self.headers.setdefault(k.strip().lower(), v.strip())
        self.body = None

    @property
    def length(self):
        return int(self.headers.get('content-length', 0))

    @property
    def expects(self):
        return self.headers.get('expect', '').lower() == '100-continue'


class Conn:
    def __init__(self, stream, no):
        self.stream = stream
        self.sock = stream
        self.no = no
        self.buf = bytearray()

    async def start_tls(self, ctx):
        self.stream = trio.SSLStream(self.sock, ctx, server_side=True, https_compatible=True)
        try:
            await self.stream.do_handshake()
        except (trio.BrokenResourceError, trio.ClosedResourceError, OSError, ssl.SSLError):
            raise Closed from None

    async def more(self):
        try:
            data = await self.stream.receive_some(65536)
        except (trio.BrokenResourceError, trio.ClosedResourceError, OSError):
            raise Closed from None
        if not data:
            raise Closed
        self.buf += data

    async def read_head(self):
        '''The next request, without its body. None if the client closes.'''
        while b'\r\n\r\n' not in self.buf:
            try:
                await self.more()
            except Closed:
                return None
        i = self.buf.index(b'\r\n\r\n')
        head = bytes(self.buf[:i])
        del self.buf[:i + 4]
        return Request(head)

    async def read_body(self, n):
        while len(self.buf) < n:
            await self.more()
        res = bytes(self.buf[:n])
        del self.buf[:n]
        return res

    async def send(self, data):
        try:
            await self.stream.send_all(data)
        except (trio.BrokenResourceError, trio.ClosedResourceError, OSError):
            raise Closed from None

    async def send_split(self, data, cuts, pause=0.0):
        '''Send *data* in pieces, cut at the given offsets.'''
        pos = 0
        for c in sorted(set(cuts)) + [len(data)]:
            if c <= pos or c > len(data):
                continue
            await self.send(data[pos:c])
            pos = c
            await trio.sleep(pause)

    def rst(self):
        '''Drop the connection at once, discarding what was not sent yet.'''
        s = self.sock.socket
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        s.close()

    def fin(self):
        '''Close without ceremony (no TLS close_notify).'''
        s = self.sock.socket
        try:
            s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self):
        self.sock.socket.close()


class Server:
    '''Calls handler(conn) for every connection.'''

    def __init__(self, handler, *, nursery):
        self.handler, self.nursery = handler, nursery
        self.conns = 0
        self.open = 0

    async def start(self):
        listeners = await trio.open_tcp_listeners(0, host='127.0.0.1')
        self.port = listeners[0].socket.getsockname()[1]
        self.nursery.start_soon(trio.serve_listeners, self._conn, listeners)
        return self

    async def _conn(self, stream):
        stream.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.conns += 1
        self.open += 1
        c = Conn(stream, self.conns)
        try:
            await self.handler(c)
        except Closed:
            pass
        finally:
            self.open -= 1
            c.close()


def certificate(path, host='localhost', *others):
    '''Make a self-signed certificate in directory *path*: (server context, client context).'''
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    key = ec.generate_private_key(ec.SECP256R1())
    name = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, host)])
    now = datetime.datetime.now(datetime.timezone.utc)
    cert = (x509.CertificateBuilder().subject_name(name).issuer_name(name)
            .public_key(key.public_key()).serial_number(x509.random_serial_number())
            .not_valid_before(now - datetime.timedelta(days=2))
            .not_valid_after(now + datetime.timedelta(days=30))
            .add_extension(x509.SubjectAlternativeName([x509.DNSName(x) for x in (host, *others)]), False)
            .add_extension(x509.BasicConstraints(ca=True, path_length=None), True)
            .sign(key, hashes.SHA256()))
    pem = os.path.join(path, 'cert.pem')
    with open(pem, 'wb') as fh:
        fh.write(cert.public_bytes(serialization.Encoding.PEM))
    with open(pem + '.key', 'wb') as fh:
        fh.write(key.private_bytes(serialization.Encoding.PEM,
                                   serialization.PrivateFormat.PKCS8,
                                   serialization.NoEncryption()))
    srv = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    srv.load_cert_chain(pem, pem + '.key')
    cli = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    cli.load_verify_locations(pem)
    return srv, cli
