'''Storage services for P17: each speaks one remote dialect over lib.httpsrv, keeps its objects in a
dictionary, checks every request it gets against the protocol's own rules (signatures, tokens,
checksums, framing), and is as unreliable as its fault plan says.'''
from __future__ import annotations

import base64
import email.utils
import hashlib
import hmac
import json
import re
import time
import urllib.parse
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

import trio

from . import httpsrv
from .core import Violation
from .httpsrv import Closed


class Obj:
    __slots__ = ('data', 'meta', 'legacy')

    def __init__(self, data, meta, legacy=False):
        self.data, self.meta, self.legacy = data, meta, legacy

    @property
    def etag(self):
        return hashlib.md5(self.data).hexdigest()


class Resp:
    def __init__(self, status, reason='', headers=(), body=b'', ctype=None):
        self.status, self.reason, self.headers, self.body = status, reason or 'X', list(headers), body
        if ctype:
            self.headers.append(('Content-Type', ctype))
        self.length = None      # what a HEAD response announces
        self.final = False      # a permanent refusal (counted if it gets through)
        self.isobject = False


NET_FAULTS = ['accept', 'head', 'midbody', 'noanswer', 'lost', 'cut', 'cut', 'stall', 'stallcut', 'slow',
              'error', 'error', 'error', 'errorafter', 'early', 'idle']


class Service:
    '''faults: probability of a fault per request. plain: the wire may corrupt data.'''

    name = None
    temp_status = [500, 502, 503, 504, 408, 429]
    extra_faults = []

    def __init__(self, rng, tally, *, p, plain, bucket, prefix, login, password, max_row=6):
        self.rng, self.t, self.p, self.plain = rng, tally, p, plain
        self.bucket, self.prefix, self.login, self.password = bucket, prefix, login, password
        self.objs = {}
        self.deny = {}
        self.row = 0
        self.max_row = max_row
        self.requests = 0
        self.refused = {}       # name -> permanent refusals which were delivered
        self.active = True
        self.strict = rng.random() < 0.5        # checks checksums it is given
        self.lost = 0           # requests carried out whose answer did not (surely) get through
        self.open_now = self.max_open = 0
        self.faultlog = []
        self.corrupt_possible = True

    # -- faults --

    def pick(self, req):
        if not self.active or self.row >= self.max_row or self.rng.random() >= self.p:
            self.row = 0
            return None
        kinds = NET_FAULTS[1:] + self.extra_faults
        if self.plain and self.corrupt_possible:
            kinds = kinds + ['corruptup', 'corruptdown', 'corruptmeta', 'corruptetag']
        k = self.rng.choice(kinds)
        if k in ('midbody', 'early', 'corruptup') and (req is None or not req.length):
            k = 'noanswer'
        self.row += 1
        return k

    def note(self, kind, req):
        self.t.add('fault_' + kind)
        self.t.add('faults')
        self.faultlog.append((kind, req.method if req else '-', req.target[:80] if req else ''))

    def drop(self, conn):
        how = self.rng.choice(['rst', 'fin', 'close'])
        getattr(conn, how)()

    async def stall(self, conn):
        # until the client gives up
        try:
            while True:
                await conn.more()
        except (Closed, ValueError, OSError, trio.ClosedResourceError):
            pass

    # -- connection --

    async def serve(self, conn, tls):
        self.open_now += 1
        self.max_open = max(self.max_open, self.open_now)
        try:
            if self.active and self.row < self.max_row and self.rng.random() < self.p / 6:
                self.row += 1
                self.note('accept', None)
                self.drop(conn)
                return
            if tls is not None:
                await conn.start_tls(tls)
            while True:
                req = await conn.read_head()
                if req is None:
                    return
                if not await self.exchange(conn, req):
                    return
                if self.active and self.rng.random() < self.p / 10:
                    self.note('idle', None)
                    if self.rng.random() < 0.5:
                        await trio.sleep(self.rng.choice([0, 0.01, 5]))
                    self.drop(conn)
                    return
        except (OSError, trio.ClosedResourceError) as exc:
            if isinstance(exc, OSError) and exc.errno not in (9, 32, 104):
                raise
        finally:
            self.open_now -= 1

    def url(self, req):
        path, _, query = req.target.partition('?')
        return path, query

    async def exchange(self, conn, req):
        self.requests += 1
        self.t.add('requests')
        if 'transfer-encoding' in req.headers:
            raise Violation('bad-request', 'request with a transfer coding: %s' % req.head)
        n = req.length
        f = self.pick(req)
        if f == 'early':
            self.note(f, req)
            resp = self.temp_error(req)
            if req.expects:
                return await self.respond(conn, req, resp)
            resp.headers.append(('Connection', 'close'))
            await self.respond(conn, req, resp)
            try:
                await conn.read_body(n)
            except Closed:
                pass
            return False
        if f == 'head':
            self.note(f, req)
            self.drop(conn)
            return False
        if req.expects:
            await conn.send(b'HTTP/1.1 100 Continue\r\n\r\n')
        if f == 'midbody':
            self.note(f, req)
            await conn.read_body(self.rng.randrange(n))
            if self.rng.random() < 0.2:
                # the client sees its writes blocked or (small bodies) no answer
                await trio.sleep(10**4)
            self.drop(conn)
            return False
        body = await conn.read_body(n)
        if f == 'corruptup':
            if self.is_object(req) and req.method == 'PUT':
                self.note(f, req)
                i = self.rng.randrange(n)
                body = body[:i] + bytes([body[i] ^ (1 << self.rng.randrange(8))]) + body[i + 1:]
            else:
                f = None
        if f == 'error':
            self.note(f, req)
            return await self.respond(conn, req, self.temp_error(req))
        if f == 'expire':
            self.note(f, req)
            self.expire()
        if f == 'noanswer':
            self.note(f, req)
            self.drop(conn)
            return False
        if f == 'stall':
            self.note(f, req)
            if self.rng.random() < 0.5:
                self.process(req, body)
                self.lost += 1
            await self.stall(conn)
            return False
        if f == 'partial':
            self.partial = True
        resp = self.process(req, body)
        self.partial = False
        if f == 'lost':
            self.note(f, req)
            self.lost += 1
            self.drop(conn)
            return False
        if f == 'errorafter':
            self.note(f, req)
            self.lost += 1
            resp = self.temp_error(req)
        return await self.respond(conn, req, resp, f)

    async def respond(self, conn, req, resp, f=None):
        rng = self.rng
        body = resp.body
        headers = list(resp.headers)
        nobody = req.method == 'HEAD' or resp.status in (204, 304)
        if resp.isobject and f in ('corruptmeta', 'corruptetag', 'corruptdown'):
            idx = [i for i, (k, v) in enumerate(headers)
                   if (re.search(r'meta-(\d\d\d|md5)$', k) if f == 'corruptmeta'
                       else k.lower() == 'etag') and v]
            if f == 'corruptdown' and body and not nobody:
                i = rng.randrange(len(body))
                body = body[:i] + bytes([body[i] ^ (1 << rng.randrange(8))]) + body[i + 1:]
                self.note(f, req)
            elif f != 'corruptdown' and idx and (f == 'corruptmeta' or not nobody):
                i = rng.choice(idx)
                k, v = headers[i]
                j = rng.randrange(len(v))
                if f == 'corruptmeta' and rng.random() < 0.2:
                    del headers[i]
                else:
                    alphabet = '0123456789abcdef' if f == 'corruptetag' else 'abcXYZ019=+/,:\'"%{}[]()-_.'
                    new = rng.choice([x for x in alphabet if x.lower() != v[j].lower()])
                    headers[i] = (k, v[:j] + new + v[j + 1:])
                self.note(f, req)
        if nobody:
            if resp.status not in (204, 304) and resp.length is not None:
                headers.append(('Content-Length', str(resp.length)))
            elif resp.status not in (204, 304):
                headers.append(('Content-Length', '0'))
            wire = b''
        elif body and rng.random() < 0.3:
            headers.append(('Transfer-Encoding', 'chunked'))
            out, pos = [], 0
            while pos < len(body):
                k = max(rng.choice([1, 10, 1000, 40000]), len(body) // 20)
                out.append(b'%x\r\n%s\r\n' % (len(body[pos:pos + k]), body[pos:pos + k]))
                pos += k
            wire = b''.join(out) + b'0\r\n\r\n'
        else:
            headers.append(('Content-Length', str(len(body))))
            wire = body
        close = rng.random() < 0.03
        if close:
            headers.append(('Connection', 'close'))
        headers.append(('Date', email.utils.formatdate(usegmt=True)))
        rng.shuffle(headers)
        head = 'HTTP/1.1 %d %s\r\n%s\r\n\r\n' % (
            resp.status, resp.reason, '\r\n'.join('%s: %s' % kv for kv in headers))
        data = head.encode('latin1') + wire
        if f in ('cut', 'stallcut'):
            self.note(f, req)
            if req.method in ('PUT', 'POST', 'DELETE'):
                self.lost += 1
            cut = rng.choice([1, len(head) - 1, len(head), len(data) - 1, rng.randrange(len(data)),
                              rng.randrange(len(data))])
            cut = min(cut, len(data) - 1)
            await conn.send_split(data[:cut], [rng.randrange(cut + 1) for _ in range(2)])
            if f == 'cut':
                await trio.sleep(0)
                self.drop(conn)
            else:
                await self.stall(conn)
            return False
        if resp.final:
            self.refused[resp.final] = self.refused.get(resp.final, 0) + 1
        if f == 'slow':
            self.note(f, req)
            # never silent for as long as the timeout, in all much longer
            await conn.send_split(data, [rng.randrange(len(data)) for _ in range(4)], 7)
        else:
            await conn.send_split(data, [rng.randrange(len(data)) for _ in range(rng.choice([0, 0, 2]))])
        return not close and not any(k == 'Connection' for k, v in headers)

    # -- to be provided --

    def temp_error(self, req):
        rng = self.rng
        status = rng.choice(self.temp_status)
        h = []
        if status in (503, 429) and rng.random() < 0.5:
            h.append(('Retry-After', rng.choice(
                ['1', '7', '0', '100000', email.utils.formatdate(time.time() + 20, usegmt=True), 'soon'])))
            self.t.add('retry_after')
        r = self.error_body(req, status)
        r.headers += h
        return r

    def html(self, status):
        body = self.rng.choice([b'<html><body>Sorry</body></html>', b'', b'oops'])
        return Resp(status, 'Error', body=body,
                    ctype=self.rng.choice(['text/html', 'text/plain; charset=utf-8']))

    def error_body(self, req, status):
        return self.html(status)

    def expire(self):
        pass

    partial = False

    def bad(self, why, req):
        raise Violation('bad-request', '%s: %s\n%s' % (self.name, why, req.head.decode('latin1')))


# ------------------------------------------------------------------------------------------------

NS = 'http://s3.amazonaws.com/doc/2006-03-01/'


class S3(Service):
    '''s3c (version 2 signatures), s3c4, s3, b2 (version 4).'''

    name = 's3'
    temp_errors = [('InternalError', 500), ('SlowDown', 503), ('ServiceUnavailable', 503),
                   ('RequestTimeout', 400), ('IncompleteBody', 400), ('OperationAborted', 409),
                   ('Timeout', 500), ('TemporarilyUnavailable', 503)]
    # services other than Amazon's have codes of their own
    other_errors = [('SlowDownWrite', 503), ('TooManyRequests', 429), ('Busy', 503),
                    ('InternalFailure', 500), ('BandwidthLimitExceeded', 509)]
    perm_errors = [('AccessDenied', 403), ('InvalidRequest', 400), ('MethodNotAllowed', 405),
                   ('NotImplemented', 501), (None, 403)]
    extra_faults = ['partial', 'partial']

    def __init__(self, *a, version=4, region=None, host=None, vendor=None, **kw):
        super().__init__(*a, **kw)
        self.version, self.region, self.host = version, region, host
        self.missing_is_error = self.rng.random() < 0.3
        self.delete404 = self.rng.random() < 0.2
        self.vendor = vendor
        self.redirect = None
        self.list_ns = self.rng.random() < 0.8
        self.seen_regions = set()

    def is_object(self, req):
        path, q = self.url(req)
        return path.count('/') > 1 and not path.endswith('/') or len(path.split('/', 2)[2:]) and \
            path.split('/', 2)[2] != ''

    def xml_error(self, code, status, msg='Some <message>'):
        body = '<?xml version="1.0" encoding="UTF-8"?>\n<Error><Code>%s</Code><Message>%s</Message>' \
            '<RequestId>1</RequestId></Error>' % (code, escape(msg))
        return Resp(status, 'Error', body=body.encode(),
                    ctype=self.rng.choice(['application/xml', 'text/xml; charset=utf-8',
                                           'application/xml;charset=UTF-8']))

    def error_body(self, req, status):
        r = self.rng.random()
        if r < 0.25:
            return self.html(status)
        code, status = self.rng.choice(self.temp_errors if r < 0.8 else self.other_errors)
        if req.method == 'HEAD' and status in (400, 409):
            status = 503
        return self.xml_error(code, status)

    def refuse(self, name, kind):
        code, status = kind
        r = self.html(status) if code is None else self.xml_error(code, status)
        r.final = name
        return r

    def process(self, req, body):
        path, query = self.url(req)
        host = req.headers.get('host', '')
        if self.host is not None and host.split(':')[0] != self.host:
            self.bad('wrong host (%s)' % self.host, req)
        if self.redirect and req.method == 'HEAD':
            loc, self.redirect = self.redirect, None
            return Resp(307, 'Temporary Redirect', [('Location', loc[0]), ('x-amz-bucket-region', loc[1])])
        err = self.check_auth(req, path, query)
        if err is not None:
            return err
        md5 = req.headers.get('content-md5')
        if md5 and self.strict and base64.b64encode(hashlib.md5(body).digest()).decode() != md5:
            return self.xml_error('BadDigest', 400)
        parts = path.split('/', 2)
        if len(parts) < 3 or parts[0] or urllib.parse.unquote(parts[1]) != self.bucket:
            return self.xml_error('NoSuchBucket', 404)
        name = urllib.parse.unquote(parts[2], errors='strict')
        qs = dict(urllib.parse.parse_qsl(query, keep_blank_values=True))
        if name == '':
            if req.method == 'GET':
                return self.list(req, qs)
            if req.method == 'POST' and list(qs) == ['delete']:
                return self.delete_multi(req, body)
            if req.method == 'HEAD':
                return Resp(200, 'OK', [('x-amz-bucket-region', self.region or 'us-east-1')])
            self.bad('unknown request', req)
        if qs:
            self.bad('unexpected query', req)
        if name in self.deny:
            return self.refuse(name, self.deny[name])
        o = self.objs.get(name)
        if req.method == 'PUT':
            meta = [(k, v) for k, v in req.headers.items() if k.startswith('x-amz-meta-')]
            if sum(len(k) - 11 + len(v) for k, v in meta) > 2048 + 150:
                self.bad('too much metadata', req)
            self.objs[name] = o = Obj(body, meta)
            return Resp(200, 'OK', [('ETag', '"%s"' % o.etag)])
        if req.method == 'DELETE':
            if o is None and self.delete404:
                return self.xml_error('NoSuchKey', 404)
            self.objs.pop(name, None)
            return Resp(204, 'No Content')
        if req.method not in ('GET', 'HEAD'):
            self.bad('unknown method', req)
        if o is None:
            return self.xml_error('NoSuchKey', 404)
        meta = [(k.replace('x-amz-meta-', 'x-amz-meta-meta-') if o.legacy else k, v) for k, v in o.meta]
        etag = o.etag.upper() if self.vendor == 'upper' else o.etag
        r = Resp(200, 'OK', [('ETag', '"%s"' % etag)] + meta, o.data if req.method == 'GET' else b'',
                 'application/octet-stream')
        r.length = len(o.data)
        r.isobject = True
        return r

    def list(self, req, qs):
        if set(qs) - {'prefix', 'max-keys', 'marker'}:
            self.bad('unexpected query', req)
        mx = min(int(qs.get('max-keys', 1000)), 1000)
        if self.rng.random() < 0.3 and mx > 1:
            mx = self.rng.randrange(1, min(mx, 40))     # may always return fewer
        empty = self.rng.random() < 0.05
        marker = qs.get('marker', '')
        names = sorted(k for k in self.objs if k.startswith(qs.get('prefix', '')) and k > marker)
        page = names[:mx]
        trunc = len(names) > len(page)
        extra = ''
        if empty and len(page) > 1:
            # an empty page which says where to go on
            extra = '<NextMarker>%s</NextMarker>' % escape(page[0][:-1] + chr(ord(page[0][-1]) - 1)
                                                           if page[0][-1] > 'A' else marker)
            nm = page[0][:-1] + chr(ord(page[0][-1]) - 1)
            if page[0][-1] > 'A' and nm > marker and nm < page[0]:
                page, trunc = [], True
            else:
                extra = ''
        self.t.add('list_pages')
        ns = ' xmlns="%s"' % NS if self.list_ns else ''
        body = '<?xml version="1.0" encoding="UTF-8"?>\n<ListBucketResult%s><Name>%s</Name><Prefix>%s' \
            '</Prefix><MaxKeys>%d</MaxKeys><IsTruncated>%s</IsTruncated>%s%s</ListBucketResult>' % (
                ns, escape(self.bucket), escape(qs.get('prefix', '')), mx, 'true' if trunc else 'false', extra,
                ''.join('<Contents><Key>%s</Key><Size>%d</Size></Contents>' % (
                    escape(k), len(self.objs[k].data)) for k in page))
        return Resp(200, 'OK', body=body.encode(), ctype=self.rng.choice(
            ['application/xml', 'text/xml', 'application/xml; charset=utf-8']))

    def delete_multi(self, req, body):
        if 'content-md5' not in req.headers:
            return self.xml_error('InvalidRequest', 400)
        root = ET.fromstring(body)
        keys = [x.findtext('Key') for x in root.findall('Object')]
        if not keys or len(keys) > 1000:
            return self.xml_error('MalformedXML', 400)
        done, errs = [], []
        self.t.add('bulk_deletes')
        part = self.partial
        if part:
            self.note('partial', req)
        ptemp = self.rng.choice([0.1, 0.5, 1])
        for k in keys:
            if k in self.deny:
                errs.append((k, 'AccessDenied'))
            elif part and self.rng.random() < ptemp:
                errs.append((k, self.rng.choice(['InternalError', 'SlowDown', 'ServiceUnavailable'])))
            elif k not in self.objs and self.missing_is_error:
                errs.append((k, 'NoSuchKey'))
            else:
                self.objs.pop(k, None)
                done.append(k)
        out = ['<Deleted><Key>%s</Key></Deleted>' % escape(k) for k in done] + \
            ['<Error><Key>%s</Key><Code>%s</Code><Message>m &amp; n</Message></Error>' % (escape(k), c)
             for k, c in errs]
        self.rng.shuffle(out)
        body = '<?xml version="1.0" encoding="UTF-8"?>\n<DeleteResult xmlns="%s">%s</DeleteResult>' % (
            NS, ''.join(out))
        return Resp(200, 'OK', body=body.encode(),
                    ctype=self.rng.choice(['application/xml', 'application/xml', None]))

    # -- signatures, from Amazon's documents --

    def check_auth(self, req, path, query):
        auth = req.headers.get('authorization', '')
        if self.version == 2:
            hit = re.fullmatch(r'AWS (.+):([A-Za-z0-9+/=]+)', auth)
            if not hit or hit.group(1) != self.login:
                return self.xml_error('InvalidAccessKeyId', 403)
            amz = ''.join('%s:%s\n' % (k, v) for k, v in sorted(req.headers.items())
                          if k.startswith('x-amz-'))
            s = '%s\n%s\n%s\n%s\n%s%s' % (
                req.method, req.headers.get('content-md5', ''), req.headers.get('content-type', ''),
                '' if 'x-amz-date' in req.headers else req.headers.get('date', ''), amz,
                path + ('?delete' if query.split('&')[0] == 'delete' else ''))
            sig = base64.b64encode(hmac.new(self.password.encode(), s.encode('latin1'), 'sha1').digest())
            if sig.decode() != hit.group(2):
                return self.xml_error('SignatureDoesNotMatch', 403)
            return None
        hit = re.fullmatch(r'AWS4-HMAC-SHA256 Credential=([^/]+)/(\d{8})/([^/]+)/s3/aws4_request, ?'
                           r'SignedHeaders=([^,]+), ?Signature=([0-9a-f]{64})', auth)
        if not hit:
            self.bad('malformed authorization', req)
        login, ymd, region, signed, sig = hit.groups()
        if login != self.login:
            return self.xml_error('InvalidAccessKeyId', 403)
        if self.region is not None and region != self.region:
            return self.xml_error('AuthorizationHeaderMalformed', 400)
        signed = signed.split(';')
        must = {'host'} | {k for k in req.headers if k.startswith('x-amz-')}
        if signed != sorted(signed) or not must <= set(signed) or not set(signed) <= set(req.headers):
            self.bad('wrong signed headers', req)
        q = sorted((urllib.parse.quote(k, safe='-_.~'), urllib.parse.quote(v, safe='-_.~'))
                   for k, v in urllib.parse.parse_qsl(query, keep_blank_values=True))
        can = '\n'.join([req.method, path, '&'.join('%s=%s' % kv for kv in q),
                         *['%s:%s' % (h, re.sub(' +', ' ', req.headers[h].strip())) for h in signed], '',
                         ';'.join(signed), req.headers.get('x-amz-content-sha256', '')])
        date = req.headers.get('x-amz-date', '')
        if not date.startswith(ymd) or abs(
                time.time() - time.mktime(time.strptime(date, '%Y%m%dT%H%M%SZ')) + time.timezone) > 900:
            return self.xml_error('RequestTimeTooSkewed', 403)
        sts = 'AWS4-HMAC-SHA256\n%s\n%s/%s/s3/aws4_request\n%s' % (
            date, ymd, region, hashlib.sha256(can.encode('latin1')).hexdigest())
        k = ('AWS4' + self.password).encode()
        for x in (ymd, region, 's3', 'aws4_request'):
            k = hmac.new(k, x.encode(), 'sha256').digest()
        if hmac.new(k, sts.encode(), 'sha256').hexdigest() != sig:
            return self.xml_error('SignatureDoesNotMatch', 403)
        return None


class B2(S3):
    '''Also answers the native authorization call.'''

    def process(self, req, body):
        path, query = self.url(req)
        if req.headers.get('host', '').startswith('api.'):
            if path != '/b2api/v4/b2_authorize_account' or req.method != 'GET':
                self.bad('unknown call', req)
            cred = base64.b64encode(('%s:%s' % (self.login, self.password)).encode()).decode()
            if req.headers.get('authorization') != 'Basic ' + cred:
                return Resp(401, 'Unauthorized', ctype='application/json',
                            body=b'{"code": "unauthorized", "message": "no", "status": 401}')
            url = 'https://s3.%s.backblazeb2.com' % self.region
            d = self.rng.choice([{'apiInfo': {'storageApi': {'s3ApiUrl': url}}}, {'s3ApiUrl': url}])
            return Resp(200, 'OK', body=json.dumps(d).encode(), ctype='application/json')
        return super().process(req, body)

    def error_body(self, req, status):
        if req.headers.get('host', '').startswith('api.'):
            return self.html(status)
        return super().error_body(req, status)

    def is_object(self, req):
        return not req.headers.get('host', '').startswith('api.') and super().is_object(req)


# ------------------------------------------------------------------------------------------------

class GS(Service):
    name = 'gs'
    extra_faults = ['expire', 'expire']
    perm_errors = [('Forbidden', 403), ('Invalid argument', 400), (None, 403), ('Gone', 410)]

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.tokens = {}
        self.ntok = 0
        self.lifetime = self.rng.choice([3600, 400, 310, None])

    def is_object(self, req):
        return '/o' in req.target

    def expire(self):
        self.tokens.clear()

    def json_error(self, status, msg):
        return Resp(status, 'Error', body=json.dumps(
            {'error': {'code': status, 'message': msg, 'errors': []}}).encode(),
            ctype=self.rng.choice(['application/json', 'application/json; charset=UTF-8']))

    def error_body(self, req, status):
        if self.rng.random() < 0.4:
            return self.html(status)
        if req.headers.get('host', '').startswith('accounts'):
            return Resp(status, 'Error', body=b'{"error": "internal_failure"}', ctype='application/json')
        return self.json_error(status, 'Backend Error')

    def refuse(self, name, kind):
        msg, status = kind
        r = self.html(status) if msg is None else self.json_error(status, msg)
        r.final = name
        return r

    def process(self, req, body):
        path, query = self.url(req)
        if req.headers.get('host', '').startswith('accounts'):
            if req.method != 'POST' or path != '/o/oauth2/token':
                self.bad('unknown call', req)
            q = dict(urllib.parse.parse_qsl(body.decode(), strict_parsing=True))
            if q.get('refresh_token') != self.password or q.get('grant_type') != 'refresh_token':
                return Resp(400, 'Bad Request', body=b'{"error": "invalid_grant"}',
                            ctype='application/json')
            self.ntok += 1
            tok = 'tok-%d' % self.ntok
            life = self.lifetime or 3600
            self.tokens[tok] = trio.current_time() + life
            self.t.add('tokens')
            d = {'access_token': tok, 'token_type': 'Bearer'}
            if self.lifetime:
                d['expires_in'] = self.lifetime
            return Resp(200, 'OK', body=json.dumps(d).encode(), ctype='application/json; charset=utf-8')
        auth = req.headers.get('authorization', '')
        if not auth.startswith('Bearer '):
            self.bad('no token', req)
        if self.tokens.get(auth[7:], 0) < trio.current_time():
            self.t.add('expired_tokens')
            return self.json_error(401, 'Invalid Credentials')
        b = '/storage/v1/b/' + urllib.parse.quote(self.bucket, safe='')
        qs = dict(urllib.parse.parse_qsl(query, keep_blank_values=True))
        if path == '/upload' + b + '/o' and req.method == 'POST':
            return self.upload(req, body, qs)
        if path == b and req.method == 'GET':
            return Resp(200, 'OK', body=b'{"kind": "storage#bucket"}', ctype='application/json')
        if path == b + '/o' and req.method == 'GET':
            return self.list(req, qs)
        if path.startswith(b + '/o/'):
            raw = path[len(b) + 3:]
            if '/' in raw:
                self.bad('slash in object name', req)
            name = urllib.parse.unquote(raw, errors='strict')
            if name in self.deny:
                return self.refuse(name, self.deny[name])
            o = self.objs.get(name)
            if o is None:
                return self.json_error(404, 'Not Found')
            if req.method == 'DELETE':
                del self.objs[name]
                return Resp(204, 'No Content')
            if req.method != 'GET':
                self.bad('unknown method', req)
            if qs == {'alt': 'media'}:
                return Resp(200, 'OK', body=o.data, ctype='application/octet-stream')
            if qs:
                self.bad('unexpected query', req)
            d = {'kind': 'storage#object', 'name': name, 'size': str(len(o.data))}
            if o.meta:
                d['metadata'] = o.meta
            return Resp(200, 'OK', body=json.dumps(d).encode(), ctype='application/json; charset=UTF-8')
        if path.startswith('/storage/v1/b/') or path.startswith('/upload/storage/v1/b/'):
            return self.json_error(404, 'Not Found')
        self.bad('unknown request', req)

    def upload(self, req, body, qs):
        if qs != {'uploadType': 'multipart'}:
            self.bad('unexpected query', req)
        hit = re.fullmatch(r'multipart/related; boundary=(\S+)', req.headers.get('content-type', ''))
        if not hit:
            self.bad('content type', req)
        b = hit.group(1).encode()
        hit = re.match(rb'--' + re.escape(b) + rb'\r?\nContent-Type: application/json; charset=UTF-8\r?\n\r?\n'
                       rb'(.*?)\r?\n--' + re.escape(b) + rb'\r?\nContent-Type: application/octet-stream'
                       rb'\r?\n\r?\n', body, re.S)
        end = b'\n--' + b + b'--'
        tail = body.rstrip(b'\r\n')
        if not hit or not tail.endswith(end):
            self.bad('malformed multipart body', req)
        data = body[hit.end():len(tail) - len(end)]
        d = json.loads(hit.group(1))
        name = d['name']
        if name in self.deny:
            return self.refuse(name, self.deny[name])
        meta = d.get('metadata', {})
        if not all(isinstance(v, str) for v in meta.values()):
            self.bad('metadata is not text', req)
        self.objs[name] = Obj(data, meta)
        return Resp(200, 'OK', body=json.dumps({'name': name, 'size': str(len(data))}).encode(),
                    ctype='application/json; charset=UTF-8')

    def list(self, req, qs):
        mx = min(int(qs.get('maxResults', 1000)), 1000)
        if self.rng.random() < 0.3 and mx > 1:
            mx = self.rng.randrange(1, min(mx, 40))
        if self.rng.random() < 0.05:
            mx = 0      # the documentation allows for it: only the token tells
        after = ''
        if 'pageToken' in qs:
            after = base64.urlsafe_b64decode(qs['pageToken']).decode()
        names = sorted(k for k in self.objs if k.startswith(qs.get('prefix', '')) and k > after)
        page = names[:mx]
        self.t.add('list_pages')
        d = {'kind': 'storage#objects'}
        if page:
            d['items'] = [{'name': k, 'size': str(len(self.objs[k].data))} for k in page]
        if len(names) > len(page):
            d['nextPageToken'] = base64.urlsafe_b64encode((page[-1] if page else after).encode()).decode()
            if not d['nextPageToken']:
                d['nextPageToken'] = base64.urlsafe_b64encode(b'\x01').decode()
        return Resp(200, 'OK', body=json.dumps(d).encode(), ctype='application/json; charset=UTF-8')


# ------------------------------------------------------------------------------------------------

class Swift(Service):
    name = 'swift'
    extra_faults = ['expire', 'expire', 'partial', 'partial']
    perm_errors = [('x', 403), ('x', 413), ('x', 501), ('x', 422)]

    def __init__(self, *a, auth='v1', region='RegionOne', storage=None, **kw):
        super().__init__(*a, **kw)
        self.auth, self.region = auth, region
        self.storage = storage      # (scheme, host, port)
        self.tokens = set()
        self.ntok = 0
        self.account = self.rng.choice(['/v1/AUTH_me', '/v1/AUTH a b', '/swift/v1'])
        self.auth_path = self.rng.choice(['/v1.0', '/auth/v1.0'])
        self.bulk = self.rng.choice([None, 3, 50, 1000])
        self.max_meta = self.rng.choice([None, 256, 512, 128])
        self.info = self.rng.choice([200, 200, 200, 404, 403])

    def is_object(self, req):
        p = urllib.parse.quote('%s/%s/' % (self.account, self.bucket))
        path = self.url(req)[0]
        return path.startswith(p) and path != p

    def expire(self):
        self.tokens.clear()

    def refuse(self, name, kind):
        r = self.html(kind[1])
        r.final = name
        return r

    def new_token(self):
        self.ntok += 1
        tok = 'tok%d' % self.ntok
        self.tokens.add(tok)
        self.t.add('tokens')
        return tok

    def storage_url(self):
        return '%s://%s:%d%s' % (*self.storage, urllib.parse.quote(self.account))

    def process(self, req, body):
        path, query = self.url(req)
        if self.auth == 'v1' and path in ('/v1.0', '/auth/v1.0') and req.method == 'GET':
            if path != self.auth_path:
                return self.html(self.rng.choice([404, 412]))
            if req.headers.get('x-auth-user') != self.login or req.headers.get('x-auth-key') != self.password:
                return self.html(401)
            return Resp(self.rng.choice([200, 204]), 'OK', [('X-Auth-Token', self.new_token()),
                                                            ('X-Storage-Url', self.storage_url())])
        if self.auth == 'v2' and path == '/v2.0/tokens' and req.method == 'POST':
            d = json.loads(body)['auth']
            cred = d['passwordCredentials']
            tenant, _, user = self.login.rpartition(':')
            if cred != {'username': user, 'password': self.password} or d.get('tenantName', '') != tenant:
                return self.html(401)
            cat = [{'type': 'identity', 'endpoints': []}, {'type': 'object-store', 'endpoints': [
                {'region': 'Elsewhere', 'publicURL': 'http://nowhere.invalid/'},
                {'region': self.region, 'publicURL': self.storage_url()}]}]
            return Resp(200, 'OK', body=json.dumps({'access': {
                'token': {'id': self.new_token()}, 'serviceCatalog': cat}}).encode(), ctype='application/json')
        if self.auth == 'v3' and path == '/v3/auth/tokens' and req.method == 'POST':
            d = json.loads(body)['auth']
            tenant, _, user = self.login.rpartition(':')
            u = d['identity']['password']['user']
            if u['name'] != user or u['password'] != self.password or \
                    d['scope']['project'].get('id') != tenant:
                return self.html(401)
            cat = [{'type': 'object-store', 'endpoints': [
                {'region': self.region, 'interface': 'internal', 'url': 'http://nowhere.invalid/'},
                {'region': 'Elsewhere', 'interface': 'public', 'url': 'http://nowhere.invalid/'},
                {'region': self.region, 'interface': 'public', 'url': self.storage_url()}]}]
            return Resp(201, 'Created', [('X-Subject-Token', self.new_token())], body=json.dumps(
                {'token': {'catalog': cat}}).encode(), ctype='application/json')
        if path == '/info' and req.method == 'GET':
            if self.info != 200:
                return self.html(self.info)
            d = {'swift': {}}
            if self.max_meta:
                d['swift']['max_meta_value_length'] = self.max_meta
            if self.bulk:
                d['bulk_delete'] = {'max_failed_deletes': self.bulk, 'max_deletes_per_request': 10000}
            return Resp(200, 'OK', body=json.dumps(d).encode(), ctype='application/json; charset=UTF-8')
        if req.headers.get('x-auth-token') not in self.tokens:
            self.t.add('expired_tokens')
            return self.html(401)
        acc = urllib.parse.quote(self.account)
        if not path.startswith(acc + '/'):
            self.bad('wrong account path (%s)' % acc, req)
        cont, sep, raw = path[len(acc) + 1:].partition('/')
        if urllib.parse.unquote(cont) != self.bucket:
            return self.html(404)
        qs = dict(urllib.parse.parse_qsl(query, keep_blank_values=True))
        name = urllib.parse.unquote(raw, errors='strict')
        if name == '':
            if req.method == 'GET':
                return self.list(req, qs)
            if req.method == 'POST' and list(qs) == ['bulk-delete'] and self.bulk and self.info == 200:
                return self.bulk_delete(req, body)
            self.bad('unknown request', req)
        if qs:
            self.bad('unexpected query', req)
        if name in self.deny:
            return self.refuse(name, self.deny[name])
        o = self.objs.get(name)
        if req.method == 'PUT':
            etag = req.headers.get('etag')
            if etag and etag.strip('"') != hashlib.md5(body).hexdigest():
                return self.html(422)
            meta = [(k, v) for k, v in req.headers.items() if k.startswith('x-object-')]
            limit = (self.max_meta or 256) if self.info == 200 else 256
            if any(len(v) > limit for k, v in meta):
                self.bad('metadata value longer than %d' % limit, req)
            self.objs[name] = o = Obj(body, meta)
            return Resp(201, 'Created', [('Etag', o.etag)])
        if req.method == 'DELETE':
            if o is None:
                return self.html(404)
            del self.objs[name]
            return Resp(204, 'No Content')
        if req.method not in ('GET', 'HEAD'):
            self.bad('unknown method', req)
        if o is None:
            return self.html(404)
        r = Resp(200, 'OK', [('Etag', o.etag)] + list(o.meta), o.data if req.method == 'GET' else b'',
                 'application/octet-stream')
        r.length = len(o.data)
        r.isobject = True
        return r

    def list(self, req, qs):
        if set(qs) - {'prefix', 'limit', 'marker', 'format'}:
            self.bad('unexpected query', req)
        if qs.get('format') != 'json':
            return Resp(200, 'OK', body=b'x\n', ctype='text/plain; charset=utf-8')
        mx = int(qs.get('limit', 10000))
        marker = qs.get('marker', '')
        names = sorted(k for k in self.objs if k.startswith(qs.get('prefix', '')) and k > marker)[:mx]
        self.t.add('list_pages')
        if not names and self.rng.random() < 0.5:
            return Resp(204, 'No Content')
        return Resp(200, 'OK', body=json.dumps(
            [{'name': k, 'bytes': len(self.objs[k].data)} for k in names]).encode(),
            ctype=self.rng.choice(['application/json; charset=utf-8', 'application/json; charset="utf-8"']))

    def bulk_delete(self, req, body):
        '''As swift/common/middleware/bulk.py does it.'''
        rng = self.rng
        lines = [x for x in body.decode().split('\n') if x]
        self.t.add('bulk_deletes')
        res = {'Number Not Found': 0, 'Response Status': '200 OK', 'Response Body': '', 'Errors': [],
               'Number Deleted': 0}
        part = None
        if self.partial:
            self.note('partial', req)
            part = rng.choice(['each', 'each', 'abort', 'auth'])
        stop = rng.randrange(len(lines) + 1)
        ptemp = rng.choice([0.1, 0.5, 1])
        if not lines:
            res['Response Status'] = '400 Bad Request'
            res['Response Body'] = 'Invalid bulk delete.'
        elif len(lines) > 10000:
            res['Response Status'] = '413 Request Entity Too Large'
            res['Response Body'] = 'Maximum Bulk Deletes: 10000 per request'
            lines = []
        for i, ln in enumerate(lines):
            full = urllib.parse.unquote(ln, errors='strict')
            if not full.startswith('/%s/' % self.bucket):
                self.bad('bulk deletion in another container: %r' % full, req)
            name = full[len(self.bucket) + 2:]
            if part == 'abort' and i == stop:
                res['Response Status'] = '500 Internal Error'
                res['Response Body'] = rng.choice(['', 'Something broke'])
                break
            if part == 'auth' and i == stop:
                self.tokens.clear()
                res['Response Status'] = '401 Unauthorized'
                res['Response Body'] = ''
                break
            if name in self.deny:
                res['Errors'].append([urllib.parse.quote(full), '403 Forbidden'])
            elif part == 'each' and rng.random() < ptemp:
                res['Errors'].append([urllib.parse.quote(full), rng.choice(
                    ['503 Service Unavailable', '500 Internal Error'])])
            elif name in self.objs:
                del self.objs[name]
                res['Number Deleted'] += 1
            else:
                res['Number Not Found'] += 1
            if len(res['Errors']) >= self.bulk:
                res['Response Status'] = '400 Bad Request'
                res['Response Body'] = 'Max delete failures exceeded'
                break
        if res['Response Status'] == '200 OK':
            if res['Errors']:
                first = res['Errors'][0][1]
                # (the middleware reports the worst kind)
                res['Response Status'] = '502 Bad Gateway' if first.startswith('5') else '400 Bad Request'
                if rng.random() < 0.5:
                    res['Response Body'] = ''
            elif not res['Number Deleted']:
                res['Response Status'] = rng.choice(['400 Bad Request', '404 Not Found'])
                res['Response Body'] = 'Invalid bulk delete.' if res['Number Not Found'] == 0 else rng.choice(
                    ['', 'Invalid bulk delete.'])
        pad = b' ' * rng.choice([0, 0, 3]) if rng.random() < 0.5 else b'\r\n'
        return Resp(200, 'OK', body=pad + json.dumps(res).encode(), ctype=rng.choice(
            ['application/json', 'application/json; charset=UTF-8']))
