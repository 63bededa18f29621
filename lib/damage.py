'''Damage to stored objects (files of the local backend).'''
from __future__ import annotations

import ast
import os
import struct

MAGIC = b's3ql_1\n'


def index(root):
    '''{key: path} of the objects in a local storage directory.'''
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if '#' not in f:
                res[f.replace('=2F', '/').replace('=23', '#').replace('=3D', '=')] = \
                    os.path.join(d, f)
    return res


def split(raw):
    n = struct.unpack('<H', raw[7:9])[0]
    return raw[9:9 + n], raw[9 + n:]


def join(meta, payload):
    meta = meta[:65535]
    return MAGIC + struct.pack('<H', len(meta)) + meta + payload


def put(path, raw):
    with open(path + '#new', 'wb') as fh:
        fh.write(raw)
    os.rename(path + '#new', path)


def get(path):
    with open(path, 'rb') as fh:
        return fh.read()


MODES = ['flip', 'flip', 'flips', 'truncate', 'truncate', 'empty', 'extend', 'zeros', 'cut', 'dup',
         'garbage', 'swapbytes', 'reverse_tail']


def damage(buf, rng, mode=None):
    '''Return a different byte string.'''
    for _ in range(50):
        res = _damage(buf, rng, mode or rng.choice(MODES))
        if res != buf:
            return res
    return buf + b'!'


def _damage(buf, rng, mode):
    b = bytearray(buf)
    n = len(b)
    if mode in ('flip', 'flips'):
        for _ in range(1 if mode == 'flip' else rng.randrange(2, 9)):
            if n:
                b[rng.choice([rng.randrange(n), rng.randrange(min(n, 12)),
                              n - 1 - rng.randrange(min(n, 40))])] ^= 1 << rng.randrange(8)
    elif mode == 'truncate':
        b = b[:rng.choice([rng.randrange(n + 1), max(0, n - 1), max(0, n - rng.randrange(1, 40)),
                           min(n, rng.randrange(1, 20))])]
    elif mode == 'empty':
        b = bytearray()
    elif mode == 'extend':
        b += rng.choice([b'\0', b'x', rng.randbytes(32), rng.randbytes(4096), bytes(300 * 1024),
                         bytes(buf)])
    elif mode == 'zeros' and n:
        i = rng.randrange(n)
        b[i:i + 16] = bytes(len(b[i:i + 16]))
    elif mode == 'cut' and n:
        i = rng.randrange(n)
        del b[i:i + rng.choice([1, 4, 16, 100])]
    elif mode == 'dup' and n:
        i = rng.randrange(n)
        b[i:i] = b[i:i + rng.choice([1, 4, 16, 100])]
    elif mode == 'garbage':
        b = bytearray(rng.randbytes(rng.choice([0, 1, 10, n, 5000])))
    elif mode == 'swapbytes' and n > 3:
        i, j = rng.randrange(n), rng.randrange(n)
        b[i], b[j] = b[j], b[i]
    elif mode == 'reverse_tail' and n > 3:
        i = rng.randrange(n)
        b[i:] = b[i:][::-1]
    return bytes(b)


WEIRD = ["1j", "(1, 2)", "{'a': 1}", "[1]", "None", "True", "-1", "10**9", "'\\ud800'", "1e999",
         "b'!'", "b'a'", "'x'", "99999999999999999999", "0", "1.5", "b'QUJD'", "''", "{1, 2}"]


def edit_meta(buf, rng, other=None):
    '''Change the serialised mapping *buf* in a structured way. *other*: metadata of another
    object to take values from. Returns (new buffer, description).'''
    try:
        d = ast.literal_eval(buf.decode())
    except Exception:  # noqa: BLE001
        return damage(buf, rng), 'bytes'
    kinds = ['drop', 'weird', 'weird', 'add', 'intkey', 'notdict', 'compression', 'encryption',
             'version', 'offset', 'bytes', 'nest', 'empty', 'case']
    if other is not None:
        kinds += ['take', 'take', 'takeall']
    kind = rng.choice(kinds)
    items = {repr(k): repr(v) for k, v in d.items()}
    keys = sorted(items)
    k = rng.choice(keys) if keys else "'x'"
    if kind == 'drop':
        items.pop(k, None)
    elif kind == 'weird':
        items[k] = rng.choice(WEIRD)
    elif kind == 'add':
        items["'%s'" % rng.choice(['x', 'signature2', '__size', 'payload_offset', 'object_id'])] = \
            rng.choice(WEIRD)
    elif kind == 'intkey':
        items[rng.choice(['1', 'None', "b'k'", '(1,)'])] = rng.choice(WEIRD)
    elif kind == 'notdict':
        return rng.choice([b'[]', b'1', b'None', b"'x'", b'()', b'{1}', b'{}', b'', b'#', b'\0',
                           b'(' * 200, b'[' * 40000, b'-' * 30000 + b'1']), kind
    elif kind == 'compression':
        items["'compression'"] = repr(rng.choice(['None', 'ZLIB', 'BZIP2', 'LZMA', 'zlib', 'LZ4',
                                                  '', None, 5]))
    elif kind == 'encryption':
        items["'encryption'"] = repr(rng.choice(['None', 'AES', 'AES_v2', 'AES_v3', '', None, 7]))
    elif kind == 'version':
        items["'format_version'"] = repr(rng.choice([0, 1, 3, '2', 2.0, True, None]))
    elif kind == 'offset':
        items["'payload_offset'"] = repr(rng.choice([0, 1, 5, 10**9, -1, 'x', None, 2**70]))
    elif kind == 'bytes':
        return damage(buf, rng), kind
    elif kind == 'nest':
        items[k] = '[' * rng.choice([50, 5000]) + ']' * 50
    elif kind == 'empty':
        items = {}
    elif kind == 'case':
        items[k.upper()] = items.pop(k, '1')
    else:
        try:
            o = ast.literal_eval(other.decode())
        except Exception:  # noqa: BLE001
            o = {}
        for kk in (o if kind == 'takeall' else [rng.choice(sorted(o))] if o else []):
            items[repr(kk)] = repr(o[kk])
    new = ('{ %s }' % ', '.join('%s: %s' % x for x in items.items())).encode('utf-8', 'replace')
    if len(new) > 65000:
        new = new[:65000]
    return new, '%s %s' % (kind, k)
