'''Records everything that is sent to the local backend and every AES encryption that is set up.

Installed in the child before a command runs; appends to one file shared by all commands.
'''
from __future__ import annotations

import hashlib
import os
import pickle
import struct
import threading


class Spy:
    def __init__(self, path):
        self.path = path

    def install(self, clock=None):
        '''*clock*: None, or a function replacing time.time().'''
        from cryptography.hazmat.primitives import ciphers
        from s3ql.backends import local
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        lock = threading.Lock()

        def put(rec):
            b = pickle.dumps(rec)
            with lock:
                os.write(fd, struct.pack('<I', len(b)) + b)

        cls = local.AsyncBackend
        orig = cls.write_fh

        async def write_fh(self, key, fh, *a, **kw):
            pos = fh.tell()
            data = fh.read()
            fh.seek(pos)
            meta = kw.get('metadata')
            for x in a:
                if isinstance(x, dict):
                    meta = x
            put(('store', key, data, dict(meta) if meta else None))
            return await orig(self, key, fh, *a, **kw)

        cls.write_fh = write_fh
        corig = ciphers.Cipher.encryptor
        init = ciphers.Cipher.__init__

        def cinit(self, algorithm, mode, *a, **kw):
            self.__dict__.setdefault('_spy', None) if hasattr(self, '__dict__') else None
            init(self, algorithm, mode, *a, **kw)
            try:
                key = bytes(algorithm.key)
            except AttributeError:
                key = b'?'
            iv = getattr(mode, 'nonce', None) or getattr(mode, 'initialization_vector', None) or b''
            keys[id(self)] = (hashlib.sha256(key).digest()[:16], bytes(iv))

        keys = {}

        def encryptor(self):
            put(('cipher',) + keys.get(id(self), (b'', b'')))
            return corig(self)

        ciphers.Cipher.__init__ = cinit
        ciphers.Cipher.encryptor = encryptor
        if clock is not None:
            import time
            time.time = clock

    def read(self):
        if not os.path.exists(self.path):
            return []
        res = []
        with open(self.path, 'rb') as fh:
            while h := fh.read(4):
                res.append(pickle.loads(fh.read(struct.unpack('<I', h)[0])))
        return res
