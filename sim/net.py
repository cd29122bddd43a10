"""Simulated network: the only transport the code under test can reach.

A Server maps URLs to bodies; a fault plan (part of the scenario) decides what
each request meets.  Time is virtual.
"""
import errno
import http.client
import io
import socket
import ssl
import urllib.error
from email.message import Message

CURRENT = None      # the Server of the running simulation


def urlopen_entry(url, data=None, timeout=None, *args, **kwargs):
    if CURRENT is None:
        raise RuntimeError('simulator: no simulated network is installed')
    if not isinstance(url, str):
        url = url.full_url
    return CURRENT.open(url, timeout)


# faults raised while the request is being opened
OPEN_FAULTS = ('refused', 'dns', 'timeout_connect', 'http404', 'http500',
               'http503', 'badstatus', 'disconnected', 'ssl', 'eacces',
               'emfile')
# faults raised while the body is read
READ_FAULTS = ('reset', 'timeout_read', 'incomplete', 'eio', 'ssl_read')
# faults in what is delivered (each makes the body undecodable)
DECODE_FAULTS = ('charset_unknown', 'charset_wrong')
# faults that silently damage the body
BODY_FAULTS = ('truncate', 'corrupt', 'empty')
HARD_FAULTS = OPEN_FAULTS + READ_FAULTS
# asynchronous exceptions raised while the body is read
ASYNC_FAULTS = ('kbint', 'memerr')


def damage(body, f):
    at = int(len(body) * f.get('at', 0.5))
    if f['kind'] == 'truncate':
        return body[:at]
    if f['kind'] == 'corrupt':
        if not body:
            return body
        at = min(at, len(body) - 1)
        return body[:at] + bytes([body[at] ^ f.get('flip', 1)]) \
            + body[at + 1:]
    return b''


class Response:
    def __init__(self, server, url, body, ctype, fault, at, has_headers):
        self.server = server
        self.url = url
        self.fault = fault
        self.at = at
        self.buf = io.BytesIO(body)
        self.body = body
        self.closed = False
        self.closes = 0
        self.status = self.code = 200
        self.reason = self.msg = 'OK'
        self.headers = Message()
        if ctype is not None:
            self.headers['Content-Type'] = ctype
        self.headers['Content-Length'] = str(len(body))
        self.headers['X-Sim'] = '1'
        if has_headers:
            self.getheaders = lambda: list(self.headers.items())
            self.getheader = lambda n, d=None: self.headers.get(n, d)
        server.opened.append(self)

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getcode(self):
        return self.status

    def __enter__(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self

    def __exit__(self, *_):
        self.close()

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def readable(self):
        return True

    def close(self):
        self.closed = True
        self.closes += 1

    def _trip(self):
        kind = self.fault
        srv = self.server
        if kind in ASYNC_FAULTS:
            srv.ctx.count('probe.interrupted_read')
        if kind == 'reset':
            srv.fired(kind)
            raise ConnectionResetError(errno.ECONNRESET,
                                       'Connection reset by peer')
        if kind == 'timeout_read':
            srv.clock += 60.0
            srv.fired(kind)
            raise TimeoutError('timed out')
        if kind == 'incomplete':
            srv.fired(kind)
            raise http.client.IncompleteRead(self.body[:self.at],
                                             len(self.body) - self.at)
        if kind == 'eio':
            srv.fired(kind)
            raise OSError(errno.EIO, 'Input/output error')
        if kind == 'ssl_read':
            srv.fired(kind)
            raise ssl.SSLError(1, 'decryption failed')
        if kind == 'kbint':
            srv.fired(kind)
            raise KeyboardInterrupt
        if kind == 'memerr':
            srv.fired(kind)
            raise MemoryError

    def read(self, amt=None):
        srv = self.server
        if self.closed:
            srv.late.append(self.url)
            return b''
        srv.clock += 0.01
        if self.fault in READ_FAULTS or self.fault in ASYNC_FAULTS:
            if amt is None or amt < 0 or self.buf.tell() + amt > self.at:
                self._trip()
        if amt is None or amt < 0:
            return self.buf.read()
        if amt > 1:
            amt = max(1, min(amt, srv.chunk))    # short reads
        return self.buf.read(amt)

    read1 = read

    def readline(self, *_):
        if self.fault in READ_FAULTS or self.fault in ASYNC_FAULTS:
            self._trip()
        return self.buf.readline()

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


class Server:
    def __init__(self, ctx, routes=None, faults=(), chunk=7):
        self.ctx = ctx
        self.routes = dict(routes or {})    # url -> {'body', 'ctype'}
        self.faults = [dict(f) for f in faults]
        self.chunk = chunk
        self.clock = 0.0
        self.requests = []
        self.opened = []
        self.late = []
        self.failed = []
        self.healthy = False
        self.limit = 400

    def install(self):
        global CURRENT
        CURRENT = self
        return self

    def fired(self, kind):
        self.ctx.count('fault.' + kind)

    def fault_for(self, url, ordinal):
        if self.healthy:
            return None
        for f in self.faults:
            if f.get('url') == url or f.get('n') == ordinal:
                if f.get('times', 1 << 30) <= 0:
                    continue
                if 'times' in f:
                    f['times'] -= 1
                return f
        return None

    def open(self, url, timeout):
        ordinal = len(self.requests)
        self.requests.append(url)
        if ordinal > self.limit:
            from .engine import Violation
            raise Violation('unbounded-requests',
                            'more than {} requests in one run: {}'.format(
                                self.limit, self.requests[-3:]))
        self.clock += 0.05
        self.ctx.simtime += 0.05
        self.ctx.event('request', ordinal, url)
        self.ctx.count('requests')
        if '#' in url:
            url = url[:url.index('#')]
        f = self.fault_for(url, ordinal)
        kind = f['kind'] if f else None
        if kind == 'slow':
            self.clock += f.get('delay', 5.0)
            self.ctx.simtime += f.get('delay', 5.0)
            self.fired('slow')
            if timeout is not None and f.get('delay', 5.0) > timeout:
                self.failed.append(url)
                raise urllib.error.URLError(socket.timeout('timed out'))
            kind = None
        if kind in OPEN_FAULTS:
            self.failed.append(url)
            self.fired(kind)
            self.raise_open(kind, url)
        route = self.routes.get(url)
        if route is None:
            self.failed.append(url)
            self.ctx.count('not_found')
            if url.startswith('file:'):
                raise urllib.error.URLError(
                    FileNotFoundError(2, 'No such file'))
            raise urllib.error.HTTPError(url, 404, 'Not Found', Message(),
                                         io.BytesIO(b''))
        body = route['body']
        if isinstance(body, str):
            body = body.encode(route.get('enc', 'utf-8'))
        ctype = route.get('ctype')
        at = 0
        if f:
            at = int(len(body) * f.get('at', 0.5))
        if kind in READ_FAULTS or kind in ASYNC_FAULTS:
            self.failed.append(url)
        elif kind in BODY_FAULTS:
            body = damage(body, f)
            self.fired(kind)
        elif kind == 'charset_unknown':
            self.failed.append(url)
            ctype = (ctype or 'text/plain').split(';')[0] \
                + '; charset=x-no-such-charset'
            self.fired(kind)
        elif kind == 'charset_wrong':
            self.failed.append(url)
            body = b'\xff\xfe\xff' + body
            ctype = (ctype or 'text/plain').split(';')[0] + '; charset=utf-8'
            self.fired(kind)
        has_headers = not url.startswith('file:')
        return Response(self, url, body, ctype, kind, at, has_headers)

    def raise_open(self, kind, url):
        if kind == 'refused':
            raise urllib.error.URLError(
                ConnectionRefusedError(errno.ECONNREFUSED, 'refused'))
        if kind == 'dns':
            raise urllib.error.URLError(
                socket.gaierror(-2, 'Name or service not known'))
        if kind == 'timeout_connect':
            self.clock += 120.0
            self.ctx.simtime += 120.0
            raise urllib.error.URLError(socket.timeout('timed out'))
        if kind.startswith('http'):
            raise urllib.error.HTTPError(url, int(kind[4:]), 'error',
                                         Message(), io.BytesIO(b'oops'))
        if kind == 'badstatus':
            raise http.client.BadStatusLine('nonsense')
        if kind == 'disconnected':
            raise http.client.RemoteDisconnected('closed without response')
        if kind == 'ssl':
            raise urllib.error.URLError(
                ssl.SSLCertVerificationError(1, 'verify failed'))
        if kind == 'eacces':
            raise PermissionError(errno.EACCES, 'Permission denied')
        if kind == 'emfile':
            raise OSError(errno.EMFILE, 'Too many open files')
        raise AssertionError(kind)

    def unclosed(self):
        return [r.url for r in self.opened if not r.closed]
