"""The simulated network: HTTP servers behind simulated sockets.

requests, urllib3 and http.client run for real; only the socket under them is simulated.
"""
import io
import socket

from . import seam


class SimNet(object):

    def __init__(self, world, chunk=None):
        self.w = world
        self.hosts = {}       # host -> {path: body bytes or ('redirect', url)}
        self.chunk = chunk or (lambda n: n)
        self.framing = 'length'   # or 'chunked' or 'close'
        self.requests = []

    def serve(self, host, path, body):
        self.hosts.setdefault(host, {})[path] = body

    def connect(self, address, timeout=None, *a, **k):
        host, port = address
        r = self.w.io_point('connect', host) if not self.w.quiet else None
        if isinstance(r, Exception):
            raise r
        if isinstance(r, dict):
            if r['kind'] == 'netdns':
                raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
            if r['kind'] == 'nettimeout':
                self.w.now += 75
                raise socket.timeout('timed out')
        if host not in self.hosts:
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        self.w.now += 0.02
        return SimSocket(self, host)

    def respond(self, host, request, fault):
        line = request.split(b'\r\n', 1)[0].decode('latin1')
        method, path, _ = line.split(' ', 2)
        self.requests.append((host, path))
        self.w.log('HTTP %s %s%s' % (method, host, path))
        status, reason, extra = 200, 'OK', ''
        body = self.hosts[host].get(path)
        if fault is not None and fault['kind'] == 'netstatus':
            status, reason = fault['status'], 'Simulated'
            body = b'<html><body>simulated error %d</body></html>' % status
        elif body is None:
            status, reason, body = 404, 'Not Found', b'no such page'
        elif isinstance(body, tuple):
            status, reason = 302, 'Found'
            extra = 'Location: %s\r\n' % body[1]
            body = b''
        head = 'HTTP/1.1 %d %s\r\nConnection: close\r\nContent-Type: text/csv\r\n%s' % (status, reason, extra)
        if self.framing == 'length':
            return (head + 'Content-Length: %d\r\n\r\n' % len(body)).encode('latin1') + body
        if self.framing == 'chunked':
            out = (head + 'Transfer-Encoding: chunked\r\n\r\n').encode('latin1')
            for i in range(0, len(body), 97):
                c = body[i:i + 97]
                out += b'%x\r\n' % len(c) + c + b'\r\n'
            return out + b'0\r\n\r\n'
        return (head + '\r\n').encode('latin1') + body


class SimSocket(object):
    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, net, host):
        self.net = net
        self.host = host
        self.sent = b''
        self.out = None
        self.pos = 0
        self.fault = None
        self.dead = None
        self.closed = False
        self._refs = 0

    def _point(self, op):
        w = self.net.w
        w.now += 0.005
        if w.quiet:
            return None
        return w.io_point(op, self.host)

    def sendall(self, data, flags=0):
        r = self._point('send')
        if isinstance(r, Exception):
            raise r
        if isinstance(r, dict):
            self.fault = r
        self.sent += bytes(data)
        if b'\r\n\r\n' in self.sent and self.out is None:
            self.out = self.net.respond(self.host, self.sent, self.fault)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        if self.dead is not None:
            raise self.dead
        r = self._point('recv')
        if isinstance(r, Exception):
            self.dead = r
            raise r
        if isinstance(r, dict):
            if r['kind'] == 'neteof' and self.pos < (self.out or b'').find(b'\r\n\r\n') + 4:
                # http.client takes an end inside the headers for the end of the headers; nothing above it can tell
                self.dead = ConnectionResetError(104, 'Connection reset by peer')
                raise self.dead
            if r['kind'] == 'neteof':
                self.out = self.out[:self.pos]
                return b''
            if r['kind'] == 'nettimeout':
                self.net.w.now += 7200
                self.dead = socket.timeout('timed out')
                raise self.dead
            if r['kind'] == 'netslow':
                self.net.w.now += r.get('delta', 10)
        if self.out is None:
            return b''
        n = max(1, min(n, self.net.chunk(n)))
        b = self.out[self.pos:self.pos + n]
        self.pos += len(b)
        return b

    def recv_into(self, buf, nbytes=0, flags=0):
        b = self.recv(nbytes or len(buf))
        buf[:len(b)] = b
        return len(b)

    def makefile(self, mode='r', buffering=None, **k):
        raw = _Raw(self)
        return io.BufferedReader(raw, 8192 if buffering is None or buffering < 0 else max(1, buffering))

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def setblocking(self, f):
        pass

    def shutdown(self, how):
        pass

    def getpeername(self):
        return ('192.0.2.1', 80)

    def getsockname(self):
        return ('192.0.2.2', 34567)

    def fileno(self):
        return -1

    def close(self):
        self.closed = True

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self._s = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self._s.recv_into(b, len(b))


def install():
    import urllib3.util.connection as uc
    real = uc.create_connection

    def create_connection(address, timeout=None, source_address=None, socket_options=None):
        w = seam.active
        if w is not None:
            if w.net is None:
                raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
            return w.net.connect(address, timeout)
        return real(address, timeout, source_address, socket_options)
    uc.create_connection = create_connection
    real2 = socket.create_connection

    def create2(address, *a, **k):
        w = seam.active
        if w is not None:
            if w.net is None:
                raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
            return w.net.connect(address)
        return real2(address, *a, **k)
    socket.create_connection = create2
    real3 = socket.getaddrinfo

    def getaddrinfo(host, port, *a, **k):
        if seam.active is not None:
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        return real3(host, port, *a, **k)
    socket.getaddrinfo = getaddrinfo
