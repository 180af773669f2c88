"""Simulated network: HTTP(S) for requests and urllib, FTP for ftplib.

Real: requests (sessions, request preparation, status handling, decoding),
urllib3's response reading, urllib.request, http.client's response parser,
ftplib.  Simulated: everything from the socket on, i.e. servers, latency,
refused or dropped connections, timeouts, short bodies.
"""
import collections
import email.message
import http.client
import io
import json
import socket
import urllib.error
import urllib.parse
import urllib.request

from .core import SimHang


class Req:
    def __init__(self, method, url, headers, body, seq, t, via):
        self.method, self.url = method, url
        self.headers = {k.lower(): v for k, v in dict(headers).items()}
        self.body = body or b''
        u = urllib.parse.urlsplit(url)
        self.scheme, self.host, self.path = u.scheme, u.hostname, u.path
        self.netloc = u.netloc
        self.query = urllib.parse.parse_qsl(u.query, keep_blank_values=True)
        self.seq, self.t, self.via = seq, t, via

    @property
    def params(self):
        d = collections.OrderedDict()
        for k, v in self.query:
            d[k] = v
        return d

    @property
    def json(self):
        return json.loads(self.body.decode('utf-8'))

    @property
    def form(self):
        return dict(urllib.parse.parse_qsl(self.body.decode('utf-8'),
                                           keep_blank_values=True))


class Reply:
    def __init__(self, status=200, body=b'', ctype='application/json',
                 latency=0.05, headers=None, length=True):
        if isinstance(body, str):
            body = body.encode('utf-8')
        elif isinstance(body, (dict, list)):
            body = json.dumps(body).encode('utf-8')
        self.status, self.body, self.ctype = status, body, ctype
        self.latency = latency
        self.headers = dict(headers or {})
        self.length = length


REASONS = http.client.responses


class _Body(io.RawIOBase):
    """Response body; may deliver in small pieces and may break off."""

    def __init__(self, net, data, fault_at=None, fault=None, chunk=None):
        self.net, self.data, self.pos = net, data, 0
        self.fault_at, self.fault, self.chunk = fault_at, fault, chunk
        self.eof_reads = 0
        net.open_bodies += 1
        self._open = True

    def readable(self):
        return True

    def read(self, n=-1):
        if self.fault_at is not None and self.pos >= self.fault_at:
            raise self.fault
        end = len(self.data)
        if self.fault_at is not None:
            end = min(end, self.fault_at)
        if self.pos >= end:
            if self.fault_at is not None:
                raise self.fault
            self.eof_reads += 1
            if self.eof_reads > 30000:
                raise SimHang('reads past the end of the body')
            return b''
        m = end - self.pos if n is None or n < 0 else min(n, end - self.pos)
        if self.chunk and n is not None and n >= 0:
            m = min(m, self.chunk)
        out = self.data[self.pos:self.pos + m]
        self.pos += m
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)

    def close(self):
        if self._open:
            self._open = False
            self.net.open_bodies -= 1
        super().close()


class _FakeSock:
    """what http.client.HTTPResponse needs of a socket"""

    def __init__(self, raw):
        self.raw = raw

    def makefile(self, mode):
        return io.BufferedReader(self.raw)


class _Original:
    """the http.client response urllib3 closes when reading fails"""

    def __init__(self, raw):
        self.raw = raw
        self.msg = email.message.Message()

    def close(self):
        self.raw.close()

    def isclosed(self):
        return self.raw.closed


class NetFault:
    """One scheduled fault: strikes the step-th request of the run, or of
    the requests whose URL contains the given text."""

    def __init__(self, d):
        self.step = d['step']
        self.kind = d['kind']
        self.arg = d.get('arg', 0)
        self.count = d.get('count', 1)
        self.url = d.get('url')
        self.seen = 0

    def strikes(self, url, n):
        if self.url:
            if self.url not in url:
                return False
            n = self.seen
            self.seen += 1
        return self.step <= n < self.step + self.count


class Net:
    REQUEST_BUDGET = 3000

    def __init__(self, sim, server, faults=(), chunk=None):
        self.sim, self.server = sim, server
        self.faults = [NetFault(f) for f in faults]
        self.requests = []
        self.nreq = 0
        self.open_bodies = 0
        self.open_socks = 0
        self.chunk = chunk
        self.ftp_files = {}          # path -> bytes
        self.ftp_faults = []
        self.ftp_ops = 0
        self.ftp_log = []
        self.ftp_creds = None
        self.fired = []
        self.struck_last = False
        self.response_time = 0.0

    # -- shared ----------------------------------------------------------
    def _begin(self, method, url, headers, body, via):
        self.nreq += 1
        if self.nreq > self.REQUEST_BUDGET:
            raise SimHang(f'more than {self.REQUEST_BUDGET} requests')
        req = Req(method, url, headers, body, self.nreq, self.sim.now, via)
        self.requests.append(req)
        self.sim.event('request', method, url, len(req.body))
        fault = None
        for f in self.faults:
            if f.strikes(url, self.nreq - 1):
                fault = f
        self.struck_last = fault is not None
        return req, fault

    def _reply(self, req):
        rep = self.server(req, self)
        self.spend(rep.latency)
        self.sim.event('reply', rep.status, len(rep.body))
        return rep

    def spend(self, dt):
        """time that passes while the caller waits for the network"""
        self.response_time += max(0.0, dt)
        self.sim.advance(dt)

    def hurt_last(self):
        """did a fault strike the last request?"""
        return self.struck_last

    def _fire(self, f, *args):
        self.fired.append(f.kind)
        self.sim.fault('net:' + f.kind, *args)

    def _mutate(self, fault, req, rep):
        """faults that replace the reply of a server that did get the
        request"""
        k = fault.kind
        if k.startswith('http_'):
            self._fire(fault)
            status = int(k[5:8])
            style = k[9:] or 'html'
            if style == 'html':
                return Reply(status, '<html><body><h1>Error</h1>'
                             f'<p>{status}</p></body></html>', 'text/html')
            if style == 'empty':
                return Reply(status, b'', 'text/plain')
            if style == 'data':
                # (an error with the body of a success: stale, of another
                # version, or from a broken gateway)
                rep.status = status
                return rep
            if style == 'service':
                maker = getattr(self.server, 'error', None)
                if maker is not None:
                    return maker(req, status)
                return Reply(status, {'error': 'x'})
        if k == 'redirect_loop':
            self._fire(fault)
            return Reply(307, b'', 'text/plain', headers={
                'Location': req.url})
        if k == 'empty_body':
            self._fire(fault)
            return Reply(rep.status, b'', rep.ctype)
        if k == 'html_page':
            self._fire(fault)
            return Reply(200, '<!DOCTYPE html>\n<html><head><title>Login'
                         '</title></head>\n<body>\n<p>Please sign in, then '
                         'retry.</p>\n</body>\n</html>\n', 'text/html')
        if k == 'truncated':
            self._fire(fault)
            n = len(rep.body)
            cut = min(n - 1, max(0, int(n * fault.arg)))
            return Reply(rep.status, rep.body[:cut], rep.ctype,
                         length=False)
        if k == 'slow':
            self._fire(fault)
            self.spend(fault.arg or 10)
        return rep

    def _body(self, fault, rep):
        if fault is not None and fault.kind in ('cut_body', 'reset_body',
                                                'timeout_body'):
            self._fire(fault)
            n = len(rep.body)
            at = min(n - 1, max(0, int(n * fault.arg)))
            if fault.kind == 'cut_body':
                return _Body(self, rep.body[:at], chunk=self.chunk), True
            exc = (ConnectionResetError(104, 'Connection reset by peer')
                   if fault.kind == 'reset_body' else
                   socket.timeout('timed out'))
            return _Body(self, rep.body, at, exc, chunk=self.chunk), True
        return _Body(self, rep.body, chunk=self.chunk), False

    # -- requests --------------------------------------------------------
    def requests_send(self, adapter, request, timeout):
        import requests
        from urllib3.response import HTTPResponse
        from urllib3.exceptions import ProtocolError, NewConnectionError
        body = request.body
        if isinstance(body, str):
            body = body.encode('utf-8')
        req, fault = self._begin(request.method, request.url,
                                 request.headers, body, 'requests')
        if fault is not None:
            k = fault.kind
            if k in ('refused', 'dns'):
                self._fire(fault)
                raise requests.exceptions.ConnectionError(
                    'Failed to establish a new connection', request=request)
            if k == 'connect_timeout':
                self._fire(fault)
                self.spend(_first(timeout) or 130)
                raise requests.exceptions.ConnectTimeout(
                    'connect timed out', request=request)
            if k == 'read_timeout':
                self._fire(fault)
                self.server(req, self)
                self.spend(_first(timeout) or 3600)
                raise requests.exceptions.ReadTimeout(
                    'read timed out', request=request)
            if k == 'reset':
                self._fire(fault)
                raise requests.exceptions.ConnectionError(
                    ProtocolError('Connection aborted.', ConnectionResetError(
                        104, 'Connection reset by peer')), request=request)
        rep = self._reply(req)
        if fault is not None:
            rep = self._mutate(fault, req, rep)
        raw, broken = self._body(fault, rep)
        headers = {'Content-Type': rep.ctype, **rep.headers}
        if rep.length or broken:
            headers['Content-Length'] = str(len(rep.body))
        hr = HTTPResponse(body=raw, headers=headers, status=rep.status,
                          reason=REASONS.get(rep.status, ''),
                          preload_content=False, decode_content=False,
                          request_method=request.method,
                          enforce_content_length=True,
                          original_response=_Original(raw))
        resp = adapter.build_response(request, hr)
        return resp

    # -- urllib ----------------------------------------------------------
    def urllib_open(self, req):
        url = req.full_url
        headers = dict(req.headers)
        headers.update(req.unredirected_hdrs)
        for k, v in urllib.request._opener.addheaders:
            headers.setdefault(k, v)
        r, fault = self._begin(req.get_method(), url, headers, req.data,
                               'urllib')
        if fault is not None:
            k = fault.kind
            if k in ('refused', 'dns', 'connect_timeout'):
                self._fire(fault)
                raise urllib.error.URLError(
                    ConnectionRefusedError(111, 'Connection refused')
                    if k == 'refused' else
                    socket.gaierror(-2, 'Name or service not known')
                    if k == 'dns' else socket.timeout('timed out'))
            if k == 'read_timeout':
                self._fire(fault)
                self.spend(3600)
                raise TimeoutError('The read operation timed out')
            if k == 'reset':
                self._fire(fault)
                raise http.client.RemoteDisconnected(
                    'Remote end closed connection without response')
        rep = self._reply(r)
        if fault is not None:
            rep = self._mutate(fault, r, rep)
        raw, broken = self._body(fault, rep)
        head = f'HTTP/1.1 {rep.status} {REASONS.get(rep.status, "")}\r\n'
        head += f'Content-Type: {rep.ctype}\r\n'
        for k, v in rep.headers.items():
            head += f'{k}: {v}\r\n'
        if rep.length or broken:
            head += f'Content-Length: {len(rep.body)}\r\n'
        head += 'Connection: close\r\n\r\n'
        if raw.fault_at is not None:
            raw.fault_at += len(head)
        raw.data = head.encode('latin-1') + raw.data
        if raw.chunk:
            raw.chunk = max(raw.chunk, 1)
        resp = http.client.HTTPResponse(_FakeSock(raw), method=req.get_method(),
                                        url=url)
        resp.begin()
        resp.url = url
        resp.msg = resp.reason
        return resp

    # -- FTP -------------------------------------------------------------
    def create_connection(self, address, timeout=None):
        host, port = address[0], address[1]
        self.sim.event('connect', host, port)
        if port == 21:
            f = self._ftp_fault('connect')
            if f:
                raise ConnectionRefusedError(111, 'Connection refused')
            return FtpControl(self, host)
        if port in FtpControl.pending:
            return FtpControl.pending.pop(port)
        raise ConnectionRefusedError(111, f'Connection refused: {address}')

    def _ftp_fault(self, op):
        """faults on the FTP exchange: {'op': name, 'nth': k, 'kind': ...}"""
        for f in self.ftp_faults:
            if f['op'] == op:
                if f.get('nth', 0) == f.setdefault('_seen', 0):
                    f['_seen'] += 1
                    self.fired.append('ftp:' + f['kind'])
                    self.sim.fault('net:ftp:' + f['kind'], op)
                    return f
                f['_seen'] += 1
        return None


def _first(timeout):
    if isinstance(timeout, (tuple, list)):
        timeout = timeout[-1]
    return timeout


class _SockBase:
    def __init__(self, net):
        self.net = net
        self.closed = False
        net.open_socks += 1

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.open_socks -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FtpControl(_SockBase):
    """Server side of an FTP control connection, driven synchronously."""
    family = socket.AF_INET
    pending = {}
    _port = [40000]

    def __init__(self, net, host):
        super().__init__(net)
        self.out = bytearray(b'220 ready\r\n')
        self.cwd = ''
        self.user = None
        self.authed = False
        self.data = None
        self.dead = False

    def getpeername(self):
        return ('192.0.2.1', 21)

    def makefile(self, mode='r', buffering=None, encoding=None, **kw):
        ctl = self

        class R(io.RawIOBase):
            def readable(self):
                return True

            def readinto(self, b):
                if ctl.dead:
                    raise ConnectionResetError(104, 'Connection reset')
                n = min(len(b), len(ctl.out))
                b[:n] = ctl.out[:n]
                del ctl.out[:n]
                return n
        return io.TextIOWrapper(io.BufferedReader(R()),
                                encoding=encoding or 'utf-8', newline='')

    def sendall(self, data, *a):
        if self.dead:
            raise BrokenPipeError(32, 'Broken pipe')
        for line in bytes(data).decode('utf-8').split('\r\n'):
            if line:
                self._cmd(line)

    def _say(self, s):
        self.out += (s + '\r\n').encode()

    def _cmd(self, line):
        net = self.net
        net.ftp_ops += 1
        if net.ftp_ops > 20000:
            raise SimHang('FTP command budget exceeded')
        cmd, _, arg = line.partition(' ')
        cmd = cmd.upper()
        net.ftp_log.append((cmd, arg))
        net.sim.event('ftp', cmd, arg if cmd != 'PASS' else '***')
        net.sim.advance(0.02)
        f = net._ftp_fault(cmd)
        if f:
            k = f['kind']
            if k == 'reset':
                self.dead = True
                return
            if k == 'busy':
                self._say('421 Too many users')
                return
            if k == 'temp':
                self._say('450 Requested file action not taken')
                return
            if k == 'denied':
                self._say('550 Permission denied.')
                return
            if k == 'eof':
                self.out.clear()
                return
        if cmd == 'USER':
            self.user = arg
            self._say('331 password please')
        elif cmd == 'PASS':
            ok = net.ftp_creds is None or (self.user, arg) == net.ftp_creds
            self.authed = ok
            self._say('230 ok' if ok else '530 Login incorrect.')
        elif not self.authed and cmd != 'QUIT':
            self._say('530 Please login with USER and PASS.')
        elif cmd == 'CWD':
            p = self._path(arg)
            if any(x.startswith(p + '/') for x in net.ftp_files):
                self.cwd = p
                self._say('250 ok')
            else:
                self._say('550 Failed to change directory.')
        elif cmd == 'PWD':
            self._say(f'257 "/{self.cwd}"')
        elif cmd == 'TYPE':
            self._say('200 ok')
        elif cmd in ('PASV', 'EPSV'):
            if cmd == 'EPSV':
                self._say('502 not implemented')
                return
            FtpControl._port[0] += 1
            port = FtpControl._port[0]
            self.data = FtpData(net)
            FtpControl.pending[port] = self.data
            self._say(f'227 Entering Passive Mode (192,0,2,1,{port >> 8},'
                      f'{port & 255})')
        elif cmd == 'SIZE':
            p = self._path(arg)
            if p in net.ftp_files:
                self._say(f'213 {len(net.ftp_files[p])}')
            else:
                self._say('550 no such file')
        elif cmd in ('NLST', 'LIST'):
            d = self._path(arg) if arg else self.cwd
            names = sorted(x.split('/')[-1] for x in net.ftp_files
                           if x.rsplit('/', 1)[0] == d)
            self.data.feed(''.join(n + '\r\n' for n in names).encode())
            self._say('150 here')
            self._say('226 done')
        elif cmd == 'RETR':
            p = self._path(arg)
            if p not in net.ftp_files:
                self._say('550 Failed to open file.')
                return
            body = net.ftp_files[p]
            f = net._ftp_fault('data')
            self._say('150 Opening BINARY mode data connection')
            if f and f['kind'] == 'data_reset':
                cut = int(len(body) * f.get('arg', 0.5))
                self.data.feed(body[:cut], ConnectionResetError(104, 'reset'))
                self.dead = False
                self._say('426 Connection closed; transfer aborted.')
            elif f and f['kind'] == 'data_short':
                cut = int(len(body) * f.get('arg', 0.5))
                self.data.feed(body[:cut])
                self._say('426 Connection closed; transfer aborted.')
            elif f and f['kind'] == 'data_timeout':
                cut = int(len(body) * f.get('arg', 0.5))
                self.data.feed(body[:cut], socket.timeout('timed out'))
            else:
                self.data.feed(body)
                self._say('226 Transfer complete.')
        elif cmd == 'QUIT':
            self._say('221 Goodbye.')
        else:
            self._say('502 Command not implemented.')

    def _path(self, arg):
        arg = arg.strip()
        if arg.startswith('/'):
            return arg.strip('/')
        return (self.cwd + '/' + arg).strip('/') if self.cwd else \
            arg.strip('/')


class FtpData(_SockBase):
    family = socket.AF_INET

    def __init__(self, net):
        super().__init__(net)
        self.buf, self.exc, self.pos = b'', None, 0

    def feed(self, data, exc=None):
        self.buf, self.exc = data, exc

    def recv(self, n):
        size = self.net.chunk or n
        out = self.buf[self.pos:self.pos + min(n, size)]
        self.pos += len(out)
        if not out and self.exc is not None:
            raise self.exc
        return out

    def makefile(self, *a, **k):
        sock = self

        class R(io.RawIOBase):
            def readable(self):
                return True

            def readinto(self, b):
                out = sock.recv(len(b))
                b[:len(out)] = out
                return len(out)
        return io.BufferedReader(R())
