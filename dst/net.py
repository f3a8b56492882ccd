"""Simulated network below requests/urllib3/http.client: sockets, name
resolution and clock are replaced, an FDSN event service model answers.
Everything above the socket (requests, urllib3, http.client, xml.sax and the
code under test) is the real code.
"""
import contextlib
import gzip
import io
import random
import socket
import time
import urllib.parse
import zlib

import urllib3.connection
import urllib3.connectionpool
import urllib3.util.connection
import urllib3.util.wait

from . import qml, sched
from .core import Violation

HOST = 'fdsn.sim'
URL = f'http://{HOST}/fdsnws/event/1/query'


class SimDeadlock(BaseException):
    """The code waits for data that will never come."""


# ------------------------------------------------------------------ clock

class Clock:
    def __init__(self, t0=1_600_000_000.0):
        self.t0 = t0
        self.now = t0

    def advance(self, d):
        self.now += max(0.0, d)

    def sleep(self, d):
        self.advance(d)
        if sched.current is not None:
            sched.current.point()


# ----------------------------------------------------------------- socket

class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.s = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.s._read_into(b)

    def close(self):
        if not self.closed:
            super().close()
            self.s._io_done()


class SimSocket:
    def __init__(self, net, *args):
        self.net = net
        self.timeout = None
        self.plan = []         # segments still to come
        self.inbuf = b''
        self.eof = False
        self.connected = False
        self.closed = False
        self.makefiles = 0
        self.sent = b''
        self.send_fault = None
        self.family = socket.AF_INET
        self.type = socket.SOCK_STREAM
        self.proto = 0

    # -- options
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, a):
        pass

    def fileno(self):
        return -1 if self.closed else 4242

    def getpeername(self):
        return ('10.0.0.1', 80)

    def getsockname(self):
        return ('10.0.0.2', 40000)

    def detach(self):
        self.closed = True
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True
        self._io_done()

    def _io_done(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- traffic
    def connect(self, addr):
        self.net.on_connect(self)
        self.connected = True

    def connect_ex(self, addr):
        self.connect(addr)
        return 0

    def sendall(self, data, flags=0):
        self.net.point()
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        self.net.on_send(self, bytes(data))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        b = bytearray(n)
        k = self._read_into(b)
        return bytes(b[:k])

    def recv_into(self, b, nbytes=0, flags=0):
        return self._read_into(memoryview(b)[:nbytes] if nbytes else b)

    def makefile(self, mode='r', buffering=None, **kw):
        return io.BufferedReader(_Raw(self), 8192
                                 if buffering in (None, -1, 0)
                                 else buffering)

    def readable_now(self):
        return bool(self.inbuf) or self.eof or (
            bool(self.plan) and self.plan[0][0] != 'delay')

    def _read_into(self, b):
        if len(b) == 0:
            return 0
        net = self.net
        net.point()
        while not self.inbuf:
            if self.eof:
                return 0
            if not self.plan:
                if self.timeout is not None:
                    net.clock.advance(self.timeout)
                    raise socket.timeout('timed out')
                raise SimDeadlock('waits for data without end')
            op = self.plan.pop(0)
            if op[0] == 'data':
                self.inbuf = op[1]
            elif op[0] == 'delay':
                d = op[1]
                if self.timeout is not None and d > self.timeout:
                    net.clock.advance(self.timeout)
                    self.plan.insert(0, ('delay', d - self.timeout))
                    raise socket.timeout('timed out')
                net.clock.advance(d)
                net.point()
            elif op[0] == 'eof':
                self.eof = True
            elif op[0] == 'reset':
                self.eof = True
                raise ConnectionResetError(104, 'Connection reset by peer')
            elif op[0] == 'fired':
                net.fired(*op[1:])
        n = min(len(b), len(self.inbuf))
        b[:n] = self.inbuf[:n]
        self.inbuf = self.inbuf[n:]
        net.bytes_in += n
        return n


# ---------------------------------------------------------------- faults

CONNECT_FAULTS = ['dns', 'refused', 'unreachable', 'conn_timeout']
SEND_FAULTS = ['reset_send']
HEAD_FAULTS = ['reset_head', 'eof_head', 'cut_status', 'garbage_head']
BODY_FAULTS = ['reset_body', 'trunc_body', 'bad_chunk', 'bad_gzip',
               'bad_xml', 'html_200', 'text_200']
STATUS_FAULTS = [400, 401, 403, 404, 408, 413, 429, 500, 501, 502, 503, 504]
BENIGN = ['stall', 'redirect']


def gen_fault(rng):
    k = rng.random()
    if k < .14:
        f = dict(kind=rng.choice(CONNECT_FAULTS))
    elif k < .18:
        f = dict(kind='reset_send')
    elif k < .30:
        f = dict(kind=rng.choice(HEAD_FAULTS), at=rng.random())
    elif k < .64:
        f = dict(kind=rng.choice(BODY_FAULTS + ['trunc_body'] * 4
                                 + ['reset_body'] * 2), at=rng.random())
        if rng.random() < .3:
            f['at'] = rng.choice([0.0, 0.999999, 0.5])
    else:
        f = dict(kind='status', code=rng.choice(STATUS_FAULTS),
                 body=rng.choice(['empty', 'html', 'text', 'json', 'qml']))
    return f


# of QuakeML documents; the encoding is declared in the document
CTYPES = ['application/xml', 'text/xml', 'application/octet-stream', None]


def gen_service(rng):
    """How a conforming service frames and delivers its answers."""
    return dict(
        seed=rng.randrange(1 << 30),
        framing=rng.choice(['cl', 'chunked', 'close', 'mixed']),
        coding=rng.choice(['identity', 'identity', 'gzip', 'deflate']),
        nodata=rng.choice(['204', '204', 'empty']),
        seg=rng.choice(['whole', 'mtu', 'tiny', 'mixed']),
        keep=rng.random() < .5,
        delay=rng.choice([0, 0, 1, 2]),
        redirect=rng.random() < .1,
        ctype=rng.choice(CTYPES),
        style=qml.gen_style(rng))


PLAIN_SERVICE = dict(seed=0, framing='cl', coding='identity', nodata='204',
                     seg='whole', keep=False, delay=0, redirect=False,
                     style=qml.DEFAULT_STYLE)

HTML = (b'<html><head><title>Error</title></head><body><h1>Service '
        b'Unavailable</h1><p>try again<br>later</body></html>')


# ----------------------------------------------------------- FDSN service

def instant(text):
    """A time (UTC) as a text to compare, to microseconds."""
    for zone in ('Z', '+00:00'):
        text = text.removesuffix(zone)
    date, _, clock = text.partition('T')
    clock, _, fraction = (clock or '00:00:00').partition('.')
    return f'{date}T{clock}.{fraction[:6].ljust(6, "0")}'


class Service:
    """Model of a conforming FDSN event service over a list of events."""

    def __init__(self, events, conf, growth=None):
        self.events = events        # in the order of the service
        self.conf = conf
        self.ctype = conf.get('ctype', 'application/xml')
        self.growth = growth or []  # [after how many answers, event]
        self.answers = 0

    def visible(self):
        return self.events + [e for k, e in self.growth
                              if self.answers >= k]

    @staticmethod
    def match(ev, q):
        """Whether the event passes the filters of a query."""
        o = next((o for o in ev['origins'] if o['id'] == ev['po']), None)
        m = next((m for m in ev['mags'] if m['id'] == ev['pm']), None)

        def between(lo, hi, x):
            if lo in q and (x is None or x < float(q[lo])):
                return False
            if hi in q and (x is None or x > float(q[hi])):
                return False
            return True

        if not between('minlatitude', 'maxlatitude',
                       float(o['latitude']['value']) if o else None):
            return False
        if not between('minlongitude', 'maxlongitude',
                       float(o['longitude']['value']) if o else None):
            return False
        if not between('minmagnitude', 'maxmagnitude',
                       float(m['mag']['value']) if m else None):
            return False
        t = instant(o['time']['value']) if o else None
        if 'starttime' in q and (t is None or t < instant(q['starttime'])):
            return False
        if 'endtime' in q and (t is None or t > instant(q['endtime'])):
            return False
        if 'eventtype' in q and ev['type'] not in q['eventtype'].split(','):
            return False
        return True

    @classmethod
    def select(cls, events, q):
        evs = [e for e in events if cls.match(e, q)]
        if str(q.get('includeallmagnitudes', 'false')).lower() != 'true':
            evs = [dict(e, mags=[m for m in e['mags'] if m['id'] == e['pm']])
                   for e in evs]
        return evs

    def answer(self, q):
        """(status, body bytes, content type) for the parameters q."""
        evs = self.select(self.visible(), q)
        off = int(q.get('offset', 1))
        if off < 1:
            self.answers += 1
            return 400, b'offset starts at 1', 'text/plain', 0
        evs = evs[off - 1:]
        if 'limit' in q:
            evs = evs[:int(q['limit'])]
        self.answers += 1
        if not evs:
            if q.get('nodata') == '404':
                return 404, b'no data', 'text/plain', 0
            if self.conf['nodata'] == 'empty':
                return 200, b'', self.ctype, 0
            return 204, b'', None, 0
        st = self.conf['style']
        text = qml.write(evs, st)
        return 200, qml.encode(text, st), self.ctype, len(evs)


# ---------------------------------------------------------------- network

class SimNet:
    def __init__(self, service, faults=None, ctx=None, tagged=False):
        self.service = service
        self.conf = service.conf
        # {tag: {ordinal: fault}} or {ordinal: fault}
        self.tagged = tagged
        self.faults = {} if faults is None else faults
        self.ctx = ctx
        self.clock = Clock()
        self.requests = []      # dict(tag, params, pairs, path, ...)
        self.ordinal = {}
        self.fires = []         # (tag, ordinal, kind)
        self.sockets = []
        self.bytes_in = 0
        self.rng = random.Random(self.conf['seed'])

    # -- bookkeeping
    def tag(self):
        if sched.current is not None:
            t = sched.current.task()
            if t is not None:
                return t
        return 0

    def point(self):
        if sched.current is not None:
            sched.current.point()

    def fired(self, tag, n, kind):
        self.fires.append((tag, n, kind))
        if self.ctx is not None:
            self.ctx.fault(kind)
            self.ctx.log('fault', tag, n, kind)

    def _fault(self, kinds):
        tag = self.tag()
        n = self.ordinal.get(tag, 0)
        fs = self.faults.get(str(tag), {}) if self.tagged else self.faults
        f = fs.get(str(n))
        if f is not None and f['kind'] in kinds:
            return tag, n, f
        return tag, n, None

    def _next(self, tag):
        self.ordinal[tag] = self.ordinal.get(tag, 0) + 1

    # -- hooks
    def getaddrinfo(self, host, port, *a, **k):
        self.point()
        tag, n, f = self._fault(['dns'])
        if f:
            self._next(tag)
            self.fired(tag, n, 'dns')
            raise socket.gaierror(-3, 'Temporary failure in name resolution')
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '',
                 ('10.0.0.1', int(port or 80)))]

    def on_connect(self, sock):
        self.point()
        tag, n, f = self._fault(['refused', 'unreachable', 'conn_timeout'])
        if f:
            self._next(tag)
            self.fired(tag, n, f['kind'])
            if f['kind'] == 'refused':
                raise ConnectionRefusedError(111, 'Connection refused')
            if f['kind'] == 'unreachable':
                raise OSError(113, 'No route to host')
            self.clock.advance(127.0 if sock.timeout is None
                               else min(127.0, sock.timeout))
            raise TimeoutError(110, 'Connection timed out')
        self.sockets.append(sock)

    def on_send(self, sock, data):
        tag, n, f = self._fault(['reset_send'])
        if f:
            self._next(tag)
            self.fired(tag, n, 'reset_send')
            sock.eof = True
            raise BrokenPipeError(32, 'Broken pipe')
        sock.sent += data
        while True:
            head, sep, rest = sock.sent.partition(b'\r\n\r\n')
            if not sep:
                return
            clen = 0
            for line in head.split(b'\r\n')[1:]:
                k, _, v = line.partition(b':')
                if k.strip().lower() == b'content-length':
                    clen = int(v)
            if len(rest) < clen:
                return
            body, sock.sent = rest[:clen], rest[clen:]
            self.on_request(sock, head, body)

    def on_request(self, sock, head, body):
        tag = self.tag()
        n = self.ordinal.get(tag, 0)
        self._next(tag)
        lines = head.decode('latin1').split('\r\n')
        method, target, _ = lines[0].split(' ', 2)
        headers = {}
        for ln in lines[1:]:
            k, _, v = ln.partition(':')
            headers[k.strip().lower()] = v.strip()
        u = urllib.parse.urlsplit(target)
        query = u.query
        if method == 'POST':
            query = body.decode('latin1').replace('\n', '&')
        pairs = urllib.parse.parse_qsl(query, keep_blank_values=True)
        req = dict(tag=tag, n=n, method=method, path=u.path, pairs=pairs,
                   params=dict(pairs), host=headers.get('host'),
                   events=None, status=None)
        self.requests.append(req)
        if self.ctx is not None:
            self.ctx.log('request', tag, n, u.path, pairs)
            self.ctx.steps += 1
        r = self.rng
        if self.conf['redirect'] and not u.path.startswith('/moved') \
                and r.random() < .5:
            loc = f'http://{HOST}/moved{u.path}?{u.query}'
            if self.ctx is not None:
                self.ctx.fault('redirect')
            req['redirected'] = True
            self._reply(sock, r.choice([301, 302, 307, 308]), b'', None,
                        headers, req, None, extra=[('Location', loc)])
            return
        fs = self.faults.get(str(tag), {}) if self.tagged else self.faults
        f = fs.get(str(n))
        status, data, ctype, nev = self.service.answer(req['params'])
        if f is not None and f['kind'] == 'status':
            code = f['code']
            if code == 404 and req['params'].get('nodata') == '404':
                code = 500
            data = {'empty': b'', 'html': HTML,
                    'text': b'Error: something failed', 'json': b'{"e": 1}',
                    'qml': data}[f['body']]
            self.fired(tag, n, f'status_{code}')
            req['status'] = code
            self._reply(sock, code, data, 'text/html', headers, req, None)
            return
        req['status'], req['events'] = status, nev
        self._reply(sock, status, data, ctype, headers, req, f)

    # -- answers
    def _reply(self, sock, status, data, ctype, headers, req, f, extra=()):
        r, conf = self.rng, self.conf
        tag, n = req['tag'], req['n']
        kind = f['kind'] if f else None
        mark = ('fired', tag, n, kind)
        if kind in ('bad_xml', 'html_200', 'text_200'):
            if status in (200, 204):
                status = 200
                if kind == 'html_200':
                    data = HTML
                elif kind == 'text_200':
                    data = b'Error 500: database is not available\n'
                else:
                    i = int(f['at'] * len(data))
                    data = b'<q:quakeml xmlns:q="q"><e' if not data \
                        else data[:i] + b'<\x01&' + data[i:]
                ctype = 'text/html'
                self.fired(*mark[1:])
        coding = conf['coding']
        accept = headers.get('accept-encoding', '')
        plain = data
        enc = None
        if data and coding != 'identity' and coding in accept:
            enc = coding
            if coding == 'gzip':
                data = gzip.compress(data, mtime=0)
            else:
                data = zlib.compress(data)
            if kind == 'bad_gzip':
                i = int(f['at'] * len(data))
                bad = bytes([data[0] ^ 0xff]) + data[1:] if i < 10 else \
                    data[:i] + b'\x00\xff\x00\xff\x55' + data[i:]
                if _decoded(bad, coding) is None:
                    data = bad
                    self.fired(*mark[1:])
        framing = conf['framing']
        if framing == 'mixed':
            framing = r.choice(['cl', 'chunked', 'close'])
        if headers.get('connection', '').lower() == 'close':
            pass
        nobody = status == 204 or (status == 304)
        keep = conf['keep'] and framing != 'close'
        hs = [('Server', 'sim'), ('Date', 'Mon, 01 Jan 2024 00:00:00 GMT')]
        if ctype:
            hs.append(('Content-Type', ctype))
        if enc:
            hs.append(('Content-Encoding', enc))
        hs += list(extra)
        chunks = [data]
        wire_body = data
        if nobody:
            wire_body = b''
            framing = 'none'
        elif framing == 'cl':
            hs.append(('Content-Length', str(len(data))))
        elif framing == 'chunked':
            hs.append(('Transfer-Encoding', 'chunked'))
            wire_body, i = b'', 0
            while i < len(data):
                k = r.choice([1, 7, 100, 1000, 8191, 100000])
                if len(data) > 20000:
                    k = max(k, 1000)
                c = data[i:i + k]
                wire_body += b'%x\r\n' % len(c) + c + b'\r\n'
                i += k
            if kind == 'bad_chunk' and wire_body:
                j = wire_body.find(b'\r\n')
                wire_body = b'zz' + wire_body[j:]
                self.fired(*mark[1:])
            wire_body += b'0\r\n\r\n'
        if not keep:
            hs.append(('Connection', 'close'))
        reason = {200: 'OK', 204: 'No Content', 404: 'Not Found',
                  302: 'Found'}.get(status, 'Status')
        head = (f'HTTP/1.1 {status} {reason}\r\n' + ''.join(
            f'{k}: {v}\r\n' for k, v in hs) + '\r\n').encode('latin1')
        plan = []
        if conf['delay']:
            plan.append(('delay', r.choice([0.01, 0.5, 5.0, 59.0, 400.0])
                         if conf['delay'] == 2 else r.random()))
            if plan[-1][1] > 5 and self.ctx is not None:
                self.ctx.fault('stall')
        if kind == 'reset_head':
            i = int(f['at'] * len(head))
            plan += self._segs(head[:i]) + [mark, ('reset',)]
        elif kind == 'eof_head':
            plan += [mark, ('eof',)]
        elif kind == 'cut_status':
            plan += [('data', head[:1 + int(f['at'] * 11)]), mark, ('eof',)]
        elif kind == 'garbage_head':
            plan += [mark, ('data', b'\x00\x01SSH-2.0 nonsense\r\n\r\n'),
                     ('eof',)]
        elif kind in ('reset_body', 'trunc_body') and wire_body:
            i = min(int(f['at'] * len(wire_body)), len(wire_body) - 1)
            if kind == 'trunc_body' and framing == 'chunked' and \
                    i >= len(wire_body) - 5:
                # only the end marker is lost; everything had arrived
                i = len(wire_body) - 6
            if kind == 'trunc_body' and framing == 'close' and not \
                    _decoded_prefix(wire_body[:i], enc):
                # cannot be told from an empty answer by anybody
                plan += self._segs(head) + self._segs(wire_body)
            else:
                plan += self._segs(head) + self._segs(wire_body[:i])
                plan += [mark, ('reset',) if kind == 'reset_body'
                         else ('eof',)]
                if framing == 'close' and kind == 'trunc_body' and \
                        _decoded_prefix(wire_body[:i], enc).rstrip() == \
                        plain.rstrip():
                    # all of the text arrived
                    plan.remove(mark)
        else:
            plan += self._segs(head) + self._segs(wire_body)
        if not keep or kind:
            plan.append(('eof',))
        sock.plan += plan

    def _segs(self, data):
        r, seg = self.rng, self.conf['seg']
        if seg == 'mixed':
            seg = r.choice(['whole', 'mtu', 'tiny'])
        if seg == 'whole' or not data:
            return [('data', data)] if data else []
        out, i = [], 0
        while i < len(data):
            k = 1460 if seg == 'mtu' else r.choice([1, 2, 3, 17, 64, 333])
            if seg == 'tiny' and len(data) > 4000:
                k = k + 150
            out.append(('data', data[i:i + k]))
            i += k
            if self.conf['delay'] == 2 and r.random() < .05:
                out.append(('delay', r.choice([0.1, 30.0, 300.0])))
                if self.ctx is not None and out[-1][1] > 5:
                    self.ctx.fault('stall')
        return out

    # -- installing
    @contextlib.contextmanager
    def installed(self):
        net = self

        def wait_for_socket(sock, read=False, write=False, timeout=None):
            return sock.readable_now() if read else True

        saved = (socket.socket, socket.getaddrinfo,
                 urllib3.util.wait.wait_for_socket, time.sleep)
        saved_t = (time.time, time.monotonic)
        socket.socket = lambda *a, **k: SimSocket(net, *a)
        socket.getaddrinfo = net.getaddrinfo
        urllib3.util.wait.wait_for_socket = wait_for_socket
        time.sleep = net.clock.sleep
        time.time = lambda: net.clock.now
        time.monotonic = lambda: net.clock.now - net.clock.t0
        try:
            yield net
        finally:
            socket.socket, socket.getaddrinfo = saved[:2]
            urllib3.util.wait.wait_for_socket, time.sleep = saved[2:]
            time.time, time.monotonic = saved_t
            if self.ctx is not None:
                self.ctx.sim_time += net.clock.now - net.clock.t0


def _decoded(data, coding):
    try:
        return gzip.decompress(data) if coding == 'gzip' \
            else zlib.decompress(data)
    except Exception:
        return None


def _decoded_prefix(data, enc):
    if not enc:
        return data
    try:
        return zlib.decompressobj(31 if enc == 'gzip' else 15) \
            .decompress(data)
    except zlib.error:
        return b''


def call_deadlock(fn):
    """fn(), with waiting forever reported as a violation."""
    try:
        return fn()
    except SimDeadlock as e:
        raise Violation('waits-forever', str(e))
