"""C24: a fault on one connection or file stays contained."""
import errno
from vlib import *
from hold import Held
import c03, c12, hostile, mp

ROUTES = [('hold', '-', 'GET:/h'), ('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('logs', '-', 'GET:/l'), ('helper', '-', 'POST:/x'), ('dump', 'byq', 'GET:/f'), ('dump', '-', 'GET:/p/{id}')]
WWW = {'index.html': b'<html>index</html>', 'a.txt': b'text' * 700, 'big.bin': bytes(range(256)) * 4000, 'd/index.html': b'folder'}
BAD = '127.0.0.66'
H = b' HTTP/1.1\r\nHost: h\r\n'
FORM = b'--BB\r\nContent-Disposition: form-data; name="a"\r\n\r\nv\r\n--BB\r\nContent-Disposition: form-data; name="f"; filename="n.txt"\r\n\r\ncontent\r\n--BB--\r\n'
UPLOAD = b'POST /api/d' + H + b'Content-Type: multipart/form-data; boundary=BB\r\nContent-Length: %d\r\n\r\n' % len(FORM) + FORM
PROBES = {'static': b'GET /a.txt' + H + b'\r\n', 'big': b'GET /big.bin' + H + b'\r\n', 'handler': b'GET /api/d?x=1' + H + b'X-Session: s\r\n\r\n', 'body': b'POST /api/d' + H + b'Content-Length: 9\r\n\r\nbodybytes',
          'json': b'POST /api/x?op=json' + H + b'Content-Length: 9\r\n\r\n{"a":"b"}', 'upload': UPLOAD, 'refused': b'GET /api/f?v=0' + H + b'\r\n', 'none': b'GET /nothing' + H + b'\r\n', 'bad': b'HEAD /' + H + b'\r\n'}


class Healthy:
    """Other clients, whose exchanges are compared with what they get from an undisturbed server."""

    def __init__(self, ctx, srv):
        self.ctx, self.srv = ctx, srv
        self.want = {k: srv.request(d).data for k, d in PROBES.items()}
        for k, v in self.want.items():
            parse_response(v)
        if not self.want['static'].endswith(WWW['a.txt']) or not self.want['big'].endswith(WWW['big.bin']):
            raise Violation('baseline', 'an undisturbed server does not serve its files')
        self.err = None

    def once(self, names=None, when='during'):
        for k in names or PROBES:
            res = self.srv.request(PROBES[k], src='127.0.0.1')
            if res.data != self.want[k]:
                self.srv.check()
                raise Violation('disturbed', '%s the fault, another connection (%s) gets %r instead of %r' % (when, k, short(res.data, 200), short(self.want[k], 200)))
            self.ctx.count('healthy_exchanges')

    def background(self):
        self.stop = False

        def work(i):
            ks = list(PROBES)
            while not self.stop and not self.err:
                try:
                    self.once([ks[i % len(ks)]])
                except BaseException as e:
                    self.err = self.err or e
                i += 1
        self.ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in (0, 4)]
        for t in self.ts:
            t.start()
        return self

    def __enter__(self):
        return self.background()

    def __exit__(self, *a):
        self.stop = True
        for t in self.ts:
            t.join()
        if self.err:
            e, self.err = self.err, None
            self.srv.check()
            raise e


def bad(srv, data, timeout=TIMEOUT):
    """The connection at which the fault is aimed: whatever it gets is fine."""
    try:
        return srv.request(data, src=BAD, half=True, timeout=timeout)
    except OSError:
        return None


def answered(srv, data, fault, src=BAD):
    """The fault is on a file or a name, so the connection works, and gets its one answer."""
    res = srv.request(data, src=src)
    if srv.tls and not res.data and (res.err or res.reset):
        return res
    try:
        c03.one_response(res, data)
    except Violation as v:
        srv.check()
        raise Violation('one-answer', 'with %s: %s' % (fault, v.msg), **v.data)
    return res


class TlsClient:
    """A TLS client whose bytes on the wire can be cut anywhere."""

    def __init__(self, srv, data, cut, src=BAD):
        self.s = connect(srv.port, srv.addr, src)
        inc, out = ssl.MemoryBIO(), ssl.MemoryBIO()
        o = ssl_ctx().wrap_bio(inc, out)
        sent, self.total, self.up = 0, 0, False
        self.s.settimeout(TIMEOUT)
        while True:
            try:
                if not self.up:
                    o.do_handshake()
                    self.up = True
                    o.write(data)
                else:
                    try:
                        o.read(65536)
                    except (ssl.SSLZeroReturnError, ssl.SSLEOFError):
                        break
            except ssl.SSLWantReadError:
                pass
            except ssl.SSLError:
                break
            w = out.read()
            if w:
                self.total += len(w)
                n = len(w) if cut is None else max(0, min(len(w), cut - sent))
                try:
                    if n:
                        self.s.sendall(w[:n])
                except OSError:
                    break
                sent += n
                if cut is not None and sent >= cut:
                    break
            try:
                d = self.s.recv(65536)
            except OSError:
                break
            if not d:
                break
            inc.write(d)


def run(ctx):
    ctx.rule = ('a fault at each point of an exchange (each byte received or sent, each kind of accept error, each cut of a TLS handshake, descriptors, logs, uploads) while other clients '
                'compare every byte they get, and again once the fault is gone; non-trivial: distinct (fault, point)')
    r = ctx.rng
    q = ctx.quick
    srv = Server(ctx, routes=ROUTES, www=WWW, level=3, cov=True, quiet=True, limits=b'/, 190, 180\n')
    hl = Healthy(ctx, srv)
    srv.fault(src=66)
    # reads that fail or end at each byte
    reqs = [PROBES['handler'], PROBES['body'], UPLOAD, PROBES['static']]
    with hl:
        for qi, d in enumerate(reqs):
            for err in (0, errno.ECONNRESET) if q else (0, errno.ECONNRESET, errno.EINTR, errno.ETIMEDOUT, errno.EIO):
                srv.fault(recv_err=err)
                step = 1 if not q or len(d) < 120 else 3
                for k in range(0, len(d) + 1, step):
                    srv.fault(recv_after=k)
                    bad(srv, d)
                    ctx.case(('recv', qi, err, k), {'fault': 'recv fails (%d) after %d bytes' % (err, k), 'request': short(d, 60)} if k % 50 == 0 else None)
                    if hl.err:
                        break
        srv.fault(recv_after=-1)
    srv.check()
    hl.once(when='after')
    # writes that fail or are short
    with hl:
        for name in ('static', 'json', 'refused', 'big'):
            n = len(hl.want[name])
            for err in (errno.EPIPE, errno.ECONNRESET) if q else (errno.EPIPE, errno.ECONNRESET, errno.EINTR, errno.ENOBUFS, errno.EIO):
                srv.fault(send_err=err)
                pts = sorted(set(list(range(0, min(n, 90))) + [n - 1, n] + [r.randrange(n) for _ in range(10)]))
                for k in pts[::2] if q else pts:
                    srv.fault(send_after=k)
                    bad(srv, PROBES[name])
                    ctx.case(('send', name, err, k))
                    if hl.err:
                        break
        srv.fault(send_after=-1)
        srv.fault(send_short=1)
        for name, d in PROBES.items():
            bad(srv, d)
            ctx.case(('short', name))
        srv.fault(send_short=0)
    srv.fault(src=0)
    srv.check()
    hl.once(when='after')
    # clients that reset, close, stall or stop reading at each byte
    with hl:
        for qi, d in enumerate(reqs + [PROBES['big']]):
            for how in ('rst', 'close', 'half', 'stall'):
                stalled = []
                for k in range(0, len(d) + 1, 4 if q else 1):
                    s = connect(srv.port, src=BAD)
                    try:
                        s.sendall(d[:k])
                        if how == 'rst':
                            rst(s)
                        elif how == 'half':
                            s.shutdown(socket.SHUT_WR)
                            if k % 3 == 0:
                                read_all(s, Result())
                        elif how == 'stall':
                            stalled.append(s)
                            if len(stalled) > 60:
                                stalled.pop(0).close()
                    except OSError:
                        pass
                    if how != 'stall':
                        s.close()
                    ctx.case((how, qi, k))
                if how == 'stall':
                    hl_once_err(hl)
                for s in stalled:
                    s.close()
                if hl.err:
                    break
    srv.idle()
    srv.check()
    hl.once(when='after')
    # accepts that fail, while one connection is being served
    for err in (errno.EMFILE, errno.ENFILE, errno.ECONNABORTED, errno.EINTR, errno.EPROTO, errno.ENOMEM, errno.ENOBUFS, errno.EPERM, errno.ENETDOWN, errno.EAGAIN):
        for n in (1, 3, 40) if q else (1, 2, 3, 40, 500):
            srv.ctl('quiet 0')
            h = Held(srv, b'/api/h', '127.0.0.7')
            if h.settle() != 'in':
                raise HarnessError('not admitted')
            srv.ctl('quiet 1')
            srv.fault(accept_err=err)
            srv.fault(accept_n=n)
            t = time.monotonic()
            while True:
                # a client may be lost to the fault, and has to be served once it is over
                try:
                    res = srv.request(PROBES['handler'])
                    if res.data == hl.want['handler']:
                        break
                except OSError:
                    pass
                srv.check()
                if time.monotonic() > t + TIMEOUT:
                    raise Hang('no service after %d failing accepts (%s)' % (n, errno.errorcode[err]))
            srv.fault(accept_n=0)
            srv.check()
            h.end('release')
            hl.once(['static', 'body'], when='after')
            ctx.case(('accept', err, n), {'fault': '%d accepts fail with %s' % (n, errno.errorcode[err])} if n == 3 else None)
    # real descriptor exhaustion
    for spare in (0, 1, 2, 3, 5):
        fds = int(srv.ctl('stats x')['fds'])
        srv.ctl('nofile %d' % (fds + spare))
        ss = []
        for i in range(12):
            s = connect(srv.port, src=BAD)
            try:
                s.sendall(r.choice(list(PROBES.values()))[:r.choice((10, 2000))])
            except OSError:
                pass
            ss.append(s)
        time.sleep(0.03)
        srv.check('descriptor exhaustion')
        for s in ss[:6]:
            s.close()
        time.sleep(0.01)
        srv.ctl('nofile 20000')
        for s in ss[6:]:
            s.close()
        srv.idle()
        srv.check()
        hl.once(when='after')
        ctx.case(('nofile', spare))
    # the client's address cannot be had any more
    srv.fault(peer_err=errno.ENOTCONN)
    hl.once(['static', 'handler', 'body', 'none', 'bad'])
    srv.fault(peer_err=0)
    ctx.case(('peer',))
    # the access log cannot be opened or written: the answers are what they were
    for e in (errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.ENOENT):
        srv.fault(log_err=e)
        with hl:
            hl.once()
            for k in ('handler', 'upload', 'rst-unread', 'cut-rst', 'malformed'):
                c12.Kinds(ctx, srv, r, False).one(k, BAD)
        srv.fault(log_err=0)
        srv.check()
        hl.once(when='after')
        ctx.case(('log', e), {'fault': 'the access log cannot be opened: ' + errno.errorcode[e]})
    os.rename(srv.dir + '/log', srv.dir + '/log-away')
    hl.once()
    open(srv.dir + '/log', 'w').close()
    hl.once()
    os.unlink(srv.dir + '/log')
    os.rename(srv.dir + '/log-away', srv.dir + '/log')
    hl.once(when='after')
    n0 = srv.access().count(b'\n')
    hl.once(['static'], when='after')
    if srv.access().count(b'\n') != n0 + 1:
        raise Violation('log-back', 'responses are not recorded any more after the access log was unavailable for a while')
    ctx.case(('log', 'gone'))
    # files cannot be written
    for e in (errno.ENOSPC, errno.EIO):
        srv.fault(write_err=e)
        hl.once(['static', 'handler', 'body', 'none', 'bad'])
        for _ in range(5):
            answered(srv, UPLOAD, 'files that cannot be written')
        srv.check()
        srv.fault(write_err=0)
        hl.once(when='after')
        ctx.case(('write', e))
    for e in (errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS):
        srv.fault(upload_err=e)
        with hl_only(hl, ['static', 'handler', 'body', 'json']):
            for _ in range(10):
                answered(srv, UPLOAD, 'an upload folder that cannot be written')
                bad(srv, hostile.multi(r, r.random() < 0.5))
        srv.fault(upload_err=0)
        srv.check()
        hl.once(when='after')
        ctx.case(('upload', e), {'fault': 'the upload folder cannot be written: ' + errno.errorcode[e]})
    for mode in ('gone', 'file'):
        shutil.rmtree(srv.dir + '/upload')
        if mode == 'file':
            open(srv.dir + '/upload', 'w').close()
        for _ in range(5):
            answered(srv, UPLOAD, 'an upload folder that is ' + mode)
        hl.once(['static', 'handler', 'body'])
        srv.check()
        if mode == 'file':
            os.unlink(srv.dir + '/upload')
        os.makedirs(srv.dir + '/upload', exist_ok=True)
        hl.once(when='after')
        ctx.case(('upload', mode))
    # files cannot be read
    for e in (errno.EACCES, errno.EMFILE, errno.EIO):
        srv.fault(static_err=e)
        for k in PROBES:
            for i in range(3):
                res = answered(srv, PROBES[k], 'files that cannot be opened (%s)' % errno.errorcode[e])
                # what needs no file is not affected
                if k in ('handler', 'body', 'json', 'refused', 'bad', 'upload') and res.data != hl.want[k]:
                    raise Violation('disturbed', 'while files cannot be opened, %s gets %r instead of %r' % (k, short(res.data, 200), short(hl.want[k], 200)))
                if k in ('static', 'big') and res.data[9:12] not in (b'500', b'404', b'403'):
                    raise Violation('one-answer', 'a file that cannot be opened is answered with %r' % short(res.data, 100))
        srv.check()
        srv.fault(static_err=0)
        hl.once(when='after')
        ctx.case(('static', e))
    srv.idle()
    srv.stop()
    # TLS: handshakes and requests cut at each byte
    srv = Server(ctx, routes=ROUTES, www=WWW, level=3, cov=True, quiet=True, tls=True)
    hl = Healthy(ctx, srv)
    d = PROBES['body']
    total = TlsClient(srv, d, None).total
    with hl:
        def one(x):
            k, how = x
            c = TlsClient(srv, d, k)
            if how == 'rst':
                rst(c.s)
            elif how == 'half':
                try:
                    c.s.shutdown(socket.SHUT_WR)
                    read_all(c.s, Result())
                except OSError:
                    pass
            c.s.close()
            ctx.case(('tls', how, k), {'fault': 'TLS client sends %d of %d bytes, then %s' % (k, total, how)} if k % 200 == 0 else None)
        parallel(one, [(k, how) for how in ('rst', 'close', 'half') for k in range(1, total, 5 if q else 1)], 6)
    srv.idle()
    srv.check()
    hl.once(when='after')
    with hl:
        for i in range(60):
            c12.Kinds(ctx, srv, r, False).one(r.choice(('tls-garbage', 'tls-plain', 'tls-cut', 'tls-abandon', 'rst-unread', 'cut-rst', 'silent-rst')), BAD)
            ctx.case(('tls-kind', i))
        # clients that never say anything
        ss = [connect(srv.port, src=BAD) for _ in range(100)]
        hl_once_err(hl)
        for s in ss:
            s.close()
    for e in (errno.EMFILE, errno.ECONNABORTED):
        srv.fault(accept_err=e)
        srv.fault(accept_n=5)
        time.sleep(0.02)
        for _ in range(8):
            try:
                srv.request(PROBES['handler'])
            except OSError:
                pass
        srv.fault(accept_n=0)
        hl.once(['static', 'handler'], when='after')
        ctx.case(('tls-accept', e))
    srv.idle()
    srv.stop()


def hl_once_err(hl):
    """Lets the other clients go on for a while."""
    n = hl.ctx.extra.get('healthy_exchanges', 0)
    t = time.monotonic()
    while hl.ctx.extra.get('healthy_exchanges', 0) < n + 8 and not hl.err:
        if time.monotonic() > t + TIMEOUT:
            raise Hang('other connections are not served')
        time.sleep(0.002)


class hl_only:
    def __init__(self, hl, names):
        self.hl, self.names = hl, names

    def __enter__(self):
        self.hl.once(self.names)

    def __exit__(self, *a):
        if a[0] is None:
            self.hl.once(self.names)
