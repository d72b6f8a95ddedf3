"""C25: in TLS mode nothing is exchanged in clear and results equal plain mode."""
from vlib import *
import c22, c23, gen, hostile, mp

ROUTES = c23.ROUTES
_r = random.Random(25)
WWW = dict(c23.WWW, **{'big.bin': _r.randbytes(700001), 'r14.bin': _r.randbytes(16384), 'r14m.txt': b'm' * 16383, 'r14p.csv': b'p' * 16385, 'zero.html': b'', 'marker.txt': b'CLEARTEXT-MARKER ' * 300})


def records(ctx, raw, what, partial=True):
    """The bytes the server sent have to be a sequence of TLS records."""
    p = 0
    kinds = []
    while p < len(raw):
        h = raw[p:p + 5]
        if h[0] not in (20, 21, 22, 23) or (h[0] != 21 and len(h) > 1 and h[1] != 3):  # (an alert may repeat the version of the client)
            raise Violation('cleartext', '%s: the server sent bytes that are no TLS record: %r' % (what, raw[p:p + 80]))
        if len(h) < 5:
            break
        n = h[3] * 256 + h[4]
        if n > 16384 + 256:
            raise Violation('cleartext', '%s: the server sent bytes that are no TLS record: %r' % (what, raw[p:p + 80]))
        kinds.append(h[0])
        p += 5 + n
    for m in (b'HTTP/1.', b'CLEARTEXT-MARKER', b'WAYUU', b'Content-', b'<html>'):
        if m in raw:
            raise Violation('cleartext', '%s: the server sent %r unencrypted' % (what, m))
    ctx.count('tls_records_seen', len(kinds))
    return kinds


_cx = {}
_sessions = {}


def context(ver):
    if ver not in _cx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        if ver:
            c.minimum_version = c.maximum_version = getattr(ssl.TLSVersion, ver)
        else:
            c.set_alpn_protocols(['h2', 'http/1.1'])
        _cx[ver] = c
    return _cx[ver]


def wire(ctx, srv, data, ver=None, pieces=(), segs=None, r=None, half=True, old=None, name=None, end=None):
    """One exchange over TLS; the bytes on the wire are recorded. Returns (decrypted response, raw bytes from the server)."""
    s = connect(srv.port, srv.addr)
    inc, out = ssl.MemoryBIO(), ssl.MemoryBIO()
    o = context(ver).wrap_bio(inc, out, session=old, server_hostname=name)
    raw, got = bytearray(), bytearray()
    up = False
    try:
        while True:
            try:
                if not up:
                    o.do_handshake()
                    up = True
                    p = 0
                    for c in list(pieces) + [len(data)]:
                        if c > p:
                            o.write(data[p:c])
                            p = c
                else:
                    while True:
                        d = o.read(65536)
                        if not d:
                            # the end, said in the TLS way
                            if end is not None:
                                end.append(len(got))
                            break
                        got += d
            except ssl.SSLWantReadError:
                pass
            except ssl.SSLError:
                break  # the end, or no TLS, which the bytes themselves will show
            w = out.read()
            try:
                if w and segs:
                    i = 0
                    while i < len(w):
                        j = i + r.choice(segs)
                        s.sendall(w[i:j])
                        i = j
                elif w:
                    s.sendall(w)
            except OSError:
                pass
            try:
                s.settimeout(0.08 if up and half and not got else TIMEOUT)
                d = s.recv(262144)
            except socket.timeout:
                if not half:
                    raise Hang('no end of the response')
                # the server waits for more: the end of what we send, said in the TLS way
                half = False
                try:
                    o.unwrap()
                except ssl.SSLWantReadError:
                    pass
                s.sendall(out.read())
                continue
            except OSError:
                break
            if not d:
                break
            raw += d
            inc.write(d)
    finally:
        s.close()
    if up:
        if o.session_reused:
            ctx.count('sessions_resumed')
        if o.session is not None and o.session.has_ticket:
            _sessions[ver] = o.session
    return bytes(got), bytes(raw)


def evs(srv, n):
    out = []
    for e in srv.poll()[n:]:
        if e['kind'] in ('H', 'F', 'V', 'LEN'):
            x = {k: v for k, v in e.items() if k not in ('ns', 'tid', 'req', 'start')}
            if isinstance(x.get('form'), bytes):
                x['form'] = c23.mask(x['form'])
            out.append(x)
    return out


def run(ctx):
    ctx.rule = ('the same requests in plain and in TLS mode (1.2 and 1.3, random records and segments): same response and handler inputs; every byte the TLS server sends is checked to be '
                'a TLS record; connections that never complete the handshake, or break the TLS afterwards; non-trivial: distinct (request, version, split) and (handshake, cut)')
    r = ctx.rng
    n = 350 if ctx.quick else 6000
    plain = Server(ctx, routes=ROUTES, www=WWW, level=4)
    srv = Server(ctx, routes=ROUTES, www=WWW, level=4, tls=True, cov=True)
    reqs = []
    for kind in ('uploads', 'sessions', 'logs', 'params', 'filters', 'urls'):
        reqs += c22.items(r, None, kind)
    for op in c22.OPS:
        reqs += [b'POST /api/x?op=' + op + b' HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % k + b'y' * k for k in (0, 40)]
    for f in list(WWW) + ['', 'none', 'd/']:
        reqs.append(b'GET /' + f.encode() + b' HTTP/1.1\r\nX-Session: s1\r\n\r\n')
    for k in (0, 1, 16383, 16384, 16385, 40000, 200000):
        reqs.append(b'POST /api/d?raw=1 HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % k + r.randbytes(k))
        reqs.append(b'POST /api/x?op=json HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % k + b'j' * k)
        reqs.append(b'POST /api/x?op=stream HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % k + b'k\n' * (k // 2) + b'k' * (k % 2))
        bd = b'----x%d' % k
        body = b'--' + bd + b'\r\nContent-Disposition: form-data; name="f"; filename="n"\r\n\r\n' + r.randbytes(k) + b'\r\n--' + bd + b'--\r\n'
        reqs.append(b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=' + bd + b'\r\nContent-Length: %d\r\n\r\n' % len(body) + body)
    while len(reqs) < n:
        reqs.append(r.choice((hostile.plain, hostile.wild, hostile.multi, c23.shrinking))(r))
    for d in reqs:
        if not d:
            continue
        a0, b0 = len(plain.poll()), len(srv.poll())
        want = plain.request(d, half=True)
        ver = r.choice((None, 'TLSv1_2', 'TLSv1_3'))
        pieces = gen.parts(r, len(d), r.choice((0, 0, 1, 3, 8))) if r.random() < 0.9 or len(d) > 600 else list(range(1, len(d)))
        segs = r.choice((None, None, (1, 2, 5, 40), (100, 1000))) if len(d) < 3000 else r.choice((None, (5000,)))
        # new sessions and resumed ones, with and without a server name
        old = _sessions.get(ver) if r.random() < 0.4 else None
        got, raw = wire(ctx, srv, d, ver, pieces, segs, r, old=old, name=r.choice((None, None, 'localhost', 'x' * 60 + '.example', '127.0.0.1')))
        records(ctx, raw, short(d, 60))
        we, ge = evs(plain, a0), evs(srv, b0)
        if want.reset and want.data != got and len(want.data) > 60000:
            continue  # the plain client lost the end of it
        if got != want.data:
            srv.check()
            raise Violation('differs', 'over TLS the response is %r (%d bytes), in plain mode %r (%d bytes), request %r' % (short(got, 250), len(got), short(want.data, 250), len(want.data), short(d, 150)), request=d.hex()[:20000])
        if we != ge:
            raise Violation('differs', 'over TLS the handler gets %r, in plain mode %r, request %r' % (short(repr(ge), 400), short(repr(we), 400), short(d, 150)), request=d.hex()[:20000])
        ctx.case((d, ver, tuple(pieces), segs), {'request': short(d, 80), 'version': ver, 'records sent': len(pieces) + 1, 'response bytes': len(got)} if ctx.evals % 60 == 0 else None)
        ctx.count('handler_runs_compared', len(ge))
    plain.stop()
    srv.check()
    srv.stop()
    # concurrently
    srv = Server(ctx, routes=ROUTES, www=WWW, level=4, tls=True, cov=True, chaos=30)

    def one(i):
        q = random.Random('%s/%d' % (ctx.seed, i))
        k = q.choice(list(WWW))
        end = []
        got, raw = wire(ctx, srv, q.choice((b'GET /%s HTTP/1.1\r\n\r\n', b'GET /%s HTTP/1.1\r\nHost: x\r\nX-Session: s\r\n\r\n', b'GET /%s?q=1 HTTP/1.0\r\n\r\n')) % k.encode(), r=q, end=end,
                        ver=q.choice((None, 'TLSv1_2', 'TLSv1_3')))
        records(ctx, raw, k)
        if not got.endswith(WWW[k]) or parse_response(got)[2] != WWW[k]:
            srv.check()
            raise Violation('differs', 'over TLS, with others at the same time, /%s is answered with %d bytes: %r' % (k, len(got), short(got, 200)))
        if not end:
            srv.check()
            raise Violation('cut', 'over TLS, the response for /%s ends without the end of the TLS connection being said, as if it had been cut' % k)
        ctx.case(('at once', i))
    parallel(one, range(150 if ctx.quick else 3000), 12)
    srv.idle()
    srv.stop()
    # connections that do not complete the handshake
    srv = Server(ctx, routes=ROUTES, www=WWW, level=4, tls=True, cov=True, record=True)
    REQ = b'GET /api/d HTTP/1.1\r\nHost: x\r\n\r\n'
    REQS = [REQ, b'GET /marker.txt HTTP/1.1\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'POST /api/d HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc', b'HEAD / HTTP/1.1\r\n\r\n', b'\r\n', b'GET /api/none HTTP/1.0\r\n\r\n']

    def hello(ver):
        inc, out = ssl.MemoryBIO(), ssl.MemoryBIO()
        o = context(ver).wrap_bio(inc, out)
        try:
            o.do_handshake()
        except ssl.SSLWantReadError:
            pass
        return o, inc, out, out.read()
    seen = len(srv.poll())
    acc = len(srv.access())

    def attack(x):
        i, q = x
        how = q.choice(('plain', 'plain', 'hello-plain', 'cut-plain', 'noise', 'noise-plain', 'flight-plain', 'flight-cut', 'appdata', 'half'))
        s = connect(srv.port)
        s.settimeout(TIMEOUT)
        res = Result()
        req = q.choice(REQS)
        cut = None
        try:
            if how == 'plain':
                s.sendall(req)
            elif how in ('noise', 'noise-plain'):
                s.sendall(q.randbytes(q.choice((1, 5, 50, 300))) + (b'\r\n' + req if how == 'noise-plain' else b''))
            elif how == 'appdata':
                s.sendall(b'\x17\x03\x03' + struct.pack('>H', len(req)) + req)
            else:
                o, inc, out, h = hello(q.choice((None, 'TLSv1_2')))
                if how in ('cut-plain', 'half'):
                    cut = q.randrange(1, len(h))
                    s.sendall(h[:cut] + (req if how == 'cut-plain' else b''))
                elif how == 'hello-plain':
                    s.sendall(h + req)
                else:
                    # the server's flight is answered with all but the end of ours, and a request in clear
                    s.sendall(h)
                    for _ in range(20):
                        d = s.recv(65536)
                        if not d:
                            break
                        res.data += d
                        inc.write(d)
                        try:
                            o.do_handshake()
                            break
                        except ssl.SSLWantReadError:
                            if out.pending:
                                break
                    w = out.read()
                    cut = q.randrange(0, max(1, len(w)))
                    s.sendall(w[:cut] + (req if how == 'flight-plain' else b''))
            s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        try:
            read_all(s, res)
        finally:
            s.close()
        records(ctx, res.data, 'after ' + how)
        ctx.case((how, cut, req, i), {'handshake': how, 'cut': cut, 'answer': res.data[:40].hex()} if i % 80 == 0 else None)
        ctx.count('incomplete_handshakes')
    parallel(attack, [(i, random.Random('%s/a/%d' % (ctx.seed, i))) for i in range(400 if ctx.quick else 6000)], 8)
    srv.idle()
    www = os.path.realpath(srv.www).encode()
    for e in srv.poll()[seen:]:
        if e['kind'] in ('H', 'F', 'V'):
            raise Violation('reached', 'a connection that did not complete the handshake reached a handler: %s' % dict(e))
        if e['kind'] == 'R' and (e['path'] or b'').startswith(www + b'/'):
            raise Violation('served', 'a connection that did not complete the handshake made the server read %r' % e['path'])
    # the handshake is done, and then something goes wrong with the TLS of the connection
    def spoil(x):
        i, q = x
        s = connect(srv.port)
        s.settimeout(TIMEOUT)
        o, inc, out, h = hello(q.choice((None, 'TLSv1_2', 'TLSv1_3')))
        res = Result()
        req = q.choice(REQS[:4] + [b'POST /api/d HTTP/1.1\r\nContent-Length: 40000\r\n\r\n' + b'q' * 40000, b'GET /big.bin HTTP/1.1\r\n\r\n', b'GET /api/d?' + b'u' * 300 + b' HTTP/1.1\r\n\r\n'])
        how = q.choice(('flip', 'flip', 'clear', 'fatal', 'close', 'noise', 'record', 'cut', 'drop', 'twice', 'renegotiate'))
        try:
            s.sendall(h)
            while True:
                try:
                    o.do_handshake()
                    break
                except ssl.SSLWantReadError:
                    w = out.read()
                    if w:
                        s.sendall(w)
                    d = s.recv(65536)
                    if not d:
                        raise OSError('end')
                    res.data += d
                    inc.write(d)
            s.sendall(out.read())
            at = q.choice((0, 1, len(req) // 2, len(req) - 1, len(req)))
            o.write(req[:at])
            s.sendall(out.read())
            if q.random() < 0.3:
                time.sleep(0.005)
            o.write(req[at:] + b'x' * 10)
            w = bytearray(out.read())
            if how == 'flip':
                w[q.randrange(5, len(w))] ^= 1 << q.randrange(8)
            elif how == 'clear':
                w = req[at:] + q.choice(REQS)
            elif how == 'fatal':
                w = b'\x15\x03\x03\x00\x02' + bytes((q.choice((1, 2)), q.choice((0, 10, 20, 40, 80))))
            elif how == 'close':
                try:
                    o.unwrap()
                except ssl.SSLError:
                    pass
                w = out.read()
            elif how == 'noise':
                w = q.randbytes(q.choice((1, 5, 6, 100, 20000)))
            elif how == 'record':
                w = bytes((q.choice((0, 20, 21, 22, 23, 24, 255)), 3, q.choice((0, 3, 9)))) + struct.pack('>H', q.choice((0, 1, 100, 16384, 65535))) + q.randbytes(100)
            elif how == 'cut':
                w = w[:q.randrange(len(w))]
            elif how == 'drop':
                w = b''
            elif how == 'twice':
                w = w + w
            elif how == 'renegotiate':
                w = b'\x16\x03\x03' + h[3:]
            s.sendall(w)
            s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        try:
            read_all(s, res)
        finally:
            s.close()
        records(ctx, res.data, 'after the handshake, %s' % how)
        ctx.case(('spoilt', how, i), {'after the handshake': how, 'answer bytes': len(res.data)} if i % 80 == 0 else None)
        ctx.count('spoilt_connections')
    parallel(spoil, [(i, random.Random('%s/s/%d' % (ctx.seed, i))) for i in range(400 if ctx.quick else 6000)], 8)
    srv.idle()
    got, raw = wire(ctx, srv, REQ)
    if parse_response(got)[0] != 200:
        raise Violation('after', 'after incomplete handshakes a request is answered with %r' % short(got))
    srv.stop()
