"""C03: every connection gets exactly one well-formed HTTP response, then a close."""
import socket, ssl
from vlib import *
import gen, hostile

ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', '-', 'PUT:/d'), ('dump', '-', 'DELETE:/d'), ('helper', '-', 'POST:/h'), ('helper', '-', 'GET:/h'),
          ('dump', 'byq', 'GET:/f'), ('dump', 'byq', 'POST:/f'), ('dump', '-', 'GET:/p/{id}'), ('dump', '-', 'POST:/p/{id}'), ('logs', '-', 'GET:/l')]
WWW = {'index.html': b'<html>index</html>', 'a.txt': b'text', 'd/b.bin': bytes(range(256)) * 300, 'd/index.html': b'folder', 'favicon.ico': b'ICO', 'empty.css': b'',
       'nl.csv': b'\r\n\r\n', 'big.zip': bytes(range(256)) * 8192}
OPS = ['ok', 'created', 'not_found', 'bad_request', 'forbidden', 'not_auth', 'too_many', 'ise', 'json', 'jsonst', 'cjson', 'text', 'stream', 'list', 'err', 'mime']

BIG = (8192, 16384, 32768, 65536, 65536 + 4096, 131072, 200000, 10000, 99999, 100000)  # and around: lengths of more digits and more blocks


def one_response(res, data, framed=None):
    """Exactly one response. framed: the body must be exactly this, when it is known."""
    if not res.data:
        raise Violation('no-response', 'no response at all to %r' % short(data), request=data.hex())
    try:
        st, hs, body = parse_response(res.data)
    except BadResponse as e:
        raise Violation('malformed', '%s; request %r, response %r' % (e, short(data), short(res.data, 500)), request=data.hex(), response=res.data[:3000].hex())
    if b'HTTP/1.1 ' in body and b'HTTP/1.1 ' not in data and b'HTTP/1.1 '.hex().encode() not in body:
        raise Violation('second-response', 'a second status line in the response to %r: %r' % (short(data), short(res.data, 500)), request=data.hex())
    if framed is not None and body != framed:
        raise Violation('body', 'the body of the response to %r is %r instead of %r' % (short(data), short(body), short(framed)), request=data.hex())
    if not (res.eof or res.reset or res.err):
        raise Violation('not-closed', 'the connection was not closed after the response to %r' % short(data))
    return st, hs, body


def run(ctx):
    ctx.rule = ('requests of every kind that produces a response (helpers with every status and payload sizes, routed, filtered, static, missing, limited, malformed, '
                'cut at any point by half-close, unsupported methods); the complete stream up to the close is parsed; non-trivial: distinct request bytes')
    r = ctx.rng
    mult = 1 if ctx.quick else 20

    def events(srv, start):
        return srv.find(lambda e: e['kind'] in 'HF', start)

    def drive(srv, n, threads, kinds):
        jobs = [make(r.choice(kinds)) for _ in range(n)]
        start = len(srv.poll())

        def work(j):
            kind, data, half, want, body = j
            res = srv.request(data, half=half, parts=gen.parts(random.Random(len(data)), len(data)) if len(data) % 7 == 0 else None)
            if srv.tls and not res.data and (res.err or res.reset):
                # the answer was lost in the reset that closing with unread bytes causes
                ctx.case(None)
                return
            st, hs, b = one_response(res, data, body)
            if want is not None and st not in want:
                raise Violation('status', 'status %d (expected %s) for %r' % (st, want, short(data)), request=data.hex())
            ctx.case((data, half, srv.tls), {'kind': kind, 'request': short(data, 120), 'status': st})
            ctx.count('status_%d' % st)
            ctx.count('kind_' + kind)
        parallel(work, jobs, threads)
        srv.check()
        es = events(srv, start)
        for e in es:
            m = e['method']
            if m not in (b'GET', b'POST', b'PUT', b'DELETE'):
                raise Violation('unsupported-handled', 'a request with method %r reached a handler' % m)

    def make(kind):
        if kind == 'helper':
            op = r.choice(OPS)
            n = gen.size(r, 0, 6000) if r.random() < 0.9 else r.choice(BIG) + r.randrange(-3, 4)
            st = r.choice((200, 201, 400, 401, 403, 404, 429, 500))
            body = gen.text(r, n, b'abcdefghij {}[]":,\\0123456789\n').strip() if op != 'stream' else gen.text(r, n, b'abc\n')
            want = {'ok': 200, 'created': 201, 'not_found': 404, 'bad_request': 400, 'forbidden': 403, 'not_auth': 401, 'too_many': 429, 'ise': 500, 'json': 200,
                    'cjson': 201, 'list': 200}.get(op, st)
            if op == 'err':
                want = st if st in (403, 500) else 400
            if op == 'list':
                st = want = 200 if False else r.choice((0, 1, 5, 60))
                want = 200
            full = None
            if op in ('json', 'jsonst', 'cjson', 'stream') or (op == 'text' and body):
                full = body + b'\r\n'
            if op == 'mime':
                full = body
            data = b'POST /api/h?op=%s&st=%d HTTP/1.1\r\n%sContent-Length: %d\r\n\r\n%s' % (op.encode(), st, gen.lines(gen.common(r)) if r.random() < 0.5 else b'', len(body), body)
            return kind + '-' + op, data, False, (want,), full
        if kind == 'static':
            f = r.choice(list(WWW) + ['', 'none.html', 'd/', 'd', 'x/y/z'])
            h = b''
            if r.random() < 0.5:
                n = gen.size(r, 0, 200)
                h = r.choice((b'X-Session', b'Authorization', b'Cookie')) + b': ' + (b'a=b; WSSESSION=' if r.random() < 0.3 else b'') + gen.header_value(r, n) + b'\r\n'
            want = WWW.get(f) if f in WWW else {'': WWW['index.html'], 'd/': WWW['d/index.html']}.get(f, WWW['index.html'])
            if r.random() < 0.4:
                h += gen.lines(gen.common(r))
            return kind, b'GET /' + f.encode() + b' HTTP/1.1\r\n' + h + b'\r\n', False, (200,), want
        if kind == 'unsupported':
            m = r.choice([x for x in hostile.BADM if x]) if r.random() < 0.7 else gen.text(r, gen.size(r, 1, 300), b'ABCDEFHIJKLMNOQRSTUVWXYZ') or b'A'
            if m.upper().startswith((b'GET', b'POST', b'PUT', b'DELETE')):
                m = b'X' + m
            u = r.choice((b'/', b'/a.txt', b'/api/d', b'/api/p/1', b'/api/h?op=ok', b'*'))
            b = gen.blob(r, r.choice((0, 0, 10)))
            return kind, m + b' ' + u + b' HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % len(b) + b, True, (400,), None
        if kind == 'near-method':
            m = r.choice(hostile.METHODS) + r.choice((b'X', b'S', b'1', b'-', b'/'))
            u = r.choice((b'/', b'/a.txt', b'/api/d', b'/api/p/1', b'/api/h?op=ok'))
            return kind, m + b' ' + u + b' HTTP/1.1\r\n\r\n', True, (400,), None
        if kind == 'filter':
            v = r.choice((b'0', b'1'))
            return kind, r.choice((b'GET', b'POST')) + b' /api/f?v=' + v + b' HTTP/1.1\r\n\r\n', False, (200,) if v == b'1' else (403,), None
        if kind == 'routed':
            m, u, w = r.choice(((b'GET', b'/api/d', 200), (b'PUT', b'/api/d', 200), (b'DELETE', b'/api/d', 200), (b'POST', b'/api/d', 200), (b'GET', b'/api/none', 400),
                                (b'DELETE', b'/api/p/x', 400), (b'GET', b'/api/p/x', 200), (b'GET', b'/api/l', 200), (b'POST', b'/', 400), (b'DELETE', b'/a.txt', 400),
                                (b'PUT', b'/none', 400), (b'GET', b'/api', 400), (b'GET', b'/api/', 400), (b'GET', b'/../etc/allow', 400), (b'GET', b'/x/..', 400)))
            return kind, m + b' ' + u + b' HTTP/1.1\r\nHost: h\r\n\r\n', False, (w,), None
        if kind == 'upload':
            return kind, hostile.multi(r), True, None, None
        if kind == 'cut':
            d = r.choice((hostile.plain, hostile.multi, hostile.plain))(r)
            return kind, d[:r.randrange(1, len(d) + 1)], True, None, None
        if kind == 'truncated-body':
            n = gen.size(r, 1, 2000)
            b = gen.blob(r, r.randrange(0, n))
            return kind, b'POST /api/d HTTP/1.1\r\nContent-Length: %d\r\n\r\n' % n + b, True, (400, 500), None
        if kind == 'long-line':
            n = gen.size(r, 1, 3000)
            return kind, r.choice(hostile.METHODS) + b' /' + r.choice((b'', b'api/d?', b'api/p/')) + gen.text(r, n) + b' HTTP/1.1\r\n\r\n', True, None, None
        d, k = hostile.stream(r)
        return 'wild', d or b'G', True, None, None

    kinds = ['helper'] * 5 + ['static'] * 2 + ['unsupported', 'near-method', 'filter', 'routed', 'routed', 'upload', 'cut', 'cut', 'truncated-body', 'long-line', 'wild', 'wild', 'wild']
    srv = Server(ctx, routes=ROUTES, www=WWW, cov=True)
    drive(srv, 300 * mult, 1, kinds)
    drive(srv, 5000 * mult, 12, kinds)
    srv.stop()
    # files that are there and cannot be opened, uploads that cannot be stored, and a log that cannot be written
    srv = Server(ctx, routes=ROUTES, www=WWW, cov=True)
    fk = ['static', 'static', 'routed', 'filter', 'upload', 'upload', 'cut', 'unsupported', 'helper', 'wild', 'truncated-body']
    for name in ('static_err', 'upload_err', 'log_err', 'write_err', 'peer_err'):
        for e in (2, 13, 24) if name != 'peer_err' else (107,):
            srv.fault(**{name: e})
            for i in range(60 * mult):
                kind, data, half, want, body = make(r.choice(fk))
                st, hs, b = one_response(srv.request(data, half=half), data)
                if kind != 'static' and want is not None and name == 'static_err' and not (kind == 'routed' and data.startswith(b'GET /') and not data.startswith(b'GET /api')) and st not in want:
                    raise Violation('status', 'status %d (expected %s) for %r' % (st, want, short(data)), request=data.hex())
                ctx.case((name, e, data), {'kind': kind, 'fault': name, 'status': st} if i == 0 else None)
                ctx.count('fault_' + name)
            srv.fault(**{name: 0})
            srv.check()
    srv.stop()
    # without an index page, and with limits in force
    srv = Server(ctx, routes=ROUTES, www={}, cov=True)
    for i in range(60 * mult):
        u = r.choice((b'/', b'/index.html', b'/x', b'/d/', b'/favicon.ico'))
        data = b'GET ' + u + b' HTTP/1.1\r\n\r\n'
        st, hs, b = one_response(srv.request(data), data)
        if st != 404:
            raise Violation('status', 'status %d instead of 404 for %r on a site without pages' % (st, short(data)))
        ctx.case(('empty', u, i % 3))
        ctx.count('status_404')
    srv.stop()
    srv = Server(ctx, routes=ROUTES, www=WWW, limits='/, 0, 0\n', cov=True)
    for i in range(60 * mult):
        data = make(r.choice(['helper', 'static', 'routed', 'upload']))[1]
        if data.split(b' ')[1][:1] != b'/':
            continue
        st, hs, b = one_response(srv.request(data, half=True), data)
        if st != 429:
            raise Violation('status', 'status %d instead of 429 for %r under a limit of none' % (st, short(data)))
        ctx.case(('limited', data), {'kind': 'limited', 'request': short(data, 100), 'status': st})
        ctx.count('status_429')
    if srv.find(lambda e: e['kind'] in 'HF'):
        raise Violation('limited-handled', 'a request under a limit of no connections reached a handler')
    srv.stop()
    srv = Server(ctx, routes=ROUTES, www=WWW, tls=True, cov=True)
    drive(srv, 300 * mult, 8, kinds)
    srv.stop()
