"""C22: serving requests leaks neither memory nor descriptors."""
from vlib import *
from hold import Held
import c04, c12, gen, hostile, mp

ROUTES = c12.ROUTES + [('logs', '-', 'GET:/l'), ('helper', '-', 'POST:/x'), ('ok', '-', 'GET:/q/{id}'), ('dump', '-', 'POST:/q/{id}'), ('dump', 'refuse', 'PUT:/r')]
WWW = dict(c12.WWW, **{'d/index.html': b'folder', 'favicon.ico': b'ICO', 'empty.txt': b'', 'one': b'1', 'page.html': b'x' * 65536, 'e/index.html': b'', 's.css': b'a' * 65537})
OPS = (b'ok', b'created', b'not_found', b'bad_request', b'forbidden', b'not_auth', b'too_many', b'ise', b'json', b'jsonst&st=500', b'cjson', b'text&st=400', b'text&st=999', b'stream&st=200',
       b'list&st=0', b'list&st=20', b'err&st=400', b'err&st=403', b'err&st=500', b'mime&st=200', b'mime&st=404')


def items(r, srv, kind):
    """Requests of one kind, the same on every repetition."""
    H = b' HTTP/1.1\r\n'
    if kind.startswith('op-'):
        return [b'POST /api/x?op=' + kind[3:].encode() + H + b'Content-Length: %d\r\n\r\n' % n + b'x' * n for n in (0, 1, 50, 700)]
    if kind == 'uploads':
        return [hostile.multi(r) for _ in range(4)]
    if kind == 'odd-uploads':
        return [hostile.multi(r, True) for _ in range(6)]
    if kind == 'sessions':
        return [b'GET /api/d' + H + h + b'\r\n\r\n' for h in (b'X-Session: a', b'X-Session: ' + b'a' * 100 + b'\r\nAuthorization: b', b'Cookie: a=b; WSSESSION=x', b'Cookie: WSSESSION=' + b'x' * 90,
                                                             b'X-Real-IP: 1.2.3.4\r\nX-Real-IP: 5.6.7.8', b'Content-Type: a; b\r\nContent-Type: c', b'Content-Type: multipart/form-data; boundary=' + b'q' * 200)]
    if kind == 'logs':
        return [b'GET /api/l?a=b&c' + H + b'X-Id: 1\r\n\r\n', b'GET /api/l' + H + b'\r\n', b'GET /api/l?' + H + b'nonsense\r\n:\r\nX:\r\n\r\n']
    if kind == 'params':
        return [b'GET /api/q/' + b'v' * n + H + b'\r\n' for n in (0, 1, 100, 900)] + [b'POST /api/q/v' + H + b'Content-Length: %d\r\n\r\n' % n + b'z' * n for n in (0, 1, 200)] + \
               [b'POST /api/q/v?x=y' + H + b'Content-Length: %d\r\n\r\n' % len(f) + f for f in (b'a=b', b'a=b&c=d', b'&', b'=', b'a=b&', b'{"a":1}', b'x' * 500 + b'=1')] + \
               [b'POST /api/q/v' + H + b'Content-Length: 5\r\n\r\n' + b'\0' * 5, b'POST /api/q/v' + H + b'Content-Type: multipart/form-data; boundary=B\r\nContent-Length: 7\r\n\r\n--B--\r\n']
    if kind == 'filters':
        return [b'PUT /api/r' + H + b'\r\n', b'POST /api/d' + H + b'Content-Length: 3\r\n\r\nabc', b'GET /api/f?v=0' + H + b'\r\n', b'GET /api/f?v=1' + H + b'\r\n']
    if kind == 'large':
        return [b'POST /api/d' + H + b'Content-Length: %d\r\n\r\n' % 60000 + b'z' * 60000, b'POST /api/d' + H + b'Content-Length: 2000000000\r\n\r\nz', b'POST /api/d' + H + b'Content-Length: -7\r\n\r\nz']
    if kind == 'headers':
        names = (b'Referer', b'User-Agent', b'Content-Type', b'X-Session', b'Authorization', b'Cookie', b'X-Real-IP', b'Content-Length', b'Host', b'X')
        return [m + b' ' + u + H + b''.join(n + b':' + v + b'\r\n' for n in names) + b'\r\n' for m, u in ((b'GET', b'/api/d'), (b'GET', b'/'), (b'GET', b'/api/none'), (b'PUT', b'/'), (b'GET', b'/api/l'))
                for v in (b'', b' ', b' a', b' a;b', b'=')]
    if kind.startswith('any'):
        return [c04.make(r, r.randrange(1 << 30))[0] for _ in range(8)] + [hostile.stream(r)[0][:3000] for _ in range(8)]
    if kind == 'urls':
        return [b'GET /' + q + H + b'\r\n' for q in (b'', b'?', b'?a', b'a.bin?x', b'd/', b'favicon.ico', b'none?x?y', b'../x', b'index.html', b'empty.txt', b'empty.txt?q', b'one', b'page.html', b'e/', b's.css', b'd', b'd/none', b'.', b'..', b'')] + [b'GET ' + b'x' * 1100 + H + b'\r\n', b'G' * 1100, b'GET /x']
    return None


def measure(srv, tag):
    """The heap of a server that is at rest: threads may still be about to finish."""
    srv.idle()
    last = None
    for i in range(60):
        e = srv.ctl('stats ' + tag)
        v = (int(e['blocks']), int(e['bytes']), int(e['fds']))
        srv.tls_bytes = int(e['tls'])
        if v == last:
            return v
        last = v
        time.sleep(0.004)
    return last


def run(ctx):
    ctx.rule = ('each kind of request is repeated after a warm-up of the same kind and the idle server is measured in between (live heap blocks and bytes from the allocator, open '
                'descriptors), growth has to stop; LeakSanitizer looks for unreachable memory at the end; non-trivial: distinct (kind, mode)')
    r = ctx.rng
    rounds = 8 if ctx.quick else 60
    reps = 12 if ctx.quick else 40
    for tls, limits, level in ((False, None, 0), (False, b'/api/h, 2, 1\n/api/d, 4, 3\n', 4), (True, None, 4)):
        srv = Server(ctx, routes=ROUTES, www=WWW, tls=tls, limits=limits, level=level, deny='127.0.0.33\n', cov=True, quiet=True)
        ks = c12.Kinds(ctx, srv, r, bool(limits))
        if tls:
            # the TLS library's own state for each worker
            workers = int([e for e in srv.events if e['kind'] == 'START'][0]['workers'])
            parallel(lambda i: srv.request(b'GET / HTTP/1.1\r\n\r\n'), range(3 * workers), 8)
        own = ['op-' + o.decode() for o in OPS] + ['uploads', 'odd-uploads', 'sessions', 'logs', 'params', 'filters', 'large', 'urls', 'headers'] + ['any%d' % i for i in range(2 if ctx.quick else 20)]
        names = ks.names + own + ['denied', 'held', 'held-rst', 'limited']
        if limits or tls:
            names = [n for n in names if not n.startswith('op-') or n in ('op-json', 'op-err&st=403')]

        def burst(kind, seed):
            q = random.Random(seed)
            if kind in own:
                todo = items(q, srv, kind) * max(1, reps // 6)
                parallel(lambda d: srv.request(d, half=True), todo, 4)
                return len(todo)
            if kind == 'denied':
                def one(_):
                    try:
                        srv.request(b'GET / HTTP/1.1\r\n\r\n', src='127.0.0.33')
                    except OSError:
                        pass
            elif kind in ('held', 'held-rst'):
                srv.ctl('releaseall 1')

                def one(i):
                    s = connect(srv.port, srv.addr, c12.SRCS[i % 5], tls=tls)
                    try:
                        s.sendall(b'GET /api/h?id=x HTTP/1.1\r\n\r\n')
                        if kind == 'held':
                            read_all(s, Result())
                            s.close()
                        else:
                            rst(s)
                    except OSError:
                        pass
            elif kind == 'limited':
                hs = [connect(srv.port, srv.addr, c12.SRCS[i], tls=tls) for i in range(5)]
                for s in hs:
                    s.sendall(b'POST /api/d HTTP/1.1\r\nContent-Length: 5\r\n\r\n')

                def one(i):
                    srv.request(b'GET /api/d HTTP/1.1\r\n\r\n', src=c12.SRCS[i % 5])
                parallel(one, range(reps), 4)
                for s in hs:
                    s.close()
                return reps
            else:
                ks.r = q

                def one(i):
                    try:
                        ks.one(kind, c12.SRCS[i % 5])
                    except (ConnectionResetError, BrokenPipeError, ssl.SSLError):
                        pass
            parallel(one, range(reps), 4)
            return reps
        for kind in names:
            seed = r.random()
            # what is kept for reuse (thread buffers, library caches) is there after some repetitions
            best, calm, total = None, 0, 0
            t0 = None
            for i in range(rounds * 4):
                n = burst(kind, seed)
                ctx.case(None, n=n)
                v = measure(srv, kind.split('&')[0])
                # the TLS library keeps a few words per worker, and some KB for each connection that is not freed
                total += n
                if t0 is None:
                    t0, total = srv.tls_bytes, 0
                elif srv.tls_bytes - t0 > 1000 * total + 20000:
                    raise Violation('tls-growth', 'the TLS memory of the idle server grew by %d bytes after %d requests of kind %s' % (srv.tls_bytes - t0, total, kind))
                if i < 2:
                    best = v if best is None else tuple(map(max, best, v))
                    continue
                # bytes may vary a little with library caches; blocks and descriptors show any leak of one per request
                if v[0] <= best[0] and v[1] <= best[1] and v[2] <= best[2]:
                    calm += 1
                    if calm >= 2:
                        break
                else:
                    calm = 0
                    best = tuple(map(max, best, v))
            else:
                raise Violation('growth', 'the idle server grows with each batch of %d requests of kind %s (%s): live blocks, bytes, descriptors now %s' % (n, kind, 'TLS' if tls else 'plain', v))
            ctx.case((kind, tls, limits), {'kind': kind, 'tls': tls, 'requests per batch': n, 'blocks, bytes, descriptors': list(v)}, n=0)
            srv.check()
        if srv.ctl('leakcheck')['found'] != '0':
            srv.check()
            raise Violation('unreachable', 'LeakSanitizer found unreachable memory')
        srv.check()
        ctx.count('leak_checks')
        srv.stop()
