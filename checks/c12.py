"""C12: connection capacity always comes back."""
from hold import *
import gen, hostile

ROUTES = [('hold', '-', 'GET:/h'), ('hold', 'byq', 'GET:/hf'), ('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', 'byq', 'GET:/f'), ('dump', '-', 'GET:/p/{id}'), ('ok', '-', 'DELETE:/o')]
WWW = {'index.html': b'I', 'a.bin': bytes(range(256)) * 2000}
SRCS = ['127.0.0.%d' % i for i in range(1, 60)]


class Kinds:
    """Every way in which a connection may end."""

    def __init__(self, ctx, srv, r, limited):
        self.srv, self.r, self.limited = srv, r, limited
        self.names = ['static', 'handler', 'missing', 'unmatched', 'refused-by-filter', 'unsupported', 'malformed', 'cut-half', 'cut-rst', 'cut-close', 'body-half', 'body-rst',
                      'silent-close', 'silent-rst', 'upload', 'bad-upload', 'long-url', 'long-header', 'no-slash', 'no-url', 'rst-unread', 'many-headers', 'dotdot', 'wild']
        if srv.tls:
            self.names += ['tls-garbage', 'tls-plain', 'tls-cut', 'tls-abandon']

    def one(self, k, src=None):
        r, srv = random.Random(self.r.random()), self.srv
        src = src or r.choice(SRCS)
        A = dict(src=src)
        H = b' HTTP/1.1\r\n'
        if k == 'static':
            return srv.request(b'GET /' + r.choice((b'', b'a.bin', b'none', b'd/')) + H + b'\r\n', **A)
        if k == 'handler':
            return srv.request(r.choice((b'GET /api/d', b'GET /api/p/5', b'DELETE /api/o', b'POST /api/d')) + H + b'Content-Length: 0\r\n\r\n', **A)
        if k == 'missing':
            return srv.request(b'GET /none' + H + b'\r\n', **A)
        if k == 'unmatched':
            return srv.request(b'PUT /api/x' + H + b'\r\n', **A)
        if k == 'refused-by-filter':
            return srv.request(b'GET /api/f?v=0' + H + b'\r\n', **A)
        if k == 'unsupported':
            return srv.request(r.choice((b'HEAD', b'OPTIONS', b'X')) + b' /api/d' + H + b'\r\n', **A)
        if k == 'malformed':
            return srv.request(r.choice((b'\r\n', b'GET\r\n\r\n', b'\n', b'GET  \r\n', b'POST /api/d\r\n\r\n', b'\0' * 30 + b'\n')), half=True, **A)
        if k == 'cut-half':
            d = b'GET /api/d?x' + H + b'Host: x\r\nCookie: a=b; WSSESSION=c\r\n\r\n'
            return srv.request(d[:r.randrange(1, len(d))], half=True, **A)
        if k in ('cut-rst', 'cut-close', 'body-rst', 'rst-unread'):
            s = connect(srv.port, srv.addr, src, tls=srv.tls)
            d = b'POST /api/d' + H + b'Host: x\r\nContent-Length: 50\r\n\r\n0123456789'
            if k == 'rst-unread':
                d = b'GET /a.bin' + H + b'\r\n'
            else:
                d = d[:r.randrange(1, len(d))] if k != 'body-rst' else d
            s.sendall(d)
            if r.random() < 0.5:
                time.sleep(0.001)
            rst(s) if k != 'cut-close' else s.close()
            return None
        if k == 'body-half':
            return srv.request(b'POST /api/d' + H + b'Content-Length: 50\r\n\r\nabc', half=True, **A)
        if k in ('silent-close', 'silent-rst'):
            s = connect(srv.port, srv.addr, src, tls=srv.tls)
            rst(s) if k == 'silent-rst' else s.close()
            return None
        if k in ('upload', 'bad-upload'):
            return srv.request(hostile.multi(r, k == 'bad-upload'), half=True, **A)
        if k == 'long-url':
            return srv.request(b'GET /api/d?' + b'x' * gen.size(r, 400, 2500) + H + b'\r\n', half=True, **A)
        if k == 'long-header':
            return srv.request(b'GET /api/d' + H + b'X-Session: ' + b'x' * gen.size(r, 40, 2500) + b'\r\nAuthorization: ' + b'y' * 900 + b'\r\n\r\n', **A)
        if k == 'no-slash':
            return srv.request(b'GET ' + r.choice((b'x', b'api/d', b'http://h/', b'*', b'?')) + H + b'\r\n', **A)
        if k == 'no-url':
            return srv.request(b'GET ' + r.choice((b'', b' ', b'\t')) + b'\r\n\r\n', half=True, **A)
        if k == 'many-headers':
            return srv.request(b'GET /api/d' + H + b''.join(b'H%d: v\r\n' % i for i in range(r.choice((19, 20, 21, 50)))) + b'\r\n', **A)
        if k == 'dotdot':
            return srv.request(b'GET /../x' + H + b'\r\n', **A)
        if k == 'wild':
            return srv.request(hostile.stream(r)[0] or b'x', half=True, **A)
        # connections that never become TLS
        s = connect(srv.port, srv.addr, src)
        try:
            if k == 'tls-garbage':
                s.sendall(r.randbytes(r.choice((1, 5, 100))))
            elif k == 'tls-plain':
                s.sendall(b'GET /api/d HTTP/1.1\r\n\r\n')
            else:
                inc, out = ssl.MemoryBIO(), ssl.MemoryBIO()
                o = ssl_ctx().wrap_bio(inc, out)
                try:
                    o.do_handshake()
                except ssl.SSLWantReadError:
                    pass
                hello = out.read()
                s.sendall(hello[:r.randrange(1, len(hello))] if k == 'tls-cut' else hello)
            if r.random() < 0.5:
                s.shutdown(socket.SHUT_WR)
                read_all(s, Result())
        except OSError:
            pass
        finally:
            s.close()


def capacity(ctx, srv, m, per, path=b'/api/h'):
    """An idle server has to admit exactly m connections at once, per of them from one address."""
    need = []
    i = 0
    while len(need) < m:
        need += [SRCS[i % len(SRCS)]] * min(per, m - len(need))
        i += 1
    hs = []
    for src in need:
        h = Held(srv, path, src)
        hs.append(h)
        if h.settle() != 'in':
            raise Violation('capacity-lost', 'an idle server that admits %d connections at once (%d per address) refused number %d: %r' % (m, per, len(hs), short(h.response)))
    if per < m or m < 200:
        h = Held(srv, path, need[0] if per < m else SRCS[-1])
        if h.settle() != 'refused' or not is_429(h.response):
            raise Violation('limit', 'a server limited to %d connections (%d per address) admitted one more: %s' % (m, per, short(getattr(h, 'response', b'') or b'')))
    for h in hs:
        h.end(ctx.rng.choice(('release', 'release', 'rst')))
    srv.idle()
    # one more at once, from the address that had most
    d = srv.request(b'GET /api/d HTTP/1.1\r\n\r\n', src=need[0]).data
    if parse_response(d)[0] != 200:
        raise Violation('capacity-lost', 'an idle server refused a connection: %r' % short(d))
    srv.idle()


def run(ctx):
    ctx.rule = ('histories of connections that end in every way there is (answered, refused by limit, list, filter or table, malformed, cut or reset at random points, failed '
                'handshakes, aborted while served), then the full capacity is claimed at once; non-trivial: distinct (history, rules)')
    r = ctx.rng
    mult = 1 if ctx.quick else 20

    def history(srv, ks, n, threads):
        parallel(lambda k: ks.one(k), [r.choice(ks.names) for _ in range(n)], threads)
        srv.idle()
        srv.check()

    # small limits: every kind by itself, and mixed
    for rnd in range(2 * mult):
        for tls in (False, True) if rnd == 0 else (False,):
            m = r.choice((1, 2, 3, 5))
            per = r.choice((1, 2, m))
            per = min(per, m)
            rules = b'/, %d, %d\n/api/h, %d, %d\n' % (m, per, m, per)
            srv = Server(ctx, routes=ROUTES, www=WWW, limits=rules, tls=tls, cov=True)
            ks = Kinds(ctx, srv, r, True)
            capacity(ctx, srv, m, per)
            for k in ks.names:
                # one address at a time, so that a share lost to an address shows
                for j in range(per + 1):
                    ks.one(k, SRCS[0])
                srv.idle()
                srv.check()
                capacity(ctx, srv, m, per)
                ctx.case((k, rules, tls), {'history': '%d connections: %s' % (per + 1, k), 'rules': rules.decode(), 'tls': tls, 'claimed': m})
                ctx.count('capacity_claims')
            for j in range(6 if not tls else 2):
                history(srv, ks, r.choice((20, 60, 150)), r.choice((1, 8, 30)))
                capacity(ctx, srv, m, per)
                ctx.case((rnd, j, rules, tls))
                ctx.count('capacity_claims')
            srv.stop()
    # refusals while connections are active, departures while being refused
    for rnd in range(6 * mult):
        m = r.choice((1, 2, 4, 8))
        per = r.choice((1, m, m))
        srv = Server(ctx, routes=ROUTES, www=WWW, limits=b'/api, %d, %d\n' % (m, per), chaos=r.choice((0, 40)), cov=True)
        srv.fault(close_delay=r.choice((0, 2000)))
        ks = Kinds(ctx, srv, r, True)
        for j in range(4):
            def work(i):
                q = random.Random('%s/%d/%d/%d' % (ctx.seed, rnd, j, i))
                for _ in range(8):
                    if q.random() < 0.5:
                        h = Held(srv, b'/api/h', q.choice(SRCS[:4]))
                        if q.random() < 0.3:
                            # leaves at once
                            h.state = 'in'
                            h.end(q.choice(('rst', 'close')))
                        elif h.settle() == 'in':
                            h.end(q.choice(('release', 'rst', 'close')))
                    else:
                        ks.one(q.choice(ks.names), q.choice(SRCS[:4]))
            parallel(work, range(10), 10)
            srv.ctl('releaseall 1')
            srv.idle()
            srv.ctl('releaseall 0')
            srv.check()
            capacity(ctx, srv, m, min(per, m))
            ctx.case((rnd, j, 'busy'), {'history': 'admissions, refusals and aborts at once', 'claimed': m})
            ctx.count('capacity_claims')
        srv.stop()
    # deny list
    srv = Server(ctx, routes=ROUTES, www=WWW, limits=b'/, 2, 1\n', deny='127.0.0.9\n', cov=True)
    for j in range(5):
        for i in range(30):
            srv.request(b'GET / HTTP/1.1\r\n\r\n', src='127.0.0.9')
        srv.idle()
        capacity(ctx, srv, 2, 1)
        ctx.case(('denied', j))
    srv.stop()
    # the connection table: more of each kind than it has places
    srv = Server(ctx, routes=ROUTES, www=WWW, cov=True, level=4, limits=b'/limited, 0, 0\n/tight, 1, 1\n')
    start = [e for e in srv.events if e['kind'] == 'START'][0]
    table, workers = int(start['queue']), int(start['workers'])
    srv.ctl('quiet 1')
    ks = Kinds(ctx, srv, r, False)
    n = table - workers + 30
    for k in ks.names + ['rst-held', 'refused-burst']:
        if k == 'wild':
            continue
        if k == 'rst-held':
            srv.ctl('releaseall 1')

            def work(i):
                Held(srv, b'/api/h', SRCS[i % 9]).s.close()
        elif k == 'refused-burst':
            def work(i):
                if i % 4 == 0:
                    srv.request(b'GET /tight HTTP/1.1\r\n\r\n', src=SRCS[i % 9])
                srv.request((b'GET /limited', b'POST /limited/x?y')[i % 2] + b' HTTP/1.1\r\n\r\n', src=SRCS[i % 9], half=True)
        else:
            def work(i):
                ks.one(k)
        parallel(work, range(n), 16)
        srv.idle()
        srv.check()
        ctx.count('connections_' + k, n)
        d = srv.request(b'GET /api/d HTTP/1.1\r\n\r\n').data
        if parse_response(d)[0] != 200:
            raise Violation('table', 'after %d connections of kind %s a request is answered %r' % (n, k, short(d)))
        ctx.case(('table', k))
    srv.ctl('releaseall 0')
    srv.ctl('quiet 0')
    capacity(ctx, srv, workers, workers)
    ctx.case(('table', 'all'), {'history': '%d connections of each of %d kinds' % (n, len(ks.names)), 'claimed': workers})
    srv.stop()
