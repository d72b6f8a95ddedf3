"""C02: concurrently served requests are free of data races (ThreadSanitizer on every access of the code under test)."""
from vlib import *
from hold import Held
import c12, gen, hostile, mp

ROUTES = c12.ROUTES + [('logs', '-', 'GET:/l'), ('logs', '-', 'POST:/l'), ('helper', '-', 'POST:/x'), ('dump', 'slowq', 'POST:/sf'), ('sleep', '-', 'GET:/s')]
WWW = dict(c12.WWW, **{'d/index.html': b'folder', 'favicon.ico': b'ICO', 'big.bin': bytes(1 << 20)})


def interleavings(ctx, srv):
    """Distinct short sequences of steps of different threads, as they were observed."""
    steps = [(e['kind'], e.get('idx'), e['tid']) for e in srv.poll() if e['kind'] in ('H', 'F', 'V', 'EXIT', 'LEN', 'TAKE', 'DONE')]
    n = 0
    for i in range(len(steps) - 3):
        w = steps[i:i + 4]
        ids = {}
        k = tuple((a, b, ids.setdefault(t, len(ids))) for a, b, t in w)
        if len(ids) > 1:
            ctx.case(('order', k), n=0)
            n += 1
    ctx.count('interleaved_windows', n)


def run(ctx):
    ctx.rule = ('mixes of all kinds of requests from many clients at once, at every log level, plain and TLS, with random delays in the server; every memory access of the '
                'server is watched by ThreadSanitizer; evaluations: requests; non-trivial: distinct sequences of four steps of at least two threads that were observed')
    r = ctx.rng
    mult = 2 if ctx.quick else 20
    # (log level, TLS, limits, log file)
    plans = [(0, False, None, True), (0, True, None, True), (1, False, b'/api, 6, 3\n/, 14, 5\n', True), (2, False, b'/, 10, 4\n', False), (4, False, b'/api/h, 2, 1\n', True), (3, True, b'/api, 5, 2, 1\n', False),
             (0, False, b'/api, 3, 2\n', False)]
    for rnd in range(mult):
        for level, tls, limits, logfile in plans:
            srv = Server(ctx, flavour='tsan', routes=ROUTES, www=WWW, level=level, tls=tls, limits=limits, logfile=logfile, deny='127.0.0.33\n', chaos=r.choice((0, 20, 60)), cov=True)
            if r.random() < 0.5:
                srv.fault(close_delay=300)
            ks = c12.Kinds(ctx, srv, r, bool(limits))
            srv.ctl('releaseall 1')
            seeds = [r.random() for _ in range(16)]

            def work(i):
                q = random.Random(seeds[i])
                for j in range(14 if not tls else 8):
                    k = q.random()
                    src = q.choice(c12.SRCS[:6])
                    try:
                        if k < 0.35:
                            ks.one(q.choice(ks.names), src)
                            what = 'kinds'
                        elif k < 0.5:
                            # uploads of the same and of different content at the same time
                            b, ps, body = mp.form(q, big=1500)
                            srv.request(b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=' + b + b'\r\nContent-Length: %d\r\n\r\n' % len(body) + body, src=src)
                            what = 'upload'
                        elif k < 0.6:
                            srv.request(b'GET /api/l?' + gen.text(q, 30, gen.TOKEN + b'&=') + b' HTTP/1.1\r\nX-Id: %d\r\nCookie: WSSESSION=s%d\r\n\r\n' % (j, j), src=src)
                            what = 'logs'
                        elif k < 0.68:
                            op = q.choice((b'ok', b'json', b'jsonst&st=500', b'text&st=400', b'stream&st=200', b'list&st=20', b'err&st=403', b'mime&st=200'))
                            srv.request(b'POST /api/x?op=' + op + b' HTTP/1.1\r\nContent-Length: 30\r\n\r\n' + b'x' * 30, src=src)
                            what = 'helper'
                        elif k < 0.76:
                            srv.request(b'POST /api/sf?us=%d&v=%d HTTP/1.1\r\nContent-Length: 2\r\n\r\nab' % (q.choice((0, 100, 2000)), q.choice((0, 1))), src=src)
                            what = 'filter'
                        elif k < 0.86:
                            srv.request(b'GET /' + q.choice((b'', b'a.bin', b'big.bin', b'd/', b'favicon.ico', b'none', b'../x')) + b' HTTP/1.1\r\nAuthorization: t%d\r\nX-Real-IP: 1.2.3.%d\r\n\r\n' % (i, j), src=src)
                            what = 'static'
                        elif k < 0.9:
                            try:
                                srv.request(b'GET / HTTP/1.1\r\n\r\n', src='127.0.0.33')
                            except OSError:
                                pass
                            what = 'denied'
                        else:
                            h = Held(srv, b'/api/h', src)
                            if h.settle() == 'in':
                                h.end(q.choice(('release', 'rst', 'close')))
                            what = 'held'
                    except (ConnectionResetError, BrokenPipeError, ssl.SSLError):
                        what = 'reset'
                    ctx.case(None)
                    ctx.count('requests_' + what)
            parallel(work, range(16), 16)
            srv.idle()
            interleavings(ctx, srv)
            ctx.samples.append({'level': level, 'tls': tls, 'limits': (limits or b'').decode(), 'clients': 16}) if len(ctx.samples) < 5 else None
            srv.stop('level %d tls %d limits %s' % (level, tls, limits))
    # the same kind of request many times at once, so that what all of them share is used at the same moment
    ops = [op + st for op in (b'ok', b'created', b'not_found', b'bad_request', b'forbidden', b'not_auth', b'too_many', b'ise', b'json', b'cjson') for st in (b'',)] + \
          [b'%s&st=%d' % (op, st) for op in (b'jsonst', b'text', b'stream', b'err', b'mime') for st in (200, 400, 403, 500)] + [b'list&st=%d' % n for n in (0, 5, 40)]
    mb, mps, mbody = mp.form(random.Random(5), big=500)
    same = [b'POST /api/x?op=' + op + b' HTTP/1.1\r\nX-Session: s\r\nReferer: r\r\nContent-Length: 30\r\n\r\n' + b'x' * 30 for op in ops] + \
           [b'GET /' + p + b' HTTP/1.1\r\nCookie: WSSESSION=s\r\nUser-Agent: u\r\n\r\n' for p in (b'', b'index.html', b'a.bin', b'd/', b'favicon.ico', b'none', b'../x', b'api/none', b'api/p/1', b'api/f?v=0', b'api/f?v=1', b'api/l?m')] + \
           [b'HEAD / HTTP/1.1\r\n\r\n', b'GET / HTTP/1.1\r\nX-Real-IP: 1.2.3.4\r\n\r\n', b'GET /api/d?' + b'x' * 900 + b' HTTP/1.1\r\n\r\n', b'\r\n', b'PUT /api/d HTTP/1.1\r\n\r\n',
            b'GET /api/d HTTP/1.1\r\n' + b''.join(b'H%d: v\r\n' % i for i in range(25)) + b'\r\n',
            b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=' + mb + b'\r\nContent-Length: %d\r\n\r\n' % len(mbody) + mbody]
    for level, tls in ((4, False), (0, False), (4, True)) if ctx.quick else ((4, False), (0, False), (2, False), (4, True), (0, True)):
        srv = Server(ctx, flavour='tsan', routes=ROUTES, www=WWW, level=level, tls=tls, chaos=r.choice((0, 30)), cov=True)
        for d in (same if not tls else r.sample(same, 20)):
            if len(d) > 3 or not tls:
                parallel(lambda _: srv.request(d, half=len(d) < 4), range(24 if not tls else 8), 12)
                ctx.case(None, n=24 if not tls else 8)
                ctx.count('requests_alike', 24 if not tls else 8)
        srv.idle()
        interleavings(ctx, srv)
        srv.stop('alike, level %d tls %d' % (level, tls))
    # the waiting queue, with an own connection handler
    for rnd in range(2 * mult):
        srv = Server(ctx, flavour='tsan', raw=True, level=r.choice((0, 4)), chaos=r.choice((0, 40)), cov=True)

        def raw(i):
            for _ in range(25):
                s = connect(srv.port, srv.addr)
                read_all(s, Result())
                s.close()
                ctx.case(None)
        parallel(raw, range(12), 12)
        srv.idle()
        interleavings(ctx, srv)
        srv.stop('raw')
