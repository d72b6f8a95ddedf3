"""C32: slow clients and slow handlers delay nobody else while there are free workers."""
from hold import *
import gen, hostile, mp

ROUTES = [('hold', '-', 'GET:/hold'), ('dump', 'hold', 'GET:/fhold'), ('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', 'byq', 'GET:/f'), ('dump', '-', 'GET:/p/{id}'), ('helper', '-', 'POST:/x'),
          ('sleep', '-', 'GET:/s'), ('logs', '-', 'GET:/l'), ('dump', '-', 'POST:/slow'), ('dump', '-', 'GET:/slow')]
BIG = bytes(range(256)) * (8 << 12)
WWW = {'index.html': b'<html>index</html>', 'a.txt': b'text', 'd/b.bin': bytes(range(256)) * 10, 'big.bin': BIG, 'favicon.ico': b'ICO'}
LIMITS = b'/api/none, 0, 0\n/api/x, 500, 500\n/, 900, 900\n/api, 900, 900\n/api/hold, 900, 900, 3600\n'
PLAIN = ('connect', 'line', 'headers', 'after-headers', 'body', 'form', 'handler', 'filter', 'refusing-filter', 'reader')
SLOW = 2.0


def everything(s):
    out = []
    while True:
        d = s.recv(1 << 20)
        if not d:
            return b''.join(out)
        out.append(d)


class Busy:
    """A connection that occupies a worker in the given way until it is told to go on."""

    def __init__(self, srv, kind):
        self.srv, self.kind = srv, kind
        _n[0] += 1
        self.id = 'o%d' % _n[0]
        self.expect = 200
        self.rest = b''
        tls = srv.tls
        s = socket.socket()
        s.settimeout(TIMEOUT)
        if kind == 'reader':
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        s.connect((srv.addr, srv.port))
        if kind == 'tcp':
            self.s = s
            return
        if kind in ('half-hello', 'one-byte'):
            # the first bytes of a handshake record
            s.sendall(b'\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03'[:1 if kind == 'one-byte' else 11])
            self.s = s
            return
        if tls:
            s = ssl_ctx().wrap_socket(s, suppress_ragged_eofs=True)
        self.s = s
        body = mp.encode(random.Random(1), b'BB', [(True, b'f', b'x.bin', [], b'q' * 5000), (False, b'g', None, [], b'v')])
        q = self.id.encode()
        full, cut = {
            'connect': (b'GET /a.txt HTTP/1.1\r\n\r\n', 0),
            'line': (b'GET /a.txt HTTP/1.1\r\n\r\n', 7),
            'headers': (b'GET /api/slow?i HTTP/1.1\r\nA: b\r\nUser-Agent: x\r\n\r\n', 40),
            'after-headers': (b'POST /api/slow?i HTTP/1.1\r\nContent-Length: 10\r\n\r\n0123456789', 48),
            'body': (b'POST /api/slow?i HTTP/1.1\r\nContent-Length: 10\r\n\r\n0123456789', -5),
            'form': (b'POST /api/slow?i HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: %d\r\n\r\n' % len(body) + body, -900),
            'handler': (b'GET /api/hold?id=' + q + b' HTTP/1.1\r\n\r\n', None),
            'filter': (b'GET /api/fhold?id=' + q + b' HTTP/1.1\r\n\r\n', None),
            'refusing-filter': (b'GET /api/fhold?v=0&id=' + q + b' HTTP/1.1\r\n\r\n', None),
            'reader': (b'GET /big.bin HTTP/1.1\r\n\r\n', None)}[kind]
        if kind == 'refusing-filter':
            self.expect = 403
        if cut is None:
            first = full
        else:
            first, self.rest = full[:cut], full[cut:]
        if first:
            s.sendall(first)

    def end(self, whole=True):
        if self.kind in ('tcp', 'half-hello', 'one-byte') or self.kind == 'reader' and not whole:
            self.s.close()
            return
        if self.kind in ('handler', 'filter', 'refusing-filter'):
            self.srv.ctl('release ' + self.id, wait=False)
        if self.rest:
            self.s.sendall(self.rest)
        r = Result()
        r.data = everything(self.s) if self.kind == 'reader' else read_all(self.s, r).data
        self.s.close()
        st, hs, body = parse_response(r.data)
        if st != self.expect or self.kind == 'reader' and body[:len(BIG)] != BIG:
            raise Violation('slow', 'a slow client (%s) is answered with %r' % (self.kind, short(r.data)))


_n = [0]
BODY = mp.encode(random.Random(2), b'BB', [(True, b'f', b'y.bin', [], b'z' * 700), (False, b'g', None, [], b'v')])
PROBES = {
    'static': (b'GET /a.txt HTTP/1.1\r\n\r\n', 200), 'index': (b'GET / HTTP/1.1\r\nX-Session: s\r\n\r\n', 200), 'binary': (b'GET /d/b.bin HTTP/1.1\r\n\r\n', 200), 'large': (b'GET /big.bin HTTP/1.1\r\n\r\n', 200),
    'missing': (b'GET /nothing HTTP/1.1\r\n\r\n', 404), 'call': (b'GET /api/d?x HTTP/1.1\r\n\r\n', 200), 'param': (b'GET /api/p/v HTTP/1.1\r\n\r\n', 200),
    'body': (b'POST /api/d HTTP/1.1\r\nContent-Length: 5\r\n\r\nabcde', 200), 'json': (b'POST /api/x?op=json HTTP/1.1\r\nContent-Length: 5\r\n\r\nabcde', 200),
    'upload': (b'POST /api/d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: %d\r\n\r\n' % len(BODY) + BODY, 200),
    'accepted': (b'GET /api/f?v=1 HTTP/1.1\r\n\r\n', 200), 'forbidden': (b'GET /api/f?v=0 HTTP/1.1\r\n\r\n', 403), 'unrouted': (b'GET /api/nix HTTP/1.1\r\n\r\n', 400), 'bad': (b'HEAD / HTTP/1.1\r\n\r\n', 400),
    'limited': (b'GET /api/none HTTP/1.1\r\n\r\n', 429), 'logging': (b'GET /api/l?a=b HTTP/1.1\r\n\r\n', 200)}


def probe(ctx, srv, what, names):
    for name in names:
        data = PROBES[name][0]
        want = srv.usual[name]
        best = None
        for i in range(4):
            t = time.monotonic()
            try:
                res = srv.request(data, timeout=TIMEOUT)
            except Hang:
                srv.check()
                raise Hang('a request (%s) is not answered while others %s' % (name, what))
            t = time.monotonic() - t
            try:
                st = parse_response(res.data)[0]
            except BadResponse as e:
                raise Violation('probe', 'a request (%s) is answered with %r while others %s' % (name, short(res.data), what))
            if st != want:
                raise Violation('probe', 'a request (%s) is answered with status %d while others %s' % (name, st, what))
            best = t if best is None else min(best, t)
            if best < SLOW / 4:
                break
        if best > SLOW:
            # (a slow machine is no violation: the case is run again)
            raise Hang('a request (%s) takes %.1f s, again and again, while others %s' % (name, best, what))
        ctx.case((name, what))
        ctx.count('probes')


def full_house(ctx, srv, W, r, extra, what):
    """As many connections as there are workers arrive at once, then some more: all of the first run at the same time, and each end lets one of the others in."""
    start = len(srv.poll())
    hs = [None] * (W + extra)

    def arrive(i):
        hs[i] = Held(srv, b'/api/hold')
    parallel(arrive, range(W), 24)

    def running():
        return {e['url'] for e in srv.find(lambda e: e['kind'] == 'H', start)}
    t = time.monotonic() + TIMEOUT
    while len(running()) < W:
        if time.monotonic() > t:
            srv.check()
            raise Hang('%d connections arrived at once (%s), %d run: the others wait although %d workers are free' % (W, what, len(running()), W - len(running())))
        time.sleep(0.002)
    ctx.case((what, W, extra))
    # (a TLS handshake waits for a worker, too)
    errs = []

    def arrive_later(i):
        try:
            arrive(i)
        except BaseException as e:
            errs.append(e)
    late = [threading.Thread(target=arrive_later, args=(i,), daemon=True) for i in range(W, W + extra)]
    for th in late:
        th.start()
    if srv.tls:
        time.sleep(0.1)
    else:
        for th in late:
            th.join(TIMEOUT)
    inside = [h for h in hs if h and h.url in running()]
    r.shuffle(inside)
    waiting = extra
    for n, h in enumerate(inside[:2 * extra]):
        before = len(running())
        h.state = 'in'
        h.end(r.choice(('release', 'release', 'close', 'rst')))
        if waiting:
            t = time.monotonic() + TIMEOUT
            while len(running()) <= before:
                if time.monotonic() > t:
                    srv.check()
                    raise Hang('a worker is free (%s) and %d connections wait, and none of them is served' % (what, waiting))
                time.sleep(0.001)
            waiting -= 1
        ctx.case((what, 'handover', n, extra))
    ctx.count('handovers', min(extra, len(inside)))
    # all of the others end at once
    for th in late:
        th.join(TIMEOUT)
    if errs:
        raise errs[0]
    left = [h for h in hs if h.state != 'done']
    for h in left:
        srv.ctl('release ' + h.id, wait=False)
    for h in left:
        d = read_all(h.s, Result()).data
        h.s.close()
        if not d.startswith(b'HTTP/1.1 200'):
            srv.check()
            raise Violation('held-response', 'a held request was answered with %r (%s)' % (short(d), what))
    ctx.count('full_houses')


def run(ctx):
    ctx.rule = ('up to one less than all workers are occupied by clients that stop at some point (handshake, request line, headers, body, reading) or by handlers and filters that wait for an event, '
                'and every kind of request must still be answered; as many connections as workers arrive at once and must all run at the same time; '
                'each end lets a waiting one in; non-trivial: distinct (request, occupation)')
    r = ctx.rng
    mult = 1 if ctx.quick else 10
    cfgs = [(False, 4, 0, 'asan'), (False, 0, 15, 'pat'), (True, 2, 0, 'pat')] + ([(True, 0, 15, 'asan'), (False, 5, 0, 'asan')] if not ctx.quick else [])
    for tls, level, chaos, fl in cfgs:
        srv = Server(ctx, flavour=fl, routes=ROUTES, www=WWW, limits=LIMITS, tls=tls, level=level, chaos=chaos, deny='127.0.0.3\n', cov=fl == 'asan')
        W = int(srv.find(lambda e: e['kind'] == 'START')[0]['workers'])
        kinds = PLAIN + (('tcp', 'half-hello', 'one-byte') if tls else ())

        def occupied(sel, what, names):
            occ = []
            lk = threading.Lock()

            def occupy(k):
                b = Busy(srv, k)
                with lk:
                    occ.append(b)
            parallel(occupy, sel, 24)
            n = sum(k in ('handler',) for k in sel)
            if n:
                ids = {b'/api/hold?id=' + b.id.encode() for b in occ if b.kind == 'handler'}
                t = time.monotonic() + TIMEOUT
                while len({e['url'] for e in srv.find(lambda e: e['kind'] == 'H')} & ids) < n:
                    if time.monotonic() > t:
                        srv.check()
                        raise Hang('of %d handlers that wait, some do not run, with %d connections of %d workers (%s)' % (n, len(sel), W, what))
                    time.sleep(0.005)
            time.sleep(0.02)
            probe(ctx, srv, what, names)
            r.shuffle(occ)
            for i, b in enumerate(occ):
                b.end(i < 24)
            ctx.count('occupied', len(sel))
            srv.idle()
            srv.check()
        allp = list(PROBES)
        # what the answers are is not the question here
        srv.usual = {name: parse_response(srv.request(data).data)[0] for name, (data, _) in PROBES.items()}
        for k in kinds:
            what = '%d of %d workers %s' % (W - 1, W, k)
            occupied([k] * (W - 1), what, allp if not ctx.quick or k in ('headers', 'handler', 'reader', 'tcp') else r.sample(allp, 8))
            for n in (1, r.randrange(2, 40)):
                occupied([k] * n, '%d of %d workers %s' % (n, W, k), r.sample(allp, 4 if ctx.quick else 16))
        for i in range(4 * mult):
            n = r.choice((W - 1, W - 1, W - 2, r.randrange(2, W)))
            some = r.sample(kinds, r.choice((2, 3, 5, len(kinds))))
            occupied([r.choice(some) for _ in range(n)], '%d of %d workers %s' % (n, W, '/'.join(sorted(some))), allp)
        # all at once, again and again
        for i in range(6 * mult):
            full_house(ctx, srv, W, r, r.choice((1, 7, 40)) if i else 100, 'round %d' % i)
        # whatever was served before, all workers are still there
        for i in range(2 * mult):
            def bad(d):
                srv.request(d, half=True)
            parallel(bad, [hostile.stream(r)[0] for _ in range(600)], 16)
            for k in range(60):
                try:
                    s = connect(srv.port, src='127.0.0.%d' % r.choice((1, 2, 3)))
                    s.sendall(r.choice((b'', b'\x16\x03', b'GET / HTTP/1.1\r\n', b'GET /big.bin HTTP/1.1\r\n\r\n', b'POST /api/d HTTP/1.1\r\nContent-Length: 9\r\n\r\n123')))
                    r.choice((rst, rst, lambda s: s.close()))(s)
                except OSError:
                    pass
            srv.idle()
            full_house(ctx, srv, W, r, 20, 'after other traffic')
        srv.check()
        srv.stop()
