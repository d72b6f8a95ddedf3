"""C36: the times in the logs are those at which things happened, and took."""
import calendar, threading
from vlib import *
import gen

LINE = re.compile(rb'^(\S+) - - \[(\d\d/[A-Z][a-z][a-z]/\d{4}:\d\d:\d\d:\d\d) ([+-]\d{4})\] "(.*?)" (\d+) (\d+) ".*" (\S+)$', re.S)
APP = re.compile(rb'^(\d\d-\d\d-\d\d \d\d:\d\d:\d\d) \d+ (?:TRACE|DEBUG|INFO|WARN|ERROR) ')
MON = [b'Jan', b'Feb', b'Mar', b'Apr', b'May', b'Jun', b'Jul', b'Aug', b'Sep', b'Oct', b'Nov', b'Dec']
BIG = bytes(range(256)) * (24 << 12)
WWW = {'index.html': b'INDEX', 'big.bin': BIG, 'a.txt': b'text'}
ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('sleep', '-', 'GET:/s'), ('sleep', '-', 'POST:/s'), ('dump', 'slowq', 'GET:/f'), ('err', '-', 'GET:/e'), ('hold', '-', 'GET:/hold')]
SLACK = 0.004
SLEEPS = ('handler', 'answers', 'filter', 'refused')


def stamp(b):
    """The seconds of an access line's time."""
    d, m, y, h, mi, s = b[:2], b[3:6], b[7:11], b[12:14], b[15:17], b[18:20]
    return calendar.timegm((int(y), MON.index(m) + 1, int(d), int(h), int(mi), int(s), 0, 0, 0))


def app_stamp(b, century):
    return calendar.timegm((century + int(b[6:8]), int(b[3:5]), int(b[:2]), int(b[9:11]), int(b[12:14]), int(b[15:17]), 0, 0, 0))


class Obs:
    pass


def exchange(srv, r, n, kind, q, speed=1):
    """One request whose parts take the given times (of the client)."""
    o = Obs()
    o.kind, o.low = kind, 0.0
    o.url = b'/none'
    u = b'u=%d' % n
    o.t0, o.w0 = time.monotonic(), time.time()
    s = connect(srv.port)
    o.port = s.getsockname()[1]
    try:
        if kind == 'tcp-wait':
            time.sleep(q)
        if srv.tls:
            s = ssl_ctx().wrap_socket(s, suppress_ragged_eofs=True)
        if kind == 'line-wait':
            time.sleep(q)
        o.line = {'handler': b'GET /api/s?ms=%d&' % (q * 1000 * speed), 'filter': b'GET /api/f?us=%d&v=1&' % (q * 1e6 * speed), 'refused': b'GET /api/f?us=%d&v=0&' % (q * 1e6 * speed),
                  'reader': b'GET /big.bin?', 'static': b'GET /a.txt?', 'missing': b'GET /api/none?', 'bad': b'BREW /a?', 'error': b'GET /api/e?', 'body': b'POST /api/d?', 'head': b'GET /api/d?',
                  'empty': b'POST /api/d?'}.get(kind, b'GET /api/d?') + u + b' HTTP/1.1'
        d = o.line + b'\r\n'
        if kind == 'answers':
            op = r.choice((b'ok', b'created', b'not_found', b'bad_request', b'forbidden', b'not_auth', b'too_many', b'ise', b'json', b'jsonst&st=%d', b'cjson', b'text&st=%d', b'stream&st=%d', b'list&st=5', b'err&st=%d', b'mime&st=%d'))
            o.line = b'POST /api/s?ms=%d&op=' % (q * 1000 * speed) + (op % r.choice((200, 201, 400, 401, 403, 404, 429, 500)) if b'%' in op else op) + b'&' + u + b' HTTP/1.1'
            s.sendall(o.line + b'\r\nContent-Length: 4\r\n\r\n"ab"')
        elif kind == 'body':
            s.sendall(d + b'Content-Length: 12\r\n\r\n12')
            a = time.monotonic()
            for i in range(5):
                time.sleep(q / 5)
                o.low = time.monotonic() - a
                s.sendall(b'xy')
        elif kind == 'head':
            s.sendall(d)
            a = time.monotonic()
            for i in range(4):
                time.sleep(q / 4)
                o.low = time.monotonic() - a
                s.sendall(b'A%d: b\r\n' % i if i < 3 else b'\r\n')
        else:
            s.sendall(d + b'\r\n')
        a = time.monotonic()
        if kind == 'reader':
            s.recv(1000)
            time.sleep(q)
            o.low = time.monotonic() - a
        s.settimeout(TIMEOUT)
        try:
            while s.recv(1 << 20):
                pass
        except ConnectionError:
            pass
        except ssl.SSLError:
            pass
        except socket.timeout:
            raise Hang('no end of the connection')
    finally:
        s.close()
    o.t1, o.w1 = time.monotonic(), time.time()
    if kind in SLEEPS:
        o.low = q
    return o


def lines(srv):
    out = {}
    for l in srv.access().split(b'\n')[:-1]:
        m = LINE.match(l)
        if not m:
            raise Violation('line', 'the access line %r does not end in a duration, or has no time' % short(l))
        out.setdefault(m.group(4), []).append((m, l))
    return out


def judge(srv, jobs, ctx, speed=1, step=lambda t: 0, what='', but=0):
    """Returns the jobs whose duration is shorter than what was seen from outside: to be seen again."""
    srv.idle(but=but)
    srv.check()
    ls = lines(srv)
    again = []
    for o in jobs:
        e = ls.get(o.line)
        if not e:
            raise Violation('missing', 'the access log has no line for the request %r' % o.line)
        m, l = e[0]
        try:
            d = float(m.group(7))
            if not re.fullmatch(rb'\d+\.\d{3}', m.group(7)):
                raise ValueError
        except ValueError:
            raise Violation('format', 'the duration of %r is no number of seconds' % short(l))
        high = (o.t1 - o.t0) * speed + SLACK
        if d > high:
            raise Violation('too-long', 'a request (%s%s) whose connection lived for %.3f s took %.3f s by the access log: %r' % (o.kind, what, high, d, short(l)), line=short(l))
        if m.group(3) != b'+0000':
            raise Violation('zone', 'the access line %r does not give UTC' % short(l))
        if speed == 1:
            t = stamp(m.group(2))
            a, b = o.w0 + step(o), o.w1 + step(o)
            if not int(a - 0.05) <= t <= b:  # (time() may lag by a tick)
                raise Violation('stamp', 'a request made between %r and %r (seconds since 1970) is dated %r, %+d s off: %r' % (a, b, m.group(2).decode(), t - a, short(l)), line=short(l))
        ctx.case((o.kind, what, round(o.low, 2), m.group(5)), {'kind': o.kind, 'seconds': d, 'at least': round(o.low * speed, 3), 'at most': round(high, 3)} if ctx.evals % 40 == 0 else None)
        if d < o.low * speed * (0.999 if o.kind in SLEEPS else 0.7) - SLACK:
            if o.kind in SLEEPS:
                # (the handler's own time: no other cause)
                raise Violation('too-short', 'a request (%s%s) whose filter or handler took %.3f s took %.3f s by the access log: %r' % (o.kind, what, o.low * speed, d, short(l)), line=short(l))
            again.append((o, d, l))
    return again


def batch(ctx, srv, r, spec, speed=1, step=lambda o: 0, what='', width=8):
    n = [getattr(srv, 'seq', 0)]

    def one(k):
        n[0] += 1
        return exchange(srv, r, n[0] * 1000 + k[2], k[0], k[1], speed)

    todo = [(k, q, i) for i, (k, q) in enumerate(spec)]
    for attempt in range(4):
        jobs = []
        parallel(lambda k: jobs.append(one(k)), todo, width)
        srv.seq = n[0]
        again = judge(srv, jobs, ctx, speed, step, what)
        if not again:
            return
        # (the server may have got to the connection late)
        todo = [(o.kind, o.low, i) for i, (o, d, l) in enumerate(again)]
    o, d, l = again[0]
    raise Violation('too-short', 'a request (%s%s) that was being read, handled or answered for %.3f s took %.3f s by the access log: %r' % (o.kind, what, o.low * speed, d, short(l)), line=short(l))


WAITS = ('handler', 'answers', 'filter', 'refused', 'body', 'head', 'reader', 'tcp-wait', 'line-wait')
QUICK = ('static', 'missing', 'bad', 'error', 'empty')


def durations(ctx, r):
    for tls in (False, True):
        srv = Server(ctx, routes=ROUTES, www=WWW, tls=tls, cov=True)
        spec = [(k, q) for k in WAITS for q in ((0.05, 0.3, r.uniform(0.9, 1.4)) if ctx.quick else (0.01, 0.1, 0.5, 0.99, 1.01, r.uniform(2, 6)))]
        spec += [(k, 0) for k in QUICK * 6] + [('answers', 0.06) for _ in range(60 if ctx.quick else 300)]
        r.shuffle(spec)
        batch(ctx, srv, r, spec, what=', TLS' if tls else '')
        srv.stop()


def long_ones(ctx, r):
    """Hours, days and months: the clock of the server runs fast, and its waits are short."""
    for speed in (3600, 100000, 2000000):
        srv = Server(ctx, flavour='pat', routes=ROUTES, www=WWW, env={'VSHIM_SPEED': str(speed)})
        spec = [(k, q) for k in ('handler', 'body', 'head', 'reader', 'tcp-wait') for q in (0.2, 1, r.uniform(2, 2.9))] + [(k, 0) for k in QUICK]
        if speed * 2.9 > 2 ** 31:
            spec = [s for s in spec if s[0] != 'handler']
        r.shuffle(spec)
        batch(ctx, srv, r, spec, speed, what=', %g hours' % (speed * 3 / 3600), width=16)
        srv.stop()


DATES = [(1999, 12, 31, 23, 59, 58), (2000, 2, 29, 12, 0, 0), (2001, 9, 9, 1, 46, 39), (2024, 2, 28, 23, 59, 59), (2024, 2, 29, 0, 0, 1), (2027, 12, 31, 23, 59, 59), (2028, 12, 30, 5, 4, 3), (2030, 1, 1, 0, 0, 0), (2038, 1, 19, 3, 14, 6),
         (2040, 3, 31, 1, 59, 59), (2050, 10, 10, 10, 10, 10), (2099, 7, 8, 9, 9, 9), (1975, 5, 6, 7, 8, 9)]
ZONES = ['America/New_York', 'Asia/Kolkata', 'XXX-14', 'YYY+11:30', 'EST5EDT,M3.2.0,M11.1.0', 'Europe/Dublin', 'right/UTC', '']


def dates(ctx, r):
    """Any date, whatever the time zone of the system."""
    for z in r.sample(ZONES, 3 if ctx.quick else len(ZONES)):
        srv = Server(ctx, flavour=r.choice(('pat', 'asan')), routes=ROUTES, www=WWW, level=0, env={'TZ': z})
        # one worker serves all: what it remembers of the last time would show
        idle = [connect(srv.port) for _ in range(int(srv.find(lambda e: e['kind'] == 'START')[0]['workers']) - 1)] if r.random() < 0.7 else []
        k = 0
        seen = []
        for y in r.sample(DATES, 7 if ctx.quick else len(DATES)) + [None] * (60 if ctx.quick else 300):
            at = calendar.timegm(y + (0, 0, 0)) if y else r.randrange(1 << 26, 4102444800) if r.random() < 0.4 or not seen else \
                max(1 << 26, min(4102444000, r.choice(seen) + r.choice((-1, 1)) * r.choice((1, 59, 60, 3599, 3600, 86399, 86400, 31 * 86400, 365 * 86400))))
            seen.append(at)
            st = at - int(time.time())
            st = st + r.random() if st > 0 else st - r.random()
            st = int(st * 1000)
            srv.ctl('fault clock_step=%d' % st)
            jobs = []
            for kind in r.sample(('static', 'missing', 'error', 'empty', 'bad', 'handler'), 3 if y else 1):
                k += 1
                jobs.append(exchange(srv, r, 5000000 + k, kind, 0.02))
            off = len(srv.log_text())
            bad = judge(srv, jobs, ctx, step=lambda o: st / 1000, what=', %s, zone %s' % (y, z), but=len(idle))
            if bad:
                raise Violation('too-short', 'a handler of 20 ms took %.3f s by the access log: %r' % bad[0][1:])
            # the records of the last requests
            recs = [APP.match(l) for l in open(srv.dir + '/log/app.log', 'rb').read().split(b'\n')]
            recs = [app_stamp(m.group(1), 1900 if time.gmtime(at).tm_year < 2000 else 2000) for m in recs if m]
            if not recs:
                raise HarnessError('no application log records')
            if not int(jobs[0].w0 + st / 1000 - 0.05) <= recs[-1] <= time.time() + st / 1000:
                raise Violation('app-stamp', 'a log record written between %r and %r (seconds since 1970) is dated %+d s off' % (jobs[-1].w0 + st / 1000, time.time() + st / 1000, recs[-1] - jobs[-1].w0 - st / 1000))
            ctx.count('log_records', len(recs))
        for s in idle:
            s.close()
        srv.fault(clock_step=0)
        srv.idle()
        srv.check()
        srv.stop()


def steps(ctx, r):
    """The clock of the system is set while a request is being served."""
    srv = Server(ctx, routes=ROUTES, www=WWW, cov=True)
    n = 0
    for st in [-10, -1000, -3600000, -86400000 * 400, 5000, 86400000 * 300] + [r.choice((-1, 1)) * int(10 ** r.uniform(1, 10)) for _ in range(10 if ctx.quick else 80)]:
        base = int(r.uniform(-1e9, 1e9))
        srv.ctl('fault clock_step=%d' % base)
        rs = []
        jobs = []
        t0 = time.monotonic()
        for i in range(3):
            n += 1
            p0 = len(srv.poll())
            th = threading.Thread(target=lambda n=n: rs.append(srv.request(b'GET /api/hold?id=s%d HTTP/1.1\r\n\r\n' % n)))
            th.start()
            jobs.append((n, th))
        for k, th in jobs:
            srv.wait_event(lambda e: e['kind'] == 'H' and e['url'].endswith(b'id=s%d' % k))
        t1 = time.monotonic()
        time.sleep(r.choice((0, 0.02, 0.1)))
        t2 = time.monotonic()
        srv.ctl('fault clock_step=%d' % (base + st))
        for k, th in jobs:
            srv.ctl('release s%d' % k)
        for k, th in jobs:
            th.join()
        t3 = time.monotonic()
        srv.idle()
        srv.check()
        ls = lines(srv)
        for k, th in jobs:
            m, l = ls[b'GET /api/hold?id=s%d HTTP/1.1' % k][0]
            if not re.fullmatch(rb'\d+\.\d{3}', m.group(7)):
                raise Violation('format', 'the duration of %r is no number of seconds, after the clock was set by %d ms while the request was served' % (short(l), st))
            d = float(m.group(7))
            high = t3 - t0 + max(st, 0) / 1000 + SLACK
            if d > high:
                raise Violation('stepped', 'the clock was set by %d ms while a request was served, which lived for %.3f s; it took %.3f s by the access log: %r' % (st, t3 - t0, d, short(l)), step=st)
            ctx.case(('step', st, k), {'step ms': st, 'seconds': d} if k % 11 == 0 else None)
            ctx.count('stepped')
    srv.fault(clock_step=0)
    srv.stop()


def run(ctx):
    ctx.rule = ('requests whose connecting, header, body, filter, handler or reading takes a chosen time (milliseconds to months, the clock of the server running fast), at chosen dates and in chosen time zones, and while the clock is set; '
                'each duration and time stamp in the logs must fit what was measured outside; non-trivial: distinct (kind, configuration, time, status)')
    ctx.assumptions.append('a forward step of the clock may count into the duration of the requests being served')
    durations(ctx, r := ctx.rng)
    dates(ctx, r)
    long_ones(ctx, r)
    steps(ctx, r)
