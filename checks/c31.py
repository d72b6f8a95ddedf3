"""C31: a connection under a rule with a maximum duration lives that long and no longer."""
import threading
from vlib import *
import gen

KINDS = ('handler', 'headers', 'line', 'body', 'reader', 'static', 'silent')


SPEED = 60


def patient(ctx, r, tls):
    """Rules of minutes and hours: the clock of the server runs 60 times as fast as the clients'."""
    rules = [(b'/api/a', 3600), (b'/api/b', 900), (b'/api/c', None), (b'/big', 3600), (b'/big2', None), (b'/api/d', 86400)]
    lim = b''.join(b'%s, 500, 500%s\n' % (p, b', %d' % t if t else b'') for p, t in rules)
    routes = [('dump', '-', m + ':/' + x) for m in ('GET', 'POST') for x in 'abcd'] + [('dump', '-', 'GET:/free'), ('dump', '-', 'POST:/free')] + [('sleep', '-', 'GET:/' + x + 's') for x in 'abcd']
    big = bytes(range(256)) * (12 << 12)
    srv = Server(ctx, routes=routes, limits=lim, tls=tls, www={'index.html': b'I', 'big.bin': big, 'big2.bin': big}, env={'VSHIM_SPEED': str(SPEED)}, cov=True)
    jobs = []
    longest = 6.5 if ctx.quick else 21
    for p, T in rules + [(b'/api/free', None)]:
        if p.startswith(b'/big'):
            ks = ('reader', 'late-reader', 'silent-headers')
        else:
            ks = ('connect', 'silent-line', 'silent-headers', 'silent-body', 'drip-headers', 'drip-body', 'handler')
        for k in ks:
            for d in (r.uniform(0.4, 2), r.uniform(2, 4), longest):
                # what the server sees has to stay well below the rule
                if k == 'handler' and p == b'/api/free' or (T and (d + 4) * SPEED > T):
                    continue
                jobs.append((p, T, k, d))

    def one(j):
        p, T, k, d = j
        path = p + (b'.bin' if p.startswith(b'/big') else b's?ms=%d' % (d * 1000 * SPEED) if k == 'handler' else b'?q')
        head = (b'POST ' if 'body' in k else b'GET ') + path + b' HTTP/1.1\r\n'
        t0 = time.monotonic()
        raw = connect(srv.port)
        res = Result()
        s = raw
        try:
            if k == 'connect':
                time.sleep(d)
            if tls:
                s = ssl_ctx().wrap_socket(raw, suppress_ragged_eofs=True)
            if k == 'silent-line':
                s.sendall(head[:9])
                time.sleep(d)
                s.sendall(head[9:] + b'\r\n')
            elif k == 'silent-headers':
                s.sendall(head + b'A: b\r\nC')
                time.sleep(d)
                s.sendall(b': d\r\n\r\n')
            elif k == 'silent-body':
                s.sendall(head + b'Content-Length: 20\r\n\r\n0123456789')
                time.sleep(d)
                s.sendall(b'9876543210')
            elif k == 'drip-headers':
                s.sendall(head)
                for i in range(12):
                    time.sleep(d / 12)
                    s.sendall(b'X-H%d: v\r\n' % i)
                s.sendall(b'\r\n')
            elif k == 'drip-body':
                s.sendall(head + b'Content-Length: 20\r\n\r\n')
                for i in range(20):
                    time.sleep(d / 20)
                    s.sendall(b'z')
            else:
                s.sendall(head + b'\r\n')
            if k == 'late-reader':
                time.sleep(d)
            elif k == 'reader':
                for i in range(10):
                    time.sleep(d / 10)
                    res.data += s.recv(100000)
            read_all(s, res)
        except (OSError, ssl.SSLError) as e:
            if isinstance(e, socket.timeout):
                raise
            res.err = res.err or str(e)
        finally:
            s.close()
        lived = time.monotonic() - t0
        try:
            st, hs, body = parse_response(res.data)
            whole = st == 200 and (body == big if p.startswith(b'/big') else True)
        except BadResponse:
            st, whole = None, False
        if not whole and (T is None or lived * SPEED < T):
            srv.check()
            raise Violation('early', 'a connection to %r (%s) is dropped after %d s of the server%s (status %s, %d bytes)' %
                            (path, k, lived * SPEED, ', its rule allows %d s' % T if T else ', no rule limits it', st, len(res.data)), kind=k, path=path.decode(), err=res.err)
        ctx.case(('fast', tls, p, k, round(d, 1)), {'path': p.decode(), 'kind': k, 'rule': T, 'lived (server time)': round(lived * SPEED), 'complete': whole})
        ctx.count('connections_timed_fast')
    parallel(one, jobs, len(jobs))
    srv.idle()
    srv.stop()


def run(ctx):
    ctx.rule = ('connections under rules with durations of 1 to 30 seconds or none, kept active by a slow handler, slow request lines, headers or bodies, silence, or a slow reader; each is timed from '
                'the client and must not end early; those that outlive their rule are listed as the known finding; non-trivial: distinct (mode, rule, kind, length)')
    r = ctx.rng
    rounds = 1 if ctx.quick else 6
    for rnd in range(1 if ctx.quick else 3):
        for tls in (False, True):
            patient(ctx, r, tls)
    for rnd in range(rounds):
        for tls in (False, True):
            rules = [(b'/api/a', 1), (b'/api/b', 2), (b'/api/c', 3), (b'/api/d', None), (b'/big', 3), (b'/big2', None), (b'/api/e', 30)]
            lim = b'# path, total, per address, seconds\n' + b''.join(b'%s, 100, 100%s\n' % (p, b', %d' % t if t else b'') for p, t in rules)
            routes = [('sleep', '-', m + ':/' + x) for m in ('GET', 'POST') for x in 'abcde'] + [('sleep', '-', 'GET:/free')]
            big = bytes(range(256)) * (4 << 12)
            srv = Server(ctx, routes=routes, limits=lim, tls=tls, www={'index.html': b'I', 'big.bin': big, 'big2.bin': big}, chaos=0 if rnd == 0 else 8, cov=True)
            jobs = []
            for p, T in rules + [(b'/api/free', None)]:
                for k in KINDS:
                    if (p.startswith(b'/big')) != (k in ('reader', 'static')) or (p == b'/api/free' and k == 'body'):
                        continue
                    for f in ((0.3, 0.75) if ctx.quick else (0.1, 0.5, 0.8, 0.95)):
                        d = min(T, 4) * f if T else r.choice((1.4, 3.4, 2.4))
                        jobs.append((p, T, k, d))
            late = [(b'/api/a', 1, 'handler', 4.5), (b'/api/a', 1, 'headers', 4.5), (b'/api/b', 2, 'body', 5.5), (b'/api/a', 1, 'silent', 4.5)]
            over = []
            errs = []

            def one(j):
                p, T, k, d = j
                path = p + (b'.bin' if p.startswith(b'/big') else b'?ms=%d' % (d * 1000 if k == 'handler' else 0))
                m = b'POST' if k == 'body' else b'GET'
                head = m + b' ' + path + b' HTTP/1.1\r\n'
                t0 = time.monotonic()
                s = connect(srv.port, tls=tls)
                res = Result()
                try:
                    def drip(data, dur):
                        n = max(1, min(len(data), int(dur / 0.1)))
                        for i in range(n):
                            s.sendall(data[len(data) * i // n:len(data) * (i + 1) // n])
                            time.sleep(dur / n)
                    try:
                        if k == 'line':
                            drip(head, d)
                            s.sendall(b'\r\n')
                        elif k == 'headers':
                            s.sendall(head)
                            drip(b''.join(b'X-H%d: v\r\n' % i for i in range(30)), d)
                            s.sendall(b'\r\n')
                        elif k == 'body':
                            s.sendall(head + b'Content-Length: 500\r\n\r\n')
                            drip(b'z' * 500, d)
                        elif k == 'silent':
                            s.sendall(head)
                            time.sleep(d)
                            s.sendall(b'\r\n')
                        else:
                            s.sendall(head + b'\r\n')
                        if k == 'reader':
                            end = t0 + d
                            while time.monotonic() < end and len(res.data) < len(big):
                                x = s.recv(20000)
                                if not x:
                                    break
                                res.data += x
                                time.sleep(0.05)
                    except (OSError, ssl.SSLError) as e:
                        res.err = str(e)
                    read_all(s, res)
                finally:
                    s.close()
                dt = time.monotonic() - t0
                try:
                    st, hs, body = parse_response(res.data)
                    whole = st == 200 and (body == big if p.startswith(b'/big') else b'slept' in body)
                except BadResponse:
                    st, whole = None, False
                lived = dt
                if not whole and (T is None or lived < T):
                    raise Violation('early', 'a connection to %r with a slow %s is dropped after %.2f s%s (status %s)' %
                                    (path, k, lived, ', its rule allows %d s' % T if T else ', no rule limits it', st), kind=k, path=path.decode(), err=res.err)
                if whole and T and (d > T + 2.5):
                    over.append((k, T, round(dt, 1)))
                if not whole and T and d > T + 2.5:
                    ctx.count('dropped_after_duration')
                    if lived > T + 2.5:
                        over.append((k, T, round(dt, 1)))
                ctx.case((tls, p, k, round(d, 2)), {'path': p.decode(), 'kind': k, 'rule': T, 'lived': round(dt, 2), 'complete': whole})
                ctx.count('connections_timed')
            parallel(one, jobs + late, len(jobs) + len(late))
            srv.stop()
            if over:
                ctx.count('outlived', len(over))
                if not ctx.extra.get('known_findings'):
                    finding(ctx, 'duration-not-enforced', 'connections outlive the duration of their limit rule (max_seconds is loaded, but never enforced): ' +
                            ', '.join('slow %s, rule %d s, lived on' % (k, T) for k, T, dt in sorted(over)))
